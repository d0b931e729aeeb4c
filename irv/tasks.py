"""Proof tasks: each verifies real functions of /repo against their contracts and reports the obligations."""
import time
import traceback
import importlib
from collections import OrderedDict


LAST = []       # engines of this task


def summarise(eng, name, t0, covers):
    names = OrderedDict()
    fails = []
    for o in eng.obls:
        c = names.setdefault(o.name, [0, 0])
        c[0] += 1
        c[1] += bool(o.ok)
        if not o.ok and len(fails) < 25 and not any(f['obligation'] == o.name for f in fails):
            fails.append({'obligation': o.name, 'info': str(o.info)[:400], 'context': o.ctx})
    from .engine import short, demangle
    return {'task': name, 'obligations': len(eng.obls), 'discharged': sum(1 for o in eng.obls if o.ok),
            'names': {k: v for k, v in names.items()}, 'failed': fails,
            'functions': sorted({short(f) for f in eng.fns_seen if lib_fn(demangle(f))}),
            'inlined_library': sorted({short(f) for f in eng.fns_seen if not lib_fn(demangle(f))}),
            'contracts': sorted(eng.contract_used), 'queries': eng.solver.queries, 'solver_s': round(eng.solver.time, 2),
            'unknown': eng.solver.unknowns, 'paths': eng.paths,
            'loops': sorted('%s %s' % k for k in eng.loops_seen), 'covers': covers,
            'wall_s': round(time.time() - t0, 2)}


def lib_fn(d):
    import re
    return re.search(r'(^|[ <(])ss::', d.split('(')[0]) is not None and not d.startswith(('std::', 'void std::')) and \
        'drv_' not in d


def merge(results):
    """several engines of one task"""
    r = results[0]
    for x in results[1:]:
        for k in ('obligations', 'discharged', 'queries', 'unknown', 'paths'):
            r[k] += x[k]
        r['solver_s'] = round(r['solver_s'] + x['solver_s'], 2)
        r['wall_s'] = round(r['wall_s'] + x['wall_s'], 2)
        for k, v in x['names'].items():
            c = r['names'].setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        r['failed'] = (r['failed'] + x['failed'])[:40]
        for k in ('functions', 'inlined_library', 'contracts', 'loops'):
            r[k] = sorted(set(r[k]) | set(x[k]))
        for k, v in x['covers'].items():
            r['covers'][k] = r['covers'].get(k, 0) + v
    return r


def run(spec):
    """spec = (module, function, kwargs); never raises"""
    mod, fn, kw, limit = spec
    t0 = time.time()
    name = '%s.%s %s' % (mod, fn, ' '.join('%s=%s' % (k, v) for k, v in sorted(kw.items())))
    try:
        m = importlib.import_module('irv.' + mod)
        from .val import reset
        reset()
        return getattr(m, fn)(name=name, deadline=time.time() + limit, **kw)
    except Exception as e:
        from .mem import Limit
        done = [x for x in LAST if any(not o.ok for o in x.obls)]
        if isinstance(e, Limit) and done:
            # out of time, with obligations which have already failed
            return merge([summarise(x, name, t0, {'cut off': 1}) for x in done])
        # the verifier's own limits; never a verdict
        return {'task': name, 'unsupported': '%s: %s' % (type(e).__name__, str(e)[:600]),
                'trace': traceback.format_exc()[-1500:], 'wall_s': round(time.time() - t0, 2), 'obligations': 0,
                'discharged': 0, 'names': {}, 'failed': [], 'functions': [], 'contracts': [], 'queries': 0,
                'solver_s': 0, 'unknown': 0, 'paths': 0, 'loops': [], 'covers': {}, 'inlined_library': []}


def nothing(s, why, t):
    return {'task': '%s.%s %s' % (s[0], s[1], s[2]), 'unsupported': why,
            'wall_s': round(time.time() - t, 2), 'obligations': 0, 'discharged': 0, 'names': {},
            'failed': [], 'functions': [], 'contracts': [], 'queries': 0, 'solver_s': 0, 'unknown': 0,
            'paths': 0, 'loops': [], 'covers': {}, 'inlined_library': []}


def _child(spec, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    conn.send(run(spec))
    conn.close()


def run_all(specs, jobs=8, enough=None):
    """each task in its own process; after a result which is enough() the others get little time"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    cut = None
    pending = list(enumerate(specs))
    running = {}
    out = [None] * len(specs)
    while pending or running:
        while pending and len(running) < jobs:
            i, s = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(s, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), s)
        done = []
        for i, (p, a, t, s) in running.items():
            if a.poll(0.02):
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = None
                p.join()
                done.append(i)
            elif not p.is_alive():
                done.append(i)
            elif time.time() - t > s[3] + 60:
                p.kill()
                p.join()
                done.append(i)
        for i in done:
            p, a, t, s = running.pop(i)
            a.close()
            if out[i] is None:
                out[i] = nothing(s, 'verifier process ended early', t)
            if cut is None and enough and enough(out[i]):
                cut = time.time()
        if cut and time.time() > cut + 45:
            for i, (p, a, t, s) in running.items():
                p.kill()
                p.join()
                a.close()
                out[i] = nothing(s, 'not finished: other obligations have failed', t)
            for i, s in pending:
                out[i] = nothing(s, 'not started: other obligations have failed', time.time())
            return out
    return out

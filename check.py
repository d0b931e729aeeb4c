#!/usr/bin/env python3
"""check.py <property> : verify /repo's current source against the property's contracts."""
import hashlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3  # noqa: F401,E402
from irv import build, props, tasks, search  # noqa: E402


def log(*a):
    print(*a, flush=True)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    p = props.PROPS[pid]
    if getattr(p, 'single', False):
        build.use_single_header()
    specs = p.tasks(tier)
    select = getattr(p, 'select', None)
    res = tasks.run_all(specs, enough=None if select else lambda r: any(p.match(f['obligation']) for f in r['failed']))
    obls = sum(r['obligations'] for r in res)
    disc = sum(r['discharged'] for r in res)
    unsup = [r for r in res if r.get('unsupported')]
    mine = []       # failed obligations which carry this property
    others = []
    for r, s in zip(res, specs):
        for f in r['failed']:
            (mine if p.match(f['obligation']) else others).append((r, s, f))
    if select:
        everything = mine + others
        mine = select(p, res, specs)
        others = [x for x in everything if not any(x[2] is y[2] for y in mine)]
    vac = []
    for r in res:
        if r.get('unsupported'):
            continue
        if r['obligations'] == 0 or not r['covers']:
            vac.append(r['task'])
    for r in unsup:
        log('note: outside the verifier\'s reach: %s: %s' % (r['task'], r['unsupported']))
    for t in vac:
        log('note: nothing reached in %s' % t)
    bad_specs = []
    for r, s, f in mine + others:
        if s not in bad_specs:
            bad_specs.append(s)
    lim_specs = [s for r, s in zip(res, specs) if r.get('unsupported') or r['task'] in vac]
    if mine:
        lim_specs = []
    found = None
    runs = []
    if mine or others or lim_specs:
        left = 800 - (time.time() - t0) if tier == 'quick' else 3000
        runs = search.replay(p, bad_specs, lim_specs, seed, tier, max(60, left), bool(mine))
        for x in runs:
            if x.get('found') and found is None and search.relevant(p, x['found']):
                found = x
    viol = bool(mine) or found is not None
    summary(pid, tier, seed, p, res, obls, disc, unsup, mine, others, runs, found, viol, t0)
    for r in res:
        log('%-100s %5d/%-5d obligations  %6.1fs solver%s' % (r['task'][:100], r['discharged'], r['obligations'], r['solver_s'],
                                                          '  NOT VERIFIED' if r.get('unsupported') else ''))
    for line in known(pid):
        log(line)
    if not viol:
        if others:
            log('note: obligations of other properties failed; the ones of %s hold' % pid)
        log('%s: %d obligations, %d discharged, %.0f s' % (pid, obls, disc, time.time() - t0))
        return 0
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % pid)
    with open(path, 'w') as f:
        json.dump({'property': pid, 'failed_obligations': [
            {'task': r['task'], 'obligation': o['obligation'], 'info': o['info'], 'verifier_output': o['context']}
            for r, s, o in (mine or others)[:12]],
            'failing_input': found['found'] if found else None, 'configuration': found['label'] if found else None,
            'how_to_replay': search.howto(found) if found else 'no failing input found within the search bounds'},
            f, indent=1, default=str)
    for r, s, o in (mine or others)[:5]:
        log('failed: %s  [%s]' % (o['obligation'], r['task'][:100]))
    if found:
        log('failing input: %s' % json.dumps({k: v for k, v in found['found'].items() if k not in ('sanitizer', 'harness')})[:600])
        log('VIOLATION property=%s replay=%s' % (pid, path))
    else:
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    return 1


def known(pid):
    out = []
    fn = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(l.strip())
    return out


def summary(pid, tier, seed, p, res, obls, disc, unsup, mine, others, runs, found, viol, t0):
    from irv import trusted
    fns = sorted({f for r in res for f in r['functions']})
    con = sorted({c for r in res for c in r['contracts']})
    names = {}
    for r in res:
        for k, v in r['names'].items():
            c = names.setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
    cov = {
        'obligations': obls, 'discharged': disc,
        'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
        'trusted_base': trusted.base(p, con),
        'back_end': 'z3 %s (python API), LLVM IR from clang++-18 -O0 of the current headers' % z3.get_version_string(),
        'solver_s': round(sum(r['solver_s'] for r in res), 1), 'queries': sum(r['queries'] for r in res),
        'unknown_answers': sum(r['unknown'] for r in res),
        'functions_under_contract': fns,
        'library_code_verified_inline': sorted({f for r in res for f in r['inlined_library']})[:80],
        'external_contracts_used': con,
        'distinct_obligation_names': len(names),
        'obligation_samples': sorted(names)[:12],
        'tasks': [{'task': r['task'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'paths': r['paths'],
                   'solver_s': r['solver_s'], 'reached': r['covers'], 'not_verified': r.get('unsupported')} for r in res],
        'failed_obligations': [o['obligation'] for r, s, o in mine + others][:40],
        'not_proved_bounded_only': [r['task'] for r in unsup],
        'bounded_search': [{k: v for k, v in x.items() if k != 'found'} for x in runs],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
                   'assumptions': trusted.assumptions(p, con), 'wall_s': round(time.time() - t0, 1),
                   'violations': 1 if viol else 0}, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())

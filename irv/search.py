"""Bounded search on the real code for an input that violates a property (replay of failed proofs)."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from . import build

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(HERE, 'search')


def clit(s):
    return '"' + ''.join('\\x%02x""' % ord(c) for c in s) + '"'


def compile_cpp(src, defs, out, san=True, extra=()):
    cmd = ['clang++-18', '-std=c++17', '-O1', '-g', '-w', '-fno-access-control', '-I', build.INCLUDE, '-I', SRC]
    if san:
        cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
    if build.INCLUDE != os.path.join(build.REPO, 'include') and not any('FAST_FLOAT' in d for d in defs):
        defs = list(defs) + ['SSP_DISABLE_FAST_FLOAT']
    cmd += ['-D' + d for d in defs] + list(extra) + [os.path.join(SRC, src), '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[:2000])


def run_search(src, defs, budget, seed, label, extra=(), args=()):
    d = tempfile.mkdtemp(prefix='verif-search-')
    try:
        exe = os.path.join(d, 's')
        try:
            compile_cpp(src, defs, exe, extra=extra)
        except build.BuildError as e:
            return {'label': label, 'error': str(e)[:500]}
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=1:handle_abort=0:allocator_may_return_null=1',
                   UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1')
        try:
            r = subprocess.run([exe, str(budget), str(seed)] + list(args), capture_output=True, env=env, cwd=d,
                               timeout=budget * 3 + 60)
        except subprocess.TimeoutExpired:
            return {'label': label, 'error': 'search did not end'}
        o = r.stdout.decode('latin-1')
        e = r.stderr.decode('latin-1')
        m = re.search(r'^FOUND (\{.*\})$', o, re.M)
        if m:
            try:
                f = json.loads(m.group(1))
            except ValueError:
                f = {'what': m.group(1)}
            f['sanitizer'] = e[:1500]
            f['rc'] = r.returncode
            f['harness'] = {'source': 'search/' + src, 'defines': list(defs)}
            return {'label': label, 'found': f}
        m = re.search(r'^DONE (\{.*\})$', o, re.M)
        if m:
            return {'label': label, 'done': json.loads(m.group(1))}
        if r.returncode and ('Sanitizer' in e or r.returncode < 0):
            return {'label': label, 'found': {'what': 'memory error', 'sanitizer': e[:3000], 'rc': r.returncode,
                                              'harness': {'source': 'search/' + src, 'defines': list(defs)}}}
        return {'label': label, 'error': 'rc %d %s' % (r.returncode, (e or o)[-500:])}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def opts_define(c):
    """Cfg keyword dict -> defines"""
    from .split import Cfg
    o = Cfg(**c)
    return ['OPTS=' + o.opts(), 'Q=' + clit(o.quote), 'E=' + clit(o.escape), 'TL=' + clit(o.tl), 'TR=' + clit(o.tr),
            'ML=%s' % ('true' if o.multiline else 'false'), 'MODE=%d' % ('bool', 'string', 'throw').index(o.mode)]


def pool(jobs, stop_first=True):
    """jobs: thunks; runs 8 at a time; returns results (stops starting new ones after a hit)"""
    res = []
    hit = [False]

    def go(j):
        if hit[0] and stop_first:
            return None
        r = j()
        if r.get('found'):
            hit[0] = True
        return r
    with ThreadPoolExecutor(8) as ex:
        res = [r for r in ex.map(go, jobs) if r]
    return res


def split_search(kinds, cfgs, seed, budget):
    """cfgs: the configurations whose proof failed (first) or all"""
    def mk(c):
        return lambda: run_search('split.cpp', opts_define(c), budget, seed, str(c))
    rs = pool([mk(c) for c in cfgs])
    return rs


PARSER_CFGS = [
    # options, quote, escape, trim left/right, multiline, error mode, limit, ignore_empty, ignore_header
    ('ss::quote<34>,ss::escape<92>,ss::trim<32>', '"', '\\', ' ', ' ', 0, 0, 0, 0, 0),
    ('ss::string_error,ss::quote<34>,ss::escape<92>,ss::trim<32>,ss::multiline', '"', '\\', ' ', ' ', 1, 1, 0, 0, 0),
    ('ss::throw_on_error,ss::quote<34>,ss::escape<92>,ss::multiline_restricted<2>,ss::ignore_empty', '"', '\\', '', '', 1, 2, 2, 1, 0),
    ('ss::string_error,ss::ignore_empty', '', '', '', '', 0, 1, 0, 1, 0),
    ('ss::string_error,ss::quote<34>,ss::escape<92>,ss::trim<32>', '"', '\\', ' ', ' ', 0, 1, 0, 0, 0),
    ('ss::throw_on_error,ss::quote<34>,ss::escape<92>', '"', '\\', '', '', 0, 2, 0, 0, 0),
    ('ss::quote<34>,ss::multiline_restricted<3>,ss::ignore_empty,ss::ignore_header', '"', '', '', '', 1, 0, 3, 1, 1),
    ('ss::string_error,ss::escape<92>,ss::multiline_restricted<1>', '', '\\', '', '', 1, 1, 1, 0, 0),
]


def parser_search(kinds, cfgs, seed, budget):
    """sequences of operations on the real parser against the specification, eight option sets"""
    def mk(c):
        o, q, e, tl, tr, ml, mode, limit, ie, ih = c
        d = ['OPTS=' + o, 'Q=' + clit(q), 'E=' + clit(e), 'TL=' + clit(tl), 'TR=' + clit(tr),
             'ML=%s' % ('true' if ml else 'false'), 'MODE=%d' % mode, 'LIMIT=%d' % limit, 'IE=%d' % ie, 'IH=%d' % ih]
        return lambda: run_search('parser.cpp', d, budget, seed, o, args=kinds)
    return pool([mk(c) for c in PARSER_CFGS])


def conv_search(kinds, cfgs, seed, budget):
    """texts for every type and rows for the converter, three error modes, both floating point back ends"""
    o = 'ss::quote<34>,ss::escape<92>,ss::trim<32>'

    def mk(k, more, mode, fallback):
        d = ['OPTS=' + o + more, 'MODE=%d' % mode] + ['SSP_DISABLE_FAST_FLOAT'] * fallback
        return lambda: run_search('conv.cpp', d, budget, seed + k, 'converter%s%s' % (more, ', strtod' if fallback else ''), args=kinds)
    jobs = [mk(0, '', 0, 0), mk(0, ',ss::string_error', 1, 0), mk(0, ',ss::throw_on_error', 2, 0), mk(0, '', 0, 1)]
    if any('float' not in k and 'extract' not in k and 'restriction value' not in k for k in kinds):
        jobs += [mk(1, '', 0, 0), mk(1, ',ss::string_error', 1, 0), mk(1, ',ss::throw_on_error', 2, 0)]
    return pool(jobs)


MODE_CFGS = [
    # options, characters of interest, ignore_header
    ('ss::quote<34>,ss::escape<92>,ss::trim<32>,ss::multiline', '"\\ ', 0), ('', '', 0),
    ('ss::quote<34>,ss::escape<92>,ss::multiline_restricted<2>,ss::ignore_empty', '"\\', 0), ('ss::quote<34>,ss::escape<92>', '"\\', 0),
    ('ss::escape<92>,ss::multiline_restricted<1>', '\\', 0), ('ss::quote<34>,ss::trim<32>,ss::multiline_restricted<3>,ss::ignore_header', '" ', 1),
    ('ss::quote<34>,ss::multiline', '"', 0), ('ss::ignore_empty,ss::ignore_header', '', 1),
]


def mode_search(kinds, cfgs, seed, budget):
    """the same operations on the same input in the three error modes"""
    def mk(o, alpha, ih):
        d = ['BASE%d=%s' % (k, ','.join(x for x in (m, o) if x)) for k, m in enumerate(('', 'ss::string_error', 'ss::throw_on_error'))]
        return lambda: run_search('modes.cpp', d + ['ALPHA=' + clit(alpha), 'IH=%d' % ih], budget, seed, 'three modes, ' + o)
    return pool([mk(*c) for c in MODE_CFGS])


def single_search(specs, seed, tier, left):
    """the searches for whatever failed, with ssp.hpp in place of the headers"""
    per = 40 if tier == 'quick' else 200
    mods = {s[0] for s in specs}
    out = []
    if 'split' in mods:
        out += split_search((), [s[2] for s in specs if s[0] == 'split'][:8], seed, min(per, 25))
    if 'conv' in mods:
        out += conv_search(('',), [], seed, per)
    if mods - {'split', 'conv', 'moves'}:
        out += parser_search((), [], seed, per)
    if mods & {'moves', 'row'} and not any(r.get('found') for r in out):
        out += parser_search(('move', 'resource', 'memory'), [], seed, per)
    return out


def relevant(p, f):
    kinds = p.search[1] if p.search else ()
    return any(k in f.get('what', '') for k in kinds)


def replay(p, bad, lim, seed, tier, left, confirmed):
    """search the real code: configurations with failed obligations first"""
    if not p.search:
        return []
    if p.search[0] == 'single':
        return single_search(bad + lim, seed, tier, left)
    fn = globals()[p.search[0] + '_search']
    per = 25 if tier == 'quick' else 120
    todo = [s[2] for s in bad] + [s[2] for s in lim]
    n = max(1, (len(todo) + 7) // 8)
    if p.search[0] in ('parser', 'conv', 'mode'):
        n = 1
        per = 45 if tier == 'quick' else 240
    per = max(4, min(per, (left * 0.8 - 10 * n) / n))
    return fn(p.search[1], todo, seed, per)


def howto(x):
    if build.INCLUDE != os.path.join(build.REPO, 'include'):
        return 'with ss/*.hpp which consist of #include "/repo/ssp.hpp" and -DSSP_DISABLE_FAST_FLOAT: ' + howto1(x)
    return howto1(x)


def howto1(x):
    h = x['found'].get('harness', {})
    if h.get('source') != 'search/split.cpp':
        return 'compile with: clang++-18 -std=c++17 -O1 -g -fno-access-control -fsanitize=address,undefined -I/repo/include ' \
               "-I/verif/search %s /verif/%s -o s; run: ./s 60 1" % (' '.join("'-D%s'" % d for d in h.get('defines', [])), h.get('source', ''))
    return 'compile with: clang++-18 -std=c++17 -O1 -g -fno-access-control -fsanitize=address,undefined -I/repo/include ' \
           '-I/verif/search %s /verif/%s -o s; run: ./s 20 1   (or ./s 20 1 <line> <delimiter> [previous line])' % (
               ' '.join("'-D%s'" % d for d in h.get('defines', [])), h.get('source', ''))

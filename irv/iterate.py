"""Contract of iteration: begin, end, ++, ==, * and -> against get_next and eof."""
import time
import re
from .val import *
from .mem import *
from . import models, tasks, build
from .engine import Engine, State, norm_ptr, demangle
from .loops import cellval
from .parser import *
from .split import Cfg
from .row import same_text, THROW
from .tries import TryWorld, Lay, TRY_CONTRACTS, arbitrary_value, put_value, get_value, same_value

SRC = r'''
#include <ss/parser.hpp>
#include <new>
using P = ss::parser<@OPTS@>;
@OBJ@
using It = decltype(std::declval<P&>().@CALL@<@TS@>());
using I = It::iterator;
using V = @V@;
extern "C" void make(I* i, P* p, V** v) { new (i) I(p); *v = &i->value_; }
extern "C" void make_end(I* i, V** v) { new (i) I(); *v = &i->value_; }
extern "C" void drv_begin(P* p, I* i, V** v) { auto r = p->@CALL@<@TS@>(); new (i) I(r.begin()); *v = &**i; }
extern "C" void drv_pre(I* i, I** r, V** v) { *r = &++*i; *v = &**i; }
extern "C" void drv_post(I* i, I* r, V** v, V** w) { new (r) I((*i)++); *v = &**i; *w = r->operator->(); }
extern "C" bool drv_end(P* p, I* i) { auto r = p->@CALL@<@TS@>(); return *i == r.end(); }
extern "C" bool drv_notend(P* p, I* i) { auto r = p->@CALL@<@TS@>(); return *i != r.end(); }
extern "C" bool drv_rend(P* p, I* i) { auto r = p->@CALL@<@TS@>(); return r.end() == *i; }
extern "C" bool drv_eq(I* a, I* b) { return *a == *b; }
extern "C" bool drv_ne(I* a, I* b) { return *a != *b; }
'''


def sub_run(eng, mod, st, fn, args):
    """paths of one call from this state"""
    s = st.fork()
    s.final = None
    eng.enter(s, mod.fns[fn], args)
    outs, _ = eng.explore([s], None)
    return [o for o in outs if o.consistent()]


def iteration(name, deadline, op='begin', mode='string', types='int', obj=False):
    t0 = time.time()
    cfg = Cfg(mode=mode)
    lay = Lay(types, 'Obj' if obj else '')
    decl = 'struct Obj { %s };' % ' '.join('%s a%d;' % (t, k) for k, t in enumerate(lay.types)) if obj else ''
    src = SRC.replace('@OPTS@', opts(cfg)).replace('@OBJ@', decl).replace('@CALL@', 'iterate_object' if obj else 'iterate')
    src = src.replace('@TS@', ('Obj, ' if obj else '') + types).replace('@V@', lay.cpp)
    mod = build.ir(src, 'it')
    reset()
    w = TryWorld(cfg, 'buffer')
    w.types = (types,)
    eng = Engine(mod, w)
    install_world(eng, w, TRY_CONTRACTS)
    if not any(re.match(TRY_CONTRACTS[0][0], demangle(f)) for f in mod.fns):
        raise Unsupported('no function which the contract of get_next describes')
    eng.deadline = deadline
    st = State(eng)
    b = Built(eng, st, w, mod, the_parser(mod), mode, False)
    if mode == 'throw':
        b.put('error_', 0)
    e0 = b.vals['eof_']
    it = st.new_region('iterator', 'cells', 512, 'arg')
    old = st.new_region('old iterator', 'cells', 512, 'arg')
    Q = [st.new_region('q%d' % k, 'cells', 8, 'arg') for k in range(3)]
    q = [Ptr(x.rid, 0) for x in Q]
    P, I = Ptr(b.R.rid, 0), Ptr(it.rid, 0)
    so = eng.spec_obl
    cov = {}
    nm = 'iteration %s'

    def look(o, k):
        return norm_ptr(cellval(o, Q[k].rid, 0, 8))

    def ends(o, at, want, what):
        """comparison with end(), in every form"""
        for fn, neg in (('drv_end', 0), ('drv_notend', 1), ('drv_rend', 0)):
            for s in sub_run(eng, mod, o, fn, [P, at]):
                so(s, s.final[0] == 'ret' and eq(eng.uns(s, s.final[1], 1), int(want) ^ neg), nm % what)

    def step(o, at, v):
        """one step was made: like get_next unless the parser is at its end"""
        lg = o.ghost.get('log', ())
        threw = o.final[0] == 'throw'
        if not lg:
            k = 'end'
            cov[k] = cov.get(k, 0) + 1
            so(o, eq(e0, 1), nm % 'reads every row')
            so(o, not threw, nm % 'throws nothing at the end')
            if not threw:
                ends(o, at, True, 'ends when no row is left')
            bad = b.unchanged(o, [])
            so(o, not bad, nm % 'changes nothing at the end', bad)
            return
        k = 'row'
        so(o, eq(e0, 0), nm % 'reads nothing after the end')
        so(o, len(lg) == 1, nm % 'reads one row')
        bad = b.unchanged(o, list(w.FRAME))
        so(o, not bad, nm % 'changes nothing else', bad)
        if lg[0][0] == 'throws':
            k = 'failed row'
            cov[k] = cov.get(k, 0) + 1
            ok = threw and o.final[2] == THROW
            so(o, ok, nm % 'passes on the error of the row')
            if ok:
                x = o.mem[norm_ptr(o.final[1]).r].cells.get(8)
                same_text(eng, o, x[1] if x else None, lg[0][1], nm % 'passes on the error of the row')
            return
        so(o, not threw, nm % 'throws nothing of its own')
        if threw:
            return
        cov[k] = cov.get(k, 0) + 1
        same_value(eng, o, get_value(eng, o, v, lay), lg[0][3], nm % 'gives the value of the row')
        e, m = b.get(o, 'error_'), lg[0][2]
        if mode == 'string':
            same_text(eng, o, e, m, nm % 'keeps the error of the row')
        elif mode == 'bool':
            so(o, eq(e, m), nm % 'keeps the error of the row')
        ends(o, at, False, 'does not end before the row is seen')

    if op == 'begin':
        starts = [st]
    else:
        starts = sub_run(eng, mod, st, 'make_end' if op == 'compare end' else 'make', ([I, q[0]] if op == 'compare end' else [I, P, q[0]]))
    for s in starts:
        s.final = None
        v0 = None
        if op != 'begin':
            v0 = [arbitrary_value(t) for t in lay.types]
            put_value(eng, s, look(s, 0), lay, v0)
        if op == 'begin':
            for o in sub_run(eng, mod, s, 'drv_begin', [P, I, q[0]]):
                if o.ghost.get('alloc failed'):
                    continue
                step(o, I, look(o, 0) if o.final[0] == 'ret' else None)
        elif op == 'pre':
            for o in sub_run(eng, mod, s, 'drv_pre', [I, q[0], q[1]]):
                if o.ghost.get('alloc failed'):
                    continue
                if o.final[0] == 'ret':
                    so(o, look(o, 0).r == it.rid and look(o, 0).o == 0, nm % '++ gives the iterator itself')
                step(o, I, look(o, 1) if o.final[0] == 'ret' else None)
        elif op == 'post':
            for o in sub_run(eng, mod, s, 'drv_post', [I, Ptr(old.rid, 0), q[0], q[1]]):
                if o.ghost.get('alloc failed'):
                    continue
                step(o, I, look(o, 0) if o.final[0] == 'ret' else None)
                if o.final[0] == 'ret':
                    same_value(eng, o, get_value(eng, o, look(o, 1), lay), v0, nm % 'it++ gives the iterator as it was')
                    ends(o, Ptr(old.rid, 0), False, 'it++ gives the iterator as it was')
        else:
            ended = op == 'compare end'
            cov[op] = 1
            ends(s, I, ended, 'equals end() exactly when it has ended')
            for fn, neg in (('drv_eq', 0), ('drv_ne', 1)):
                for o in sub_run(eng, mod, s, fn, [I, I]):
                    so(o, o.final[0] == 'ret' and eq(eng.uns(o, o.final[1], 1), 1 ^ neg), nm % 'equals itself')
            if ended:
                # moving on from the end stays there and reads nothing
                for o in sub_run(eng, mod, s, 'drv_pre', [I, q[0], q[1]]):
                    so(o, o.final[0] == 'ret' and not o.ghost.get('log'), nm % 'the end stays the end')
                    if o.final[0] == 'ret':
                        ends(o, I, True, 'the end stays the end')
    return tasks.summarise(eng, name, t0, cov)

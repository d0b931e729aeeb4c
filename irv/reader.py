"""Contracts of line reading: the input is a byte sequence D of length N; nl(t) is the end of the
physical line which starts at t (just after its newline, or N)."""
import time
import z3
from .val import *
from .mem import *
from . import models, tasks
from .plugin import Plugin
from .engine import Engine, State, norm_ptr, padd, Forks
from .loops import Cand, cellval

I = z3.IntSort()


class Stream(Plugin):
    def __init__(self):
        self.N = fresh('N', 0, 1 << 60)
        self.NL = z3.Function('nl', I, I)
        self.D = bytefn('D', self.facts)

    def nl(self, t):
        e = self.NL(z(t))
        if e.get_id() not in ATOMS:
            zt, zn = z(t), z(self.N)
            atom(e, 0, None, [z3.Implies(z3.And(zt >= 0, zt < zn), z3.And(e > zt, e <= zn)),
                              z3.Implies(zt == zn, e == zn)])
            a = Lin({e.get_id(): 1}, 0)
            last = self.D.read(None, sub(a, 1))
            FACTS[e.get_id()].append(z3.Implies(z3.And(zt >= 0, zt < zn), z3.Or(z(last) == 10, e == zn)))
        return Lin({e.get_id(): 1}, 0)

    def facts(self, j, e):
        # only one unfolding per character that is really looked at
        if any(str(ATOMS[i][0].decl()) == 'nl' for i in (j.t if isinstance(j, Lin) else ())):
            return []
        return [z3.Implies(z3.And(z(j) >= 0, z(j) < z(self.N)),
                           z(self.nl(j)) == z3.If(e == 10, z(add(j, 1)), z(self.nl(add(j, 1)))))]

    def memchr(self, eng, st, av):
        """first newline in the rest of the input"""
        p, c, n = norm_ptr(av[0]), eng.uns(st, av[1], 32), eng.uns(st, av[2], 64)
        r = st.mem.get(p.r)
        if r is None or r.node is not self.D or c != 10 or not st.proves(eq(add(p.o, n), self.N)):
            return None
        e = self.nl(p.o)
        f = st.fork()
        st.assume(And(gt(n, 0), eq(self.D.read(st, sub(e, 1)), 10)))
        f.assume(Or(eq(n, 0), Not(eq(self.D.read(f, sub(e, 1)), 10))))
        return Forks([(s, 'ret', v) for s, v in ((st, Ptr(p.r, sub(e, 1))), (f, NULL)) if s.consistent()])

    def candidates(self, eng, entry, H, inst):
        out = []
        flags = [i for i in inst.amap.values() if i[0] == 'c' and i[3] == 1 and entry.mem[i[1]].store == 'stack']
        for aid, item in inst.amap.items():
            if item[0] != 'c':
                continue
            v0 = cellval(entry, *item[1:])
            if isinstance(v0, (int, Lin)):
                def f(s, iv, item=item, v0=v0):
                    v = cellval(s, *item[1:])
                    return eq(self.nl(v), self.nl(v0)) if isinstance(v, (int, Lin)) else None
                nm = entry.mem[item[1]].name + (str(item[2]) if item[2] else '')
                out.append(Cand('same line %s' % nm, f))
                if entry.mem[item[1]].store != 'stack' or item[3] == 8:
                    for it2 in flags:
                        for pol in (0, 1):
                            def h(s, iv, item=item, v0=v0, it2=it2, pol=pol):
                                v, b = cellval(s, *item[1:]), cellval(s, *it2[1:])
                                if not isinstance(v, (int, Lin)) or not isinstance(b, (int, Lin)):
                                    return None
                                return Or(And(eq(b, pol), eq(self.nl(v), self.nl(v0))),
                                          And(eq(b, 1 - pol), eq(v, self.nl(v0)), gt(v, v0),
                                              eq(self.D.read(s, sub(v, 1)), 10)))
                            out.append(Cand('same line %s until %s is %d' % (nm, it2[1:], 1 - pol), h))
                out.append(Cand('%s within the input' % nm, lambda s, iv, item=item: le(cellval(s, *item[1:]), self.N)))
        return out


def block(st, name, size, node=None):
    r = st.new_region(name, 'bytes', size, 'heap')
    r.node = node if node is not None else bytefn(fresh_name(name))
    return r


def cell(st, name, v, size=8):
    r = st.new_region(name, 'cells', size, 'arg')
    r.cells[0] = (size, v)
    return r


GLB = r'''
#include <ss/parser.hpp>
extern "C" ssize_t drv_glb(char** p, size_t* n, const char* b, size_t size, size_t* c)
{ return ss::get_line_buffer(*p, *n, b, size, *c); }
'''


def get_line_buffer(name, deadline, null):
    from . import build
    t0 = time.time()
    mod = build.ir(GLB, 'glb')
    reset()
    s = Stream()
    eng = Engine(mod, s)
    eng.deadline = deadline
    eng.alloc_fails = True
    models.install(eng)
    st = State(eng)
    n0 = fresh('n0', 0, 1 << 60)
    B = st.new_region('input', 'bytes', s.N, 'const')
    B.node = s.D
    if null:
        P = cell(st, 'lineptr', NULL)
        blk = None
    else:
        blk = block(st, 'line', n0)
        st.assume(gt(n0, 0))
        P = cell(st, 'lineptr', Ptr(blk.rid, 0))
    NN = cell(st, 'n', n0)
    c0 = fresh('c0', 0, 1 << 60)
    C = cell(st, 'curr', c0)
    eng.enter(st, mod.fns['drv_glb'], [Ptr(P.rid, 0), Ptr(NN.rid, 0), Ptr(B.rid, 0), s.N, Ptr(C.rid, 0)])
    outs, _ = eng.explore([st], None)
    cov = {}
    so = eng.spec_obl
    nm = 'get_line_buffer %s'
    for o in outs:
        if not o.consistent():
            continue
        if o.final[0] == 'throw':
            k = 'allocation failure'
            so(o, bool(o.ghost.get('alloc failed')) and o.final[2] == '_ZTISt9bad_alloc', nm % 'throws bad_alloc on allocation failure only')
            p = cellval(o, P.rid, 0, 8)
            so(o, isinstance(p, Ptr) and (p.r == 0 or o.mem[p.r].alive and o.proves(eq(p.o, o.mem[p.r].lo))), nm % 'keeps the block when allocation fails')
        else:
            r = eng.sgn(o, o.final[1], 64)
            p, n, c = cellval(o, P.rid, 0, 8), cellval(o, NN.rid, 0, 8), cellval(o, C.rid, 0, 8)
            if o.proves(ge(c0, s.N)):
                k = 'end of input'
                so(o, eq(r, -1), nm % 'returns -1 at the end of the input')
                so(o, eq(c, c0), nm % 'does not move at the end of the input')
            else:
                k = 'line'
                so(o, lt(c0, s.N), nm % 'tells the end of the input')
                so(o, eq(add(c0, r), s.nl(c0)), nm % 'returns the length of the physical line')
                so(o, eq(c, s.nl(c0)), nm % 'moves behind the physical line')
                ok = isinstance(p, Ptr) and p.r in o.mem and o.mem[p.r].alive
                so(o, ok, nm % 'returns a valid buffer')
                if ok:
                    g = o.mem[p.r]
                    so(o, eq(p.o, g.lo), nm % 'returns the start of the block')
                    so(o, eq(n, g.size), nm % 'reports the size of the buffer')
                    so(o, And(le(0, n), lt(r, n)), nm % 'leaves space for the terminator')
                    so(o, eq(g.node.read(o, add(p.o, r)), 0), nm % 'terminates the line')
                    i = fresh('i', 0)
                    o.assume(lt(i, r))
                    so(o, eq(g.node.read(o, add(p.o, i)), s.D.read(o, add(c0, i))), nm % 'copies every character of the line')
        cov[k] = cov.get(k, 0) + 1
    return tasks.summarise(eng, name, t0, cov)

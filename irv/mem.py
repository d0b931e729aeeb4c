"""Memory: regions holding typed cells, byte sequences or word sequences."""
import z3
from .val import *


class Unsupported(Exception):
    """the verifier cannot express what the code does (not a verdict about the code)"""


class Limit(Unsupported):
    """out of time"""


# ---- functional sequences ------------------------------------------------
class Seq:
    """index -> value; kind 'b' (bytes: signed 8 bit ints) or 'w' (words)"""
    __slots__ = ()


class SBase(Seq):
    """uninterpreted content; f: Lin -> value"""
    __slots__ = ('f', 'name')

    def __init__(self, f, name=''):
        self.f, self.name = f, name

    def read(self, st, j):
        return self.f(j)


class SStore(Seq):
    __slots__ = ('p', 'i', 'v')

    def __init__(self, p, i, v):
        self.p, self.i, self.v = p, i, v

    def read(self, st, j):
        node = self
        conds = []
        while isinstance(node, SStore):
            d = sub(j, node.i)
            if isinstance(d, int):
                if d == 0:
                    r = node.v
                    break
            else:
                c = eq(j, node.i)
                if st.proves(c):
                    r = node.v
                    break
                if not st.proves(Not(c)):
                    conds.append((c, node.v))
            node = node.p
        else:
            r = node.read(st, j)
        for c, v in reversed(conds):
            r = vite(st, c, v, r)
        return r


class SCopy(Seq):
    """dst..dst+n taken from src at so.., the rest from p"""
    __slots__ = ('p', 'd', 'n', 's', 'so')

    def __init__(self, p, d, n, s, so):
        self.p, self.d, self.n, self.s, self.so = p, d, n, s, so

    def read(self, st, j):
        c = And(le(self.d, j), lt(j, add(self.d, self.n)))
        if st.proves(c):
            return self.s.read(st, add(sub(j, self.d), self.so))
        if st.proves(Not(c)):
            return self.p.read(st, j)
        return vite(st, c, self.s.read(st, add(sub(j, self.d), self.so)), self.p.read(st, j))


class SSplit(Seq):
    """cond(j) ? a[j+sa] : b[j]"""
    __slots__ = ('c', 'a', 'b', 'sa')

    def __init__(self, c, a, b, sa=0):
        self.c, self.a, self.b, self.sa = c, a, b, sa

    def read(self, st, j):
        c = self.c(j)
        if st.proves(c):
            return self.a.read(st, add(j, self.sa))
        if st.proves(Not(c)):
            return self.b.read(st, j)
        return vite(st, c, self.a.read(st, add(j, self.sa)), self.b.read(st, j))


class SConst(Seq):
    __slots__ = ('d',)

    def __init__(self, data):
        self.d = data

    def read(self, st, j):
        if isinstance(j, int):
            if 0 <= j < len(self.d):
                v = self.d[j]
                return v - 256 if v > 127 else v
            return 0
        r = 0
        for k in range(len(self.d) - 1, -1, -1):
            v = self.d[k]
            v = v - 256 if v > 127 else v
            r = ite(eq(j, k), v, r)
        return r


def vite(st, c, a, b):
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
        return Ptr(a.r, ite(c, a.o, b.o))
    if a is b or (type(a) == type(b) and a == b):
        return a
    if a is UNDEF or b is UNDEF:
        return UNDEF
    raise Unsupported('merge of %r and %r' % (a, b))


_bf = {}


def bytefn(name, facts=None):
    """base byte content: name(j) in [-128,127] with extra facts per index"""
    f = z3.Function(name, z3.IntSort(), z3.IntSort())

    def rd(j):
        e = f(z(j))
        if e.get_id() in ATOMS:
            return Lin({e.get_id(): 1}, 0)
        a = atom(e, -128, 127)
        if facts:
            FACTS[e.get_id()].extend(facts(j, e))
        return a
    return SBase(rd, name)


def wordfn(name, mk):
    f = z3.Function(name, z3.IntSort(), z3.IntSort())

    def rd(j):
        e = f(z(j))
        return mk(atom(e), j)
    return SBase(rd, name)


# ---- regions ---------------------------------------------------------------
class Region:
    __slots__ = ('rid', 'name', 'kind', 'size', 'alive', 'cells', 'node', 'store', 'stride', 'lo', 'unit')

    def __init__(self, rid, name, kind, size, store):
        self.rid, self.name, self.kind, self.size = rid, name, kind, size
        self.alive = True
        self.cells = {} if kind == 'cells' else None
        self.node = None
        self.store = store      # 'stack' 'heap' 'arg' 'const'
        self.stride = 8
        self.unit = None        # pointers advance by multiples of this (default: stride)
        self.lo = 0             # first valid offset (moves when the block is reallocated)

    def copy(self):
        r = Region.__new__(Region)
        r.rid, r.name, r.kind, r.size, r.alive = self.rid, self.name, self.kind, self.size, self.alive
        r.cells = dict(self.cells) if self.cells is not None else None
        r.node, r.store, r.stride, r.lo, r.unit = self.node, self.store, self.stride, self.lo, self.unit
        return r

    def end(self):
        return add(self.lo, self.size)


class StrVal:
    """abstract std::string value: length and bytes"""
    __slots__ = ('n', 'node', 'buf')

    def __init__(self, n, node, buf=None):
        self.n, self.node, self.buf = n, node, buf

    def __eq__(self, o):
        return isinstance(o, StrVal) and self.n == o.n and self.node is o.node

    def __hash__(self):
        return id(self.node)

    def __repr__(self):
        return 'Str(len=%s)' % (self.n,)

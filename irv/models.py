"""Contracts assumed on the C and C++ libraries (trusted; listed in the evidence)."""
import re
import z3
from .val import *
from .mem import *
from .engine import NOTMODEL, THROWN, Forks, DeadPath, padd, demangle, norm_ptr

DEC = z3.Function('dec', z3.IntSort(), z3.IntSort(), z3.IntSort())
DECLEN = z3.Function('declen', z3.IntSort(), z3.IntSort())


def label(s):
    def d(f):
        f.label = s
        return f
    return d


# ---- memory intrinsics -----------------------------------------------------
def _n(eng, st, n):
    return eng.uns(st, n, 64)


@label('memmove/memcpy: copies n bytes; memcpy requires disjoint ranges')
def m_memcpy(eng, st, av, ins, name):
    dst, src, n = av[0], av[1], _n(eng, st, av[2])
    move = 'memmove' in name
    if isinstance(n, int):
        if n == 0:
            return dst
        dst, src = norm_ptr(dst), norm_ptr(src)
        rd, rs = st.mem.get(dst.r), st.mem.get(src.r)
        if rd is not None and rs is not None and rd.kind in ('cells', 'words') and rs.kind in ('cells', 'words') \
                or (rd is not None and rd.kind == 'cells'):
            eng.copy_cells(st, dst, src, n)
            return dst
        eng.copy_bytes(st, dst, src, n)
        return dst
    z0 = st.decide(eq(n, 0))
    if z0 is True:
        return dst
    if z0 is None:
        s2 = st.fork()
        s2.assume(eq(n, 0))
        st.assume(Not(eq(n, 0)))
        _copy(eng, st, dst, src, n, move)
        return Forks([(s2, 'ret', dst), (st, 'ret', dst)])
    _copy(eng, st, dst, src, n, move)
    return dst


def _copy(eng, st, dst, src, n, move):
    dst, src = norm_ptr(dst), norm_ptr(src)
    if not move and dst.r == src.r:
        eng.obl(st, Or(le(add(dst.o, n), src.o), le(add(src.o, n), dst.o)), 'memcpy ranges disjoint')
    if isinstance(n, int) is False:
        lim = st.proves(le(n, 1 << 62))
        if not lim:
            eng.obl(st, le(n, 1 << 62), 'copy length sane')
    eng.copy_bytes(st, dst, src, n)


@label('memset')
def m_memset(eng, st, av, ins, name):
    dst, v, n = av[0], av[1], _n(eng, st, av[2])
    if isinstance(n, int):
        if n == 0:
            return dst
        r = eng.access(st, dst, n, 'write')
        if r.kind == 'bytes':
            w = st.wreg(r.rid)
            for k in range(n):
                w.node = SStore(w.node, add(dst.o, k), eng.sgn(st, v, 8))
            return dst
        if r.kind != 'cells' or not isinstance(v, int):
            raise Unsupported('memset')
        o = dst.o
        end = o + n
        eng.put_cell(st, r.rid, o, n, UNDEF)
        w = st.wreg(r.rid)
        del w.cells[o]
        b = v & 255
        while o < end:
            k = 8 if end - o >= 8 and o % 8 == 0 else 1
            w.cells[o] = (k, sum(b << (8 * j) for j in range(k)))
            o += k
        return dst
    raise Unsupported('memset of symbolic length')


@label('operator new / malloc: fresh region of the requested size (allocation failure not modelled)')
def m_new(eng, st, av, ins, name):
    n = _n(eng, st, av[0])
    kind = 'cells'
    stride = 8
    for f in reversed(st.frames[-6:]):
        m = re.match(r'std::__new_allocator<(.*)>::allocate', demangle(f.fn.name))
        if m:
            t = m.group(1)
            if t == 'char':
                kind = 'bytes'
            else:
                kind = 'words'
                stride = 32 if 'basic_string' in t and 'pair' not in t else 8
            break
    r = st.new_region('heap', kind, n, 'heap')
    r.stride = stride
    if kind == 'bytes':
        r.node = bytefn(fresh_name('heapbytes'))
    elif kind == 'words':
        nm = fresh_name('heapwords')
        r.node = SBase(lambda j: UNDEF, nm)
    return Ptr(r.rid, 0)


@label('operator delete / free: releases a region obtained from the allocator')
def m_delete(eng, st, av, ins, name):
    p = norm_ptr(av[0])
    if p.r == 0:
        return None
    r = st.mem.get(p.r)
    if r is None or not r.alive:
        eng.obl(st, False, 'double free')
        raise DeadPath()
    if r.store != 'heap':
        eng.obl(st, False, 'free of non-heap memory')
        raise DeadPath()
    eng.obl(st, eq(p.o, r.lo), 'free of block start')
    st.wreg(p.r).alive = False
    return None


@label('realloc: fails leaving the block alone, or moves it: old pointers dangle, the contents are kept')
def m_realloc(eng, st, av, ins, name):
    p, n = norm_ptr(av[0]), _n(eng, st, av[1])
    out = []
    eng.obl(st, gt(n, 0), 'realloc size positive')
    eng.obl(st, le(n, 1 << 62), 'realloc size sane')
    if eng.alloc_fails:
        f = st.fork()
        f.ghost['alloc failed'] = True
        out.append((f, 'ret', NULL))
    if p.r == 0:
        r = st.new_region('block', 'bytes', n, 'heap')
        r.node = bytefn(fresh_name('fresh'))
        return Forks(out + [(st, 'ret', Ptr(r.rid, 0))])
    r = st.mem.get(p.r)
    if r is None or not r.alive:
        eng.obl(st, False, 'realloc of released memory')
        raise DeadPath()
    if r.store != 'heap' or r.kind != 'bytes':
        eng.obl(st, False, 'realloc of non-heap memory')
        raise DeadPath()
    eng.obl(st, eq(p.o, r.lo), 'realloc of block start')
    w = st.wreg(p.r)
    lo = fresh('lo', 0, 1 << 62)
    kept = ite(le(r.size, n), r.size, n)
    w.node = SCopy(bytefn(fresh_name('fresh')), lo, kept, r.node, r.lo)
    w.lo, w.size = lo, n
    return Forks(out + [(st, 'ret', Ptr(p.r, lo))])


# ---- strings -----------------------------------------------------------------
class SText(SSplit):
    """the characters of a string as long as nobody has written to them"""
    __slots__ = ('orig',)


def strnode(st, sv):
    if sv.buf is not None:
        r = st.mem.get(sv.buf)
        if r is not None and r.alive:
            return r.node.orig if isinstance(r.node, SText) else r.node
    return sv.node


def getstr(eng, st, p, what='string read'):
    p = norm_ptr(p)
    r = eng.access(st, p, 32, what)
    v = None
    if r.kind == 'cells':
        c = r.cells.get(p.o) if isinstance(p.o, int) else None
        v = c[1] if c and c[0] == 32 else None
    elif r.kind == 'words' and r.stride == 32:
        j = eng.divexact(st, p.o, 32)
        if hasattr(eng.plugin, 'element'):
            v = eng.plugin.element(st, r.node, j)
        else:
            v = r.node.read(st, j)
    if not isinstance(v, StrVal):
        if v is None or v is UNDEF:
            eng.obl(st, False, 'string not constructed')
            raise DeadPath()
        raise Unsupported('string object expected, found %r' % (v,))
    return v


def setstr(eng, st, p, v):
    p = norm_ptr(p)
    r = eng.access(st, p, 32, 'write')
    if r.kind == 'cells':
        c = r.cells.get(p.o)
        if c is not None and isinstance(c[1], StrVal) and c[1].buf is not None and c[1] is not v:
            if c[1].buf in st.mem:
                st.wreg(c[1].buf).alive = False
        eng.put_cell(st, p.r, p.o, 32, v)
    elif r.kind == 'words' and r.stride == 32:
        w = st.wreg(p.r)
        w.node = SStore(w.node, eng.divexact(st, p.o, 32), v)
    else:
        raise Unsupported('string object location')


def concat(a, an, b, bn):
    """node of a[0,an) ++ b[0,bn)"""
    return SCopy(a, an, bn, b, 0)


def cstr_val(eng, st, p):
    """StrVal of the NUL terminated string at p (literals only)"""
    p = norm_ptr(p)
    if p.r == 0 or p is UNDEF:
        eng.obl(st, False, 'null string')
        raise DeadPath()
    r = st.mem[p.r]
    if r.kind == 'bytes' and isinstance(r.node, SConst) and isinstance(p.o, int):
        d = r.node.d[p.o:]
        d = d[:d.index(0)]
        return StrVal(len(d), SConst(d))
    if r.kind == 'bytes' and r.store == 'string':
        # up to the first NUL; there is one behind the characters of the string
        n = sub(sub(r.size, 1), p.o)
        m = fresh('cstrlen', 0, 1 << 60)
        st.assume(le(m, n))
        st.assume(eq(r.node.read(st, add(p.o, m)), 0))
        return StrVal(m, SCopy(r.node, 0, m, r.node, p.o))
    # unknown contents: an arbitrary string
    return StrVal(fresh('cstrlen', 0, 1 << 60), bytefn(fresh_name('cstr')))


STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'


def s_size(eng, st, av, ins, name):
    return getstr(eng, st, av[0]).n


def s_empty(eng, st, av, ins, name):
    return eq(getstr(eng, st, av[0]).n, 0)


def s_buf(eng, st, p):
    sv = getstr(eng, st, p)
    if sv.buf is not None and sv.buf in st.mem and st.mem[sv.buf].alive:
        return sv.buf
    r = st.new_region('chars', 'bytes', add(sv.n, 1), 'string')
    n0 = sv.n
    r.node = SText(lambda j: lt(j, n0), sv.node, SConst(b''))
    r.node.orig = sv.node
    v = StrVal(sv.n, sv.node, r.rid)
    p = norm_ptr(p)
    rr = st.mem[p.r]
    if rr.kind == 'cells':
        w = st.wreg(p.r)
        w.cells[p.o] = (32, v)
    else:
        w = st.wreg(p.r)
        w.node = SStore(w.node, eng.divexact(st, p.o, 32), v)
    return r.rid


def s_data(eng, st, av, ins, name):
    return Ptr(s_buf(eng, st, av[0]), 0)


def s_index(eng, st, av, ins, name):
    sv = getstr(eng, st, av[0])
    i = _n(eng, st, av[1])
    eng.obl(st, le(i, sv.n), 'string index in range')
    return Ptr(s_buf(eng, st, av[0]), i)


def s_clear(eng, st, av, ins, name):
    getstr(eng, st, av[0])
    setstr(eng, st, av[0], StrVal(0, SConst(b'')))
    return None


def s_front(eng, st, av, ins, name):
    sv = getstr(eng, st, av[0])
    eng.obl(st, gt(sv.n, 0), 'string not empty')
    return Ptr(s_buf(eng, st, av[0]), 0)


def s_back(eng, st, av, ins, name):
    sv = getstr(eng, st, av[0])
    eng.obl(st, gt(sv.n, 0), 'string not empty')
    return Ptr(s_buf(eng, st, av[0]), sub(sv.n, 1))


def s_begin(eng, st, av, ins, name):
    return Ptr(s_buf(eng, st, av[0]), 0)


def s_end(eng, st, av, ins, name):
    sv = getstr(eng, st, av[0])
    return Ptr(s_buf(eng, st, av[0]), sv.n)


def s_push_char(eng, st, av, ins, name):
    a = getstr(eng, st, av[0])
    c = eng.sgn(st, av[1], 8)
    setstr(eng, st, av[0], StrVal(add(a.n, 1), SStore(strnode(st, a), a.n, c)))
    return av[0]


def s_append_cstr_n(eng, st, av, ins, name):
    a = getstr(eng, st, av[0])
    n = _n(eng, st, av[2])
    p = norm_ptr(av[1])
    b = range_val(eng, st, p, Ptr(p.r, add(p.o, n)))
    setstr(eng, st, av[0], StrVal(add(a.n, b.n), concat(strnode(st, a), a.n, b.node, b.n)))
    return av[0]


def s_append_cstr(eng, st, av, ins, name):
    a = getstr(eng, st, av[0])
    b = cstr_val(eng, st, av[1])
    setstr(eng, st, av[0], StrVal(add(a.n, b.n), concat(strnode(st, a), a.n, b.node, b.n)))
    return av[0]


def s_append_str(eng, st, av, ins, name):
    a = getstr(eng, st, av[0])
    b = getstr(eng, st, av[1])
    setstr(eng, st, av[0], StrVal(add(a.n, b.n), concat(strnode(st, a), a.n, strnode(st, b), b.n)))
    return av[0]


def range_val(eng, st, b, e):
    b, e = norm_ptr(b), norm_ptr(e)
    if b.r != e.r:
        eng.obl(st, False, 'string range within one object')
        raise DeadPath()
    n = sub(e.o, b.o)
    if n == 0:
        return StrVal(0, SConst(b''))
    eng.obl(st, ge(n, 0), 'string range ordered')
    r = st.mem.get(b.r)
    zero = st.proves(eq(n, 0))
    if zero:
        return StrVal(0, SConst(b''))
    if r is None or not r.alive:
        eng.obl(st, eq(n, 0), 'released memory read')
        raise DeadPath()
    c = Or(eq(n, 0), And(le(r.lo, b.o), le(e.o, r.end())))
    if c is not True:
        eng.obl(st, c, 'in bounds read', r.name)
    node = r.node
    if r.kind != 'bytes':
        raise Unsupported('string from object memory')
    return StrVal(n, SCopy(SConst(b''), 0, n, node, b.o))


def s_append_range(eng, st, av, ins, name):
    a = getstr(eng, st, av[0])
    b = range_val(eng, st, av[1], av[2])
    setstr(eng, st, av[0], StrVal(add(a.n, b.n), concat(strnode(st, a), a.n, b.node, b.n)))
    return av[0]


def s_ctor_range(eng, st, av, ins, name):
    setstr(eng, st, av[0], range_val(eng, st, av[1], av[2]))


def s_ctor_ptr_n(eng, st, av, ins, name):
    n = _n(eng, st, av[2])
    p = norm_ptr(av[1])
    if p.r == 0:
        eng.obl(st, eq(n, 0), 'null string')
        setstr(eng, st, av[0], StrVal(0, SConst(b'')))
        return
    setstr(eng, st, av[0], range_val(eng, st, p, Ptr(p.r, add(p.o, n))))


def s_ctor_default(eng, st, av, ins, name):
    setstr(eng, st, av[0], StrVal(0, SConst(b'')))


def s_ctor_cstr(eng, st, av, ins, name):
    setstr(eng, st, av[0], cstr_val(eng, st, av[1]))


def s_ctor_copy(eng, st, av, ins, name):
    b = getstr(eng, st, av[1])
    setstr(eng, st, av[0], StrVal(b.n, strnode(st, b)))


def s_assign_copy(eng, st, av, ins, name):
    b = getstr(eng, st, av[1])
    v = StrVal(b.n, strnode(st, b))
    getstr(eng, st, av[0])
    setstr(eng, st, av[0], v)
    return av[0]


def s_assign_move(eng, st, av, ins, name):
    s_assign_copy(eng, st, av, ins, name)
    if norm_ptr(av[0]) != norm_ptr(av[1]):
        # valid but unspecified; libstdc++ leaves it empty or swapped
        setstr(eng, st, av[1], StrVal(fresh('moved', 0, 1 << 60), bytefn(fresh_name('moved'))))
    return av[0]


def s_ctor_move(eng, st, av, ins, name):
    s_ctor_copy(eng, st, av, ins, name)
    setstr(eng, st, av[1], StrVal(0, SConst(b'')))


def s_assign_range(eng, st, av, ins, name):
    getstr(eng, st, av[0])
    p = norm_ptr(av[1])
    setstr(eng, st, av[0], range_val(eng, st, p, Ptr(p.r, add(p.o, _n(eng, st, av[2])))))
    return av[0]


def s_replace_range(eng, st, av, ins, name):
    """replace(begin(), end(), first, last): what assign(first, last) is"""
    a = getstr(eng, st, av[0])
    b, e = norm_ptr(av[1]), norm_ptr(av[2])
    if b.r != a.buf or e.r != a.buf or b.o != 0 or not st.proves(eq(e.o, a.n)):
        raise Unsupported('replacing a part of a string')
    setstr(eng, st, av[0], range_val(eng, st, av[3], av[4]))
    return av[0]


def s_swap(eng, st, av, ins, name):
    a, b = getstr(eng, st, av[0]), getstr(eng, st, av[1])
    a, b = StrVal(a.n, strnode(st, a)), StrVal(b.n, strnode(st, b))
    setstr(eng, st, av[0], b)
    setstr(eng, st, av[1], a)


def s_pop_back(eng, st, av, ins, name):
    a = getstr(eng, st, av[0])
    eng.obl(st, gt(a.n, 0), 'string not empty')
    setstr(eng, st, av[0], StrVal(sub(a.n, 1), strnode(st, a)))


def s_append_fill(eng, st, av, ins, name):
    a = getstr(eng, st, av[0])
    n, c = _n(eng, st, av[1]), eng.sgn(st, av[2], 8)
    setstr(eng, st, av[0], StrVal(add(a.n, n), concat(strnode(st, a), a.n, SBase(lambda j: c, 'fill'), n)))
    return av[0]


def s_assign_cstr(eng, st, av, ins, name):
    getstr(eng, st, av[0])
    setstr(eng, st, av[0], cstr_val(eng, st, av[1]))
    return av[0]


def s_dtor(eng, st, av, ins, name):
    v = getstr(eng, st, av[0], 'string destroyed')
    if v.buf is not None and v.buf in st.mem:
        st.wreg(v.buf).alive = False
    p = norm_ptr(av[0])
    r = st.mem[p.r]
    if r.kind == 'cells':
        w = st.wreg(p.r)
        w.cells.pop(p.o, None)
    return None


def s_reserve(eng, st, av, ins, name):
    getstr(eng, st, av[0])
    return None


def plus(getters):
    def f(eng, st, av, ins, name):
        vs = []
        for g, p in zip(getters, av[1:]):
            vs.append(getstr(eng, st, p) if g == 's' else cstr_val(eng, st, p))
        a, b = vs
        setstr(eng, st, av[0], StrVal(add(a.n, b.n), concat(strnode(st, a), a.n, strnode(st, b), b.n)))
    return f


def decimal(v):
    """length and bytes of the decimal text of v"""
    if isinstance(v, int):
        return len(str(v)), SConst(str(v).encode())
    zl = z(v)

    def rd(j, zl=zl):
        return atom(DEC(zl, z(j)), -128, 127)
    return atom(DECLEN(zl), 1, 20), SBase(rd, 'dec')


def to_string(eng, st, av, ins, name):
    d = demangle(name)
    signed = 'unsigned' not in d
    w = 64 if 'long' in d else 32
    v = eng.sgn(st, av[1], w) if signed else eng.uns(st, av[1], w)
    n, node = decimal(v)
    setstr(eng, st, av[0], StrVal(n, node))


def allocator_noop(eng, st, av, ins, name):
    return None


# ---- strncmp -----------------------------------------------------------------
@label('strncmp: 0 iff the first n characters agree up to the first NUL')
def m_strncmp(eng, st, av, ins, name):
    if eng.plugin and hasattr(eng.plugin, 'strncmp'):
        r = eng.plugin.strncmp(eng, st, av)
        if r is not None:
            return r
    return strncmp_concrete(eng, st, av)


def strncmp_concrete(eng, st, av):
    a, b, n = norm_ptr(av[0]), norm_ptr(av[1]), _n(eng, st, av[2])
    lit = st.mem.get(b.r)
    # against a literal: compare character by character (bounded by the literal)
    if lit is None or not isinstance(lit.node, SConst) or not isinstance(b.o, int):
        raise Unsupported('strncmp of unknown strings')
    if not isinstance(n, int):
        k = None
        for c in range(0, 12):
            if st.proves(eq(n, c)):
                k = c
        if k is None:
            raise Unsupported('strncmp length')
        n = k
    d = lit.node.d[b.o:]
    conj = True
    for k in range(n):
        # all earlier characters agree and are not NUL, so this one is read
        s2 = st.fork()
        s2.assume(conj)
        if s2.consistent():
            ra = eng.access(s2, padd(a, k), 1, 'read')
            ch = ra.node.read(s2, add(a.o, k))
            want = d[k] if k < len(d) else 0
            conj = And(conj, eq(ch, want))
            if want == 0:
                break
        else:
            conj = False
            break
    return ite(conj, 0, fresh('strncmp', 1, 255))


@label('memcmp, bcmp: zero exactly for equal blocks (of a constant length)')
def m_memcmp(eng, st, av, ins, name):
    a, b, n = norm_ptr(av[0]), norm_ptr(av[1]), _n(eng, st, av[2])
    if not isinstance(n, int):
        for k in range(17):
            if st.proves(eq(n, k)):
                n = k
                break
        else:
            raise Unsupported('memcmp length')
    for p in (a, b):
        if n:
            eng.access(st, p, n, 'read')
    conj = True
    for k in range(n):
        x = [st.mem[p.r].node.read(st, add(p.o, k)) for p in (a, b)]
        conj = And(conj, eq(x[0], x[1]))
    r = fresh('memcmp', -255, 255)
    st.assume(Iff(eq(r, 0), conj))
    return r


def zeros(node):
    """places where a NUL has been stored"""
    out = []
    while True:
        if isinstance(node, SStore):
            if node.v == 0:
                out.append(node.i)
            node = node.p
        elif isinstance(node, SCopy):
            node = node.p
        else:
            return out


@label('strlen: distance to the first NUL')
def m_strlen(eng, st, av, ins, name):
    p = norm_ptr(av[0])
    if p.r and st.mem[p.r].kind == 'bytes' and isinstance(st.mem[p.r].node, SConst) and isinstance(p.o, int):
        return cstr_val(eng, st, p).n
    r = eng.access(st, p, 1, 'read')
    if r.kind != 'bytes':
        raise Unsupported('strlen')
    last = None
    if r.store == 'string':
        last = sub(r.size, 1)
    else:
        for k in zeros(r.node):
            if st.proves(And(le(p.o, k), lt(k, r.end()))) and st.proves(eq(r.node.read(st, k), 0)):
                last = k
                break
    if last is None:
        raise Unsupported('strlen: no terminator known')
    n = fresh('strlen', 0, 1 << 60)
    st.assume(le(add(p.o, n), last))
    st.assume(eq(r.node.read(st, add(p.o, n)), 0))
    st.assume(Or(eq(n, 0), Not(eq(r.node.read(st, p.o), 0))))
    return n


@label('memchr: first occurrence of a character')
def m_memchr(eng, st, av, ins, name):
    if eng.plugin and hasattr(eng.plugin, 'memchr'):
        r = eng.plugin.memchr(eng, st, av)
        if r is not None:
            return r
    raise Unsupported('memchr')


# ---- vectors -----------------------------------------------------------------
def vec(eng, st, p):
    b = eng.load(st, p, ('p',))
    e = eng.load(st, padd(p, 8), ('p',))
    return b, e


@label('std::vector growth (emplace_back/push_back): appends one element, earlier elements kept, old storage released')
def v_emplace_back(eng, st, av, ins, name):
    d = demangle(name)
    me = norm_ptr(av[0])
    b, e = vec(eng, st, me)
    m = re.match(r'(?:.*? )?std::vector<(.*?), std::allocator<', d)
    t = m.group(1) if m else ''
    if t.startswith('std::pair<char const*, char const*'):
        esz, stride = 16, 8
    elif 'basic_string' in t:
        esz, stride = 32, 32
    elif t in ('unsigned long', 'long'):
        esz, stride = 8, 8
    else:
        raise Unsupported('vector of ' + t)
    if b.r == 0:
        node = SBase(lambda j: UNDEF, 'empty')
        size = 0
    else:
        r = eng.access(st, b, 0, 'read')
        node = r.node
        if r.kind != 'words' or b.o != 0:
            raise Unsupported('vector storage')
        size = sub(e.o, b.o)
    # element value(s)
    if esz == 16:
        if len(av) == 3:
            vals = [eng.load(st, av[1], ('p',)), eng.load(st, av[2], ('p',))]
        else:
            vals = [eng.load(st, av[1], ('p',)), eng.load(st, padd(av[1], 8), ('p',))]
    elif esz == 8:
        vals = [eng.uns(st, eng.load(st, av[1], ('i', 64)), 64)]
    else:
        if len(av) == 3:
            x = range_val(eng, st, eng.load(st, av[1], ('p',)), eng.load(st, av[2], ('p',)))
        else:
            sv = getstr(eng, st, av[1])
            x = StrVal(sv.n, strnode(st, sv))
            if '&&' in d:
                setstr(eng, st, av[1], StrVal(0, SConst(b'')))
        vals = [x]
    k = eng.divexact(st, size, stride)
    if b.r != 0:
        eng.obl(st, le(0, size), 'vector size')
    for i, v in enumerate(vals):
        node = SStore(node, add(k, i), norm_ptr(v) if isinstance(v, Ptr) else v)
    if b.r == 0:
        nr = st.new_region('vector storage', 'words', 0, 'heap')
        nr.stride = stride
    else:
        nr = st.wreg(b.r)
    nr.node = node
    nr.size = add(size, esz)
    eng.store(st, me, Ptr(nr.rid, 0), ('p',))
    eng.store(st, padd(me, 8), Ptr(nr.rid, add(size, esz)), ('p',))
    eng.store(st, padd(me, 16), Ptr(nr.rid, add(size, esz)), ('p',))
    return Ptr(nr.rid, size)


@label('std::vector reserve: the elements stay what they are')
def v_reserve(eng, st, av, ins, name):
    vec(eng, st, norm_ptr(av[0]))
    return None


@label('std::vector<std::pair<const char*, const char*>> element destruction: trivial')
def v_noop(eng, st, av, ins, name):
    return None


# ---- exceptions --------------------------------------------------------------
@label('C++ exception runtime')
def x_alloc(eng, st, av, ins, name):
    r = st.new_region('exception', 'cells', _n(eng, st, av[0]), 'exc')
    return Ptr(r.rid, 0)


@label('C++ exception runtime')
def x_throw(eng, st, av, ins, name):
    ti = av[1]
    tn = None
    if isinstance(ti, Ptr) and ti.r in st.mem:
        tn = st.mem[ti.r].name.lstrip('@')
    g = dict(st.ghost.get('__exctype', {}))
    g[av[0].r] = tn
    st.ghost['__exctype'] = g
    eng.throw(st, av[0], tn)
    return THROWN


@label('C++ exception runtime')
def x_begin(eng, st, av, ins, name):
    return av[0]


@label('C++ exception runtime')
def x_end(eng, st, av, ins, name):
    return None


@label('C++ exception runtime')
def x_free(eng, st, av, ins, name):
    return None


@label('C++ exception runtime')
def x_rethrow(eng, st, av, ins, name):
    p, ti = st.exc
    eng.throw(st, p, ti)
    return THROWN


@label('std::terminate must not be reached')
def x_terminate(eng, st, av, ins, name):
    eng.obl(st, False, 'std::terminate called')
    raise DeadPath()


def x_libthrow(ti):
    def f(eng, st, av, ins, name):
        r = st.new_region('exception', 'cells', 64, 'exc')
        g = dict(st.ghost.get('__exctype', {}))
        g[r.rid] = ti
        st.ghost['__exctype'] = g
        eng.throw(st, Ptr(r.rid, 0), ti)
        return THROWN
    f.label = 'libstdc++ throw helpers'
    return f


def typeid_for(eng, st, av, ins, name):
    ti = av[0]
    if isinstance(ti, Ptr):
        if ti.r == 0:
            return 1
        return eng.typeid(st.mem[ti.r].name.lstrip('@'))
    raise Unsupported('typeid')


def i_constant(eng, st, av, ins, name):
    return False


def uadd_overflow(eng, st, av, ins, name):
    w = ins.ty[1][0][1]
    a, b = eng.uns(st, av[0], w), eng.uns(st, av[1], w)
    r = add(a, b) if 'uadd' in name else eng.nonlin(st, a, b) if isinstance(a, Lin) and isinstance(b, Lin) else scale(
        a, b)
    return (r, Not(lt(r, 1 << w)))


def errno_loc(eng, st, av, ins, name):
    rid = st.ghost.get('errno')
    if rid is None:
        r = st.new_region('errno', 'cells', 4, 'arg')
        r.cells[0] = (4, fresh('errno', 0, 4095))
        st.ghost['errno'] = rid = r.rid
    return Ptr(rid, 0)


def install(eng):
    M = eng.models
    R = eng.model_res

    def rx(p, f, lab=None):
        if lab and not hasattr(f, 'label'):
            f.label = lab
        R.append((re.compile(p), f))
    for n in ('llvm.memmove.p0.p0.i64', 'llvm.memcpy.p0.p0.i64', 'memmove', 'memcpy'):
        M[n] = m_memcpy
    M['llvm.memset.p0.i64'] = m_memset
    M['strncmp'] = m_strncmp
    M['memcmp'] = M['bcmp'] = m_memcmp
    M['strlen'] = m_strlen
    M['memchr'] = m_memchr
    M['_Znwm'] = M['_Znam'] = M['malloc'] = m_new
    M['_ZdlPv'] = M['_ZdaPv'] = M['free'] = M['_ZdlPvm'] = m_delete
    M['realloc'] = m_realloc
    M['__cxa_allocate_exception'] = x_alloc
    M['__cxa_free_exception'] = x_free
    M['__cxa_throw'] = x_throw
    M['__cxa_begin_catch'] = x_begin
    M['__cxa_end_catch'] = x_end
    M['__cxa_rethrow'] = x_rethrow
    M['_ZSt9terminatev'] = x_terminate
    M['__clang_call_terminate'] = x_terminate
    M['_ZSt20__throw_length_errorPKc'] = x_libthrow('_ZTISt12length_error')
    M['_ZSt17__throw_bad_allocv'] = x_libthrow('_ZTISt9bad_alloc')
    M['_ZSt28__throw_bad_array_new_lengthv'] = x_libthrow('_ZTISt9bad_alloc')
    M['_ZSt19__throw_logic_errorPKc'] = x_libthrow('_ZTISt11logic_error')
    M['llvm.eh.typeid.for'] = typeid_for
    M['llvm.eh.typeid.for.p0'] = typeid_for
    rx(r'llvm\.is\.constant', i_constant)
    rx(r'llvm\.(uadd|umul)\.with\.overflow', uadd_overflow)
    M['__errno_location'] = errno_loc
    errno_loc.label = 'errno'
    L = 'std::string: value semantics of the member functions used'
    sp = '^' + STR
    rx(sp + r'::(size|length)\(\) const', s_size, L)
    rx(sp + r'::empty\(\) const', s_empty, L)
    rx(sp + r'::(c_str|data)\(\)( const)?', s_data, L)
    rx(sp + r'::operator\[\]\(unsigned long\)( const)?', s_index, L)
    rx(sp + r'::clear\(\)', s_clear, L)
    rx(sp + r'::append\(char const\*\)', s_append_cstr, L)
    rx(sp + r'::operator\+=\(char const\*\)', s_append_cstr, L)
    rx(sp + r'::operator\+=\(' + STR + r' const&\)', s_append_str, L)
    rx(sp + r'::(operator\+=|push_back)\(char\)', s_push_char, L)
    rx(sp + r'::append\(char const\*, unsigned long\)', s_append_cstr_n, L)
    rx(sp + r'::front\(\)( const)?', s_front, L)
    rx(sp + r'::back\(\)( const)?', s_back, L)
    rx(sp + r'::c?begin\(\)( const)?', s_begin, L)
    rx(sp + r'::c?end\(\)( const)?', s_end, L)
    rx(sp + r'::append\(' + STR + r' const&\)', s_append_str, L)
    rx('^' + STR + r'& ' + STR + r'::append<(char const\*|char\*), void>', s_append_range, L)
    rx(sp + r'::basic_string\(\)', s_ctor_default, L)
    rx(sp + r'::basic_string\(' + STR + r' const&\)', s_ctor_copy, L)
    rx(sp + r'::basic_string\(' + STR + r'&&\)', s_ctor_move, L)
    rx(sp + r'::basic_string<(char const\*|char\*), void>\((char const\*|char\*), (char const\*|char\*), ', s_ctor_range,
       L)
    rx(sp + r'::basic_string\(char const\*, unsigned long, std::allocator', s_ctor_ptr_n, L)
    rx(sp + r'::basic_string(<std::allocator<char> ?>)?\(char const\*, std::allocator', s_ctor_cstr, L)
    rx(sp + r'::~basic_string\(\)', s_dtor, L)
    rx(sp + r'::operator=\(' + STR + r' const&\)', s_assign_copy, L)
    rx(sp + r'::operator=\(' + STR + r'&&\)', s_assign_move, L)
    rx(sp + r'::operator=\(char const\*\)', s_assign_cstr, L)
    rx(sp + r'::assign\(char const\*\)', s_assign_cstr, L)
    rx(sp + r'::assign\(' + STR + r' const&\)', s_assign_copy, L)
    rx(sp + r'::assign\(' + STR + r'&&\)', s_assign_move, L)
    rx(sp + r'::assign\(char const\*, unsigned long\)', s_assign_range, L)
    rx(sp + r'::replace\(__gnu_cxx::__normal_iterator<.*?>>, __gnu_cxx::__normal_iterator<.*?>>, char const\*, char const\*\)', s_replace_range, L)
    rx(sp + r'::swap\(' + STR + r'&\)', s_swap, L)
    rx(sp + r'::pop_back\(\)', s_pop_back, L)
    rx(sp + r'::append\(unsigned long, char\)', s_append_fill, L)
    rx(sp + r'::reserve\(unsigned long\)', s_reserve, L)
    rx(r'^std::allocator<char>::(~)?allocator\(', allocator_noop, L)
    rx(r'^' + STR + r' std::operator\+<.*>\(' + STR + r'( const&|&&), ' + STR + r'( const&|&&)\)', plus('ss'), L)
    rx(r'^' + STR + r' std::operator\+<.*>\(' + STR + r'( const&|&&), char const\*\)', plus('sc'), L)
    rx(r'^' + STR + r' std::operator\+<.*>\(char const\*, ' + STR + r'( const&|&&)\)', plus('cs'), L)
    rx(r'^std::(__cxx11::)?to_string\(', to_string, 'std::to_string: decimal text determined by the value')
    rx(r'^(?:.*? )?std::vector<.*>::(emplace_back|push_back)', v_emplace_back)
    rx(r'^(?:.*? )?std::vector<.*>::reserve\(unsigned long\)', v_reserve)

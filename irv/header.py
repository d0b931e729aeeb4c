"""Contract of the header: header, raw_header, field_exists, use_fields."""
import re
import time
import z3
from .val import *
from .mem import *
from . import models, tasks, build
from .engine import Engine, State, norm_ptr, Forks, DeadPath, demangle, padd
from .loops import Cand, Unroll, cellval, item_name
from .models import strnode, SText
from .parser import *
from .split import Cfg
from .row import RowWorld, text, same_text, check_error, THROW, string_arg, buffers

ZI = z3.IntSort()


class TBase(SBase):
    """text which is an element of a sequence; tok identifies the text"""
    __slots__ = ('tok',)


_tokf = {}


def tokfn(name):
    return z3.Function('text ' + name, ZI, ZI, ZI)


LEN = z3.Function('text length', ZI, ZI)


def mktok(e, n):
    """two texts are equal exactly when their tokens are; 0 is the empty text"""
    zn = z(n)
    return atom(e, None, None, [(zn == 0) == (e == 0), z3.Implies(zn >= 0, LEN(e) == zn)])


def token(st, v):
    """token of the text of a string"""
    if not isinstance(v, StrVal):
        raise Unsupported('token of %r' % (v,))
    node = strnode(st, v)
    if v.n == 0:
        return 0
    off = 0
    if isinstance(node, SCopy) and node.d == 0 and node.n == v.n:
        node, off = node.s, node.so
        if isinstance(node, SText):
            node = node.orig
    if isinstance(node, TBase) and off == 0:
        return node.tok
    if isinstance(node, SBase) and node.name:
        return mktok(tokfn(node.name)(z(off), z(v.n)), v.n)
    if isinstance(node, SConst) and isinstance(v.n, int) and off == 0:
        return mktok(tokfn('literal %r' % node.d[:v.n])(z3.IntVal(0), z(v.n)), v.n)
    raise Unsupported('token of a text which was put together')


def elements(st, node, j, cond=True):
    """[(condition, value)]: what element j of the sequence may be"""
    out = []
    while isinstance(node, SStore):
        c = eq(j, node.i)
        out.append((And(cond, c), node.v))
        cond = And(cond, Not(c))
        node = node.p
    out.append((cond, node.read(st, j)))
    return [(c, v) for c, v in out if c is not False and st.feasible(c)]


def merged(st, node, j):
    """element j of a sequence of texts"""
    es = elements(st, node, j)
    if not es:
        return UNDEF
    if any(not isinstance(v, StrVal) for c, v in es):
        return UNDEF
    n, t = es[-1][1].n, None
    if len(es) == 1:
        return es[0][1]
    try:
        t = token(st, es[-1][1])
        for c, v in reversed(es[:-1]):
            n, t = ite(c, v.n, n), ite(c, token(st, v), t)
    except Unsupported:
        return UNDEF

    def rd(i):
        r = strnode(st, es[-1][1]).read(st, i)
        for c, v in reversed(es[:-1]):
            r = ite(c, strnode(st, v).read(st, i), r)
        return r
    b = TBase(rd, fresh_name('element'))
    b.tok = t
    return StrVal(n, b)


class HeaderWorld(RowWorld):
    """the header is split by contract; texts are compared by their tokens"""

    def __init__(self, cfg, source, off):
        super().__init__(cfg, source)
        self.skips = True
        self.soff = off             # members of the splitter
        self.I, self.J = fresh('I', 0), fresh('J', 0)      # any two fields
        self.long = set()           # loops over something else than the arguments

    def active(self, eng, st, inst):
        return True

    def element(self, st, node, j):
        return merged(st, node, j)

    # ---- splitting the header -------------------------------------------------
    def fields(self, st):
        return st.ghost.get('split')

    def field(self, S, j):
        n, node, beg, ln = S[:4]
        k = ln(j)
        return StrVal(k, SCopy(SConst(b''), 0, k, node, beg(j)))

    def tok(self, st, S, j):
        return token(st, self.field(S, j))

    def split(self, eng, st, av, ins, name):
        """contract of splitter::split (proved by the tasks split.split)"""
        so = eng.spec_obl
        me, p = norm_ptr(av[0]), norm_ptr(av[1])
        so(st, 'multiline' not in demangle(name).split('::split')[0], 'the header is one line')
        r = st.mem.get(p.r)
        raw = cellval(st, self.P, self.off['raw_header_'][0], 32)
        ok = r is not None and r.alive and r.kind == 'bytes' and isinstance(raw, StrVal) and eq(p.o, r.lo)
        so(st, ok, 'splits the text of the header')
        if not ok:
            raise DeadPath()
        raw = StrVal(raw.n, strnode(st, raw))
        so(st, ge(r.size, add(raw.n, 1)), 'splits the text of the header')
        so(st, eq(r.node.read(st, add(r.lo, raw.n)), 0), 'splits the text of the header')
        s = st.fork()
        i = fresh('i', 0)
        s.assume(lt(i, raw.n))
        so(s, eq(r.node.read(s, add(r.lo, i)), raw.node.read(s, i)), 'splits the text of the header')
        rb = cellval(st, self.P, self.off['raw_header_'][0], 32)
        so(st, rb.buf is None or rb.buf != p.r, 'splits a copy of the header')
        same_text(eng, st, models.getstr(eng, st, av[2]), self.delim, 'splits the header with the delimiter')
        out = []
        f, x = self.no_memory(st)
        out.append((f, 'throw', x))
        w = st.wreg(p.r)
        nm = fresh_name('header')
        w.node = bytefn(nm)
        hb, hl = z3.Function(nm + '.begin', ZI, ZI), z3.Function(nm + '.length', ZI, ZI)
        zn = z(raw.n)

        def beg(j):
            e = hb(z(j))
            return atom(e, 0, 1 << 41, [e + hl(z(j)) <= zn])

        def ln(j):
            e = hl(z(j))
            return atom(e, 0, 1 << 41, [e + hb(z(j)) <= zn])
        V = st.new_region('header fields', 'words', 0, 'heap')

        def word(k):
            c = k % 2 if isinstance(k, int) else k.c % 2
            if isinstance(k, Lin) and any(x % 2 for x in k.t.values()):
                raise Unsupported('begin or end of a field')
            j = (k - c) // 2 if isinstance(k, int) else Lin({i: x // 2 for i, x in k.t.items()}, (k.c - c) // 2)
            return Ptr(p.r, add(beg(j), ln(j)) if c else beg(j))
        V.node = SBase(word, nm + '.views')
        V.unit = 16
        n = fresh('fields.n', 1, 1 << 40)
        V.size = scale(n, 16)
        S = (n, w.node, beg, ln, V.rid)
        wm = st.wreg(me.r)
        for path, (o, k, ty) in self.soff.items():
            a = add(me.o, o)
            if path == 'split_data_':
                old = cellval(st, me.r, a, 8)
                if isinstance(old, Ptr) and old.r:
                    st.wreg(old.r).alive = False
                for q, v in enumerate((Ptr(V.rid, 0), Ptr(V.rid, V.size), Ptr(V.rid, V.size))):
                    wm.cells[a + 8 * q] = (8, v)
            elif path != 'error_':
                wm.cells[a] = (k, Ptr(p.r, fresh(path)) if ty == 'ptr' else boolint(fresh_bool(path)) if ty == 'bool' else fresh(path, 0, 1 << 41))
        res = Ptr(me.r, add(me.o, self.soff['split_data_'][0]))
        ea = add(me.o, self.soff['error_'][0])
        en = self.soff['error_'][1]
        f = st.fork()
        if self.cfg.mode == 'throw':
            m = self.message('split error')
            f, x = self.throwing(eng, f, m)
            self.log(f, 'split', False, m)
            out.append((f, 'throw', x))
        else:
            m = self.error(f, 'split error', False)
            f.wreg(me.r).cells[ea] = (en, m)
            self.log(f, 'split', False, m)
            out.append((f, 'ret', res))
        st.wreg(me.r).cells[ea] = (en, self.error(st, '', True))
        self.log(st, 'split', True)
        st.ghost['split'] = S
        out.append((st, 'ret', res))
        return Forks(out)

    # ---- the library's searches --------------------------------------------------
    def range(self, eng, st, a, b):
        a, b = norm_ptr(a), norm_ptr(b)
        if a.r == b.r and (a.r == 0 or sub(a.o, b.o) == 0):
            return None
        r = st.mem.get(a.r)
        if r is None or a.r != b.r or r.kind != 'words' or r.stride != 32:
            raise Unsupported('search in other elements')
        eng.obl(st, And(bool(r.alive), le(r.lo, a.o), le(a.o, b.o), le(b.o, r.end())), 'elements searched exist')
        return r, eng.divexact(st, a.o, 32), eng.divexact(st, b.o, 32)

    def interesting(self, k0, k1):
        """elements about which a search says something"""
        out = [self.I, self.J]
        if isinstance(k0, int) and isinstance(k1, int) and k1 - k0 <= 8:
            out += list(range(k0, k1))
        return out

    def at(self, st, r, k, k0, k1, f):
        """what f says about the token of element k, if it is searched"""
        s = st.fork()
        s.assume(And(le(k0, k), lt(k, k1)))
        if not s.consistent():
            return
        for c, v in elements(s, r.node, k):
            if isinstance(v, StrVal):
                g = f(token(s, v))
                st.assume(Implies(And(le(k0, k), lt(k, k1), c), g))

    def found(self, st, *ev):
        st.ghost['found'] = st.ghost.get('found', ()) + (ev,)

    def find(self, eng, st, av, ins, name):
        """std::find: the first equal element"""
        x = self.range(eng, st, av[0], av[1])
        v = models.getstr(eng, st, av[2])
        t = token(st, v)
        if x is None:
            return norm_ptr(av[1])
        r, k0, k1 = x
        p = fresh('found', 0, 1 << 41)
        st.assume(And(le(k0, p), le(p, k1)))
        self.at(st, r, p, k0, k1, lambda u: eq(u, t))
        for k in self.interesting(k0, k1):
            self.at(st, r, k, k0, k1, lambda u: Implies(lt(k, p), Not(eq(u, t))))
        self.found(st, r.rid, p, v)
        return Ptr(r.rid, scale(p, 32))

    def count(self, eng, st, av, ins, name):
        """std::count: how many elements are equal"""
        x = self.range(eng, st, av[0], av[1])
        v = models.getstr(eng, st, av[2])
        t = token(st, v)
        if x is None:
            return 0
        r, k0, k1 = x
        if isinstance(k0, int) and isinstance(k1, int) and k1 - k0 <= 8:
            n = 0
            for k in range(k0, k1):
                (c, e), = elements(st, r.node, k)
                n = add(n, boolint(eq(token(st, e), t)))
            return n
        n, p, q = fresh('count', 0, 1 << 41), fresh('found', 0, 1 << 41), fresh('found', 0, 1 << 41)
        st.assume(And(le(n, sub(k1, k0)), le(k0, p), le(p, k1), le(p, q), le(q, k1)))
        # p the first, q the second equal element
        st.assume(And(Iff(eq(n, 0), eq(p, k1)), Iff(le(n, 1), eq(q, k1)), Implies(lt(p, k1), lt(p, q))))
        for e in (p, q):
            self.at(st, r, e, k0, k1, lambda u: eq(u, t))
        for k in self.interesting(k0, k1):
            self.at(st, r, k, k0, k1, lambda u: Implies(And(lt(k, q), Not(eq(k, p))), Not(eq(u, t))))
        self.found(st, r.rid, p, v)
        return n

    def equal(self, eng, st, av, ins, name):
        """std::string ==, !=: texts are equal exactly when their tokens are"""
        a, b = models.getstr(eng, st, av[0]), models.getstr(eng, st, av[1])
        e = eq(token(st, a), token(st, b))
        ok = False
        for p, v, q in ((av[0], b, av[1]), (av[1], a, av[0])):
            p = norm_ptr(p)
            r = st.mem.get(p.r)
            if r is not None and r.kind == 'words' and r.stride == 32:
                # an element of a vector of texts is compared
                ok = True
                self.found(st, p.r, eng.divexact(st, p.o, 32), v)
                self.seen(eng, st, r, norm_ptr(q))
        return boolint(e if 'operator==' in demangle(name) else Not(e))

    def compare(self, eng, st, av, ins, name):
        e = self.equal(eng, st, av, ins, 'std::operator==')
        r = fresh('compare', -1, 1)
        st.assume(Iff(eq(r, 0), eq(e, 1)))
        return r

    def seen(self, eng, st, r, q):
        """a loop compares the elements of r with the text at q"""
        o = st.mem.get(q.r)
        if o is None:
            return
        for i in eng.loop_stack[-1:]:
            s = eng.hints[i.key].setdefault('compared', set())
            k = (r.name, o.name, q.o) if isinstance(q.o, int) else None
            if k and k not in s:
                s.add(k)
                i.data['more'] = True

    # ---- vectors of strings ---------------------------------------------------------
    def vec_init(self, eng, st, av, ins, name):
        """std::vector<std::string>{...}: copies of the elements"""
        me = norm_ptr(av[0])
        src, n = norm_ptr(av[1]), eng.uns(st, av[2], 64)
        if not isinstance(n, int):
            raise Unsupported('initializer list of unknown length')
        vals = []
        for k in range(n):
            v = models.getstr(eng, st, padd(src, 32 * k))
            vals.append(StrVal(v.n, strnode(st, v)))
        q = (NULL, NULL, NULL)
        if n:
            V = st.new_region('arguments', 'words', 32 * n, 'heap')
            V.stride = 32
            V.node = SBase(lambda j: UNDEF, 'empty')
            for k, v in enumerate(vals):
                V.node = SStore(V.node, k, v)
            st.ghost['args'] = V.rid
            q = (Ptr(V.rid, 0), Ptr(V.rid, V.size), Ptr(V.rid, V.size))
        for k in range(3):
            eng.store(st, padd(me, 8 * k), q[k], ('p',))

    def vec_clear(self, eng, st, av, ins, name):
        """std::vector<std::string>::clear"""
        me = norm_ptr(av[0])
        b, e = models.vec(eng, st, me)
        if norm_ptr(b).r:
            st.wreg(b.r).size = 0
            eng.store(st, padd(me, 16), b, ('p',))
        eng.store(st, padd(me, 8), b, ('p',))

    def vec_destroy(self, eng, st, av, ins, name):
        """destruction of the elements of a vector of strings"""

    def words_copy(self, eng, st, av, ins, name):
        """std::vector<size_t>: copy construction"""
        me, ot = norm_ptr(av[0]), norm_ptr(av[1])
        b, e = models.vec(eng, st, ot)
        b, e = norm_ptr(b), norm_ptr(e)
        q = (NULL, NULL, NULL)
        if b.r and sub(e.o, b.o) != 0:
            r = st.mem[b.r]
            eng.obl(st, And(bool(r.alive), eq(b.o, r.lo), le(e.o, r.end())), 'copies a vector')
            V = st.new_region('vector storage', 'words', sub(e.o, b.o), 'heap')
            V.node, V.stride = r.node, r.stride
            q = (Ptr(V.rid, 0), Ptr(V.rid, V.size), Ptr(V.rid, V.size))
        for k in range(3):
            eng.store(st, padd(me, 8 * k), q[k], ('p',))

    # ---- loops ---------------------------------------------------------------------
    def key(self, eng, st, fr):
        # each turn of an unrolled loop on its own
        return tuple(sorted((k, v) for k, v in st.ghost.items() if k.startswith('__peel')))

    def at_entry(self, eng, entry, inst):
        a = entry.ghost.get('args')
        k = (inst.fn.name, inst.header)
        if a is not None and entry.mem[a].alive and k not in self.long:
            me = '__peel %d %s' % (inst.depth, inst.header)
            others = sum(v for g, v in entry.ghost.items() if g.startswith('__peel') and g != me)
            if entry.ghost.get(me, 0) > 6 * max(1, others):
                # no loop over the arguments
                self.long.add(k)
                raise Again()
            raise Unroll()

    def at_back(self, eng, H0, b, inst):
        return inst.data.pop('more', False)

    def filled(self, st, r):
        return r is not None and r.kind == 'words' and r.stride == 32 and self.fields(st) is not None

    def havoc_node(self, eng, entry, H, inst, rid):
        r = H.mem[rid]
        if r.kind == 'words' and r.stride == 8:
            nm = fresh_name('hwords')
            f = z3.Function(nm, ZI, ZI)
            v0 = entry.mem[rid].node
            return SBase(lambda j: atom(f(z(j)), 0, (1 << 64) - 1), nm)
        if r.kind != 'words' or r.stride != 32:
            return None
        S = self.fields(entry)
        if S is None or '!fields in %s' % r.name in eng.hints[inst.key]['dropped']:
            return strings('htexts')
        inst.data.setdefault('fill', []).append(rid)
        return SBase(lambda j: self.field(S, j), fresh_name('fields'))

    def candidates(self, eng, entry, H, inst):
        out = []
        S = self.fields(entry)
        for rid in inst.data.get('fill', ()):
            nm = H.mem[rid].name
            K = inst.data.setdefault('K', fresh('K', 0))

            def f(s, iv, rid=rid):
                r = s.mem[rid]
                n = eng.divexact(s, r.size, 32)
                if s is entry or s is H or r.node is not H.mem[rid].node:
                    t = s.fork()
                    t.assume(lt(K, n))
                    if not t.consistent():
                        return True
                    for c, v in elements(t, r.node, K):
                        u = t.fork()
                        u.assume(c)
                        if not is_text(u, v, self.field(S, K)):
                            return None
                return True
            out.append(Cand('!fields in %s' % nm, f))

            def d(s, iv, rid=rid):
                n = eng.divexact(s, s.mem[rid].size, 32)
                return Implies(And(lt(self.I, self.J), lt(self.J, n)), Not(eq(self.tok(s, S, self.I), self.tok(s, S, self.J))))
            out.append(Cand('!different fields in %s' % nm, d))
            out.append(Cand('%s within the fields' % nm, lambda s, iv, rid=rid: le(eng.divexact(s, s.mem[rid].size, 32), S[0])))
        out += self.different(eng, entry, inst)
        return out

    def different(self, eng, entry, inst):
        """elements passed by an index or a pointer differ from the text they were compared with"""
        out = []
        for rn, on, oo in sorted(eng.hints[inst.key].get('compared', ()), key=str):
            rids = [r for r in entry.mem if entry.mem[r].name == rn and entry.mem[r].alive and entry.mem[r].stride == 32]
            oids = [r for r in entry.mem if entry.mem[r].name == on and entry.mem[r].alive]
            if len(rids) != 1 or len(oids) != 1:
                continue
            for item in inst.items:
                if item[0] != 'c':
                    continue
                v0 = cellval(entry, *item[1:])
                if not isinstance(v0, (int, Lin)) and not (isinstance(v0, Ptr) and v0.r == rids[0]):
                    continue
                for K in (self.I, self.J):
                    def f(s, iv, item=item, K=K, rid=rids[0], o=Ptr(oids[0], oo)):
                        v = cellval(s, *item[1:])
                        r = s.mem[rid]
                        if isinstance(v, Ptr):
                            v = eng.divexact(s, v.o, 32)
                        n = eng.divexact(s, r.size, 32)
                        t = peek(eng, s, o)
                        if t is None:
                            return None
                        t = token(s, t)
                        out = True
                        u = s.fork()
                        u.assume(And(le(0, K), lt(K, v), lt(K, n)))
                        if not u.consistent():
                            return True
                        for c, e in elements(u, r.node, K):
                            out = And(out, Implies(And(le(0, K), lt(K, v), lt(K, n), c), Not(eq(token(u, e), t))))
                        return out
                    out.append(Cand('elements of %s before %s differ from %s+%d (%s)' % (rn, item_name(entry, item), on, oo, 'IJ'[K is self.J]), f))
        return out


class Again(Exception):
    """some loop has to be analysed differently"""


def peek(eng, st, p):
    """the text at p, if there is one"""
    r = st.mem[p.r]
    v = cellval(st, p.r, p.o, 32) if r.kind == 'cells' else merged(st, r.node, eng.divexact(st, p.o, 32)) if r.stride == 32 else None
    return v if isinstance(v, StrVal) else None


def strings(name):
    """arbitrary texts"""
    nm = fresh_name(name)
    ln = z3.Function(nm + '.len', ZI, ZI)
    by = z3.Function(nm + '.char', ZI, ZI, ZI)
    tk = z3.Function(nm + '.text', ZI, ZI)

    def rd(j):
        n = atom(ln(z(j)), 0, 1 << 40)
        b = TBase(lambda i: atom(by(z(j), z(i)), -128, 127), nm)
        b.tok = mktok(tk(z(j)), n)
        return StrVal(n, b)
    return SBase(rd, nm)


def is_text(st, v, w):
    """v is provably the text w"""
    if not isinstance(v, StrVal) or not st.proves(eq(v.n, w.n)):
        return False
    if strnode(st, v) is strnode(st, w):
        return True
    s = st.fork()
    i = fresh('i', 0)
    s.assume(lt(i, w.n))
    return not s.consistent() or s.proves(eq(strnode(s, v).read(s, i), strnode(s, w).read(s, i)))


STRV = r'std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>, std::allocator<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?> ?> ?>'
ITER = r'__gnu_cxx::__normal_iterator<std::__cxx11::basic_string<'
STRC = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'

HEADER_CONTRACTS = [
    (r'^ss::parser<.*>::reader::read_next\(\)$', 'read_next'),
    (r'^ss::splitter<.*>::split\(char\*, std::__cxx11::basic_string<.* const&\)$', 'split'),
]
HEADER_LIBRARY = [
    (r'^(?:.*? )?std::find<' + ITER, 'find', 'std::find: the first element equal to the value, or the end'),
    (r'^(?:.*? )?std::count<' + ITER, 'count', 'std::count: how many elements are equal to the value'),
    (r'^(?:.*? )?std::operator[=!]=<char.*?>\(' + STRC + r' const&, ' + STRC + r' const&\)', 'equal', 'std::string: operator==, equality of texts'),
    (r'^' + STRC + r'::compare\(' + STRC + r' const&\) const', 'compare', 'std::string: compare, 0 for equal texts only'),
    (r'^' + STRV + r'::vector\(std::initializer_list<', 'vec_init', 'std::vector<std::string>: construction from a list, clear, destruction'),
    (r'^' + STRV + r'::clear\(\)', 'vec_clear', 'std::vector<std::string>: construction from a list, clear, destruction'),
    (r'^(?:void )?std::_Destroy<std::__cxx11::basic_string', 'vec_destroy', 'std::vector<std::string>: construction from a list, clear, destruction'),
    (r'^std::vector<unsigned long, std::allocator<unsigned long> ?>::vector\(std::vector<unsigned long, std::allocator<unsigned long> ?> const&\)', 'words_copy', 'std::vector<size_t>: copy construction'),
]

SRC = r'''
#include <ss/parser.hpp>
using P = ss::parser<@OPTS@>;
using S = std::string;
using VS = std::vector<std::string>;
extern "C" void drv_header(P* p, VS* v) { new (v) VS(p->header()); }
extern "C" void drv_raw(P* p, S* v) { new (v) S(p->raw_header()); }
extern "C" bool drv_exists(P* p, const S* a) { return p->field_exists(*a); }
extern "C" void drv_use0(P* p) { p->use_fields(); }
extern "C" void drv_use1(P* p, const S* a) { p->use_fields(*a); }
extern "C" void drv_use2(P* p, const S* a, const S* b) { p->use_fields(*a, *b); }
extern "C" void drv_use3(P* p, const S* a, const S* b, const S* c) { p->use_fields(*a, *b, *c); }
'''


def use(name, deadline, op='header', args=1, source='buffer', mode='string', state='split', multiline=False):
    """state: the header has been split before, not yet (empty), or was cleared after an error"""
    long = set()
    while True:
        try:
            return verify(long, name, deadline, op, args, source, mode, state, multiline)
        except Again:
            tasks.LAST.clear()


def verify(long, name, deadline, op, args, source, mode, state, multiline):
    t0 = time.time()
    cfg = Cfg(mode=mode, multiline=multiline)
    mod = build.ir(SRC.replace('@OPTS@', opts(cfg)), 'hd')
    reset()
    ls = [mod.layout(c, LEAF) for c in mod.classes(r'^splitter<')]
    if not ls or any(x != ls[0] for x in ls):
        raise Unsupported('splitter of the header not found')
    soff = ls[0]
    want = {m[len('splitter_.'):] for m in CONVERTER if m.startswith('splitter_.')}
    if set(soff) != want:
        raise Unsupported('members differ from the contract: %s' % ', '.join(sorted(set(soff) ^ want)))
    w = HeaderWorld(cfg, source, soff)
    w.long = long
    eng = Engine(mod, w)
    eng.deadline = deadline
    install_world(eng, w, HEADER_CONTRACTS)
    names = [demangle(f) for f in mod.fns]
    for rx, m in HEADER_CONTRACTS:
        if not any(re.match(rx, n) for n in names):
            raise Unsupported('no function which the contract of %s describes' % m)
    for rx, meth, label in HEADER_LIBRARY:
        def mk(meth, label):
            def f(e, st, av, ins, nm):
                return getattr(w, meth)(e, st, av, ins, nm)
            f.label = label
            return f
        eng.model_res.insert(0, (re.compile(rx), mk(meth, label)))
    st = State(eng)
    b = Built(eng, st, w, mod, the_parser(mod), mode, False)
    if mode == 'throw':
        b.put('error_', 0)
    w.delim = b.vals['reader_.delim_']
    HV = st.wreg(b.vecs['header_'])
    HV.name = 'header_'
    H0 = HV.node = strings('header')
    n0 = 0
    ho = w.off['header_'][0]
    if state == 'split':
        n0 = fresh('header.n', 1, 1 << 40)
        HV.size = scale(n0, 32)
        q = (Ptr(HV.rid, 0), Ptr(HV.rid, HV.size), Ptr(HV.rid, HV.size))
    elif state == 'empty':
        q = (NULL, NULL, NULL)
    else:
        HV.size = 0
        q = (Ptr(HV.rid, 0), Ptr(HV.rid, 0), Ptr(HV.rid, 0))
    for k in range(3):
        b.R.cells[ho + 8 * k] = (8, q[k])
        b.init[ho + 8 * k] = (8, q[k])
    st.ghost['row'] = True
    eof0 = b.vals['eof_']
    raw0 = b.vals['raw_header_']
    fn0 = b.vals['file_name_']
    l0 = b.vals['reader_.line_number_']
    line0 = ite(gt(l0, 0), sub(l0, 1), l0)
    ar = []
    V = None
    if op in ('header', 'raw'):
        V = st.new_region('value', 'cells', 32, 'arg')
        eng.enter(st, mod.fns['drv_' + op], [Ptr(b.R.rid, 0), Ptr(V.rid, 0)])
    else:
        if op == 'exists':
            args = 1
        ar = [string_arg(st, 'argument %d' % k) for k in range(args)]
        eng.enter(st, mod.fns['drv_exists' if op == 'exists' else 'drv_use%d' % args],
                  [Ptr(b.R.rid, 0)] + [Ptr(r.rid, 0) for r, v in ar])
    outs, _ = eng.explore([st], None)
    cov = {}
    so = eng.spec_obl
    nm = {'header': 'header %s', 'raw': 'raw_header %s', 'exists': 'field_exists %s', 'use': 'use_fields %s'}[op]
    READS = ['eof_'] + ['reader_.' + x for x in (
        'next_line_buffer_', 'next_line_buffer_size_', 'curr_char_', 'crlf_', 'line_number_', 'chars_read_', 'next_line_size_',
        'next_line_converter_.error_', 'next_line_converter_.splitter_')]
    for o in outs:
        if not o.consistent():
            continue
        threw = o.final[0] == 'throw'
        if o.ghost.get('alloc failed'):
            so(o, threw and o.final[2] == '_ZTISt9bad_alloc', nm % 'passes on allocation failure')
            continue
        lg = o.ghost.get('log', ())
        splits = [e for e in lg if e[0] == 'split']
        reads = [e for e in lg if e[0] == 'read']
        S = o.ghost.get('split')
        frame = ['error_']
        same_text(eng, o, b.get(o, 'raw_header_'), raw0, nm % 'keeps the text of the header')

        def failed(k, parts):
            cov[k] = cov.get(k, 0) + 1
            if mode == 'throw':
                so(o, threw and o.final[2] == THROW, nm % 'reports: ' + k)
                if threw:
                    x = o.mem[norm_ptr(o.final[1]).r].cells.get(8)
                    same_text(eng, o, x[1] if x else None, text(o, *parts), nm % 'reports: ' + k)
            else:
                so(o, not threw, nm % 'throws in throwing mode only')
                check_error(eng, b, o, nm % 'reports: ' + k, parts, mode)

        def passed(k):
            cov[k] = cov.get(k, 0) + 1
            so(o, not threw, nm % 'throws on errors only')
            if mode != 'throw':
                check_error(eng, b, o, nm % 'is valid: ' + k, None, mode)

        def kept(frame):
            bad = b.unchanged(o, frame)
            so(o, not bad, nm % 'changes nothing else', bad)
            if 'header_' not in frame and state == 'split':
                r = o.mem[HV.rid]
                so(o, bool(r.alive) and r.node is H0, nm % 'keeps the fields of the header')
        if op == 'raw':
            cov['raw'] = 1
            so(o, not lg, nm % 'reads nothing')
            so(o, not threw, nm % 'throws nothing')
            same_text(eng, o, cellval(o, V.rid, 0, 32), raw0, nm % 'is the text of the header')
            kept([])
            continue
        if op == 'header':
            so(o, not reads, nm % 'reads no row')
            so(o, len(splits) == 1, nm % 'splits the header', len(splits))
            if len(splits) != 1:
                continue
            vb, ve = (cellval(o, V.rid, k, 8) for k in (0, 8))
            if not splits[0][1]:
                failed('malformed header', [fn0, ': failed header parsing: ', splits[0][2] if mode != 'bool' else 'x'])
                if not threw:
                    so(o, isinstance(vb, Ptr) and isinstance(ve, Ptr) and vb.r == ve.r and (vb.r == 0 or eq(vb.o, ve.o)), nm % 'no fields of a malformed header')
                kept(frame)
                continue
            passed('fields')
            texts(eng, w, o, vb, ve, S, nm % 'returns the fields')
            kept(frame)
            continue
        # the header is split when it has not been
        needed = state != 'split'
        if op == 'use' and needed:
            d = o.decide(eq(eof0, 1))
            if d is None:
                # at the end nothing may depend on it
                so(o, False, nm % 'looks at the end of the input')
                continue
            needed = not d
        so(o, len(splits) == (1 if needed else 0), nm % 'splits the header once', len(splits))
        if len(splits) != (1 if needed else 0):
            continue
        hb, he = (cellval(o, b.R.rid, ho + k, 8) for k in (0, 8))
        hb, he = norm_ptr(hb), norm_ptr(he)
        empty = b.empty_vec(o, 'header_')
        if needed:
            frame.append('header_')
            if not splits[0][1]:
                so(o, empty, nm % 'keeps no field of a malformed header')
                failed('malformed header', [fn0, ': failed header parsing: ', splits[0][2] if mode != 'bool' else 'x'])
                so(o, not reads, nm % 'reads no row after an error')
                result(eng, o, op, threw, False, nm)
                kept(frame)
                continue
            if empty:
                k = duplicate(eng, w, o, S, nm % 'duplicate only when a field is given twice')
                if k is not None:
                    failed('duplicate', [fn0, ': header contains duplicate: ', w.field(S, k)])
                so(o, not reads, nm % 'reads no row after an error')
                result(eng, o, op, threw, False, nm)
                kept(frame)
                continue
            texts(eng, w, o, hb, he, S, nm % 'keeps the fields')
            s = o.fork()
            s.assume(And(lt(w.I, w.J), lt(w.J, S[0])))
            so(s, Not(eq(w.tok(s, S, w.I), w.tok(s, S, w.J))), nm % 'reports fields which are given twice')
        n = eng.divexact(o, sub(he.o, hb.o), 32) if hb.r else 0
        node = o.mem[hb.r].node if hb.r else None

        def exists(t, at=None):
            """some field of the header is this text"""
            for e in o.ghost.get('found', ()):
                if e[0] == hb.r and hb.r and o.proves(And(lt(e[1], n), le(0, e[1]))):
                    if all(o_eq(o, c, v, t) for c, v in elements(o, node, e[1])):
                        return True
            return False

        def missing(t):
            if not hb.r:
                return True
            s = o.fork()
            s.assume(lt(w.I, n))
            if not s.consistent():
                return True
            for c, v in elements(s, node, w.I):
                u = s.fork()
                u.assume(c)
                if not u.proves(Not(eq(token(u, v), t))):
                    return False
            return True
        toks = [token(o, v) for r, v in ar]
        if op == 'exists':
            so(o, not reads, nm % 'reads no row')
            passed('asked')
            if not threw:
                r = eng.uns(o, o.final[1], 1)
                s = o.decide(eq(r, 1))
                if s is None:
                    yes, no = o.fork(), o.fork()
                    yes.assume(eq(r, 1))
                    no.assume(eq(r, 0))
                else:
                    yes, no = (o, None) if s else (None, o)
                o_ = o
                if yes is not None:
                    o = yes
                    cov['exists'] = 1
                    so(o, exists(toks[0]), nm % 'true for a field of the header only')
                if no is not None:
                    o = no
                    cov['missing'] = 1
                    so(o, missing(toks[0]), nm % 'false for other fields only')
                o = o_
            kept(frame)
            continue
        # use_fields
        done = False
        if args == 0:
            failed('no fields', ["received invalid argument for 'use_fields'"])
            done = True
        for k in range(args):
            t = toks[k]
            twice = Or(*[eq(t, u) for i, u in enumerate(toks) if i != k])
            d = o.decide(twice)
            if d:
                failed('field used twice', [fn0, ': given field used multiple times: ', ar[k][1]])
                done = True
                break
            so(o, d is False, nm % 'compares the fields given')
            if exists(t):
                continue
            if missing(t):
                failed('field missing', [fn0, ': header does not contain given field: ', ar[k][1]])
                done = True
                break
            so(o, False, nm % 'looks for the fields in the header')
            done = True
            break
        if done:
            so(o, not reads, nm % 'reads no row after an error')
            kept(frame)
            continue
        passed('fields used')
        if threw:
            continue
        regs = set()
        for c in ('converter_', 'next_line_converter_'):
            x = 'reader_.%s.' % c
            so(o, eq(b.get(o, x + 'number_of_columns_'), n), nm % 'the converters know the number of columns')
            a = w.off[x + 'column_mappings_'][0]
            mb, me = norm_ptr(cellval(o, b.R.rid, a, 8)), norm_ptr(cellval(o, b.R.rid, a + 8, 8))
            ok = mb.r != 0 and mb.r == me.r and o.mem[mb.r].alive and sub(me.o, mb.o) == 8 * args
            so(o, ok, nm % 'the converters know the fields')
            if not ok:
                continue
            regs.add(mb.r)
            for k in range(args):
                m = o.mem[mb.r].node.read(o, add(eng.divexact(o, mb.o, 8), k))
                ok = isinstance(m, (int, Lin))
                so(o, ok and And(le(0, m), lt(m, n)), nm % 'maps each field to a column')
                if ok:
                    for cd, v in elements(o, node, m):
                        u = o.fork()
                        u.assume(cd)
                        so(u, isinstance(v, StrVal) and eq(token(u, v), toks[k]), nm % 'maps each field to its column')
        so(o, len(regs) == 2, nm % 'each converter has its own mapping')
        frame += ['reader_.%s.%s' % (c, m) for c in ('converter_', 'next_line_converter_') for m in ('column_mappings_', 'number_of_columns_')]
        want = And(eq(line0, b.vals['header_line_']), eq(eof0, 0))
        d = o.decide(want)
        so(o, d is not None, nm % 'skips the header exactly when it is waiting')
        if d:
            cov['header skipped'] = 1
            so(o, len(reads) == 1, nm % 'skips the header when it is waiting', len(reads))
            if len(reads) == 1:
                so(o, eq(b.get(o, 'eof_'), 0 if reads[0][1] else 1), nm % 'end of file exactly when no row follows')
            frame += READS
        else:
            cov['header read before'] = 1
            so(o, not reads, nm % 'skips no other row')
        kept(frame)
    return tasks.summarise(eng, name, t0, cov)


def o_eq(o, c, v, t):
    u = o.fork()
    u.assume(c)
    return isinstance(v, StrVal) and u.proves(eq(token(u, v), t))


def result(eng, o, op, threw, want, nm):
    if op == 'exists' and not threw:
        eng.spec_obl(o, eq(eng.uns(o, o.final[1], 1), int(want)), nm % 'false after an error')


def texts(eng, w, o, vb, ve, S, nm):
    """the vector holds exactly the fields of the header"""
    so = eng.spec_obl
    vb, ve = norm_ptr(vb), norm_ptr(ve)
    ok = isinstance(vb, Ptr) and vb.r and vb.r == ve.r and o.mem[vb.r].alive and o.mem[vb.r].stride == 32
    so(o, bool(ok), nm)
    if not ok:
        return
    so(o, And(eq(vb.o, 0), eq(eng.divexact(o, ve.o, 32), S[0])), nm + ': their number')
    k = fresh('k', 0)
    s = o.fork()
    s.assume(lt(k, S[0]))
    for c, v in elements(s, o.mem[vb.r].node, k):
        u = s.fork()
        u.assume(c)
        so(u, is_text(u, v, w.field(S, k)), nm + ': their text')


def duplicate(eng, w, o, S, nm):
    """the first field which is given before"""
    n = S[0]
    best = None
    for e in o.ghost.get('found', ()):
        for v in e[1:]:
            if not isinstance(v, StrVal):
                continue
            node = strnode(o, v)
            if not (isinstance(node, SCopy) and node.s is S[1]):
                continue
            if isinstance(node.so, int) or node.so.c or len(node.so.t) != 1:
                continue
            x = ATOMS[next(iter(node.so.t))][0]
            if not (z3.is_app(x) and str(x.decl()) == S[1].name + '.begin'):
                continue
            a = z3.simplify(x.arg(0))
            j = a.as_long() if z3.is_int_value(a) else atom(x.arg(0))
            if e[0] is None:
                continue
            i = e[1]
            if o.proves(And(le(0, j), lt(j, n), le(0, i), lt(i, j), eq(w.tok(o, S, i), w.tok(o, S, j)))):
                best = j
    eng.spec_obl(o, best is not None, nm)
    if best is not None:
        s = o.fork()
        s.assume(And(lt(w.I, w.J), lt(w.J, best)))
        eng.spec_obl(s, Not(eq(w.tok(s, S, w.I), w.tok(s, S, w.J))), nm + ': the first one')
    return best

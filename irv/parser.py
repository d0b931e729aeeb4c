"""Contracts of ss::parser: object layout, input stream, reading of rows."""
import re
import time
import z3
from .val import *
from .mem import *
from . import models, tasks, build
from .engine import Engine, State, norm_ptr, padd, DeadPath, Forks, demangle
from .loops import Cand, cellval
from .reader import Stream, block
from .split import Cfg

LEAF = lambda n: n.startswith(('basic_string<', 'vector<'))

CONVERTER = ['error_', 'splitter_.error_', 'splitter_.unterminated_quote_', 'splitter_.done_', 'splitter_.resplitting_',
             'splitter_.escaped_', 'splitter_.split_data_', 'splitter_.begin_', 'splitter_.curr_', 'splitter_.end_',
             'splitter_.line_', 'column_mappings_', 'number_of_columns_']
READER = ['buffer_', 'next_line_buffer_', 'helper_buffer_', 'buffer_size_', 'next_line_buffer_size_',
          'helper_buffer_size', 'delim_', 'file_', 'csv_data_buffer_', 'csv_data_size_', 'curr_char_', 'crlf_',
          'line_number_', 'chars_read_', 'next_line_size_'] + \
         [c + '.' + m for c in ('converter_', 'next_line_converter_') for m in CONVERTER]
PARSER = ['file_name_', 'error_', 'header_', 'raw_header_', 'header_line_', 'row_line_', 'eof_'] + \
         ['reader_.' + m for m in READER]


class World(Stream):
    """the input, the parser object and the ghost state of reading"""

    def __init__(self, ignore_empty=False, source='buffer'):
        super().__init__()
        self.ignore_empty, self.source = ignore_empty, source
        self.G = None       # ghost region: 0 start of the last line read, 8 lines read, 16 any line read, 24 position in the file
        self.P = None
        self.off = None

    # ---- the physical line at t, as the specification sees it --------------
    def content_len(self, st, t):
        e = self.nl(t)
        last, prev = self.D.read(st, sub(e, 1)), self.D.read(st, sub(e, 2))
        cr = And(ge(sub(e, 2), t), eq(prev, 13))
        return ite(eq(last, 10), ite(cr, sub(sub(e, 2), t), sub(sub(e, 1), t)), sub(e, t))

    def crlf(self, st, t):
        e = self.nl(t)
        return And(eq(self.D.read(st, sub(e, 1)), 10), ge(sub(e, 2), t), eq(self.D.read(st, sub(e, 2)), 13))

    # ---- ghost -----------------------------------------------------------
    def g(self, st, o):
        return st.mem[self.G].cells[o][1]

    def setg(self, st, o, v):
        st.wreg(self.G).cells[o] = (8, v)

    def m(self, st, path, P=None):
        o, n, _ = self.off[path]
        return cellval(st, P or self.P, o, n)

    # ---- loops -----------------------------------------------------------
    def line_blocks(self, st):
        r = st.mem.get(self.P) if self.P else None
        return r

    def havoc_node(self, eng, entry, H, inst, rid):
        if self.P is None or self.G is None:
            return None
        o = self.off['reader_.next_line_buffer_'][0]
        p = cellval(entry, self.P, o, 8)
        if not (isinstance(p, Ptr) and p.r == rid):
            return None
        if '!line kept in %s' % H.mem[rid].name in eng.hints[inst.key]['dropped']:
            return None
        inst.data.setdefault('kept', []).append(rid)
        return bytefn(fresh_name('hline'))

    def havoc(self, eng, entry, H, inst):
        for rid in inst.data.get('kept', ()):
            t, lo = self.g(H, 0), H.mem[rid].lo
            n = self.content_len(H, t)
            has = eq(self.g(H, 16), 1)
            H.mem[rid].node = SSplit(lambda j, lo=lo, n=n, has=has: And(has, le(lo, j), lt(j, add(lo, n))),
                                     SCopy(self.D, 0, 0, self.D, 0), H.mem[rid].node, sub(t, lo))

    def candidates(self, eng, entry, H, inst):
        out = super().candidates(eng, entry, H, inst)
        if self.G is None:
            return out
        names = {}
        for aid, item in inst.amap.items():
            if item[0] != 'c' or item[1] == self.G:
                continue
            r = entry.mem[item[1]]
            nm = r.name + (str(item[2]) if item[2] else '')

            def f(s, iv, item=item):
                v = cellval(s, *item[1:])
                if not isinstance(v, (int, Lin)):
                    return None
                return Implies(eq(self.g(s, 16), 1), eq(v, self.content_len(s, self.g(s, 0))))

            def h(s, iv, item=item):
                v = cellval(s, *item[1:])
                return eq(v, self.g(s, 24)) if isinstance(v, (int, Lin)) else None

            def k(s, iv, item=item):
                v = cellval(s, *item[1:])
                return Implies(eq(self.g(s, 16), 1), eq(v, self.nl(self.g(s, 0)))) if isinstance(v, (int, Lin)) else None

            def k2(s, iv, item=item):
                v = cellval(s, *item[1:])
                return Implies(eq(self.g(s, 16), 1), eq(v, self.g(s, 0))) if isinstance(v, (int, Lin)) else None

            def k3(s, iv, item=item):
                v = cellval(s, *item[1:])
                if not isinstance(v, (int, Lin)):
                    return None
                return Implies(eq(self.g(s, 16), 1), eq(v, boolint(self.crlf(s, self.g(s, 0)))))
            v0 = cellval(entry, *item[1:])

            def k4(s, iv, item=item, v0=v0):
                v = cellval(s, *item[1:])
                return Implies(eq(self.g(s, 16), 0), eq(v, v0)) if isinstance(v, (int, Lin)) else None
            if isinstance(v0, (int, Lin)):
                out.append(Cand('%s initial until a line is read' % nm, k4))
                out += [Cand('%s is the length of the line' % nm, f), Cand('%s is the position' % nm, h),
                        Cand('%s is behind the line' % nm, k), Cand('%s is the start of the line' % nm, k2),
                        Cand('%s tells the line ending' % nm, k3)]
        if any(i[:2] == ('c', self.G) for i in inst.amap.values()):
            out.append(Cand('lines seen', lambda s, iv: And(Or(eq(self.g(s, 16), 0), eq(self.g(s, 16), 1)),
                                                            Implies(eq(self.g(s, 16), 1), gt(self.g(s, 8), 0)))))
            out.append(Cand('line within the input', lambda s, iv: Implies(eq(self.g(s, 16), 1), And(
                le(0, self.g(s, 0)), lt(self.g(s, 0), self.N)))))
            out.append(Cand('position within the input', lambda s, iv: And(le(0, self.g(s, 24)), le(self.g(s, 24), self.N))))
            out.append(Cand('skipped lines are empty', lambda s, iv: Implies(eq(self.g(s, 16), 1), eq(
                self.content_len(s, self.g(s, 0)), 0))))
        for rid in inst.data.get('kept', ()):
            nm = H.mem[rid].name
            sk = inst.data.setdefault('sk%d' % rid, fresh('sk', 0))

            def q(s, iv, rid=rid, sk=sk):
                t, r = self.g(s, 0), s.mem[rid]
                n = self.content_len(s, t)
                s2 = s.fork()
                c = And(eq(self.g(s, 16), 1), lt(sk, n))
                s2.assume(c)
                if not s2.consistent():
                    return True
                return Implies(c, eq(r.node.read(s2, add(r.lo, sk)), self.D.read(s2, add(t, sk))))
            out.append(Cand('!line kept in %s' % nm, q))

            def zt(s, iv, rid=rid):
                t, r = self.g(s, 0), s.mem[rid]
                return Implies(eq(self.g(s, 16), 1), eq(r.node.read(s, add(r.lo, self.content_len(s, t))), 0))
            out.append(Cand('line in %s terminated' % nm, zt))
            out.append(Cand('%s holds the line' % nm, lambda s, iv, rid=rid: Implies(eq(self.g(s, 16), 1), ge(
                s.mem[rid].size, add(sub(self.nl(self.g(s, 0)), self.g(s, 0)), 1)))))
        return out

    # ---- contracts of the ways to read a physical line -----------------------
    def line_read(self, eng, st, P, NN, pos):
        """effects of reading the line at pos into the block; returns its length"""
        if self.G is not None:
            eng.spec_obl(st, eq(pos, self.g(st, 24)), 'reads the next line of the input')
            self.note_read(eng, st, pos)
            self.setg(st, 0, pos)
            self.setg(st, 8, add(self.g(st, 8), 1))
            self.setg(st, 16, 1)
            self.setg(st, 24, self.nl(pos))
        n = sub(self.nl(pos), pos)
        p, cap = cellval(st, *P), cellval(st, *NN)
        size = fresh('cap', 0, 1 << 61)
        st.assume(gt(size, n))
        if p.r == 0:
            r = st.new_region('line', 'bytes', size, 'heap')
            lo = 0
        else:
            r = st.wreg(p.r)
            lo = fresh('lo', 0, 1 << 62)
            st.assume(ge(size, r.size))
            r.lo, r.size = lo, size
        r.node = SStore(SCopy(bytefn(fresh_name('rest')), lo, n, self.D, pos), add(lo, n), 0)
        st.wreg(P[0]).cells[P[1]] = (8, Ptr(r.rid, lo))
        st.wreg(NN[0]).cells[NN[1]] = (8, size)
        return n

    def note_read(self, eng, st, pos):
        """what the specification of the caller says about reading the line at pos"""
        so = eng.spec_obl
        has = self.g(st, 16)
        if self.ignore_empty:
            so(st, Implies(eq(has, 1), eq(self.content_len(st, self.g(st, 0)), 0)), 'row reading skips empty lines only')
        else:
            so(st, eq(has, 0), 'row reading skips no line')

    def pre_block(self, eng, st, P, NN, what):
        p, cap = norm_ptr(cellval(st, *P)), cellval(st, *NN)
        if p.r == 0:
            eng.obl(st, eq(cap, 0), '%s: no block, no size' % what)
            return
        r = st.mem.get(p.r)
        ok = r is not None and r.alive and r.store == 'heap'
        eng.obl(st, ok, '%s: block allocated' % what)
        if not ok:
            raise DeadPath()
        eng.obl(st, And(eq(p.o, r.lo), eq(cap, r.size)), '%s: start and size of the block' % what)

    def get_line_buffer(self, eng, st, av, ins, name):
        """contract of ss::get_line_buffer (proved by the task reader.get_line_buffer)"""
        a = [norm_ptr(x) for x in (av[0], av[1], av[2], av[4])]
        P, NN, C = (a[0].r, a[0].o, 8), (a[1].r, a[1].o, 8), (a[3].r, a[3].o, 8)
        if a[2].r != self.B:
            eng.obl(st, False, 'reads the input')
            raise DeadPath()
        eng.obl(st, And(eq(a[2].o, 0), eq(eng.uns(st, av[3], 64), self.N)), 'get_line_buffer: whole input')
        self.pre_block(eng, st, P, NN, 'get_line_buffer')
        c = cellval(st, *C)
        out = []
        e = st.fork()
        e.assume(ge(c, self.N))
        if e.consistent():
            self.at_end(eng, e, c)
            out.append((e, 'ret', -1))
        st.assume(lt(c, self.N))
        if st.consistent():
            f = st.fork()
            f.ghost['alloc failed'] = True
            x = f.new_region('exception', 'cells', 8, 'exc')
            g = dict(f.ghost.get('__exctype', {}))
            g[x.rid] = '_ZTISt9bad_alloc'
            f.ghost['__exctype'] = g
            out.append((f, 'throw', (Ptr(x.rid, 0), '_ZTISt9bad_alloc')))
            n = self.line_read(eng, st, P, NN, c)
            st.wreg(C[0]).cells[C[1]] = (8, self.nl(c))
            out.append((st, 'ret', n))
        return Forks(out)

    def at_end(self, eng, st, pos):
        st.ghost['ended'] = True

    def getline(self, eng, st, av, ins, name):
        a = [norm_ptr(x) for x in av[:3]]
        P, NN = (a[0].r, a[0].o, 8), (a[1].r, a[1].o, 8)
        if a[2].r != self.F:
            eng.obl(st, False, 'getline: reads the open file')
            raise DeadPath()
        eng.obl(st, bool(st.mem[self.F].alive), 'getline: file is open')
        self.pre_block(eng, st, P, NN, 'getline')
        pos = self.g(st, 24)
        en = models.errno_loc(eng, st, av, ins, name)
        out = []

        def reblock(s):
            # even when nothing is read the block may have been (re)allocated
            p = cellval(s, *P)
            s2 = s.fork()
            size = fresh('cap', 1, 1 << 61)
            if p.r == 0:
                r = s2.new_region('line', 'bytes', size, 'heap')
            else:
                r = s2.wreg(p.r)
                r.lo = fresh('lo', 0, 1 << 62)
                s2.assume(ge(size, r.size))
                r.size = size
            r.node = bytefn(fresh_name('rest'))
            s2.wreg(P[0]).cells[P[1]] = (8, Ptr(r.rid, r.lo))
            s2.wreg(NN[0]).cells[NN[1]] = (8, size)
            return s2
        e = st.fork()
        e.assume(ge(pos, self.N))
        if e.consistent():
            e2 = reblock(e)
            for s in (e, e2):
                self.at_end(eng, s, pos)
                out.append((s, 'ret', -1))
        st.assume(lt(pos, self.N))
        if st.consistent():
            f = st.fork()
            f.ghost['alloc failed'] = True
            f.wreg(en.r).cells[en.o] = (4, 12)
            out.append((f, 'ret', -1))
            n = self.line_read(eng, st, P, NN, pos)
            out.append((st, 'ret', n))
        return Forks(out)


WORLD_CONTRACTS = [
    (r'^ss::get_line_buffer\(char\*&, unsigned long&, char const\*, unsigned long, unsigned long&\)$', 'get_line_buffer'),
]


def install_world(eng, w, contracts=WORLD_CONTRACTS):
    models.install(eng)

    def mk(meth, label):
        def f(e, st, av, ins, name):
            return getattr(w, meth)(e, st, av, ins, name)
        f.label = label
        return f
    for rx, meth in contracts:
        eng.model_res.insert(0, (re.compile(rx), mk(meth, 'contract of ss::%s' % meth)))
    eng.models['getline'] = mk('getline', 'getline: reads the next physical line into a block it may reallocate; -1 at the end, -1 and ENOMEM when allocation fails')


# ---- objects -------------------------------------------------------------
def check_members(off, want):
    extra = set(off) - set(want)
    missing = set(want) - set(off)
    if extra or missing:
        raise Unsupported('members differ from the contract: %s' % ', '.join(sorted(extra | missing)))


def arbitrary(st, name, size, ty):
    if ty.startswith('basic_string<'):
        return StrVal(fresh(name + '.len', 0, 1 << 40), bytefn(fresh_name(name)))
    if ty == 'bool':
        return boolint(fresh_bool(name))
    if ty in ('unsigned long', 'long'):
        return fresh(name, 0, 1 << 60)
    return None


def pairs_vector(st, name, line):
    V = st.new_region(name, 'words', 0, 'heap')
    V.node = wordfn(fresh_name(name), lambda a, j: Ptr(line, a))
    V.size = scale(fresh(name + '.n', 0, 1 << 50), 16)
    return V


def words_vector(st, name):
    V = st.new_region(name, 'words', 0, 'heap')
    V.node = wordfn(fresh_name(name), lambda a, j: a)
    V.size = scale(fresh(name + '.n', 0, 1 << 50), 8)
    return V


class Built:
    """a parser object in an arbitrary reachable state"""

    def __init__(self, eng, st, w, mod, cls, mode, first, eof=False):
        self.w = w
        self.off = w.off = mod.layout(cls, LEAF)
        check_members(self.off, PARSER)
        size = mod._di()[cls]['size']
        R = st.new_region('parser', 'cells', size, 'arg')
        w.P = R.rid
        G = st.new_region('ghost', 'cells', 128, 'arg')
        w.G = G.rid
        p0 = self.p0 = fresh('pos', 0, 1 << 60)
        st.assume(le(p0, w.N))
        for o, v in ((0, 0), (8, 0), (16, 0), (24, p0)):
            G.cells[o] = (8, v)
        B = st.new_region('input', 'bytes', w.N, 'const')
        B.node = w.D
        w.B = B.rid
        F = st.new_region('FILE', 'cells', 8, 'arg')
        w.F = F.rid
        self.vals = v = {}
        blocks = {}
        for b, n in (('buffer_', 'buffer_size_'), ('next_line_buffer_', 'next_line_buffer_size_'),
                     ('helper_buffer_', 'helper_buffer_size')):
            if first:
                v['reader_.' + b], v['reader_.' + n] = NULL, 0
            else:
                k = fresh(b, 1, 1 << 60)
                blocks[b] = block(st, b, k)
                v['reader_.' + b], v['reader_.' + n] = Ptr(blocks[b].rid, 0), k
        self.blocks = blocks
        v['reader_.file_'] = Ptr(F.rid, 0) if w.source == 'file' else NULL
        v['reader_.csv_data_buffer_'] = NULL if w.source == 'file' else Ptr(B.rid, 0)
        v['reader_.csv_data_size_'] = 0 if w.source == 'file' else w.N
        v['reader_.curr_char_'] = p0
        self.vecs = {}
        for path, (o, n, ty) in self.off.items():
            x = v.get(path)
            if x is None and ty.startswith('vector<'):
                if first:
                    q = (NULL, NULL, NULL)
                else:
                    if 'split_data_' in path:
                        line = blocks['next_line_buffer_' if 'next_line_converter_' in path else 'buffer_'].rid
                        V = pairs_vector(st, path, line)
                    elif 'column_mappings_' in path:
                        V = words_vector(st, path)
                    else:
                        V = st.new_region(path, 'words', 0, 'heap')
                        V.stride = 32
                        ln = z3.Function(fresh_name('hlen'), z3.IntSort(), z3.IntSort())
                        by = z3.Function(fresh_name('hchar'), z3.IntSort(), z3.IntSort(), z3.IntSort())
                        V.node = SBase(lambda j, ln=ln, by=by: StrVal(atom(ln(z(j)), 0, 1 << 40), SBase(
                            lambda i, j=j, by=by: atom(by(z(j), z(i)), -128, 127))), 'strings')
                        V.size = scale(fresh(path + '.n', 0, 1 << 40), 32)
                    self.vecs[path] = V.rid
                    q = (Ptr(V.rid, 0), Ptr(V.rid, V.size), Ptr(V.rid, V.size))
                for k in range(3):
                    R.cells[o + 8 * k] = (8, q[k])
                continue
            if x is None and ty == 'ptr':
                x = UNDEF
            if x is None:
                x = arbitrary(st, path, n, ty)
            if x is None:
                raise Unsupported('member %s of type %s' % (path, ty))
            v[path] = x
            if x is not UNDEF:
                R.cells[o] = (n, x)
        self.R = R
        self.init = dict(R.cells)

    def get(self, st, path):
        o, n, _ = self.off[path]
        return cellval(st, self.R.rid, o, n)

    def put(self, path, x):
        o, n, _ = self.off[path]
        self.R.cells[o] = (n, x)
        self.init[o] = (n, x)
        self.vals[path] = x

    def unchanged(self, st, except_):
        """cells of the object outside the frame which may have changed"""
        ok = []
        for path in except_:
            for q, (o, n, _) in self.off.items():
                if q == path or q.startswith(path + '.'):
                    ok.append((o, o + n))
        bad = []
        now = st.mem[self.R.rid].cells
        for o, (n, x) in self.init.items():
            if any(a <= o < b for a, b in ok):
                continue
            y = now.get(o)
            if y is None or y[0] != n or not same(st, x, y[1]):
                bad.append([p for p, (a, m, _) in self.off.items() if a <= o < a + m])
        return bad

    def empty_vec(self, st, path):
        o, n, _ = self.off[path]
        b, e = cellval(st, self.R.rid, o, 8), cellval(st, self.R.rid, o + 8, 8)
        return isinstance(b, Ptr) and isinstance(e, Ptr) and b.r == e.r and (b.r == 0 or st.proves(eq(b.o, e.o)))


def same(st, x, y):
    if x is y:
        return True
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        x, y = norm_ptr(x), norm_ptr(y)
        return x.r == y.r and (x.r == 0 or st.proves(eq(x.o, y.o)))
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
        return st.proves(eq(x, y))
    if isinstance(x, StrVal) and isinstance(y, StrVal):
        return x.n == y.n and x.node is y.node
    return x == y if type(x) == type(y) else False


def is_clear(o, v, mode):
    if mode == 'string':
        return isinstance(v, StrVal) and o.proves(eq(v.n, 0))
    return isinstance(v, (int, Lin)) and o.proves(eq(v, 0))


def opts(cfg, extra=()):
    return ', '.join([x for x in [cfg.opts()] if x] + list(extra))


def the_parser(mod):
    c = mod.classes(r'^parser<')
    if len(c) != 1:
        raise Unsupported('parser class not found')
    return c[0]


READ_NEXT = r'''
#include <ss/parser.hpp>
using P = ss::parser<@OPTS@>;
extern "C" bool drv_read_next(P* p) { return p->reader_.read_next(); }
'''


def read_next(name, deadline, source, ignore_empty, first, mode='string', **kw):
    """reader::read_next against the physical lines of the input"""
    t0 = time.time()
    cfg = Cfg(mode=mode, multiline=kw.get('multiline', False), **{k: kw[k] for k in kw if k in ('quote', 'escape', 'tl', 'tr')})
    mod = build.ir(READ_NEXT.replace('@OPTS@', opts(cfg, ['ss::ignore_empty'] if ignore_empty else [])), 'rn')
    reset()
    w = World(ignore_empty, source)
    eng = Engine(mod, w)
    eng.deadline = deadline
    install_world(eng, w)
    st = State(eng)
    b = Built(eng, st, w, mod, the_parser(mod), mode, first)
    k0 = b.vals['reader_.line_number_']
    s0 = b.vals['reader_.next_line_size_']
    eng.enter(st, mod.fns['drv_read_next'], [Ptr(b.R.rid, 0)])
    outs, _ = eng.explore([st], None)
    cov = {}
    so = eng.spec_obl
    nm = 'read_next %s'
    g = w.g
    for o in outs:
        if not o.consistent():
            continue
        get = lambda p: b.get(o, 'reader_.' + p)
        if o.final[0] == 'throw':
            k = 'allocation failure'
            so(o, bool(o.ghost.get('alloc failed')) and o.final[2] == '_ZTISt9bad_alloc', nm % 'throws bad_alloc on allocation failure only')
            cov[k] = cov.get(k, 0) + 1
            continue
        so(o, not o.ghost.get('alloc failed'), nm % 'reports allocation failure')
        r = eng.uns(o, o.final[1], 1)
        t, lines, has, pos = g(o, 0), g(o, 8), g(o, 16), g(o, 24)
        p, cap = get('next_line_buffer_'), get('next_line_buffer_size_')
        okp = isinstance(p, Ptr) and (norm_ptr(p).r == 0 or o.mem[p.r].alive)
        so(o, okp, nm % 'keeps a valid buffer')
        if okp and norm_ptr(p).r == 0:
            so(o, eq(cap, 0), nm % 'no buffer, no size')
        elif okp:
            so(o, And(eq(p.o, o.mem[p.r].lo), eq(cap, o.mem[p.r].size)), nm % 'start and size of the buffer')
        so(o, eq(get('curr_char_'), pos), nm % 'position behind what was read')
        so(o, is_clear(o, get('next_line_converter_.error_'), mode), nm % 'clears the error')
        so(o, b.empty_vec(o, 'reader_.next_line_converter_.splitter_.split_data_'), nm % 'clears the fields')
        if o.decide(eq(r, 0)) is not False:
            k = 'end of input'
            o2 = o.fork()
            o2.assume(eq(r, 0))
            if o2.consistent():
                so(o2, bool(o2.ghost.get('ended')), nm % 'false at the end of the input only')
                so(o2, ge(pos, w.N), nm % 'false at the end of the input only')
                if ignore_empty:
                    so(o2, Implies(eq(has, 1), eq(w.content_len(o2, t), 0)), nm % 'loses no row at the end')
                else:
                    so(o2, eq(has, 0), nm % 'loses no row at the end')
                so(o2, eq(get('line_number_'), add(k0, add(lines, 1))), nm % 'counts physical lines')
                so(o2, eq(get('chars_read_'), pos), nm % 'position at the end')
                so(o2, eq(get('next_line_size_'), s0), nm % 'keeps the size of the row at the end')
                so(o2, gt(get('line_number_'), k0), nm % 'counts physical lines')
                cov[k] = cov.get(k, 0) + 1
        o.assume(eq(r, 1))
        if o.consistent():
            k = 'row'
            so(o, eq(has, 1), nm % 'reads a line')
            L = w.content_len(o, t)
            if ignore_empty:
                so(o, gt(L, 0), nm % 'row is not empty')
            else:
                so(o, eq(t, b.p0), nm % 'reads the next line')
            so(o, eq(pos, w.nl(t)), nm % 'moves behind the line')
            so(o, eq(get('line_number_'), add(k0, lines)), nm % 'counts physical lines')
            so(o, gt(get('line_number_'), k0), nm % 'counts physical lines')
            so(o, eq(get('chars_read_'), t), nm % 'position is the start of the row')
            so(o, eq(get('next_line_size_'), L), nm % 'size without the line ending')
            so(o, eq(get('crlf_'), boolint(w.crlf(o, t))), nm % 'remembers the line ending')
            rg = o.mem[p.r] if okp and norm_ptr(p).r else None
            so(o, rg is not None, nm % 'row is in the buffer')
            if rg is not None:
                so(o, ge(rg.size, add(sub(w.nl(t), t), 1)), nm % 'space for the line ending')
                so(o, eq(rg.node.read(o, add(rg.lo, L)), 0), nm % 'row is terminated')
                i = fresh('i', 0)
                o.assume(lt(i, L))
                so(o, eq(rg.node.read(o, add(rg.lo, i)), w.D.read(o, add(t, i))), nm % 'row is the text of the line')
            cov[k] = cov.get(k, 0) + 1
        bad = b.unchanged(o, ['reader_.' + x for x in ('next_line_buffer_', 'next_line_buffer_size_', 'curr_char_', 'crlf_',
                                                       'line_number_', 'chars_read_', 'next_line_size_',
                                                       'next_line_converter_.error_', 'next_line_converter_.splitter_')])
        so(o, not bad, nm % 'changes nothing else', bad)
    return tasks.summarise(eng, name, t0, cov)

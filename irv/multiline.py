"""Contract of reader::parse: joining the physical lines of a row."""
import time
import z3
from .val import *
from .mem import *
from . import models, tasks, build
from .engine import Engine, State, norm_ptr, padd, DeadPath, Forks
from .loops import Cand, cellval
from .parser import *
from .parser import LEAF
from .split import Cfg

A, C, B = 0, 1, 2      # before split; joining for resplit; after split or resplit


class Free:
    """reads contents without any path condition"""

    def proves(self, c):
        return c is True

    def decide(self, c):
        return c if isinstance(c, bool) else None


FREE = Free()


class ParseWorld(World):
    """ghost: 32 phase, 40 quote open, 48 shift, 56 lines joined; region W: the text of the row so far"""

    def __init__(self, cfg, source, limit):
        super().__init__(False, source)
        self.cfg, self.limit = cfg, limit
        self.quoted, self.esc = bool(cfg.quote) and cfg.multiline, [ord(c) for c in cfg.escape] if cfg.multiline else []
        self.oddf = {}
        self.W = None

    # ---- trailing escapes ---------------------------------------------------
    def odd(self, st, i):
        """1 iff the number of escape characters which end at i is odd"""
        if not self.esc:
            return 0
        node = st.mem[self.W].node
        f = self.oddf.get(id(node))
        if f is None:
            f = self.oddf[id(node)] = (node, z3.Function(fresh_name('odd'), z3.IntSort(), z3.IntSort()))
        f = f[1]
        e = f(z(i))
        if e.get_id() in ATOMS:
            return Lin({e.get_id(): 1}, 0)
        a = atom(e, 0, 1)
        c = node.read(FREE, sub(i, 1))
        esc = bz(Or(*[eq(c, x) for x in self.esc]))
        FACTS[e.get_id()].append(z3.If(z(i) <= 0, e == 0, e == z3.If(esc, 1 - f(z(sub(i, 1))), 0)))
        FACTS[e.get_id()].append(z3.And(f(z(sub(i, 1))) >= 0, f(z(sub(i, 1))) <= 1))
        return a

    def need(self, st):
        ph = self.g(st, 32)
        return Or(And(Not(eq(ph, B)), eq(self.odd(st, st.mem[self.W].size), 1)),
                  And(eq(ph, B), eq(self.g(st, 40), 1)) if self.quoted else False)

    # ---- ghost steps -----------------------------------------------------------
    def wants(self, eng, st):
        eng.spec_obl(st, self.need(st), 'parse goes on exactly when the row continues')
        if self.limit:
            eng.spec_obl(st, lt(self.g(st, 56), self.limit), 'parse joins at most the permitted number of lines')

    def note_read(self, eng, st, pos):
        self.wants(eng, st)
        w = st.wreg(self.W)
        old, n, t = w.node, w.size, self.g(st, 0)
        crlf = self.crlf(st, t)
        eol = ite(crlf, 2, 1)
        L = self.content_len(st, pos)
        new = SCopy(SStore(SStore(old, add(n, 1), 10), n, ite(crlf, 13, 10)), add(n, eol), L, self.D, pos)

        def facts(j, e, old=old, new=new):
            return [z(e) == z(new.read(FREE, j))] if isinstance(e, z3.ExprRef) else []
        w.node = bytefn(fresh_name('text'), facts)
        w.size = add(add(n, eol), L)
        self.setg(st, 56, add(self.g(st, 56), 1))
        ph = self.g(st, 32)
        self.setg(st, 32, ite(eq(ph, B), C, ph))
        self.setg(st, 48, 0)

    def at_end(self, eng, st, pos):
        self.wants(eng, st)
        st.ghost['ended'] = True

    def holds_text(self, eng, st, p, what):
        """p points at the text of the row"""
        so = eng.spec_obl
        p = norm_ptr(p)
        nb = self.m(st, 'reader_.next_line_buffer_')
        r = st.mem.get(p.r)
        ok = r is not None and r.kind == 'bytes' and r.alive and isinstance(nb, Ptr) and nb.r == p.r
        so(st, ok, 'parse: %s gets the buffer of the row' % what)
        if not ok:
            raise DeadPath()
        n = st.mem[self.W].size
        so(st, eq(p.o, r.lo), 'parse: %s gets the start of the row' % what)
        eng.obl(st, lt(n, r.size), 'parse: %s: text within the buffer' % what)
        so(st, eq(r.node.read(st, add(r.lo, n)), 0), 'parse: %s gets a terminated text' % what)
        s2 = st.fork()
        i = fresh('i', 0)
        s2.assume(lt(i, n))
        so(s2, eq(r.node.read(s2, add(r.lo, i)), s2.mem[self.W].node.read(s2, i)), 'parse: %s gets every character of the row' % what)
        return r

    def member(self, path):
        return 'reader_.next_line_converter_.' + path

    def setm(self, st, path, v):
        o, n, _ = self.off[path]
        st.wreg(self.P).cells[o] = (n, v)

    def fields(self, st):
        """the sequence of fields: the vector's storage, one region for all reallocations"""
        p = cellval(st, self.P, self.off[self.member('splitter_.split_data_')][0], 8)
        return p.r if isinstance(p, Ptr) else None

    def set_fields(self, st, path, line):
        rid = self.fields(st)
        V = st.wreg(rid)
        V.node = views(line)
        V.size = scale(fresh('fields.n', 0, 1 << 50), 16)
        o = self.off[path][0]
        for k, v in enumerate((Ptr(rid, 0), Ptr(rid, V.size), Ptr(rid, V.size))):
            st.wreg(self.P).cells[o + 8 * k] = (8, v)

    def splitter_result(self, eng, st, r, av, changed=True):
        """state of the splitter and the line after (re)splitting"""
        w = st.wreg(self.W)
        cfg, out = self.cfg, []
        n = w.size
        if changed and (cfg.quote or cfg.escape):
            t = bytefn(fresh_name('shifted'))
            rr = st.wreg(r.rid)
            rr.node = SCopy(rr.node, rr.lo, n, t, 0)
            w.node = t
        s, sh = self.member('splitter_.'), fresh('shift', 0, 1 << 60)
        st.assume(le(sh, n))
        self.set_fields(st, s + 'split_data_', r.rid)
        for x in ('begin_', 'curr_', 'end_'):
            self.setm(st, s + x, Ptr(r.rid, fresh(x)))
        self.setm(st, s + 'line_', Ptr(r.rid, r.lo))
        self.setm(st, s + 'escaped_', sh)
        self.setm(st, s + 'done_', boolint(fresh_bool('done')))
        self.setm(st, s + 'resplitting_', 0)
        U = boolint(fresh_bool('open')) if self.quoted else 0
        self.setm(st, s + 'unterminated_quote_', U)
        err = StrVal(fresh('splitter error', 0, 1 << 40), bytefn(fresh_name('splitter error'))) if cfg.mode == 'string' else \
            boolint(fresh_bool('splitter error')) if cfg.mode == 'bool' else 0
        if cfg.mode == 'string':
            st.assume(Implies(eq(U, 1), eq(err.n, 0)))
        elif cfg.mode == 'bool':
            st.assume(Implies(eq(U, 1), eq(err, 0)))
        self.setm(st, s + 'error_', err)
        st.wreg(self.G).cells[72] = (8, err)
        self.setg(st, 40, U)
        self.setg(st, 48, ite(eq(U, 1), sh, 0))
        w.size = ite(eq(U, 1), sub(n, sh), n)
        self.setg(st, 32, B)
        self.setg(st, 64, r.lo)
        o = self.off[s + 'split_data_'][0]
        out.append((st, 'ret', Ptr(self.P, o)))
        if cfg.mode == 'throw':
            f = st.fork()
            x = f.new_region('exception', 'cells', 64, 'exc')
            g = dict(f.ghost.get('__exctype', {}))
            g[x.rid] = '_ZTIN2ss9exceptionE'
            f.ghost['__exctype'] = g
            f.ghost['split threw'] = True
            out.append((f, 'throw', (Ptr(x.rid, 0), '_ZTIN2ss9exceptionE')))
        return Forks(out)

    def on_this(self, eng, st, av, what):
        me = norm_ptr(av[0])
        ok = me.r == self.P and me.o == self.off[self.member('error_')][0]
        eng.spec_obl(st, ok, 'parse: %s of the converter of the next row' % what)
        d = norm_ptr(av[-1])
        eng.spec_obl(st, d.r == self.P and d.o == self.off['reader_.delim_'][0], 'parse: %s with the delimiter of the parser' % what)
        if not ok:
            raise DeadPath()

    def split(self, eng, st, av, ins, name):
        self.on_this(eng, st, av, 'split')
        so = eng.spec_obl
        so(st, eq(self.g(st, 32), A), 'parse splits a row once')
        so(st, Not(self.need(st)), 'parse splits a row which does not continue')
        r = self.holds_text(eng, st, av[1], 'split')
        return self.splitter_result(eng, st, r, av)

    def resplit(self, eng, st, av, ins, name):
        self.on_this(eng, st, av, 'resplit')
        so = eng.spec_obl
        so(st, eq(self.g(st, 32), C), 'parse splits a row again after joining a line')
        so(st, Not(self.need(st)), 'parse splits a row again when it does not continue')
        r = self.holds_text(eng, st, av[1], 'resplit')
        so(st, eq(eng.sgn(st, av[2], 64), st.mem[self.W].size), 'parse: resplit gets the size of the row')
        return self.splitter_result(eng, st, r, av)

    # ---- loops -------------------------------------------------------------------
    def nb(self, st):
        p = cellval(st, self.P, self.off['reader_.next_line_buffer_'][0], 8)
        return p.r if isinstance(p, Ptr) else None

    def havoc_node(self, eng, entry, H, inst, rid):
        if rid == self.fields(entry):
            if '!fields of the row' in eng.hints[inst.key]['dropped']:
                return None
            return views(self.nb(H))
        if rid == self.nb(entry) and '!row kept in %s' % H.mem[rid].name not in eng.hints[inst.key]['dropped']:
            inst.data['row'] = rid
            return bytefn(fresh_name('hrow'))
        return None

    def same_error(self, s):
        o, n, _ = self.off[self.member('splitter_.error_')]
        v, x = cellval(s, self.P, o, n), s.mem[self.G].cells[72][1]
        if isinstance(v, (int, Lin)) and isinstance(x, (int, Lin)):
            return eq(v, x)
        return isinstance(v, StrVal) and v == x

    def havoc(self, eng, entry, H, inst):
        e = self.off[self.member('splitter_.error_')]
        if any(i[:3] == ('c', self.G, 72) for i in inst.items) and '!error of the row' not in eng.hints[inst.key]['dropped']:
            H.wreg(self.G).cells[72] = (8, cellval(H, self.P, *e[:2]))
        rid = inst.data.get('row')
        if rid is not None:
            r, w = H.mem[rid], H.mem[self.W]
            H.mem[rid].node = SCopy(r.node, r.lo, w.size, w.node, 0)

    def candidates(self, eng, entry, H, inst):
        out = super().candidates(eng, entry, H, inst)
        g = self.g
        c0 = g(entry, 56)
        flags = [i for i in inst.amap.values() if i[0] == 'c' and i[1] != self.G and i[1] != self.P and i[3] == 1]
        for aid, item in inst.amap.items():
            if item[0] != 'c' or item[1] == self.G:
                continue
            r = entry.mem[item[1]]
            nm = r.name + (str(item[2]) if item[2] else '')
            v0 = cellval(entry, *item[1:])
            if isinstance(v0, Ptr):
                if v0.r == self.nb(entry) and self.esc:
                    def par(s, iv, item=item):
                        v = cellval(s, *item[1:])
                        if not isinstance(v, Ptr) or v.r != self.nb(s):
                            return None
                        k = add(sub(v.o, s.mem[v.r].lo), 1)
                        n = s.mem[self.W].size
                        return And(le(k, n), (z(self.odd(s, n)) + z(self.odd(s, k)) + z(sub(n, k))) % 2 == 0)
                    out.append(Cand('%s trailing escapes' % nm, par))
                    for it2 in flags:
                        def parb(s, iv, item=item, it2=it2):
                            v, b = cellval(s, *item[1:]), cellval(s, *it2[1:])
                            if not isinstance(v, Ptr) or v.r != self.nb(s) or not isinstance(b, (int, Lin)):
                                return None
                            k = sub(v.o, s.mem[v.r].lo)
                            n = s.mem[self.W].size
                            return And(le(k, n), (z(self.odd(s, n)) + z(self.odd(s, k)) + z(b)) % 2 == 0)
                        out.append(Cand('%s trailing escapes toggled by %s' % (nm, it2[1:]), parb))
                continue
            if not isinstance(v0, (int, Lin)):
                continue

            def val(s, item=item):
                v = cellval(s, *item[1:])
                return v if isinstance(v, (int, Lin)) else None

            def mk(f, val=val):
                def h(s, iv):
                    v = val(s)
                    return None if v is None else f(s, v)
                return h
            if self.esc and item[1] != self.P and item[3] == 8:
                ev = lambda s, k, c: (z(self.odd(s, s.mem[self.W].size)) + z(self.odd(s, k)) + z(c)) % 2 == 0
                out.append(Cand('%s is the start of trailing escapes' % nm, mk(lambda s, v: And(
                    le(v, s.mem[self.W].size), ev(s, v, sub(s.mem[self.W].size, v))))))
                out.append(Cand('%s counts trailing escapes' % nm, mk(lambda s, v: And(
                    le(v, s.mem[self.W].size), ev(s, sub(s.mem[self.W].size, v), v)))))
                for it2 in flags:
                    def tog(s, v, it2=it2):
                        b = cellval(s, *it2[1:])
                        return And(le(v, s.mem[self.W].size), ev(s, v, b)) if isinstance(b, (int, Lin)) else None
                    out.append(Cand('%s trailing escapes toggled by %s' % (nm, it2[1:]), mk(tog)))
            out.append(Cand('%s counts the lines joined' % nm, mk(lambda s, v: eq(v, g(s, 56)))))
            out.append(Cand('%s counts lines' % nm, mk(lambda s, v, v0=v0: eq(sub(v, v0), sub(g(s, 56), c0)))))
            out.append(Cand('%s is the size of the row and the shift' % nm, mk(lambda s, v: eq(v, add(s.mem[self.W].size, g(s, 48))))))
            out.append(Cand('%s is the size of the row' % nm, mk(lambda s, v: eq(v, s.mem[self.W].size))))
            out.append(Cand('%s is the shift' % nm, mk(lambda s, v: Implies(eq(g(s, 40), 1), eq(v, g(s, 48))))))
            out.append(Cand('%s tells the open quote' % nm, mk(lambda s, v: eq(v, g(s, 40)))))
        def room(s, iv):
            rid = self.nb(s)
            if rid is None or rid not in s.mem or self.W not in s.mem:
                return None
            return ge(s.mem[rid].size, add(s.mem[self.W].size, add(g(s, 48), ite(self.crlf(s, g(s, 0)), 3, 2))))

        def room1(s, iv):
            rid = self.nb(s)
            if rid is None or rid not in s.mem or self.W not in s.mem:
                return None
            return Or(ge(s.mem[rid].size, add(s.mem[self.W].size, add(g(s, 48), ite(self.crlf(s, g(s, 0)), 3, 2)))),
                      And(eq(self.nl(g(s, 0)), self.N), gt(s.mem[rid].size, add(s.mem[self.W].size, g(s, 48)))))
        out.append(Cand('room for the line ending', room))
        out.append(Cand('room for the line ending unless the input ends', room1))
        out.append(Cand('shift within the row', lambda s, iv: And(le(0, g(s, 48)), Implies(eq(g(s, 40), 0), eq(g(s, 48), 0)))))
        out.append(Cand('quote open or not', lambda s, iv: Or(eq(g(s, 40), 0), eq(g(s, 40), 1))))
        if self.limit:
            out.append(Cand('lines joined within the limit', lambda s, iv: le(g(s, 56), self.limit)))
        e = self.off[self.member('splitter_.error_')]
        out.append(Cand('!error of the row', lambda s, iv: Or(Not(eq(g(s, 32), B)), self.same_error(s))))
        fk = inst.data.setdefault('fk', fresh('fk', 0))

        def fv(s, iv):
            rid, nb = self.fields(s), self.nb(s)
            if rid is None or nb is None or rid not in s.mem:
                return None
            p = s.mem[rid].node.read(s, fk)
            return Or(Not(eq(g(s, 32), B)), And(isinstance(p, Ptr) and p.r == nb, eq(g(s, 64), s.mem[nb].lo)))
        out.append(Cand('!fields of the row', fv))
        # the last line which was read ends where the input goes on
        out.append(Cand('input position', lambda s, iv: eq(g(s, 24), self.nl(g(s, 0)))))
        rid = inst.data.get('row')
        if rid is not None:
            sk = inst.data.setdefault('sk', fresh('sk', 0))

            def q(s, iv):
                r, w = s.mem[rid], s.mem[self.W]
                s2 = s.fork()
                c = lt(sk, w.size)
                s2.assume(c)
                if not s2.consistent():
                    return True
                return Implies(c, eq(r.node.read(s2, add(r.lo, sk)), w.node.read(s2, sk)))
            out.append(Cand('!row kept in %s' % H.mem[rid].name, q))

            def zt(s, iv):
                r, w = s.mem[rid], s.mem[self.W]
                return Or(eq(g(s, 32), B), eq(r.node.read(s, add(r.lo, w.size)), 0))
            out.append(Cand('row terminated', zt))
        return out


def views(line):
    return wordfn(fresh_name('fields'), lambda a, j: Ptr(line, a))


PARSE_CONTRACTS = WORLD_CONTRACTS + [
    (r'^ss::converter<.*>::split\(char( const)?\*, std::__cxx11::basic_string<[^)]* const&\)$', 'split'),
    (r'^ss::converter<.*>::resplit\(char( const)?\*, long, std::__cxx11::basic_string<[^)]* const&\)$', 'resplit'),
]

PARSE = r'''
#include <ss/parser.hpp>
using P = ss::parser<@OPTS@>;
extern "C" void drv_parse(P* p) { p->reader_.parse(); }
'''


def text_is(o, v, want):
    """the string is exactly this text"""
    if not isinstance(v, StrVal):
        return False
    from .models import strnode
    n = strnode(o, v)
    return And(eq(v.n, len(want)), *[eq(n.read(o, k), ord(c)) for k, c in enumerate(want)])


def row_state(b, w, st, helper):
    """the state in which parse() is entered: a row has been read"""
    t = fresh('t', 0, 1 << 60)
    st.assume(lt(t, w.N))
    p0 = b.p0
    st.assume(eq(p0, w.nl(t)))
    L = w.content_len(st, t)
    k = fresh('capacity', 1, 1 << 60)
    st.assume(ge(k, add(sub(w.nl(t), t), 1)))
    R = b.blocks.get('next_line_buffer_') or st.new_region('next_line_buffer_', 'bytes', k, 'heap')
    b.blocks['next_line_buffer_'] = R
    R.size = k
    R.node = SStore(SCopy(bytefn(fresh_name('rest')), 0, L, w.D, t), L, 0)
    b.put('reader_.next_line_buffer_', Ptr(R.rid, 0))
    b.put('reader_.next_line_buffer_size_', k)
    b.put('reader_.next_line_size_', L)
    b.put('reader_.crlf_', boolint(w.crlf(st, t)))
    b.put('reader_.chars_read_', t)
    e = 'reader_.next_line_converter_.error_'
    b.put(e, StrVal(0, SConst(b'')) if w.cfg.mode == 'string' else 0)
    o = w.off['reader_.next_line_converter_.splitter_.split_data_'][0]
    q = b.R.cells[o]
    for x in (8, 16):
        b.R.cells[o + x] = q
        b.init[o + x] = q
    if not helper:
        b.put('reader_.helper_buffer_', NULL)
        b.put('reader_.helper_buffer_size', 0)
    G = st.wreg(w.G)
    W = st.new_region('row text', 'bytes', L, 'arg')
    w.W = W.rid
    wf = bytefn(fresh_name('text'), lambda j, e: [z3.Implies(z3.And(z(j) >= 0, z(j) < z(L)), e == z(w.D.read(None, add(t, j))))])
    W.node = wf
    for off, v in ((0, t), (8, 0), (16, 1), (24, p0), (32, A), (40, 0), (48, 0), (56, 0), (64, 0), (72, 0)):
        G.cells[off] = (8, v)
    return t, L


MSG = {'escape': 'unterminated escape at the end of the line', 'quote': 'unterminated quote', 'limit': 'multiline limit reached'}


def parse(name, deadline, source='buffer', helper=True, limit=0, mode='bool', quote='"', escape='\\', tl='', tr='', multiline=True):
    t0 = time.time()
    cfg = Cfg(mode=mode, multiline=multiline, quote=quote, escape=escape, tl=tl, tr=tr)
    opt = [o.strip() for o in cfg.opts().split(', ')]
    if limit:
        opt = ['ss::multiline_restricted<%d>' % limit if o == 'ss::multiline' else o for o in opt]
    mod = build.ir(PARSE.replace('@OPTS@', ', '.join(x for x in opt if x)), 'parse')
    reset()
    w = ParseWorld(cfg, source, limit)
    eng = Engine(mod, w)
    eng.deadline = deadline
    install_world(eng, w, PARSE_CONTRACTS)
    eng.alloc_fails = True
    st = State(eng)
    b = Built(eng, st, w, mod, the_parser(mod), mode, False)
    t, L = row_state(b, w, st, helper)
    k0 = b.vals['reader_.line_number_']
    eng.enter(st, mod.fns['drv_parse'], [Ptr(b.R.rid, 0)])
    outs, _ = eng.explore([st], None)
    cov = {}
    so = eng.spec_obl
    nm = 'parse %s'
    for o in outs:
        if not o.consistent():
            continue
        g = w.g
        get = lambda p: b.get(o, 'reader_.' + p)
        threw = o.final[0] == 'throw'
        if threw and o.ghost.get('alloc failed'):
            so(o, o.final[2] == '_ZTISt9bad_alloc', nm % 'reports allocation failure')
            cov['allocation failure'] = cov.get('allocation failure', 0) + 1
            continue
        so(o, not o.ghost.get('alloc failed'), nm % 'reports allocation failure')
        if threw and o.ghost.get('split threw'):
            cov['malformed'] = cov.get('malformed', 0) + 1
            so(o, eq(get('curr_char_'), g(o, 24)), nm % 'moves behind the lines it joins')
            so(o, eq(get('line_number_'), add(k0, g(o, 56))), nm % 'counts the lines it joins')
            frame(eng, b, o, so)
            continue
        cnt = g(o, 56)
        ended = bool(o.ghost.get('ended'))
        so(o, eq(get('curr_char_'), g(o, 24)), nm % 'moves behind the lines it joins')
        so(o, eq(get('line_number_'), add(k0, cnt)), nm % 'counts the lines it joins')
        if ended:
            so(o, eq(get('chars_read_'), g(o, 24)), nm % 'position is the end of the input')
            so(o, ge(g(o, 24), w.N), nm % 'ends at the end of the input only')
        else:
            so(o, eq(get('chars_read_'), g(o, 0)), nm % 'position is the start of the last line')
        ph = g(o, 32)
        cases = []
        if ended:
            # which error: by the phase
            cases = [('unterminated escape', Not(eq(ph, B)), MSG['escape']), ('unterminated quote', eq(ph, B), MSG['quote'])]
        else:
            nd = w.need(o)
            cases = [('limit', nd, MSG['limit']), ('row', Not(nd), None)]
        for k, c, msg in cases:
            s = o.fork()
            s.assume(c)
            if not s.consistent():
                continue
            cov[k] = cov.get(k, 0) + 1
            e, se = b.get(s, 'reader_.next_line_converter_.error_'), b.get(s, 'reader_.next_line_converter_.splitter_.error_')
            if k == 'limit':
                so(s, bool(limit) and ge(cnt, limit), nm % 'reports the limit exactly when it is reached')
            if k == 'row':
                so(s, eq(ph, B), nm % 'splits the row')
                so(s, not threw, nm % 'throws on errors only')
                so(s, is_clear(s, e, mode), nm % 'valid rows are valid')
                so(s, w.same_error(s), nm % 'keeps the result of splitting')
                p = s.mem[w.fields(s)].node.read(s, fresh('k', 0))
                nb = w.nb(s)
                so(s, isinstance(p, Ptr) and p.r == nb, nm % 'fields are in the buffer of the row')
                so(s, eq(g(s, 64), s.mem[nb].lo), nm % 'fields stay where they are')
                continue
            if mode == 'throw':
                so(s, threw and s.final[2] == '_ZTIN2ss9exceptionE', nm % 'reports: ' + k)
                continue
            so(s, not threw, nm % 'throws in throwing mode only')
            if mode == 'string':
                so(s, text_is(s, e, msg), nm % 'reports: ' + k)
                so(s, text_is(s, se, msg), nm % 'row stays invalid: ' + k)
            else:
                so(s, eq(e, 1), nm % 'reports: ' + k)
                so(s, eq(se, 1), nm % 'row stays invalid: ' + k)
        frame(eng, b, o, so)
        for x, y in (('next_line_buffer_', 'next_line_buffer_size_'), ('helper_buffer_', 'helper_buffer_size')):
            p, cap = norm_ptr(get(x)), get(y)
            if p.r == 0:
                so(o, eq(cap, 0), nm % 'no buffer, no size')
                continue
            r = o.mem[p.r]
            so(o, And(bool(r.alive), eq(p.o, r.lo), eq(cap, r.size)), nm % 'start and size of the buffers')
    return tasks.summarise(eng, name, t0, cov)


def frame(eng, b, o, so):
    bad = b.unchanged(o, ['reader_.' + x for x in (
        'next_line_buffer_', 'next_line_buffer_size_', 'helper_buffer_', 'helper_buffer_size', 'curr_char_', 'crlf_',
        'line_number_', 'chars_read_', 'next_line_size_', 'next_line_converter_.error_', 'next_line_converter_.splitter_')])
    so(o, not bad, 'parse changes nothing else', bad)

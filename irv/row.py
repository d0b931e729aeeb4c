"""Contract of the parser's row protocol: get_next, ignore_next, the constructors."""
import re
import time
import z3
from .val import *
from .mem import *
from . import models, tasks, build
from .engine import Engine, State, norm_ptr, padd, DeadPath, Forks, demangle
from .loops import cellval
from .models import strnode, decimal
from .parser import *
from .split import Cfg
from .multiline import views

THROW = '_ZTIN2ss9exceptionE'


class RowWorld(World):
    """the parts of the row protocol; st.ghost['log'] is what was called, in order"""

    def __init__(self, cfg, source, ignore_empty=False):
        super().__init__(ignore_empty, source)
        self.cfg = cfg
        self.skips = False      # rows may be skipped on purpose

    def active(self, eng, st, inst):
        return False

    def log(self, st, *ev):
        st.ghost['log'] = st.ghost.get('log', ()) + (ev,)

    def throwing(self, eng, st, msg):
        """a fork which throws ss::exception with this message"""
        f = st.fork()
        x = f.new_region('exception', 'cells', 40, 'exc')
        vt = norm_ptr(eng.global_ptr(f, '_ZTVN2ss9exceptionE'))
        x.cells[0] = (8, Ptr(vt.r, 16))
        x.cells[8] = (32, msg)
        g = dict(f.ghost.get('__exctype', {}))
        g[x.rid] = THROW
        f.ghost['__exctype'] = g
        return f, (Ptr(x.rid, 0), THROW)

    def no_memory(self, st):
        f = st.fork()
        f.ghost['alloc failed'] = True
        x = f.new_region('exception', 'cells', 8, 'exc')
        g = dict(f.ghost.get('__exctype', {}))
        g[x.rid] = '_ZTISt9bad_alloc'
        f.ghost['__exctype'] = g
        return f, (Ptr(x.rid, 0), '_ZTISt9bad_alloc')

    def put(self, st, path, v):
        o, n, _ = self.off[path]
        st.wreg(self.P).cells[o] = (n, v)

    def message(self, what):
        """arbitrary text without NUL"""
        n = fresh(what + '.len', 1, 1 << 40)
        return StrVal(n, bytefn(fresh_name(what), lambda j, e: [z3.Implies(z3.And(z(j) >= 0, z(j) < z(n)), e != 0)]))

    def this(self, eng, st, av, at, what):
        me = norm_ptr(av)
        ok = isinstance(me, Ptr) and me.r == self.P and me.o == self.off[at][0]
        eng.spec_obl(st, ok, what)
        if not ok:
            raise DeadPath()

    def reader_effects(self, eng, st, blocks=('next_line_buffer_', 'helper_buffer_'), size=True, null=False, grows=False):
        sizes = {'next_line_buffer_': 'next_line_buffer_size_', 'helper_buffer_': 'helper_buffer_size'}
        for b in blocks:
            p = cellval(st, self.P, self.off['reader_.' + b][0], 8)
            k = fresh('cap', 1, 1 << 60)
            if isinstance(p, Ptr) and p.r:
                r = st.mem.get(p.r)
                ok = r is not None and r.alive and r.store == 'heap'
                eng.obl(st, ok, 'the buffers of the reader are allocated')
                if not ok:
                    raise DeadPath()
                eng.obl(st, And(eq(p.o, r.lo), eq(cellval(st, self.P, self.off['reader_.' + sizes[b]][0], 8), r.size)),
                        'start and size of the buffers')
                st.wreg(p.r).alive = False      # may have been reallocated
            elif null:
                continue
            r = st.new_region('row' if b[0] == 'n' else 'helper', 'bytes', k, 'heap')
            r.node = bytefn(fresh_name('row'))
            self.put(st, 'reader_.' + b, Ptr(r.rid, 0))
            self.put(st, 'reader_.' + sizes[b], k)
        for m in ('curr_char_', 'chars_read_') + (('next_line_size_',) if size else ()):
            self.put(st, 'reader_.' + m, fresh(m, 0, 1 << 60))
        nb = cellval(st, self.P, self.off['reader_.next_line_buffer_'][0], 8)
        if size and isinstance(nb, Ptr) and nb.r:
            st.assume(lt(cellval(st, self.P, *self.off['reader_.next_line_size_'][:2]), st.mem[nb.r].size))
        self.put(st, 'reader_.crlf_', boolint(fresh_bool('crlf')))
        k = cellval(st, self.P, *self.off['reader_.line_number_'][:2])
        n = fresh('lines', 0, 1 << 60)
        st.assume(lt(k, n) if grows else le(k, n))
        self.put(st, 'reader_.line_number_', n)
        st.ghost['line'] = n

    def splitter_effects(self, st, c, line, clear=False):
        s = c + 'splitter_.'
        if not clear:
            for x in ('begin_', 'curr_', 'end_', 'line_'):
                self.put(st, s + x, Ptr(line, fresh(x)))
            self.put(st, s + 'escaped_', fresh('escaped', 0, 1 << 60))
            for x in ('done_', 'resplitting_', 'unterminated_quote_'):
                self.put(st, s + x, boolint(fresh_bool(x)))
        V = st.new_region('fields', 'words', 0, 'heap')
        V.node = views(line)
        V.size = 0 if clear else scale(fresh('fields.n', 0, 1 << 50), 16)
        o = self.off[s + 'split_data_'][0]
        old = cellval(st, self.P, o, 8)
        if isinstance(old, Ptr) and old.r:
            st.wreg(old.r).alive = False
        for k, v in enumerate((Ptr(V.rid, 0), Ptr(V.rid, V.size), Ptr(V.rid, V.size))):
            st.wreg(self.P).cells[o + 8 * k] = (8, v)
        return V.rid

    def error(self, st, what, valid):
        if self.cfg.mode == 'string':
            return StrVal(0, SConst(b'')) if valid else self.message(what)
        return 0 if valid or self.cfg.mode == 'throw' else 1

    # ---- contracts ---------------------------------------------------------
    def parse(self, eng, st, av, ins, name):
        """contract of reader::parse (proved by the tasks multiline.parse)"""
        self.this(eng, st, av[0], 'reader_.buffer_', 'parse: the reader of the parser')
        lg = st.ghost.get('log', ())
        eng.spec_obl(st, not any(e[0] == 'parse' for e in lg), 'a row is parsed once')
        eng.spec_obl(st, bool(st.ghost.get('row')), 'parse: a row has been read')
        nc = 'reader_.next_line_converter_.'
        out = []
        f, x = self.no_memory(st)
        self.reader_effects(eng, f)
        out.append((f, 'throw', x))
        self.reader_effects(eng, st)
        nb = cellval(st, self.P, self.off['reader_.next_line_buffer_'][0], 8).r
        V = self.splitter_effects(st, nc, nb)
        st.ghost['row'] = False
        st.ghost['row line'] = st.ghost['line']
        if self.cfg.mode == 'throw':
            m = self.message('row error')
            f, x = self.throwing(eng, st, m)
            f.ghost['row line'] = f.ghost['line']
            self.log(f, 'parse', 'throws', m)
            out.append((f, 'throw', x))
            self.log(st, 'parse', 'ok', nb, V)
            out.append((st, 'ret', None))
            return Forks(out)
        f = st.fork()
        m = self.error(f, 'row error', False)
        self.put(f, nc + 'error_', m)
        self.put(f, nc + 'splitter_.error_', m)
        self.log(f, 'parse', 'bad', m)
        out.append((f, 'ret', None))
        for valid in (True, False):
            f = st.fork()
            self.put(f, nc + 'error_', self.error(f, '', True))
            self.put(f, nc + 'splitter_.error_', self.error(f, 'split error', valid))
            self.log(f, 'parse', 'ok', nb, V)
            out.append((f, 'ret', None))
        return Forks(out)

    def read_next(self, eng, st, av, ins, name):
        """contract of reader::read_next (proved by the tasks parser.read_next)"""
        self.this(eng, st, av[0], 'reader_.buffer_', 'read_next: the reader of the parser')
        if not self.skips:
            eng.spec_obl(st, not st.ghost.get('row'), 'no row which was read is lost')
        if 'first' in st.ghost:
            st.ghost.pop('first')(st)
        nc = 'reader_.next_line_converter_.'
        out = []
        f, x = self.no_memory(st)
        self.reader_effects(eng, f, ('next_line_buffer_',))
        out.append((f, 'throw', x))
        p = cellval(st, self.P, self.off['reader_.next_line_buffer_'][0], 8)
        for r, null in ((True, False), (False, False)) + (((False, True),) if isinstance(p, Ptr) and not p.r else ()):
            s = st.fork()
            self.reader_effects(eng, s, ('next_line_buffer_',), size=r, null=null, grows=True)
            self.put(s, nc + 'error_', self.error(s, '', True))
            nb = cellval(s, self.P, self.off['reader_.next_line_buffer_'][0], 8).r
            self.splitter_effects(s, nc, nb, clear=True)
            s.ghost['row'] = r
            q = cellval(s, self.P, self.off['reader_.next_line_buffer_'][0], 8)
            self.log(s, 'read', r, StrVal(cellval(s, self.P, *self.off['reader_.next_line_size_'][:2]),
                                          s.mem[q.r].node if q.r else SConst(b'')), s.ghost['line'])
            out.append((s, 'ret', r))
        return Forks(out)

    def convert(self, eng, st, av, ins, name):
        """contract of converter::convert on the row which was parsed"""
        ret = ins.ty[0] == 'i'
        me = norm_ptr(av[0] if ret else av[1])
        C = 'reader_.converter_.'
        ok = me.r == self.P and me.o == self.off[C + 'error_'][0]
        eng.spec_obl(st, ok, 'converts with the converter of the row')
        if not ok:
            raise DeadPath()
        lg = st.ghost.get('log', ())
        ks = [e[0] for e in lg]
        eng.spec_obl(st, ks[:1] == ['parse'] and lg[0][1] == 'ok' and 'convert' not in ks, 'converts a row which was parsed, once', ks)
        if not lg or ks[0] != 'parse' or lg[0][1] != 'ok':
            raise DeadPath()
        nb, V = lg[0][2:]
        o = self.off[C + 'splitter_.split_data_'][0]
        d = cellval(st, self.P, o, 8)
        eng.spec_obl(st, isinstance(d, Ptr) and d.r == V and st.mem[V].alive, 'converts the fields of the row')
        b = cellval(st, self.P, self.off['reader_.buffer_'][0], 8)
        eng.spec_obl(st, isinstance(b, Ptr) and b.r == nb and st.mem[nb].alive, 'the fields of the row are in the buffer kept')
        out = []
        if self.cfg.mode == 'throw':
            m = self.message('conversion error')
            f, x = self.throwing(eng, st, m)
            self.log(f, 'convert', 'throws', m)
            out.append((f, 'throw', x))
        for valid in ((True,) if self.cfg.mode == 'throw' else (True, False)):
            s = st.fork()
            m = self.error(s, 'conversion error', valid)
            self.put(s, C + 'error_', m)
            if ret:
                v = fresh('value', -(1 << 31), (1 << 31) - 1)
                self.log(s, 'convert', valid, m, v)
                out.append((s, 'ret', v))
            else:
                q = norm_ptr(av[0])
                v = fresh('value', -(1 << 31), (1 << 31) - 1)
                d = Opaque('f:double', z3.FP(fresh_name('value'), z3.Float64()))
                w = s.wreg(q.r)
                w.cells[q.o] = (8, d)
                w.cells[add(q.o, 8)] = (4, v)
                self.log(s, 'convert', valid, m, (d, v))
                out.append((s, 'ret', None))
        return Forks(out)


ROW_CONTRACTS = [
    (r'^ss::parser<.*>::reader::parse\(\)$', 'parse'),
    (r'^ss::parser<.*>::reader::read_next\(\)$', 'read_next'),
    (r'^.* ss::converter<.*>::convert<[^()]*>\(\)$', 'convert'),
]

GET = r'''
#include <ss/parser.hpp>
using P = ss::parser<@OPTS@>;
using V = ss::no_void_validator_tup_t<@TYPES@>;
extern "C" void drv_get_next(P* p, V* v) { new (v) V(p->get_next<@TYPES@>()); }
extern "C" bool drv_ignore(P* p) { return p->ignore_next(); }
extern "C" size_t drv_line(P* p) { return p->line(); }
extern "C" size_t drv_position(P* p) { return p->position(); }
extern "C" bool drv_eof(P* p) { return p->eof(); }
extern "C" bool drv_valid(P* p) { return p->valid(); }
@MSG@
'''


def text(o, *parts):
    """expected text: literals and StrVals"""
    n, node = 0, SConst(b'')
    for p in parts:
        v = StrVal(len(p), SConst(p.encode())) if isinstance(p, str) else p
        node = models.concat(node, n, strnode(o, v), v.n)
        n = add(n, v.n)
    return StrVal(n, node)


def same_text(eng, o, v, want, nm):
    so = eng.spec_obl
    if not isinstance(v, StrVal):
        so(o, False, nm)
        return
    so(o, eq(v.n, want.n), nm)
    s = o.fork()
    i = fresh('i', 0)
    s.assume(lt(i, want.n))
    so(s, eq(strnode(s, v).read(s, i), want.node.read(s, i)), nm)


def dec(v):
    n, node = decimal(v)
    return StrVal(n, node)


def check_error(eng, b, o, nm, parts, mode):
    """the error of the parser: none, or this text"""
    e = b.get(o, 'error_')
    if parts is None:
        eng.spec_obl(o, is_clear(o, e, mode), nm)
    elif mode == 'string':
        same_text(eng, o, e, text(o, *parts), nm)
    else:
        eng.spec_obl(o, eq(e, 1), nm)


def setup(src, cfg, source, state, tag, extra=(), need=('parse', 'read_next', 'convert')):
    mod = build.ir(src.replace('@OPTS@', opts(cfg, extra)).replace(
        '@MSG@', 'extern "C" const std::string* drv_msg(P* p) { return &p->error_msg(); }' if cfg.mode == 'string' else ''), tag)
    reset()
    w = RowWorld(cfg, source)
    eng = Engine(mod, w)
    install_world(eng, w, ROW_CONTRACTS)
    names = [demangle(f) for f in mod.fns]
    for rx, m in ROW_CONTRACTS:
        if m in need and not any(re.match(rx, n) for n in names):
            raise Unsupported('no function which the contract of %s describes' % m)
    return mod, w, eng


def whole(b, state):
    """restrict the object to one kind of reachable state"""
    b.put('eof_', 1 if state == 'end' else 0)


def buffers(eng, b, o, nm):
    so = eng.spec_obl
    for x, y in (('buffer_', 'buffer_size_'), ('next_line_buffer_', 'next_line_buffer_size_'), ('helper_buffer_', 'helper_buffer_size')):
        p, cap = norm_ptr(b.get(o, 'reader_.' + x)), b.get(o, 'reader_.' + y)
        if p.r == 0:
            so(o, eq(cap, 0), nm % 'no buffer, no size')
            continue
        r = o.mem[p.r]
        so(o, And(bool(r.alive), eq(p.o, r.lo), eq(cap, r.size)), nm % 'start and size of the buffers')
    ps = [norm_ptr(b.get(o, 'reader_.' + x)).r for x in ('buffer_', 'next_line_buffer_', 'helper_buffer_')]
    ps = [p for p in ps if p]
    so(o, len(ps) == len(set(ps)), nm % 'buffers are distinct')
    lost = [r.name for r in o.mem.values() if r.alive and r.store == 'heap' and r.kind == 'bytes' and r.rid not in ps]
    so(o, not lost, nm % 'no buffer is lost', lost)


def mapping(b, o, c):
    x = 'reader_.%s.' % c
    s, n, _ = b.off[x + 'column_mappings_']
    return [cellval(o, b.R.rid, s + 8 * k, 8) for k in range(3)], b.get(o, x + 'number_of_columns_')


def get_next(name, deadline, source='buffer', mode='string', state='row', first=False, types='int', multiline=False):
    t0 = time.time()
    cfg = Cfg(mode=mode, multiline=multiline)
    mod, w, eng = setup(GET.replace('@TYPES@', types), cfg, source, state, 'gn')
    eng.deadline = deadline
    st = State(eng)
    b = Built(eng, st, w, mod, the_parser(mod), mode, first)
    b.put('eof_', 1 if state == 'end' else 0)
    st.ghost['row'] = state == 'row'
    if first:
        k = fresh('capacity', 1, 1 << 60)
        R = block(st, 'next_line_buffer_', k)
        b.put('reader_.next_line_buffer_', Ptr(R.rid, 0))
        b.put('reader_.next_line_buffer_size_', k)
    # read_next has cleared the converter of the next row
    nc = 'reader_.next_line_converter_.'
    b.put(nc + 'error_', StrVal(0, SConst(b'')) if mode == 'string' else 0)
    o = w.off[nc + 'splitter_.split_data_'][0]
    q = b.R.cells[o][1]
    for x in (8, 16):
        b.R.cells[o + x] = (8, q)
        b.init[o + x] = (8, q)
    if mode == 'throw':
        b.put('error_', 0)
        for c in ('converter_', 'next_line_converter_'):
            b.put('reader_.%s.error_' % c, 0)
            b.put('reader_.%s.splitter_.error_' % c, 0)
    m0 = {c: mapping(b, st, c) for c in ('converter_', 'next_line_converter_')}
    fn0 = b.vals['file_name_']
    l0 = b.vals['reader_.line_number_']
    V = st.new_region('value', 'cells', 16, 'arg')
    eng.enter(st, mod.fns['drv_get_next'], [Ptr(b.R.rid, 0), Ptr(V.rid, 0)])
    outs, _ = eng.explore([st], None)
    cov = {}
    so = eng.spec_obl
    nm = 'get_next %s'
    for o in outs:
        if not o.consistent():
            continue
        lg = o.ghost.get('log', ())
        kinds = [e[0] for e in lg]
        threw = o.final[0] == 'throw'
        if o.ghost.get('alloc failed'):
            so(o, threw and o.final[2] == '_ZTISt9bad_alloc', nm % 'passes on allocation failure')
            cov['allocation failure'] = cov.get('allocation failure', 0) + 1
            continue

        def failed(k, parts):
            cov[k] = cov.get(k, 0) + 1
            if mode == 'throw':
                so(o, threw and o.final[2] == THROW, nm % 'reports: ' + k)
                if threw:
                    x = o.mem[norm_ptr(o.final[1]).r].cells.get(8)
                    same_text(eng, o, x[1] if x else None, text(o, *parts), nm % 'reports: ' + k)
            else:
                so(o, not threw, nm % 'throws in throwing mode only')
                check_error(eng, b, o, nm % 'reports: ' + k, parts, mode)

        def value(want):
            if threw:
                return
            c = o.mem[V.rid].cells
            if types == 'int':
                got = c.get(0, (0, None))[1]
                so(o, isinstance(got, (int, Lin)) and eq(got, want), nm % 'returns the value')
            else:
                d, v = want
                got = c.get(8, (0, None))[1]
                g2 = c.get(0, (0, None))[1]
                so(o, isinstance(got, (int, Lin)) and eq(got, v), nm % 'returns the value')
                so(o, d is None or g2 == d, nm % 'returns the value')
        none = 0 if types == 'int' else (None, 0)
        if state == 'end':
            so(o, kinds == [], nm % 'reads nothing after the end', kinds)
            failed('end of file', [fn0, ': read on end of file'])
            value(none)
            so(o, eq(b.get(o, 'eof_'), 1), nm % 'the end stays the end')
        else:
            so(o, kinds[:1] == ['parse'], nm % 'parses the row', kinds)
            if kinds[:1] != ['parse']:
                continue
            row = None
            if lg[0][1] == 'ok':
                so(o, sorted(kinds) == ['convert', 'parse', 'read'], nm % 'converts the row and reads the next one', kinds)
                if sorted(kinds) != ['convert', 'parse', 'read']:
                    continue
            else:
                so(o, kinds == ['parse', 'read'], nm % 'reads the next row after a malformed one', kinds)
                if kinds != ['parse', 'read']:
                    continue
            ev = {e[0]: e for e in lg}
            more = ev['read'][1]
            so(o, eq(b.get(o, 'eof_'), 0 if more else 1), nm % 'end of file exactly when no row follows')
            rl = b.get(o, 'row_line_')
            so(o, eq(rl, o.ghost['row line']), nm % 'line of the row')
            if lg[0][1] != 'ok':
                failed('row error', [fn0, ' ', dec(rl), ': ', lg[0][2] if mode == 'string' or mode == 'throw' else 'x'])
                value(none)
            elif ev['convert'][1] is True:
                cov['value'] = cov.get('value', 0) + 1
                so(o, not threw, nm % 'throws on errors only')
                if mode != 'throw':
                    check_error(eng, b, o, nm % 'no error for a valid row', None, mode)
                value(ev['convert'][3])
            elif mode == 'throw':
                failed('conversion error', [fn0, ' ', dec(rl), ': ', ev['convert'][2]])
            else:
                failed('conversion error', [fn0, ' ', dec(rl), ': ', ev['convert'][2] if mode == 'string' else 'x'])
                value(ev['convert'][3])
            if lg[0][1] == 'ok':
                p = norm_ptr(b.get(o, 'reader_.buffer_'))
                so(o, p.r == lg[0][2] and o.mem[p.r].alive, nm % 'the text of the row stays until the next call')
            # nothing of this row is left for the next one
            so(o, mode == 'throw' or is_clear(o, b.get(o, nc + 'error_'), mode), nm % 'the next row starts without an error')
            so(o, b.empty_vec(o, nc + 'splitter_.split_data_'), nm % 'the next row starts without fields')
            so(o, bool(o.ghost.get('row')) == bool(more), nm % 'exactly one row is waiting')
        # each converter has the mapping of one of them
        ms = {c: mapping(b, o, c) for c in m0}
        for c in ms:
            so(o, any(all(same(o, x, y) for x, y in zip(ms[c][0], m0[k][0])) and same(o, ms[c][1], m0[k][1]) for k in m0),
               nm % 'keeps the column mapping')
        buffers(eng, b, o, nm)
        bad = b.unchanged(o, ['error_', 'row_line_', 'eof_'] + ['reader_.' + x for x in (
            'buffer_', 'buffer_size_', 'next_line_buffer_', 'next_line_buffer_size_', 'helper_buffer_', 'helper_buffer_size',
            'curr_char_', 'crlf_', 'line_number_', 'chars_read_', 'next_line_size_', 'converter_', 'next_line_converter_')])
        so(o, not bad, nm % 'changes nothing else', bad)
    return tasks.summarise(eng, name, t0, cov)


def ignore_next(name, deadline, source='buffer', mode='string', first=False):
    t0 = time.time()
    cfg = Cfg(mode=mode)
    mod, w, eng = setup(GET.replace('@TYPES@', 'int'), cfg, source, 'row', 'ign')
    w.skips = True
    eng.deadline = deadline
    st = State(eng)
    b = Built(eng, st, w, mod, the_parser(mod), mode, first)
    if first:
        k = fresh('capacity', 1, 1 << 60)
        R = block(st, 'next_line_buffer_', k)
        b.put('reader_.next_line_buffer_', Ptr(R.rid, 0))
        b.put('reader_.next_line_buffer_size_', k)
    e0 = b.vals['eof_']
    eng.enter(st, mod.fns['drv_ignore'], [Ptr(b.R.rid, 0)])
    outs, _ = eng.explore([st], None)
    cov = {}
    so = eng.spec_obl
    nm = 'ignore_next %s'
    for o in outs:
        if not o.consistent():
            continue
        if o.ghost.get('alloc failed'):
            so(o, o.final[0] == 'throw' and o.final[2] == '_ZTISt9bad_alloc', nm % 'passes on allocation failure')
            continue
        so(o, o.final[0] != 'throw', nm % 'throws nothing')
        lg = o.ghost.get('log', ())
        r = eng.uns(o, o.final[1], 1)
        buffers(eng, b, o, nm)
        if not lg:
            cov['end of file'] = 1
            so(o, eq(e0, 1), nm % 'reads the next row')
            so(o, eq(r, 0), nm % 'false at the end')
            bad = b.unchanged(o, [])
            so(o, not bad, nm % 'changes nothing at the end', bad)
            continue
        cov['row'] = cov.get('row', 0) + 1
        so(o, eq(e0, 0), nm % 'reads nothing after the end')
        so(o, [e[0] for e in lg] == ['read'], nm % 'skips one row')
        so(o, eq(r, 1 if lg[0][1] else 0), nm % 'true when a row follows')
        so(o, eq(b.get(o, 'eof_'), 0 if lg[0][1] else 1), nm % 'end of file exactly when no row follows')
        bad = b.unchanged(o, ['eof_'] + ['reader_.' + x for x in (
            'next_line_buffer_', 'next_line_buffer_size_', 'curr_char_', 'crlf_', 'line_number_', 'chars_read_', 'next_line_size_',
            'next_line_converter_.error_', 'next_line_converter_.splitter_.split_data_')])
        so(o, not bad, nm % 'changes nothing else', bad)
    return tasks.summarise(eng, name, t0, cov)


def observers(name, deadline, source='buffer', mode='string'):
    """line(), position(), eof(), valid(), error_msg() tell the state and change nothing"""
    t0 = time.time()
    mod, w, eng = setup(GET.replace('@TYPES@', 'int'), Cfg(mode=mode), source, 'row', 'obs')
    eng.deadline = deadline
    cov = {}
    so = eng.spec_obl
    nm = '%s: %s'
    for f in ('line', 'position', 'eof', 'valid') + (('msg',) if mode == 'string' else ()):
        st = State(eng)
        b = Built(eng, st, w, mod, the_parser(mod), mode, False)
        eng.enter(st, mod.fns['drv_' + f], [Ptr(b.R.rid, 0)])
        outs, _ = eng.explore([st], None)
        for o in outs:
            if not o.consistent():
                continue
            cov[f] = cov.get(f, 0) + 1
            r = o.final[1]
            v = b.vals
            if o.final[0] == 'throw':
                so(o, False, nm % (f, 'throws nothing'))
                continue
            if f == 'line':
                k = v['reader_.line_number_']
                so(o, eq(eng.uns(o, r, 64), ite(eq(k, 0), 0, sub(k, 1))), nm % (f, 'physical lines read before the waiting row, at least its number'))
            elif f == 'position':
                so(o, eq(eng.uns(o, r, 64), v['reader_.chars_read_']), nm % (f, 'start of the waiting row'))
            elif f == 'eof':
                so(o, eq(eng.uns(o, r, 1), v['eof_']), nm % (f, 'no row is waiting'))
            elif f == 'valid':
                e = v['error_']
                want = 1 if mode == 'throw' else boolint(eq(e.n, 0)) if mode == 'string' else sub(1, e)
                so(o, eq(eng.uns(o, r, 1), want), nm % (f, 'no error'))
            else:
                so(o, isinstance(r, Ptr) and r.r == b.R.rid and r.o == w.off['error_'][0], nm % (f, 'the error'))
            bad = b.unchanged(o, [])
            so(o, not bad, nm % (f, 'changes nothing'), bad)
    return tasks.summarise(eng, name, t0, cov)


CTOR = r'''
#include <ss/parser.hpp>
using P = ss::parser<@OPTS@>;
extern "C" void drv_buffer(P* p, const char* b, size_t n, const std::string& d) { new (p) P(b, n, d); }
extern "C" void drv_file(P* p, const std::string& f, const std::string& d) { new (p) P(f, d); }
@MSG@
'''


def m_fopen(w):
    def f(eng, st, av, ins, name):
        p = norm_ptr(av[0])
        sv = None
        for r in st.mem.values():
            if r.cells:
                for c in r.cells.values():
                    if isinstance(c[1], StrVal) and c[1].buf is not None and c[1].buf == p.r:
                        sv = c[1]
        ok = sv is not None and eq(p.o, 0) is True
        eng.spec_obl(st, ok, 'opens the named file')
        if ok:
            same_text(eng, st, sv, w.name, 'opens the named file')
        m = models.cstr_val(eng, st, av[1])
        eng.spec_obl(st, isinstance(m.node, SConst) and m.node.d[:1] == b'r' and b'+' not in m.node.d, 'opens the file for reading')
        g = st.fork()
        g.ghost['not open'] = True
        return Forks([(st, 'ret', Ptr(w.F, 0)), (g, 'ret', NULL)])
    f.label = 'fopen: a stream at the start of the file, or null'
    return f


@models.label('fclose')
def m_fclose(eng, st, av, ins, name):
    p = norm_ptr(av[0])
    r = st.mem.get(p.r)
    ok = r is not None and r.name == 'FILE' and r.alive
    eng.obl(st, ok, 'fclose of an open file')
    if not ok:
        raise DeadPath()
    st.wreg(p.r).alive = False
    return 0


class Raw(Built):
    """memory for a parser object"""

    def __init__(self, eng, st, w, mod, cls):
        self.w = w
        self.off = w.off = mod.layout(cls, LEAF)
        check_members(self.off, PARSER)
        R = st.new_region('parser', 'cells', mod._di()[cls]['size'], 'arg')
        w.P = R.rid
        B = st.new_region('input', 'bytes', w.N, 'const')
        B.node = w.D
        w.B = B.rid
        w.F = st.new_region('FILE', 'cells', 8, 'arg').rid
        self.R = R


def string_arg(st, name):
    r = st.new_region(name, 'cells', 32, 'arg')
    v = StrVal(fresh(name + '.len', 0, 1 << 40), bytefn(fresh_name(name)))
    r.cells[0] = (32, v)
    return r, v


def construct(name, deadline, source='buffer', mode='string', header=True, null=False):
    t0 = time.time()
    cfg = Cfg(mode=mode)
    mod, w, eng = setup(CTOR, cfg, source, 'row', 'ctor', [] if header else ['ss::ignore_header'], need=('read_next',))
    w.skips = True
    eng.deadline = deadline
    eng.models['fopen'] = m_fopen(w)
    eng.models['fclose'] = m_fclose
    st = State(eng)
    b = Raw(eng, st, w, mod, the_parser(mod))
    dr, dv = string_arg(st, 'delimiter')
    cov = {}
    so = eng.spec_obl
    nm = 'construction %s'

    def first(s):
        """the reader when the first row is read"""
        g = lambda p: b.get(s, 'reader_.' + p)
        for m in ('curr_char_', 'line_number_', 'buffer_size_', 'next_line_buffer_size_', 'helper_buffer_size', 'next_line_size_'):
            v = g(m)
            so(s, isinstance(v, (int, Lin)) and eq(v, 0), nm % 'starts reading at the start: ' + m)
        for m in ('buffer_', 'next_line_buffer_', 'helper_buffer_'):
            v = g(m)
            so(s, isinstance(v, Ptr) and norm_ptr(v).r == 0, nm % 'starts without buffers')
        f, d, n = g('file_'), g('csv_data_buffer_'), g('csv_data_size_')
        if source == 'file':
            so(s, isinstance(f, Ptr) and f.r == w.F and isinstance(d, Ptr) and d.r == 0, nm % 'reads the file')
        else:
            so(s, isinstance(f, Ptr) and f.r == 0, nm % 'reads the buffer')
            so(s, isinstance(d, Ptr) and d.r == w.B and eq(d.o, 0), nm % 'reads the buffer')
            so(s, isinstance(n, (int, Lin)) and eq(n, w.N), nm % 'reads the whole buffer')
        same_text(eng, s, g('delim_'), dv, nm % 'keeps the delimiter')
        for c in ('converter_', 'next_line_converter_'):
            so(s, b.empty_vec(s, 'reader_.%s.column_mappings_' % c), nm % 'no columns are mapped')
            so(s, is_clear(s, g(c + '.error_'), mode), nm % 'converters start valid')
    st.ghost['first'] = first
    if source == 'file':
        fr, w.name = string_arg(st, 'file name')
        eng.enter(st, mod.fns['drv_file'], [Ptr(b.R.rid, 0), Ptr(fr.rid, 0), Ptr(dr.rid, 0)])
    else:
        eng.enter(st, mod.fns['drv_buffer'], [Ptr(b.R.rid, 0), NULL if null else Ptr(w.B, 0), fresh('n', 0, 1 << 60) if null else w.N, Ptr(dr.rid, 0)])
    outs, _ = eng.explore([st], None)
    for o in outs:
        if not o.consistent():
            continue
        threw = o.final[0] == 'throw'
        if o.ghost.get('alloc failed'):
            so(o, threw and o.final[2] == '_ZTISt9bad_alloc', nm % 'passes on allocation failure')
            if threw and source == 'file':
                so(o, not o.mem[w.F].alive, nm % 'closes the file')
            continue
        lg = o.ghost.get('log', ())
        kinds = [e[0] for e in lg]
        closed = null or bool(o.ghost.get('not open'))
        if closed:
            k = 'no input'
            cov[k] = cov.get(k, 0) + 1
            so(o, not lg, nm % 'reads nothing without input')
            parts = ['CSV data buffer: received null data buffer'] if null else [w.name, ': could not be opened']
            if mode == 'throw':
                so(o, threw and o.final[2] == THROW, nm % 'reports a missing input')
                if threw:
                    x = o.mem[norm_ptr(o.final[1]).r].cells.get(8)
                    same_text(eng, o, x[1] if x else None, text(o, *parts), nm % 'reports a missing input')
                continue
            so(o, not threw, nm % 'throws in throwing mode only')
            check_error(eng, b, o, nm % 'reports a missing input', parts, mode)
            so(o, eq(b.get(o, 'eof_'), 1), nm % 'no rows without input')
            continue
        k = 'input'
        cov[k] = cov.get(k, 0) + 1
        so(o, not threw, nm % 'throws nothing with an input')
        if threw:
            continue
        so(o, kinds[:1] == ['read'], nm % 'reads the first row', kinds)
        if kinds[:1] != ['read']:
            continue
        if header:
            so(o, kinds == ['read'], nm % 'loses no row', kinds)
            same_text(eng, o, b.get(o, 'raw_header_'), lg[0][2], nm % 'raw_header is the first row')
            so(o, eq(b.get(o, 'header_line_'), sub(lg[0][3], 1)) if lg[0][1] else True, nm % 'remembers the line of the header')
        else:
            so(o, len(kinds) == (2 if lg[0][1] else 1), nm % 'skips the header, and no other row', kinds)
        so(o, eq(b.get(o, 'eof_'), 0 if lg[-1][1] else 1), nm % 'end of file exactly when no row follows')
        so(o, mode == 'throw' or is_clear(o, b.get(o, 'error_'), mode), nm % 'starts valid')
        so(o, b.empty_vec(o, 'header_'), nm % 'the header is not split yet')
        if source == 'file':
            so(o, bool(o.mem[w.F].alive), nm % 'keeps the file open')
        buffers(eng, b, o, nm)
    return tasks.summarise(eng, name, t0, cov)

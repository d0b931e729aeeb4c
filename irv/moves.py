"""Contract of moving and destroying parsers: the state goes to the new owner, everything is released once."""
import time
import z3
from .val import *
from .mem import *
from . import models, tasks, build
from .engine import Engine, State, norm_ptr, padd, DeadPath, demangle
from .loops import Unroll, cellval
from .models import strnode
from .parser import *
from .row import m_fclose, same_text, THROW, setup, GET
from .split import Cfg

SRC = r'''
#include <ss/parser.hpp>
using P = ss::parser<@OPTS@>;
extern "C" void look(int);
extern "C" void drv_move(P* p, P* q) { new (q) P(std::move(*p)); look(0); p->~P(); look(1); q->~P(); look(2); }
extern "C" void drv_assign(P* p, P* q) { *q = std::move(*p); look(0); p->~P(); look(1); q->~P(); look(2); }
extern "C" void drv_again(P* p, P* q, P* r) {
    new (q) P(std::move(*p)); look(0); *p = std::move(*r); look(3); r->~P(); look(4); p->~P(); look(1); q->~P(); look(2);
}
extern "C" void drv_destroy(P* p) { p->~P(); look(2); }
'''

# nothing a later call depends on: where the splitter was within the row before
SCRATCH = ['splitter_.' + x for x in ('error_', 'unterminated_quote_', 'done_', 'resplitting_', 'escaped_', 'begin_', 'curr_', 'end_',
                                      'line_', 'split_data_')] + ['error_']


class Moves(World):
    """loops over the parts of a parser have few turns, each is a path of its own"""

    def active(self, eng, st, inst):
        return True

    def key(self, eng, st, fr):
        return tuple(sorted((k, v) for k, v in st.ghost.items() if k.startswith('__peel')))

    def at_entry(self, eng, entry, inst):
        raise Unroll()


class Empty(Built):
    """memory without an object"""

    def __init__(self, eng, st, w, mod, cls):
        self.w = w
        self.off = w.off
        self.R = st.new_region('parser', 'cells', mod._di()[cls]['size'], 'arg')


def full(eng, st, w, mod, cls, mode, first, source, who):
    """a parser in an arbitrary reachable state with an input of its own"""
    w.source = source
    b = Built(eng, st, w, mod, cls, mode, first)
    b.F, b.B, b.source, b.mode = w.F, w.B, source, mode
    n = fresh('input.size', 0, 1 << 60)
    if source == 'buffer':
        b.put('reader_.csv_data_size_', n)
        b.put('reader_.csv_data_buffer_', Ptr(b.B, 0))
        st.wreg(b.B).size = n
    b.put('reader_.curr_char_', fresh('position', 0, 1 << 60))
    for c, blk in (('converter_', 'buffer_'), ('next_line_converter_', 'next_line_buffer_')):
        for x in ('begin_', 'curr_', 'end_', 'line_'):
            at = b.blocks.get(blk)
            b.put('reader_.%s.splitter_.%s' % (c, x), Ptr(at.rid, fresh(x, 0, 1 << 60)) if at else NULL)
    if not first:
        nb = b.blocks['next_line_buffer_']
        st.assume(lt(b.vals['reader_.next_line_size_'], nb.size))
    # read_next has cleared the converter of the next row
    nc = 'reader_.next_line_converter_.'
    b.put(nc + 'error_', StrVal(0, SConst(b'')) if mode == 'string' else 0)
    o = w.off[nc + 'splitter_.split_data_'][0]
    q = b.R.cells[o][1]
    for x in (8, 16):
        b.R.cells[o + x] = (8, q)
        b.init[o + x] = (8, q)
    if mode == 'throw':
        b.put('error_', 0)
    b.owned = [r.rid for r in b.blocks.values()] + list(b.vecs.values())
    b.st0 = st
    b.texts = {p: (b.vals[p].n, b.vals[p].node) for p, (o, n, ty) in b.off.items() if ty.startswith('basic_string<')}
    return b


def vector(st, b, path):
    o = b.off[path][0]
    return [norm_ptr(cellval(st, b.R.rid, o + 8 * k, 8)) for k in range(3)]


def same_vector(eng, st, now, was, was_st, nm, width):
    """equal contents: the same storage, or a copy of it"""
    so = eng.spec_obl
    if now[0].r == 0 or was[0].r == 0:
        for v, s in ((now, st), (was, was_st)):
            if v[0].r:
                so(st, eq(v[0].o, v[1].o), nm)
        return
    a, c = st.mem.get(now[0].r), was_st.mem[was[0].r]
    ok = a is not None and a.alive and now[1].r == now[0].r and now[2].r == now[0].r
    so(st, ok, nm)
    if not ok:
        return
    so(st, And(eq(now[0].o, a.lo), le(now[1].o, now[2].o), le(now[2].o, a.end())), nm)
    so(st, eq(sub(now[1].o, now[0].o), sub(was[1].o, was[0].o)), nm)
    if now[0].r == was[0].r and a.node is c.node:
        return
    s = st.fork()
    i = fresh('element', 0, 1 << 56)
    s.assume(lt(scale(i, width), sub(was[1].o, was[0].o)))
    if not s.consistent():
        return
    k = 1 if width == 32 else width // a.stride if hasattr(a, 'stride') and a.stride else 1
    so(s, same(s, a.node.read(s, scale(i, k)), c.node.read(was_st, scale(i, k))), nm)


def state_of(eng, st, b, src, nm):
    """the object b is in the state in which src was at the start"""
    so = eng.spec_obl
    was = src.st0
    for path, (o, n, ty) in b.off.items():
        tail = path.split('.', 2)
        if tail[0] == 'reader_' and len(tail) > 2 and '.'.join(tail[1:]).split('.', 1)[1] in SCRATCH:
            continue
        if path in ('row_line_',) or path in ('reader_.buffer_size_', 'reader_.helper_buffer_', 'reader_.helper_buffer_size'):
            continue
        if path in ('reader_.csv_data_buffer_', 'reader_.csv_data_size_', 'reader_.curr_char_') and src.source == 'file' and \
                path != 'reader_.curr_char_':
            continue
        what = nm % (path + ' goes to the new owner')
        if ty.startswith('vector<'):
            same_vector(eng, st, vector(st, b, path), src.vecs0[path], was, what, 32 if path == 'header_' else 8)
            continue
        c = st.mem[b.R.rid].cells.get(o)
        v = c[1] if c and c[0] == n else None
        if ty.startswith('basic_string<'):
            t = src.texts[path]
            if isinstance(v, StrVal):
                same_text(eng, st, v, StrVal(*t), what)
            else:
                so(st, False, what)
            continue
        x = src.vals[path]
        if path == 'reader_.next_line_buffer_':
            row_text(eng, st, b, src, v, what)
            continue
        if path == 'reader_.next_line_buffer_size_':
            continue
        if path == 'reader_.file_':
            so(st, isinstance(v, Ptr) and same(st, v, x), what)
            if norm_ptr(x).r:
                so(st, bool(st.mem[norm_ptr(x).r].alive), nm % 'the file stays open')
            continue
        so(st, v is not None and same(st, v, x), what)
    # the buffers are blocks of their own
    ps = []
    for x, y in (('buffer_', 'buffer_size_'), ('next_line_buffer_', 'next_line_buffer_size_'), ('helper_buffer_', 'helper_buffer_size')):
        p, cap = norm_ptr(b.get(st, 'reader_.' + x)), b.get(st, 'reader_.' + y)
        if p.r == 0:
            so(st, eq(cap, 0), nm % 'no buffer, no size')
            continue
        ps.append(p.r)
        r = st.mem[p.r]
        so(st, And(bool(r.alive), eq(p.o, r.lo), eq(cap, r.size)), nm % 'start and size of the buffers')
    so(st, len(ps) == len(set(ps)), nm % 'buffers are distinct')
    nc = 'reader_.next_line_converter_.'
    so(st, is_clear(st, b.get(st, nc + 'error_'), src.mode), nm % 'the next row has no error')
    so(st, b.empty_vec(st, nc + 'splitter_.split_data_'), nm % 'the next row has no fields')


def row_text(eng, st, b, src, v, what):
    """the text of the waiting row, terminated, with room for its line ending"""
    so = eng.spec_obl
    x = src.vals['reader_.next_line_buffer_']
    if norm_ptr(x).r == 0:
        so(st, isinstance(v, Ptr), what)
        return
    ok = isinstance(v, Ptr) and norm_ptr(v).r and st.mem[v.r].alive
    so(st, bool(ok), what)
    if not ok:
        return
    a, c = st.mem[v.r], src.st0.mem[x.r]
    if v.r == x.r and a.node is c.node:
        return
    so(st, ge(a.size, c.size), what)
    s = st.fork()
    i = fresh('i', 0)
    s.assume(le(i, src.vals['reader_.next_line_size_']))
    so(s, eq(a.node.read(s, add(a.lo, i)), c.node.read(src.st0, add(c.lo, i))), what)


def views(eng, st, b, src, nm):
    """texts which the last row gave out stay where they are"""
    x = src.vals['reader_.buffer_']
    if norm_ptr(x).r:
        eng.spec_obl(st, bool(st.mem[x.r].alive), nm % 'text views into the last row stay valid')


def gone(eng, st, b, nm):
    """what belonged to b is released"""
    for r in b.owned:
        eng.spec_obl(st, not st.mem[r].alive, nm % 'releases what the target had')
    if b.source == 'file':
        eng.spec_obl(st, not st.mem[b.F].alive, nm % 'closes the file of the target')


def nothing_left(eng, st, bs, nm):
    bad = [r.name for r in st.mem.values() if r.alive and r.store == 'heap']
    eng.spec_obl(st, not bad, nm % 'nothing is left allocated', bad)
    for b in bs:
        if b.source == 'file':
            eng.spec_obl(st, not st.mem[b.F].alive, nm % 'the file is closed')


def move(name, deadline, op='move', source='file', target='file', mode='string', first=False, target_first=False, multiline=False, third='file'):
    t0 = time.time()
    cfg = Cfg(mode=mode, multiline=multiline)
    mod = build.ir(SRC.replace('@OPTS@', opts(cfg)), 'mv')
    reset()
    cls = the_parser(mod)
    w = Moves()
    eng = Engine(mod, w)
    eng.deadline = deadline
    install_world(eng, w)
    eng.models['fclose'] = m_fclose
    from .header import HEADER_LIBRARY, HeaderWorld
    import re
    for rx, meth, label in HEADER_LIBRARY:
        if meth.startswith('vec_') or meth == 'words_copy':
            def mk(meth, label):
                def f(e, st, av, ins, nm):
                    return getattr(HeaderWorld, meth)(None, e, st, av, ins, nm)
                f.label = label
                return f
            eng.model_res.insert(0, (re.compile(rx), mk(meth, label)))
    st = State(eng)
    bs = []
    for who, (s, f) in (('p', (source, first)), ('q', (target, target_first)), ('r', (third, False))):
        if who == 'q' and op != 'assign' or who == 'r' and op != 'again':
            b = Empty(eng, st, w, mod, cls)
        else:
            b = full(eng, st, w, mod, cls, mode, f, s, who)
        bs.append(b)
    p, q, r = bs
    s0 = st.fork()
    for b in bs:
        if not isinstance(b, Empty):
            b.st0 = s0
            b.vecs0 = {path: vector(s0, b, path) for path, (o, n, ty) in b.off.items() if ty.startswith('vector<')}
    nm = '%s: %%s' % {'move': 'move construction', 'assign': 'move assignment', 'again': 'assignment to a parser moved from', 'destroy': 'destruction'}[op]
    cov = {}

    def look(e, s, av, ins, fname):
        k = e.concretize(s, av[0]) if not isinstance(av[0], int) else av[0]
        cov['look %d' % k] = cov.get('look %d' % k, 0) + 1
        if k == 2:
            nothing_left(e, s, [b for b in bs if not isinstance(b, Empty)], nm)
        elif k in (0, 1):
            state_of(e, s, q, p, nm)
            views(e, s, q, p, nm)
            if k == 1 and op == 'assign':
                gone(e, s, q, nm)
            if k == 1 and op == 'again':
                gone(e, s, r, nm)
        else:
            state_of(e, s, q, p, nm)
            state_of(e, s, p, r, nm)
            views(e, s, q, p, nm)
            views(e, s, p, r, nm)
        return None
    look.label = 'observation of the driver'
    eng.models['look'] = look
    a = [Ptr(b.R.rid, 0) for b in bs]
    eng.enter(st, mod.fns['drv_' + op], a[:{'move': 2, 'assign': 2, 'again': 3, 'destroy': 1}[op]])
    outs, _ = eng.explore([st], None)
    for o in outs:
        if not o.consistent():
            continue
        eng.spec_obl(o, o.final[0] != 'throw', nm % 'throws nothing')
    return tasks.summarise(eng, name, t0, cov)

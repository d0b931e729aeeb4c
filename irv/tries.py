"""Contract of substitute conversions: try_next, try_object, or_else, or_object, on_error, values."""
import re
import time
import z3
from .val import *
from .mem import *
from . import models, tasks, build
from .engine import Engine, State, norm_ptr, Forks, DeadPath, demangle, padd
from .loops import cellval
from .models import strnode
from .parser import *
from .split import Cfg
from .row import RowWorld, Raw, text, same_text, dec, check_error, THROW
from .conv import SIZES, INTS, split_types, signed, F64, F32
from . import conv


# ---- values of the converted types ------------------------------------------------
def size_align(T):
    if T == 'std::string':
        return 32, 8
    n = SIZES.get(T) or INTS[T][0]
    return n, n


def place(types, order):
    off, al, out = 0, 1, {}
    for k in order:
        n, a = size_align(types[k])
        off = -(-off // a) * a
        out[k] = off
        off += n
        al = max(al, a)
    return -(-off // al) * al, al, [(out[k], types[k]) for k in range(len(types))]


class Lay:
    """layout of the value: one type, std::tuple or a class with these members"""

    def __init__(self, types, obj=''):
        self.types = [t for t in split_types(types) if t != 'void']
        self.size, self.align, self.parts = place(self.types, range(len(self.types)) if obj else reversed(range(len(self.types))))
        self.one = len(self.types) == 1 and not obj
        self.cpp = obj or 'ss::no_void_validator_tup_t<%s>' % types
        self.flag = self.size       # of std::optional
        self.osize = -(-(self.size + 1) // self.align) * self.align


def arbitrary_value(t):
    if t == 'std::string':
        return StrVal(fresh('text.len', 0, 1 << 40), bytefn(fresh_name('text')))
    if t in ('double', 'float'):
        return Opaque('f:' + t, z3.FP(fresh_name('value'), F64 if t == 'double' else F32))
    if t == 'bool':
        return boolint(fresh_bool('value'))
    k = INTS[t][0] if t in INTS else 1
    sg = signed(t)
    return fresh('value', -(1 << (8 * k - 1)) if sg else 0, (1 << (8 * k - sg)) - 1)


def put_value(eng, st, p, lay, v):
    for (o, t), x in zip(lay.parts, v):
        q = padd(p, o)
        if t == 'std::string':
            models.setstr(eng, st, q, x)
        elif t in ('double', 'float'):
            eng.store(st, q, x, ('f', t))
        else:
            eng.store(st, q, x, ('i', 8 * size_align(t)[0]))


def get_value(eng, st, p, lay):
    out = []
    for o, t in lay.parts:
        q = padd(p, o)
        if t == 'std::string':
            out.append(cellval(st, q.r, q.o, 32))
        elif t in ('double', 'float'):
            out.append(eng.load(st, q, ('f', t)))
        else:
            n = 8 * size_align(t)[0]
            x = eng.load(st, q, ('i', n))
            out.append((eng.sgn if signed(t) else eng.uns)(st, x, n) if isinstance(x, (int, Lin)) else x)
    return out


def same_value(eng, st, got, want, nm):
    for g, w in zip(got, want):
        if isinstance(w, StrVal):
            same_text(eng, st, g, w, nm)
        elif isinstance(w, Opaque):
            eng.spec_obl(st, g == w, nm)
        else:
            eng.spec_obl(st, isinstance(g, (int, Lin)) and eq(g, w), nm)


def put_optional(eng, st, p, lay, v, has):
    put_value(eng, st, p, lay, v)
    eng.store(st, padd(p, lay.flag), boolint(has), ('i', 8))


def engaged(eng, st, p, lay):
    return eq(eng.uns(st, eng.load(st, padd(p, lay.flag), ('i', 8)), 8), 1)


# ---- the world ---------------------------------------------------------------------
class TryWorld(RowWorld):
    """get_next and convert by contract, the functions the user passes are arbitrary"""

    def owner(self, eng, st, av, at, what):
        """which argument is the object: the first, or the second after the address of the result"""
        for k in (0, 1):
            if k < len(av):
                p = norm_ptr(av[k])
                if isinstance(p, Ptr) and p.r == self.P:
                    ok = p.o == at
                    eng.spec_obl(st, ok, what)
                    if not ok:
                        raise DeadPath()
                    return k
        eng.spec_obl(st, False, what)
        raise DeadPath()

    def result(self, eng, s, av, ins, k, lay, v):
        if k:
            put_value(eng, s, norm_ptr(av[0]), lay, v)
            return None
        return v[0]

    def lay_of(self, name, fn):
        d = demangle(name)
        i = d.rindex('::%s<' % fn) + len(fn) + 3
        n, j = 1, i
        while n:
            n += (d[j] == '<') - (d[j] == '>')
            j += 1
        ts = ', '.join(conv.canon(t) for t in split_types(d[i:j - 1]))
        return ts, Lay(ts)

    def get_next(self, eng, st, av, ins, name):
        """contract of parser::get_next (proved by the tasks row.get_next)"""
        k = self.owner(eng, st, av, 0, 'get_next: of the parser')
        eng.spec_obl(st, not st.ghost.get('log'), 'reads the next row once, before anything else')
        ts, lay = self.lay_of(name, 'get_next')
        eng.spec_obl(st, ts == self.types[0], 'converts to the types asked for', ts)
        out = []
        f, x = self.no_memory(st)
        self.havoc(f)
        out.append((f, 'throw', x))
        if self.cfg.mode == 'throw':
            s = st.fork()
            self.havoc(s)
            m = self.message('row error')
            f, x = self.throwing(eng, s, m)
            self.log(f, 'throws', m)
            out.append((f, 'throw', x))
        for valid in (True, False)[:1 if self.cfg.mode == 'throw' else 2]:
            s = st.fork()
            self.havoc(s)
            m = self.error(s, 'row error', valid)
            self.put(s, 'error_', m)
            v = [arbitrary_value(t) for t in lay.types]
            self.log(s, 'get', valid, m, v)
            out.append((s, 'ret', self.result(eng, s, av, ins, k, lay, v)))
        return Forks(out)

    FRAME = ('error_', 'row_line_', 'eof_', 'reader_.curr_char_', 'reader_.crlf_', 'reader_.line_number_', 'reader_.chars_read_',
             'reader_.next_line_size_', 'reader_.converter_.error_', 'reader_.converter_.splitter_.error_')

    def havoc(self, s):
        for p in self.FRAME:
            o, n, ty = self.off[p]
            self.put(s, p, arbitrary(s, p, n, ty))

    def convert(self, eng, st, av, ins, name):
        """contract of converter::convert without arguments (proved by the tasks conv.convert): converts the fields it holds"""
        C = 'reader_.converter_.'
        k = self.owner(eng, st, av, self.off[C + 'error_'][0], 'converts the row which was read')
        eng.spec_obl(st, not any(e[0] == 'convert' for e in st.ghost.get('log', ())), 'converts once')
        ts, lay = self.lay_of(name, 'convert')
        eng.spec_obl(st, ts == self.types[-1], 'converts to the types asked for', ts)
        out = []
        for valid in (True, False):
            s = st.fork()
            m = self.error(s, 'conversion error', valid)
            self.put(s, C + 'error_', m)
            v = [arbitrary_value(t) for t in lay.types]
            self.log(s, 'convert', valid, m, v)
            out.append((s, 'ret', self.result(eng, s, av, ins, k, lay, v)))
        return Forks(out)

    def call(self, eng, st, av, ins, name):
        """a function of the user: looks at the value, may change it, answers yes or no"""
        lay = self.flay
        at = [norm_ptr(x) for x in av]
        p = None
        seen = None
        if name in ('fun_whole', 'fun_const', 'fun_whole_void'):
            p = at[0]
            seen = get_value(eng, st, p, lay)
        elif name in ('fun_parts', 'fun_parts_void'):
            p = padd(at[0], sub(0, lay.parts[0][0]))
            ok = len(at) == len(lay.parts) and all(q.r == p.r and eq(q.o, add(p.o, o)) is True for q, (o, _) in zip(at, lay.parts))
            eng.spec_obl(st, ok, 'the function gets the parts of the value in order')
            if not ok:
                raise DeadPath()
            seen = get_value(eng, st, p, lay)
        out = []
        for r in ((True, False) if not name.endswith('void') else (None,)):
            s = st.fork()
            v = seen
            if p is not None and name != 'fun_const':
                v = [arbitrary_value(t) for t in lay.types]
                put_value(eng, s, p, lay, v)
            self.log(s, 'call', seen, r, v, cellval(s, self.P, *self.off['error_'][:2]))
            out.append((s, 'ret', None if r is None else boolint(r)))
        return Forks(out)

    def error_call(self, eng, st, av, ins, name):
        m = None
        if av:
            m = models.getstr(eng, st, norm_ptr(av[0]))
        self.log(st, 'on error', m)
        return None


TRY_CONTRACTS = [
    (r'^.* ss::parser<.*>::get_next<[^()]*>\(\)$', 'get_next'),
    (r'^.* ss::converter<.*>::convert<[^()]*>\(\)$', 'convert'),
]

SRC = r'''
#include <ss/parser.hpp>
#include <new>
using P = ss::parser<@OPTS@>;
@OBJ@
using V = @V@;
using U = @U@;
extern "C" bool fun_whole(void*);
extern "C" bool fun_const(const void*);
extern "C" bool fun_none();
extern "C" void fun_none_void();
extern "C" void fun_whole_void(void*);
extern "C" bool fun_parts(void*, void*);
extern "C" void fun_parts_void(void*, void*);
extern "C" void fun_error();
extern "C" void fun_error_text(const std::string*);
using C = P::composite<std::optional<V>>;
using D = P::composite<std::optional<V>, std::optional<U>>;
@DRV@
'''
DRIVERS = {
    'try': 'extern "C" void drv(P* p, C* c, std::optional<V>** v, P** q) { new (c) C(p->@CALL@<@TS@>(@FUN@)); *v = &std::get<0>(c->values_); *q = &c->parser_; }',
    'else': 'extern "C" void drv(C* c, D* d, std::optional<V>** v, std::optional<U>** u, P** q) { new (d) D(c->@CALL@<@TS@>(@FUN@)); '
            '*v = &std::get<0>(d->values_); *u = &std::get<1>(d->values_); *q = &d->parser_; }',
    'error': 'extern "C" void drv(D* c, D* d, std::optional<V>** v, std::optional<U>** u, P** q) { new (d) D(c->on_error(@FUN@)); '
             '*v = &std::get<0>(d->values_); *u = &std::get<1>(d->values_); *q = &d->parser_; }',
    'values': 'extern "C" void drv(D* c, std::tuple<std::optional<V>, std::optional<U>>* d, std::optional<V>** v, std::optional<U>** u) { '
              'new (d) std::tuple<std::optional<V>, std::optional<U>>(c->values()); *v = &std::get<0>(*d); *u = &std::get<1>(*d); }',
}
LOOK = r'''
extern "C" void make1(C* c, P* p, std::optional<V>** v, std::optional<U>** u) { new (c) C(std::tuple<std::optional<V>>{}, *p); *v = &std::get<0>(c->values_); }
extern "C" void make2(D* c, P* p, std::optional<V>** v, std::optional<U>** u) { new (c) D(std::tuple<std::optional<V>, std::optional<U>>{}, *p); *v = &std::get<0>(c->values_); *u = &std::get<1>(c->values_); }
'''


def functor(fun, lay, var):
    """the function which is passed"""
    parts = ', '.join('%s& x%d' % (t, k) for k, t in enumerate(lay.types))
    args = ', '.join('&x%d' % k for k in range(len(lay.types)))
    return {'': '', 'whole': '[](%s& v) { return fun_whole(&v); }' % var, 'whole_const': '[](const %s& v) { return fun_const(&v); }' % var,
            'whole_void': '[](%s& v) { fun_whole_void(&v); }' % var,
            'none': '[] { return fun_none(); }', 'none_void': '[] { fun_none_void(); }',
            'parts': '[](%s) { return fun_parts(%s); }' % (parts, args), 'parts_void': '[](%s) { fun_parts_void(%s); }' % (parts, args),
            'error': '[] { fun_error(); }', 'error_text': '[](const std::string& e) { fun_error_text(&e); }'}[fun]


def prepare(op, cfg, types, utypes, call, fun, obj, uobj):
    """op: try, else, error, values"""
    V, U = Lay(types, 'ObjV' if obj else ''), Lay(utypes, 'ObjU' if uobj else '')
    decl = ''
    for nm, lay, o in (('ObjV', V, obj), ('ObjU', U, uobj)):
        if o:
            decl += 'struct %s { %s };\n' % (nm, ' '.join('%s a%d;' % (t, k) for k, t in enumerate(lay.types)))
    L = V if op == 'try' else U
    ts = types if op == 'try' else utypes
    if call in ('try_object', 'or_object'):
        ts = L.cpp + ', ' + ts
    drv = DRIVERS[op].replace('@CALL@', call).replace('@TS@', ts).replace('@FUN@', functor(fun, L, 'V' if op == 'try' else 'U'))
    src = SRC.replace('@OPTS@', opts(cfg)).replace('@OBJ@', decl).replace('@V@', V.cpp).replace('@U@', U.cpp).replace('@DRV@', drv + LOOK)
    mod = build.ir(src, 'try')
    reset()
    w = TryWorld(cfg, 'buffer')
    w.types = (types,) if op == 'try' else (types, utypes)
    w.flay = L
    eng = Engine(mod, w)
    install_world(eng, w, TRY_CONTRACTS)
    names = [demangle(f) for f in mod.fns]
    for rx, m in TRY_CONTRACTS:
        if (m == 'get_next') == (op == 'try') and op in ('try', 'else') and not any(re.match(rx, n) for n in names):
            raise Unsupported('no function which the contract of %s describes' % m)

    def mk(f, lb):
        def g(e, st, av, ins, nm):
            return f(e, st, av, ins, nm)
        g.label = lb
        return g
    for n in ('fun_whole', 'fun_const', 'fun_none', 'fun_none_void', 'fun_whole_void', 'fun_parts', 'fun_parts_void'):
        eng.models[n] = mk(w.call, 'the function passed: arbitrary answer, may change the value it gets')
    for n in ('fun_error', 'fun_error_text'):
        eng.models[n] = mk(w.error_call, 'the function passed to on_error')
    return mod, w, eng, V, U


def make(eng, mod, st, b, C, fn):
    """a composite of this parser; addresses of its values"""
    qs = [st.new_region('at%d' % k, 'cells', 8, 'arg') for k in range(2)]
    eng.enter(st, mod.fns[fn], [Ptr(C.rid, 0), Ptr(b.R.rid, 0)] + [Ptr(q.rid, 0) for q in qs])
    outs, _ = eng.explore([st], None)
    if len(outs) != 1 or outs[0].final[0] != 'ret' or eng.obls and not all(x.ok for x in eng.obls):
        raise Unsupported('construction of the composite')
    s = outs[0]
    s.final = None
    return s, [norm_ptr(cellval(s, q.rid, 0, 8)) for q in qs[:int(fn[-1])]]


def attempt(name, deadline, op='try', mode='string', types='int', utypes='int', call='try_next', fun='', obj=False, uobj=False):
    t0 = time.time()
    cfg = Cfg(mode=mode)
    mod, w, eng, LV, LU = prepare(op, cfg, types, utypes, call, fun, obj, uobj)
    eng.deadline = deadline
    st = State(eng)
    b = Built(eng, st, w, mod, the_parser(mod), mode, False)
    fn0, rl0 = b.vals['file_name_'], b.vals['row_line_']
    e0 = b.vals['error_']
    C = st.new_region('composite', 'cells', 1024, 'arg')
    D = st.new_region('result', 'cells', 1024, 'arg')
    Q = [st.new_region('q%d' % k, 'cells', 8, 'arg') for k in range(3)]
    v0 = h0 = u0 = hu0 = None
    if op != 'try':
        # an arbitrary composite of this parser
        st, ps = make(eng, mod, st, b, C, 'make1' if op == 'else' else 'make2')
        v0, h0 = [arbitrary_value(t) for t in LV.types], fresh_bool('has')
        put_optional(eng, st, ps[0], LV, v0, h0)
        if op != 'else':
            u0, hu0 = [arbitrary_value(t) for t in LU.types], fresh_bool('has2')
            put_optional(eng, st, ps[1], LU, u0, hu0)
    av = {'try': [Ptr(b.R.rid, 0), Ptr(D.rid, 0), Ptr(Q[0].rid, 0), Ptr(Q[2].rid, 0)],
          'else': [Ptr(C.rid, 0), Ptr(D.rid, 0)] + [Ptr(q.rid, 0) for q in Q],
          'error': [Ptr(C.rid, 0), Ptr(D.rid, 0)] + [Ptr(q.rid, 0) for q in Q],
          'values': [Ptr(C.rid, 0), Ptr(D.rid, 0)] + [Ptr(q.rid, 0) for q in Q[:2]]}[op]
    eng.enter(st, mod.fns['drv'], av)
    outs, _ = eng.explore([st], None)
    so = eng.spec_obl
    cov = {}
    nm = {'try': call, 'else': call, 'error': 'on_error', 'values': 'values'}[op] + ' %s'
    for o in outs:
        if not o.consistent():
            continue
        lg = o.ghost.get('log', ())
        kinds = [e[0] for e in lg]
        if o.ghost.get('alloc failed'):
            so(o, o.final[0] == 'throw' and o.final[2] == '_ZTISt9bad_alloc', nm % 'passes on allocation failure')
            continue
        so(o, o.final[0] == 'ret', nm % 'throws nothing')
        if o.final[0] != 'ret':
            continue
        ev = {e[0]: e for e in lg}
        frame = []
        if op != 'values':
            q = norm_ptr(cellval(o, Q[2].rid, 0, 8))
            so(o, isinstance(q, Ptr) and q.r == b.R.rid and q.o == 0, nm % 'is about this parser')
        p1 = norm_ptr(cellval(o, Q[0].rid, 0, 8))
        p2 = norm_ptr(cellval(o, Q[1].rid, 0, 8)) if op != 'try' else None

        def kept(p, lay, v, h, what):
            g = engaged(eng, o, p, lay)
            so(o, Iff(g, h), what)
            s = o.fork()
            s.assume(h)
            if s.consistent():
                same_value(eng, s, get_value(eng, s, p, lay), v, what)

        def outcome(src, p, lay):
            """the conversion src has been tried: value and error of the parser"""
            ok = src[1]
            v = src[3]
            calls = [e for e in lg if e[0] == 'call']
            if not ok:
                so(o, not calls, nm % 'calls the function for a value only')
            elif fun:
                so(o, len(calls) == 1, nm % 'calls the function once for a value', len(calls))
                if len(calls) != 1:
                    return
                c = calls[0]
                if c[1] is not None:
                    same_value(eng, o, c[1], v, nm % 'the function gets the value')
                    v = c[3]
                so(o, is_clear(o, c[4], mode), nm % 'the parser is valid when the function is called')
                if c[2] is False:
                    k = 'refused'
                    cov[k] = cov.get(k, 0) + 1
                    check_error(eng, b, o, nm % 'a refused value is a failed check', [fn0, ': failed check'], mode)
                    so(o, Not(engaged(eng, o, p, lay)), nm % 'a refused value is not kept')
                    return
            if ok:
                k = 'value'
                cov[k] = cov.get(k, 0) + 1
                check_error(eng, b, o, nm % 'a value leaves the parser valid', None, mode)
                so(o, engaged(eng, o, p, lay), nm % 'keeps the value')
                same_value(eng, o, get_value(eng, o, p, lay), v, nm % 'keeps the value')
            else:
                k = 'no value'
                cov[k] = cov.get(k, 0) + 1
                so(o, Not(engaged(eng, o, p, lay)), nm % 'no value when the conversion failed')
                if src[0] == 'get':
                    e, m = b.get(o, 'error_'), src[2]
                    if mode == 'string':
                        same_text(eng, o, e, m, nm % 'keeps the error of the row')
                    else:
                        so(o, eq(e, m), nm % 'keeps the error of the row')
                else:
                    check_error(eng, b, o, nm % 'reports the failed conversion',
                                [fn0, ' ', dec(rl0), ': ', src[2] if mode == 'string' else 'x'], mode)
        if op == 'try':
            so(o, kinds[:1] == ['get'], nm % 'reads the next row')
            if kinds[:1] != ['get']:
                continue
            outcome(lg[0], p1, LV)
            frame = list(w.FRAME)
        else:
            valid = eq(e0.n, 0) if mode == 'string' else eq(e0, 0)
            if op == 'values':
                cov['values'] = cov.get('values', 0) + 1
                so(o, not lg, nm % 'does nothing else')
            kept(p1, LV, v0, h0, nm % 'keeps the values it has')
            if op != 'else':
                kept(p2, LU, u0, hu0, nm % 'keeps the values it has')
                kept(ps[0], LV, v0, h0, nm % 'the values can be taken again')
                kept(ps[1], LU, u0, hu0, nm % 'the values can be taken again')
        if op == 'error':
            d = o.decide(valid)
            if d is None:
                so(o, False, nm % 'looks at the validity of the parser')
                continue
            so(o, len(kinds) == (0 if d else 1), nm % 'calls the function exactly after an error')
            k = 'valid' if d else 'error'
            cov[k] = cov.get(k, 0) + 1
            if not d and kinds == ['on error'] and fun == 'error_text':
                same_text(eng, o, lg[0][1], e0, nm % 'passes the message')
        if op == 'else':
            d = o.decide(valid)
            if d is None:
                so(o, False, nm % 'looks at the validity of the parser')
                continue
            if d:
                k = 'not needed'
                cov[k] = cov.get(k, 0) + 1
                so(o, not lg, nm % 'tries nothing when there is a value', kinds)
                so(o, Not(engaged(eng, o, p2, LU)), nm % 'no value of a conversion which was not needed')
            else:
                so(o, kinds[:1] == ['convert'], nm % 'tries the conversion after an error', kinds)
                if kinds[:1] != ['convert']:
                    continue
                outcome(lg[0], p2, LU)
                frame = ['error_', 'reader_.converter_.error_']
        bad = b.unchanged(o, frame)
        so(o, not bad, nm % 'changes nothing else', bad)
    return tasks.summarise(eng, name, t0, cov)

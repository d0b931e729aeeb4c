"""Contracts of the conversions: extract for every supported type, both floating point back ends, restrictions."""
import re
import time
import z3
from .val import *
from .mem import *
from . import models, tasks, build
from .engine import Engine, State, norm_ptr, padd, DeadPath, Forks, demangle
from .loops import cellval, quot
from .models import strnode
from .plugin import Plugin

I = z3.IntSort()
F64, F32 = z3.Float64(), z3.Float32()

INTS = {'int': (4, True), 'unsigned': (4, False), 'short': (2, True), 'unsigned short': (2, False), 'long': (8, True),
        'unsigned long': (8, False), 'long long': (8, True), 'unsigned long long': (8, False), 'signed char': (1, True),
        'unsigned char': (1, False), 'ss::int8': (1, True), 'ss::uint8': (1, False)}
CANON = {'ss::int8': 'signed char', 'ss::uint8': 'unsigned char', 'unsigned int': 'unsigned'}


def bounds(T):
    n, sg = INTS[T]
    return -(1 << (8 * n - 1)) if sg else 0, (1 << (8 * n - sg)) - 1


class Text(Plugin):
    """the field's text and the ghost functions saying what it denotes"""

    def __init__(self):
        self.D = bytefn('D')
        self.fn = {}
        self.ints = dict(INTS)

    def start(self, st, room=True):
        """a field [b, e) in a line; the character after it is readable"""
        self.size = fresh('size', 1, 1 << 60)
        self.b, self.e = fresh('begin', 0, 1 << 60), fresh('end', 0, 1 << 60)
        st.assume(And(le(self.b, self.e), lt(self.e, self.size)))
        r = st.new_region('line', 'bytes', self.size, 'arg')
        r.node = self.D
        self.L = r.rid
        return Ptr(r.rid, self.b), Ptr(r.rid, self.e)

    # ---- what a text denotes ------------------------------------------------
    def num(self, T, b, e):
        """the whole of [b, e) is the text of a T"""
        T = CANON.get(T, T)
        if T in INTS and T in self.ints:
            # one meaning for all integer types: the texts -?[0-9]+, the number they denote, and the range of the type
            f = self.fn.setdefault('int', z3.Function('is an integer', I, I, z3.BoolSort()))
            n, sg = INTS[T]
            v, neg = self.integer(b, e), eq(self.D.read(None, b), ord('-'))
            c = And(f(z(b), z(e)), lt(b, e), Implies(neg, And(le(v, 0), gt(sub(e, b), 1))), Implies(Not(neg), ge(v, 0)),
                    ge(v, -(1 << (8 * n - 1)) if sg else 0), le(v, (1 << (8 * n - sg)) - 1))
            return c if sg else And(c, Not(neg))
        f = self.fn.setdefault(('num', T), z3.Function('is ' + T, I, I, z3.BoolSort()))
        return z3.And(f(z(b), z(e)), z(b) < z(e))

    def value(self, T, b, e):
        T = CANON.get(T, T)
        if T in ('double', 'float'):
            f = self.fn.setdefault(('val', T), z3.Function('value ' + T, I, I, F64 if T == 'double' else F32))
            return Opaque('f:' + T, f(z(b), z(e)))
        f = self.fn.setdefault(('val', T), z3.Function('value ' + T, I, I, I))
        n, s = INTS[T]
        if T in self.ints:
            return self.integer(b, e)
        return atom(f(z(b), z(e)), -(1 << (8 * n - 1)) if s else 0, (1 << (8 * n - s)) - 1)

    def integer(self, b, e):
        """the number which the digits of [b, e) denote"""
        f = self.fn.setdefault('Z', z3.Function('number', I, I, I))
        return atom(f(z(b), z(e)))

    def rng(self, st, b, e):
        b, e = norm_ptr(b), norm_ptr(e)
        ok = isinstance(b, Ptr) and isinstance(e, Ptr) and b.r == e.r and b.r in st.mem
        if ok and b.r == 0:
            return None
        return (b, e) if ok else None

    def from_chars(self, eng, st, av, ins, name):
        """std::from_chars / fast_float::from_chars"""
        d = demangle(name)
        m = re.match(r'.*from_chars<(%s)>\(' % '|'.join(['bool', 'char', 'double', 'float', 'unsigned int'] + list(INTS)), d)
        if not m or m.group(1) in ('bool', 'char'):
            raise Unsupported('from_chars: %s' % d[:200])
        T = CANON.get(m.group(1), m.group(1))
        fl = T in ('double', 'float')
        q = self.rng(st, av[0], av[1])
        if q is None:
            raise Unsupported('from_chars: range')
        b, e = q
        if st.mem[b.r].kind != 'bytes' or st.mem[b.r].node is not self.D:
            raise Unsupported('from_chars: other text')
        r = st.mem[b.r]
        eng.obl(st, And(le(b.o, e.o), le(r.lo, b.o), le(e.o, r.end())), 'from_chars: valid range')
        k = eng.uns(st, av[3], 32) if len(av) > 3 and not isinstance(av[3], (tuple, Ptr)) and av[3] is not None else None
        std = 5 if fl else 10       # fast_float::chars_format::general, base 10
        if k is not None and k != std:
            # another base or format: some other set of texts
            T0, T = T, '%s in format %s' % (T, k)
            if T0 not in ('double', 'float'):
                INTS.setdefault(T, INTS[T0])
            else:
                raise Unsupported('from_chars: format %s' % k)
        out = []
        dst = norm_ptr(av[2])
        n = {'double': 8, 'float': 4}.get(T) or INTS[T][0]
        ty = ('f', T) if fl else ('i', 8 * n)

        def ret(s, off, ec):
            return (s, 'ret', (Ptr(b.r, off), ec))
        f = st.fork()
        f.assume(self.num(T, b.o, e.o))
        if f.consistent():
            eng.store(f, dst, self.value(T, b.o, e.o), ty)
            out.append(ret(f, e.o, 0))
        st.assume(Not(self.num(T, b.o, e.o)))
        p = fresh('stop')
        f = st.fork()
        f.assume(And(lt(b.o, p), lt(p, e.o)))
        if f.consistent():      # a prefix is a number
            v = Opaque('f:' + T, z3.FP(fresh_name('prefix'), F64 if T == 'double' else F32)) if fl else \
                fresh('prefix', *bounds(T))
            eng.store(f, dst, v, ty)
            out.append(ret(f, p, 0))
        f = st.fork()
        f.assume(And(lt(b.o, p), le(p, e.o)))
        if f.consistent():      # out of range
            if fl:              # fast_float may leave infinity
                eng.store(f, dst, Opaque('f:' + T, z3.FP(fresh_name('huge'), F64 if T == 'double' else F32)), ty)
            out.append(ret(f, p, 34))
        out.append(ret(st, b.o, 22))
        return Forks(out)

    def strtox(self, eng, st, av, ins, name):
        """strtod, strtof on the text of the field"""
        T = 'double' if name == 'strtod' else 'float'
        p, ep = norm_ptr(av[0]), norm_ptr(av[1])
        n = sub(self.e, self.b)
        r = st.mem.get(p.r)
        if r is None or r.kind not in ('bytes',):
            raise Unsupported('%s: text' % name)
        nm = name + ' gets the text of the field'
        eng.obl(st, And(bool(r.alive), le(r.lo, p.o), lt(add(p.o, n), r.end())), 'strtod: terminated text')
        eng.spec_obl(st, eq(r.node.read(st, add(p.o, n)), 0), name + ' gets a terminated text')
        s = st.fork()
        i = fresh('i', 0)
        s.assume(lt(i, n))
        if s.consistent():
            eng.spec_obl(s, eq(r.node.read(s, add(p.o, i)), self.D.read(s, add(self.b, i))), nm)
        out = []
        F = F64 if T == 'double' else F32
        f = st.fork()
        f.assume(self.num(T, self.b, self.e))
        if f.consistent():
            if ep.r:
                eng.store(f, ep, Ptr(p.r, add(p.o, n)), ('p',))
            out.append((f, 'ret', self.value(T, self.b, self.e)))
        st.assume(Not(self.num(T, self.b, self.e)))
        k = fresh('stop', 0)
        st.assume(Or(lt(k, n), And(eq(n, 0), eq(k, 0))))
        if ep.r:
            eng.store(st, ep, Ptr(p.r, add(p.o, k)), ('p',))
        out.append((st, 'ret', Opaque('f:' + T, z3.FP(fresh_name('prefix'), F))))
        return Forks(out)


def install(eng, w):
    models.install(eng)

    def mk(meth, label):
        def f(e, st, av, ins, name):
            return getattr(w, meth)(e, st, av, ins, name)
        f.label = label
        return f
    eng.model_res.insert(0, (re.compile(r'^.*\bstd::from_chars<.*>\(char const\*, char const\*, '), mk(
        'from_chars', 'std::from_chars: accepts the longest numeric prefix, whole texts by value, ERANGE leaves the target alone')))
    eng.model_res.insert(0, (re.compile(r'^.*\bfast_float::from_chars<.*>\(char const\*, char const\*, '), mk(
        'from_chars', 'fast_float::from_chars: as std::from_chars for floating point')))
    for n in ('strtod', 'strtof'):
        eng.models[n] = mk('strtox', 'strtod/strtof: value and end of the longest numeric prefix of a NUL terminated text')


# ---- the types --------------------------------------------------------------
def literal(w, o, s):
    """the field is exactly this text"""
    return And(eq(sub(w.e, w.b), len(s)), *[eq(w.D.read(o, add(w.b, k)), ord(c)) for k, c in enumerate(s)])


def accepts(w, o, T):
    """the field is the text of a T (z3/bool)"""
    if T in INTS or T in ('double', 'float'):
        return w.num(T, w.b, w.e)
    if T == 'bool':
        return Or(*[literal(w, o, s) for s in ('0', '1', 'true', 'false')])
    if T == 'char':
        return eq(sub(w.e, w.b), 1)
    if T in ('std::string', 'std::string_view'):
        return True
    m = re.match(r'std::optional<(.*)>$', T)
    if m:
        return True
    m = re.match(r'std::variant<(.*)>$', T)
    if m:
        return Or(*[accepts(w, o, t.strip()) for t in m.group(1).split(',')])
    raise Unsupported(T)


def check_value(eng, w, o, T, cell, nm):
    """the value in the cell is the one the field denotes; cell(n) reads an object of n bytes"""
    so = eng.spec_obl
    if T in INTS:
        n, sg = INTS[T]
        v = cell(n)
        v = eng.sgn(o, v, 8 * n) if sg else eng.uns(o, v, 8 * n)
        so(o, eq(v, w.value(T, w.b, w.e)), nm)
    elif T in ('double', 'float'):
        v = cell(8 if T == 'double' else 4)
        so(o, isinstance(v, Opaque) and v == w.value(T, w.b, w.e), nm)
    elif T == 'bool':
        v = cell(1)
        so(o, isinstance(v, (int, Lin)) and Iff(eq(v, 1), Or(literal(w, o, '1'), literal(w, o, 'true'))), nm)
        so(o, isinstance(v, (int, Lin)) and Or(eq(v, 0), eq(v, 1)), nm)
    elif T == 'char':
        so(o, eq(eng.sgn(o, cell(1), 8), w.D.read(o, w.b)), nm)
    elif T == 'std::string':
        v = cell(32)
        ok = isinstance(v, StrVal)
        so(o, ok, nm)
        if ok:
            n = sub(w.e, w.b)
            so(o, eq(v.n, n), nm)
            s = o.fork()
            i = fresh('i', 0)
            s.assume(lt(i, n))
            if s.consistent():
                so(s, eq(strnode(s, v).read(s, i), w.D.read(s, add(w.b, i))), nm)
    else:
        raise Unsupported(T)


EX = r'''
#include <ss/extract.hpp>
#include <new>
using T = @T@;
extern "C" bool drv(const char* b, const char* e, T* v@OUTS@) { bool ok = ss::extract(b, e, *v); @LOOK@ return ok; }
'''


def look(T):
    """driver text which takes the result apart: parameters, statements, list of (name, what)"""
    m = re.match(r'std::optional<(.*)>$', T)
    if m:
        return ', bool* has, %s** q' % m.group(1), '*has = v->has_value(); if (*has) *q = &**v;', [m.group(1)]
    m = re.match(r'std::variant<(.*)>$', T)
    if m:
        ts = [t.strip() for t in m.group(1).split(',')]
        return (', unsigned long* idx' + ''.join(', %s** q%d' % (t, k) for k, t in enumerate(ts)),
                '*idx = v->index();' + ''.join(' *q%d = std::get_if<%d>(v);' % (k, k) for k in range(len(ts))), ts)
    return '', '', []


def arbitrary_target(eng, st, mod, T, r, engaged):
    """the object which is assigned to holds something already"""
    if T == 'std::string':
        r.cells[0] = (32, StrVal(fresh('old.len', 0, 1 << 40), bytefn(fresh_name('old'))))
    elif T == 'std::string_view':
        r.cells[0] = (8, fresh('old.len', 0, 1 << 40))
        r.cells[8] = (8, NULL)


def extract(name, deadline, T='int', fallback=False, engaged=None):
    t0 = time.time()
    outs, lk, parts = look(T)
    mod = build.ir(EX.replace('@T@', T).replace('@OUTS@', outs).replace('@LOOK@', lk), 'ex',
                   ('SSP_DISABLE_FAST_FLOAT',) if fallback else ())
    reset()
    w = Text()
    eng = Engine(mod, w)
    eng.deadline = deadline
    install(eng, w)
    st = State(eng)
    b, e = w.start(st)
    r = st.new_region('value', 'cells', 128, 'arg')
    opt, var = T.startswith('std::optional'), T.startswith('std::variant')
    n1 = 0
    if opt:
        t = parts[0]
        n1 = {'std::string': 32, 'double': 8, 'float': 4, 'bool': 1, 'char': 1}.get(t) or INTS[t][0]
        r.cells[n1] = (1, 1 if engaged else 0)
        if engaged:
            old = {'std::string': StrVal(fresh('old.len', 0, 1 << 40), bytefn(fresh_name('old')))}.get(t)
            if old is None:
                old = Opaque('f:' + t, z3.FP('old', F64 if t == 'double' else F32)) if t in ('double', 'float') else fresh('old', 0, 1)
            r.cells[0] = (n1, old)
    elif var:
        size = max(32 if t.startswith('std::string') else 8 if t in ('double',) else 4 if t == 'float' else
                   1 if t in ('bool', 'char') else INTS[t][0] for t in parts)
        r.cells[size] = (1, 0)      # holds the first alternative
        t = parts[0]
        r.cells[0] = {'std::string': (32, StrVal(fresh('old.len', 0, 1 << 40), bytefn(fresh_name('old')))),
                      'double': (8, Opaque('f:double', z3.FP('old', F64)))}.get(t) or (INTS[t][0] if t in INTS else 1, fresh('old', 0, 1))
    else:
        arbitrary_target(eng, st, mod, T, r, engaged)
    cells = []
    for k, t in enumerate((['bool'] if opt else ['idx'] if var else []) + parts):
        c = st.new_region('out%d' % k, 'cells', 8, 'arg')
        cells.append(c.rid)
    eng.enter(st, mod.fns['drv'], [b, e, Ptr(r.rid, 0)] + [Ptr(c, 0) for c in cells])
    res, _ = eng.explore([st], None)
    so = eng.spec_obl
    cov = {}

    def at(o, rid, off):
        return lambda n: eng.conv(o, cellval(o, rid, off, n), ('p',)) if n == 'p' else cellval(o, rid, off, n)
    for o in res:
        if not o.consistent():
            continue
        nm = 'extract<%s> %%s' % T
        if o.final[0] != 'ret':
            so(o, False, nm % 'throws nothing')
            continue
        ok = eng.to_bool(o, o.final[1]) if isinstance(o.final[1], (int, Lin)) else o.final[1]
        acc = accepts(w, o, T)
        so(o, Iff(ok, acc), nm % 'succeeds exactly for the texts of the type')
        s = o.fork()
        s.assume(And(ok, acc))
        o2 = o.fork()
        o2.assume(Not(ok))
        if o2.consistent():
            cov['rejected'] = cov.get('rejected', 0) + 1
        if not s.consistent():
            continue
        cov['accepted'] = cov.get('accepted', 0) + 1
        if opt:
            t = parts[0]
            has = eng.to_bool(s, cellval(s, cells[0], 0, 1))
            a = accepts(w, s, t)
            so(s, Iff(has, a), nm % 'is engaged exactly when the field is the text of the element')
            s.assume(And(has, a))
            if s.consistent():
                p = norm_ptr(cellval(s, cells[1], 0, 8))
                check_value(eng, w, s, t, at(s, p.r, p.o), nm % 'holds the value of the field')
        elif var:
            idx = cellval(s, cells[0], 0, 8)
            for k, t in enumerate(parts):
                first = And(accepts(w, s, t), *[Not(accepts(w, s, u)) for u in parts[:k]])
                so(s, Iff(eq(idx, k), first), nm % 'holds the first alternative which accepts the field')
                f = s.fork()
                f.assume(And(first, eq(idx, k)))
                if f.consistent():
                    p = norm_ptr(cellval(f, cells[1 + k], 0, 8))
                    so(f, isinstance(p, Ptr) and p.r in f.mem, nm % 'holds the value of the field')
                    if isinstance(p, Ptr) and p.r in f.mem:
                        check_value(eng, w, f, t, at(f, p.r, p.o), nm % 'holds the value of the field')
        elif T == 'std::string_view':
            so(s, eq(cellval(s, r.rid, 0, 8), sub(w.e, w.b)), nm % 'gives the value of the field')
            p = norm_ptr(cellval(s, r.rid, 8, 8))
            so(s, isinstance(p, Ptr) and p.r == w.L and eq(p.o, w.b), nm % 'gives the value of the field')
        else:
            check_value(eng, w, s, T, at(s, r.rid, 0), nm % 'gives the value of the field')
    if 'accepted' not in cov:
        raise Unsupported('vacuous: no field accepted')
    return tasks.summarise(eng, name, t0, cov)


# ---- restrictions -------------------------------------------------------------
RES = r'''
#include <ss/extract.hpp>
#include <ss/restrictions.hpp>
using T = @T@;
extern "C" bool drv(const T* v) { return ss::@R@<T, @ARGS@>{}.ss_valid(*v); }
'''
MSG = r'''
#include <ss/extract.hpp>
#include <ss/restrictions.hpp>
extern "C" const char* drv() { return ss::@R@{}.error(); }
'''


def meaning(R, v, args, cmp):
    """what the restriction permits; cmp(op, x, y)"""
    if R == 'ax':
        return And(*[Not(cmp('eq', v, a)) for a in args])
    if R == 'nx':
        return Or(*[cmp('eq', v, a) for a in args])
    if R == 'gt':
        return cmp('gt', v, args[0])
    if R == 'gte':
        return cmp('ge', v, args[0])
    if R == 'lt':
        return cmp('lt', v, args[0])
    if R == 'lte':
        return cmp('le', v, args[0])
    if R == 'ir':
        return And(cmp('ge', v, args[0]), cmp('le', v, args[1]))
    if R == 'oor':
        return Or(cmp('lt', v, args[0]), cmp('gt', v, args[1]))
    raise Unsupported(R)


def restriction(name, deadline, R='gt', T='int', args=(0,)):
    t0 = time.time()
    ne = R == 'ne'
    src = RES.replace('@R@', R).replace('@T@', T).replace(', @ARGS@', '' if ne else ', ' + ', '.join(
        ("'%s'" % a if isinstance(a, str) else str(a)) for a in args))
    mod = build.ir(src, 'res')
    reset()
    eng = Engine(mod, None)
    eng.deadline = deadline
    models.install(eng)
    st = State(eng)
    V = st.new_region('value', 'cells', 32, 'arg')
    fl = T in ('double', 'float')
    if T == 'std::string':
        v = StrVal(fresh('len', 0, 1 << 40), bytefn(fresh_name('text')))
        V.cells[0] = (32, v)
    elif fl:
        v = Opaque('f:' + T, z3.FP('v', F64 if T == 'double' else F32))
        if R == 'oor':      # whether not-a-number is out of range is not specified
            st.assume(z3.Not(z3.fpIsNaN(v.v)))
        V.cells[0] = (8 if T == 'double' else 4, v)
    else:
        n, sg = (1, True) if T == 'char' else INTS[T]
        v = fresh('v', -(1 << (8 * n - 1)) if sg else 0, (1 << (8 * n - sg)) - 1)
        V.cells[0] = (n, v)
    eng.enter(st, mod.fns['drv'], [Ptr(V.rid, 0)])
    res, _ = eng.explore([st], None)
    cov = {}

    def cmp(op, x, a):
        if fl:
            c = z3.FPVal(float(a), F64)
            x = z3.fpToFP(z3.RNE(), x.v, F64) if T == 'float' else x.v
            return {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}[op](x, c)
        a = ord(a) if isinstance(a, str) else a
        return {'eq': eq, 'gt': gt, 'ge': ge, 'lt': lt, 'le': le}[op](x, a)
    want = gt(v.n, 0) if ne else meaning(R, v, args, cmp)
    for o in res:
        if not o.consistent():
            continue
        nm = 'restriction %s permits exactly the values it names' % R
        if o.final[0] != 'ret':
            eng.spec_obl(o, False, nm)
            continue
        r = o.final[1]
        r = eng.to_bool(o, r) if isinstance(r, (int, Lin)) else r
        eng.spec_obl(o, Iff(r, want), nm)
        for k, c in (('permitted', want), ('refused', Not(want))):
            s = o.fork()
            s.assume(c)
            if s.consistent():
                cov[k] = cov.get(k, 0) + 1
    return tasks.summarise(eng, name, t0, cov)


def message(name, deadline, R='ne<std::string>', text='empty field'):
    """text of the restriction's error"""
    t0 = time.time()
    mod = build.ir(MSG.replace('@R@', R), 'msg')
    reset()
    eng = Engine(mod, None)
    eng.deadline = deadline
    models.install(eng)
    st = State(eng)
    eng.enter(st, mod.fns['drv'], [])
    res, _ = eng.explore([st], None)
    for o in res:
        v = models.cstr_val(eng, o, o.final[1])
        eng.spec_obl(o, And(eq(v.n, len(text)), *[eq(strnode(o, v).read(o, k), ord(c)) for k, c in enumerate(text)]),
                     'restriction reports its own text')
    return tasks.summarise(eng, name, t0, {'text': 1})


# ---- converter ------------------------------------------------------------------
CV = r'''
#include <ss/converter.hpp>
#include <new>
using C = ss::converter<@OPTS@>;
struct Obj { int a; double b; };
struct Tied { int a; double b; auto tied() { return std::tie(a, b); } };
using V = @V@;
extern "C" void drv(C* c, const ss::split_data* d, char* line, const std::string* delim, V* v@OUTS@) { new (v) V(@CALL@); @LOOK@ }
@MSG@
'''
CONV_MEMBERS = ['error_', 'splitter_.error_', 'splitter_.unterminated_quote_', 'splitter_.done_', 'splitter_.resplitting_',
                'splitter_.escaped_', 'splitter_.split_data_', 'splitter_.begin_', 'splitter_.curr_', 'splitter_.end_',
                'splitter_.line_', 'column_mappings_', 'number_of_columns_']
THROW = '_ZTIN2ss9exceptionE'
SIZES = {'double': 8, 'float': 4, 'bool': 1, 'char': 1, 'std::string': 32}


def signed(t):
    return INTS[t][1] if t in INTS else t == 'char'


def canon(t):
    t = t.strip()
    t = re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>', 'std::string', t)
    t = {'unsigned int': 'unsigned'}.get(t, t)
    return t


def split_types(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += (c == '<') - (c == '>')
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out


RESTR = {'ax': 'value excluded', 'nx': 'value excluded', 'ne': 'empty field'}


def element(t):
    """type of the element, restriction and its arguments"""
    m = re.match(r'ss::(ax|nx|gt|gte|lt|lte|ir|oor|ne)<(.*)>$', t)
    if not m:
        return t, None, ()
    a = split_types(m.group(2))
    return a[0], m.group(1), tuple(x[1] if x[0] == "'" else int(x) for x in a[1:])


class ConvWorld(Text):
    """extract by contract; st.ghost['log']: what was extracted, in order"""

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg

    def log(self, st, *ev):
        st.ghost['log'] = st.ghost.get('log', ()) + (ev,)

    def extract(self, eng, st, av, ins, name):
        """contract of ss::extract (proved by the tasks conv.extract)"""
        d = demangle(name)
        T = canon(d[d.rindex('ss::extract<') + 12: d.index('>(char const*, char const*, ', d.rindex('ss::extract<'))])
        b, e, p = (norm_ptr(x) for x in av[:3])
        eng.spec_obl(st, isinstance(b, Ptr) and isinstance(e, Ptr) and b.r == self.L and e.r == self.L, 'extracts from the fields')
        eng.spec_obl(st, not st.ghost.get('bad split'), 'extracts nothing from a malformed row')
        out = []
        opt = T.startswith('std::optional<')
        t = T[14:-1] if opt else T
        n = SIZES.get(t) or INTS[t][0]
        r = st.mem.get(p.r)
        eng.obl(st, r is not None and r.alive, 'extract: target')
        for ok in (True, False):
            s = st.fork()
            if not ok and (opt or T == 'std::string'):
                continue
            if T == 'std::string':
                v = StrVal(fresh('text.len', 0, 1 << 40), bytefn(fresh_name('text')))
                models.setstr(eng, s, p, v)
            elif t in ('double', 'float'):
                v = Opaque('f:' + t, z3.FP(fresh_name('value'), F64 if t == 'double' else F32))
                eng.store(s, p, v, ('f', t))
            else:
                sg = INTS[t][1] if t in INTS else t == 'char'
                k = INTS[t][0] if t in INTS else 1
                v = fresh('value', 0 if not sg else -(1 << (8 * k - 1)), 1 if t == 'bool' else (1 << (8 * k - sg)) - 1)
                eng.store(s, p, v, ('i', 8 * k))
            if opt:
                h = fresh_bool('has')
                s.wreg(p.r).cells[add(p.o, n)] = (1, boolint(h))
                v = (v, h)
            self.log(s, 'extract', T, b.o, e.o, ok, v)
            out.append((s, 'ret', ok))
        return Forks(out)

    def split(self, eng, st, av, ins, name):
        """contract of splitter::split: this line is split, its fields are kept, a malformed one is an error"""
        me, line, delim = (norm_ptr(x) for x in av[:3])
        eng.spec_obl(st, me.r == self.C and me.o == self.s0, 'splits with its splitter')
        eng.spec_obl(st, isinstance(line, Ptr) and line.r == self.L and line.o == 0, 'splits the line it was given')
        dv = models.getstr(eng, st, delim)
        eng.spec_obl(st, dv.n == self.delim.n and strnode(st, dv) is strnode(st, self.delim), 'splits with the delimiter it was given')
        o = self.off['splitter_.split_data_'][0]
        a, b = cellval(st, self.C, o, 8), cellval(st, self.C, o + 8, 8)
        eng.spec_obl(st, a.r == b.r and eq(a.o, b.o), 'no field of an old line is kept')
        eng.spec_obl(st, not any(e[0] == 'split' for e in st.ghost.get('log', ())), 'splits a line once')
        s2 = st.fork()
        out = []
        self.fields(s2)
        self.log(s2, 'split', True)
        s2.wreg(self.C).cells[self.off['splitter_.error_'][0]] = self.noerr
        out.append((s2, 'ret', Ptr(self.C, o)))
        m = StrVal(fresh('msg.len', 1, 1 << 40), bytefn(fresh_name('msg')))
        if self.cfg.mode == 'throw':
            x = st.new_region('exception', 'cells', 40, 'exc')
            vt = norm_ptr(eng.global_ptr(st, '_ZTVN2ss9exceptionE'))
            x.cells[0], x.cells[8] = (8, Ptr(vt.r, 16)), (32, m)
            g = dict(st.ghost.get('__exctype', {}))
            g[x.rid] = THROW
            st.ghost['__exctype'] = g
            self.log(st, 'split', False, m)
            out.append((st, 'throw', (Ptr(x.rid, 0), THROW)))
        else:
            st.wreg(self.C).cells[self.off['splitter_.error_'][0]] = (32, m) if self.cfg.mode == 'string' else (1, 1)
            self.fields(st)
            st.ghost['bad split'] = True
            self.log(st, 'split', False, m)
            out.append((st, 'ret', Ptr(self.C, o)))
        return Forks(out)

    def fields(self, st):
        V = fields_vector(st, self.L)
        st.ghost['n'] = V[1]
        st.ghost['V'] = V[0]
        o = self.off['splitter_.split_data_'][0]
        for k, q in enumerate((Ptr(V[0], 0), Ptr(V[0], scale(V[1], 16)), Ptr(V[0], scale(V[1], 16)))):
            st.wreg(self.C).cells[o + 8 * k] = (8, q)


def fields_vector(st, line):
    B = st.ghost['B'] = z3.Function(fresh_name('field'), I, I)
    V = st.new_region('fields', 'words', 0, 'heap')
    n = fresh('fields.n', 0, 1 << 50)
    size = st.mem[line].size

    def rd(j):
        e = B(z(j))
        new = e.get_id() not in ATOMS
        a = atom(e, 0, 1 << 60)
        if new:     # every field lies in the line, before its terminator
            zj = z(j)
            FACTS[e.get_id()] += [z3.Implies(z3.And(zj >= 0, zj < z(n) * 2), e < z(size)),
                                  z3.Implies(zj % 2 == 0, e <= B(zj + 1)), z3.Implies(zj % 2 == 1, B(zj - 1) <= e)]
        return Ptr(line, a)
    V.node = SBase(rd, 'fields')
    V.size = scale(n, 16)
    return V.rid, n


CONV_CONTRACTS = [(r'^.*::type ss::extract<.*>\(char const\*, char const\*, ', 'extract'),
                  (r'^ss::splitter<.*>::split\(', 'split')]


def convert(name, deadline, types='int', mode='string', mapped=False, entry='cached', wrap=''):
    """converter::convert on the fields of a row: column count, mapping, order, first error, values"""
    from .split import Cfg
    from .row import text, same_text, dec
    t0 = time.time()
    cfg = Cfg(mode=mode)
    ts = split_types(types)
    els = [element(t) for t in ts]
    keep = [k for k, t in enumerate(ts) if t != 'void']
    V = 'ss::no_void_validator_tup_t<%s>' % types
    call = {'cached': 'c->convert<@T@>()', 'elems': 'c->convert<@T@>(*d)', 'line': 'c->convert<@T@>(line, *delim)'}[entry]
    if wrap == 'tuple':
        call = call.replace('@T@', 'std::tuple<%s>' % types)
    elif wrap == 'tied':
        V = 'Tied'
        call = call.replace('@T@', 'Tied')
    elif wrap == 'object':
        V = 'Obj'
        call = call.replace('convert<@T@>', 'convert_object<Obj, %s>' % types)
    call = call.replace('@T@', types)
    elt = [els[k][0] for k in keep]
    one = len(keep) == 1
    acc = ['*v'] if one and not wrap in ('tied', 'object') else ['v->a', 'v->b'] if wrap in ('tied', 'object') else ['std::get<%d>(*v)' % k for k in range(len(keep))]
    outs = ''.join(', %s** q%d' % (t, k) for k, t in enumerate(elt))
    lk = ' '.join('*q%d = &%s;' % (k, a) for k, a in enumerate(acc))
    src = CV.replace('@OPTS@', cfg.opts()).replace('@V@', V).replace('@OUTS@', outs).replace('@CALL@', call).replace('@LOOK@', lk)
    src = src.replace('@MSG@', 'extern "C" const std::string* drv_msg(C* p) { return &p->error_msg(); }' if mode == 'string' else '')
    mod = build.ir(src, 'cv')
    reset()
    w = ConvWorld(cfg)
    eng = Engine(mod, w)
    eng.deadline = deadline
    models.install(eng)

    def mk(meth):
        def f(e, st, av, ins, nm):
            return getattr(w, meth)(e, st, av, ins, nm)
        f.label = 'contract of ss::%s' % meth
        return f
    for rx, m in CONV_CONTRACTS:
        eng.model_res.insert(0, (re.compile(rx), mk(m)))
    names = [demangle(f) for f in mod.fns]
    for rx, m in CONV_CONTRACTS[:1 if entry != 'line' else 2]:
        if not any(re.match(rx, n) for n in names):
            raise Unsupported('no function which the contract of %s describes' % m)
    st = State(eng)
    c = mod.classes(r'^converter<')
    if len(c) != 1:
        raise Unsupported('converter class not found')
    off = w.off = mod.layout(c[0], lambda n: n.startswith(('basic_string<', 'vector<')))
    if set(off) != set(CONV_MEMBERS):
        raise Unsupported('members differ from the contract: %s' % ', '.join(sorted(set(off) ^ set(CONV_MEMBERS))))
    C = st.new_region('converter', 'cells', mod._di()[c[0]]['size'], 'arg')
    w.C, w.s0 = C.rid, off['splitter_.error_'][0]
    size = fresh('size', 1, 1 << 60)
    L = st.new_region('line', 'bytes', size, 'arg')
    L.node = w.D
    w.L = L.rid
    S = lambda nm: StrVal(fresh(nm + '.len', 0, 1 << 40), bytefn(fresh_name(nm)))
    serr = None
    for p, (o, n, ty) in off.items():
        if ty.startswith('basic_string<'):
            C.cells[o] = (32, S(p))
        elif p == 'splitter_.split_data_':
            V_, N_ = fields_vector(st, w.L)
            st.ghost['n'], st.ghost['V'] = N_, V_
            for k, q in enumerate((Ptr(V_, 0), Ptr(V_, scale(N_, 16)), Ptr(V_, scale(N_, 16)))):
                C.cells[o + 8 * k] = (8, q)
        elif p == 'column_mappings_':
            M = st.new_region('mapping', 'words', 0, 'heap')
            Mf = z3.Function('mapping', I, I)
            M.node = SBase(lambda j: atom(Mf(z(j)), 0, 1 << 50), 'mapping')
            m = fresh('mapping.n', 1, 1 << 50) if mapped else 0
            M.size = scale(m, 8)
            for k, q in enumerate((Ptr(M.rid, 0), Ptr(M.rid, scale(m, 8)), Ptr(M.rid, scale(m, 8)))):
                C.cells[o + 8 * k] = (8, q)
        elif ty == 'bool':
            C.cells[o] = (n, boolint(fresh_bool(p)))
        elif ty == 'ptr':
            C.cells[o] = (n, Ptr(w.L, fresh(p, 0, 1 << 60)))
        else:
            C.cells[o] = (n, fresh(p, 0, 1 << 50))
    ncols = C.cells[off['number_of_columns_'][0]][1]
    if mapped:      # established by set_column_mapping's callers
        for k in range(len(ts)):
            e = atom(Mf(z3.IntVal(k)), 0, 1 << 50)
            st.assume(Implies(lt(k, m), lt(e, ncols)))
    if mode == 'throw':
        for p in ('error_', 'splitter_.error_'):
            C.cells[off[p][0]] = (1, 0)
    w.noerr = (32, StrVal(0, SConst(b''))) if mode == 'string' else (1, 0)
    D = st.new_region('elems', 'cells', 24, 'arg')
    if entry == 'elems':
        Ve, Ne = fields_vector(st, w.L)
        st.ghost['n'], st.ghost['V'] = Ne, Ve
        for k, q in enumerate((Ptr(Ve, 0), Ptr(Ve, scale(Ne, 16)), Ptr(Ve, scale(Ne, 16)))):
            D.cells[8 * k] = (8, q)
    w.delim = S('delim')
    DL = st.new_region('delim', 'cells', 32, 'arg')
    DL.cells[0] = (32, w.delim)
    R = st.new_region('result', 'cells', 256, 'arg')
    qs = [st.new_region('q%d' % k, 'cells', 8, 'arg').rid for k in range(len(elt))]
    # fields lie in the line
    e0 = C.cells[off['splitter_.error_'][0]][1]
    eng.enter(st, mod.fns['drv'], [Ptr(C.rid, 0), Ptr(D.rid, 0), Ptr(w.L, 0), Ptr(DL.rid, 0), Ptr(R.rid, 0)] + [Ptr(q, 0) for q in qs])
    init = dict(C.cells)
    res, _ = eng.explore([st], None)
    so = eng.spec_obl
    cov = {}
    nm = 'convert %s'
    frame = {off[p][0] + d for p in ('column_mappings_', 'number_of_columns_') for d in ((0, 8, 16) if p[0] == 'c' else (0,))}

    def fld(o, k):
        B = o.ghost['B']
        j = atom(Mf(z3.IntVal(k)), 0, 1 << 50) if mapped else k
        i = scale(j, 2)
        return atom(B(z(i)), 0, 1 << 60), atom(B(z(add(i, 1))), 0, 1 << 60)

    def report(o, k, parts):
        cov[k] = cov.get(k, 0) + 1
        err = o.mem[w.C].cells.get(off['error_'][0], (0, None))[1]
        if mode == 'throw':
            ok = o.final[0] == 'throw' and o.final[2] == THROW
            so(o, ok, nm % 'reports: ' + k)
            if ok and parts is not None:
                x = o.mem[norm_ptr(o.final[1]).r].cells.get(8)
                same_text(eng, o, x[1] if x else None, text(o, *parts), nm % 'reports: ' + k)
            return
        so(o, o.final[0] == 'ret', nm % 'throws in throwing mode only')
        if mode == 'string':
            same_text(eng, o, err, text(o, *parts), nm % 'reports: ' + k)
        else:
            so(o, eq(err, 1), nm % 'reports: ' + k)

    def fits(o, r, els_k, v):
        """is the value permitted"""
        t, R_, args = els_k
        if R_ == 'ne':
            return gt(v.n, 0)
        if t in ('double', 'float'):
            x = v.v if t == 'double' else z3.fpToFP(z3.RNE(), v.v, F64)
            return meaning(R_, x, args, lambda op, a, b: {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT,
                                                         'le': z3.fpLEQ}[op](a, z3.FPVal(float(b), F64)))
        return meaning(R_, v, args, lambda op, a, b: {'eq': eq, 'gt': gt, 'ge': ge, 'lt': lt, 'le': le}[op](
            a, ord(b) if isinstance(b, str) else b))

    for o in res:
        if not o.consistent():
            continue
        lg = [e for e in o.ghost.get('log', ()) if e[0] == 'extract']
        sp = [e for e in o.ghost.get('log', ()) if e[0] == 'split']
        err = o.mem[w.C].cells.get(off['error_'][0], (0, None))[1]
        n = o.ghost['n']
        for x in frame:
            a, b = init.get(x), o.mem[w.C].cells.get(x)
            so(o, a == b or (a and b and not isinstance(a[1], Ptr) and eq(a[1], b[1])), nm % 'keeps the column mapping')
        bad = False
        if entry == 'line':
            empty = eq(w.D.read(o, 0), 0)
            if not sp:
                so(o, empty, nm % 'splits every line which is not empty')
                a, b = (cellval(o, w.C, off['splitter_.split_data_'][0] + d, 8) for d in (0, 8))
                so(o, a.r == b.r and eq(a.o, b.o), nm % 'an empty line has no fields')
                n = quot(sub(b.o, a.o), 16)
            elif not sp[0][1]:
                bad = True
        elif mode != 'throw':
            valid = eq(e0.n, 0) if mode == 'string' else eq(e0, 0)
            dec_ = o.decide(valid)
            if dec_ is None:
                so(o, False, nm % 'looks at the validity of the row')
                continue
            bad = not dec_
        if bad:
            so(o, not lg, nm % 'extracts nothing from a malformed row')
            report(o, 'malformed row', [sp[0][2] if sp else e0] if mode == 'string' or sp else None)
            continue
        if mapped:
            if o.feasible(Not(eq(m, len(ts)))):
                so(o, Not(eq(m, len(ts))), nm % 'compares the number of arguments with the mapping')
                so(o, not lg, nm % 'extracts nothing for a wrong number of arguments')
                report(o, 'mapping', ['number of arguments does not match mapping, expected: ', dec(m), ', got: %d' % len(ts)])
                continue
            want = ncols
        else:
            want = len(ts)
        if o.feasible(Not(eq(n, want))):
            so(o, Not(eq(n, want)), nm % 'compares the number of columns')
            so(o, not lg, nm % 'extracts nothing from a row with another number of columns')
            report(o, 'number of columns', ['invalid number of columns, expected: ', dec(want) if mapped else str(want), ', got: ', dec(n)])
            continue
        # which column was extracted when
        got = {}
        for e in lg:
            hit = None
            for k in keep:
                b, x = fld(o, k)
                if k not in got and els[k][0] == e[1] and o.proves(And(eq(b, e[2]), eq(x, e[3]))):
                    hit = k
                    break
            so(o, hit is not None, nm % 'extracts a field of the row as the type of its column', e[1])
            if hit is not None:
                got[hit] = e
        fail = None
        for k in keep:
            if k not in got:
                so(o, fail is not None, nm % 'extracts every column')
                break
            e = got[k]
            if not e[4]:
                fail = (k, 'invalid conversion for parameter at column %d: \'' % (k + 1), e)
                break
            if els[k][1]:
                c = fits(o, None, els[k], e[5])
                d = o.decide(c)
                if d is None:
                    # the path does not depend on the restriction
                    so(o, False, nm % 'applies the restriction of every column')
                    break
                if not d:
                    fail = (k, '%s at column %d: \'' % (RESTR.get(els[k][1], 'validation error'), k + 1), e)
                    break
        else:
            so(o, o.final[0] == 'ret', nm % 'throws on errors only')
            if o.final[0] != 'ret':
                continue
            if mode != 'throw':
                so(o, eq(err.n, 0) if mode == 'string' and isinstance(err, StrVal) else eq(err, 0), nm % 'is valid when every column is')
            cov['value'] = cov.get('value', 0) + 1
            for i, k in enumerate(keep):
                p = norm_ptr(cellval(o, qs[i], 0, 8))
                v = got[k][5]
                w_ = nm % 'returns the value of every column'
                t = elt[i]
                opt = t.startswith('std::optional<')
                t = t[14:-1] if opt else t
                sz = SIZES.get(t) or INTS[t][0]
                g = cellval(o, p.r, p.o, sz) if sz == 32 else eng.load(o, p, ('f', t) if t in ('double', 'float') else ('i', 8 * sz))
                if opt:
                    h = eng.uns(o, eng.load(o, Ptr(p.r, add(p.o, sz)), ('i', 8)), 8)
                    so(o, Iff(eq(h, 1), v[1]), w_)
                    v = v[0]
                    s = o.fork()
                    s.assume(eq(h, 1))
                    if not s.consistent():
                        continue
                else:
                    s = o
                if isinstance(v, StrVal):
                    so(s, isinstance(g, StrVal) and g.n == v.n and strnode(s, g) is strnode(s, v) or
                       (isinstance(g, StrVal) and s.proves(eq(g.n, v.n))), w_)
                    if isinstance(g, StrVal) and strnode(s, g) is not strnode(s, v):
                        same_text(eng, s, g, v, w_)
                elif isinstance(v, Opaque):
                    so(s, g == v, w_)
                else:
                    so(s, isinstance(g, (int, Lin)) and eq(eng.sgn(s, g, 8 * sz) if signed(t) else eng.uns(s, g, 8 * sz), v), w_)
            continue
        if fail is None:
            continue
        k, msg, e = fail
        b, x = fld(o, k)
        t_ = StrVal(sub(x, b), SCopy(SConst(b''), 0, sub(x, b), w.D, b))
        report(o, 'restriction' if e[4] else 'conversion', [msg, t_, '\''])
    return tasks.summarise(eng, name, t0, cov)

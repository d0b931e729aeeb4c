"""Symbolic values: linear integer terms over z3 atoms, pointers, facts attached to atoms."""
import z3

ATOMS = {}      # z3 ast id -> (ast, lo, hi)
FACTS = {}      # z3 ast id -> [z3 bool]   (valid in every interpretation)
BOOLATOM = {}   # ast id of If(b,1,0) -> b
BASEATOM = {}   # ast id of a region base address -> region id
_n = [0]


def reset():
    ATOMS.clear()
    FACTS.clear()
    BOOLATOM.clear()
    BASEATOM.clear()
    _zc.clear()
    _leaf.clear()
    _n[0] = 0


class Lin:
    __slots__ = ('t', 'c', '_h', '_z')

    def __init__(self, t, c):
        self.t = t      # dict id->coef, non-empty
        self.c = c
        self._h = None
        self._z = None

    def key(self):
        if self._h is None:
            self._h = (tuple(sorted(self.t.items())), self.c)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = ' + '.join(('%s*' % c if c != 1 else '') + str(ATOMS[i][0]) for i, c in sorted(self.t.items()))
        return s + (' + %d' % self.c if self.c > 0 else ' - %d' % -self.c if self.c < 0 else '')

    # arithmetic sugar
    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return scale(self, o)
    __rmul__ = __mul__

    def __neg__(self):
        return scale(self, -1)


def atom(e, lo=None, hi=None, facts=()):
    """Lin for a z3 Int expression taken as atomic"""
    i = e.get_id()
    if i not in ATOMS:
        ATOMS[i] = (e, lo, hi)
        fs = FACTS.setdefault(i, [])
        if lo is not None:
            fs.append(e >= lo)
        if hi is not None:
            fs.append(e <= hi)
        fs.extend(facts)
    return Lin({i: 1}, 0)


def fresh(name, lo=None, hi=None):
    _n[0] += 1
    return atom(z3.Int('%s!%d' % (name, _n[0])), lo, hi)


def fresh_bool(name):
    _n[0] += 1
    return z3.Bool('%s!%d' % (name, _n[0]))


def fresh_name(name):
    _n[0] += 1
    return '%s!%d' % (name, _n[0])


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return Lin(b.t, b.c + a) if a else b
    if isinstance(b, int):
        return Lin(a.t, a.c + b) if b else a
    t = dict(a.t)
    for i, c in b.t.items():
        v = t.get(i, 0) + c
        if v:
            t[i] = v
        else:
            t.pop(i, None)
    c = a.c + b.c
    return Lin(t, c) if t else c


def scale(a, k):
    if not isinstance(k, int):
        if isinstance(a, int):
            a, k = k, a
        else:
            raise TypeError('non-linear')
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin({i: c * k for i, c in a.t.items()}, a.c * k)


def sub(a, b):
    if isinstance(b, int):
        return add(a, -b)
    return add(a, scale(b, -1))


_zc = {}


def z(a):
    if isinstance(a, int):
        return z3.IntVal(a)
    if isinstance(a, Lin):
        if a._z is not None:
            return a._z
        k = a.key()
        r = _zc.get(k)
        if r is None:
            ts = []
            for i, c in sorted(a.t.items()):
                e = ATOMS[i][0]
                ts.append(e if c == 1 else c * e)
            if a.c:
                ts.append(z3.IntVal(a.c))
            r = ts[0] if len(ts) == 1 else z3.Sum(ts)
            _zc[k] = r
        a._z = r
        return r
    return a


def interval(a):
    if isinstance(a, int):
        return a, a
    lo = hi = a.c
    for i, c in a.t.items():
        e, l, h = ATOMS[i]
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
        if lo is None and hi is None:
            break
    return lo, hi


def boolint(b):
    """i1 -> integer 0/1"""
    if isinstance(b, bool):
        return int(b)
    e = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    r = atom(e, 0, 1)
    BOOLATOM[e.get_id()] = b
    return r


def as_bool(a):
    """the boolean behind a 0/1 integer, if it is one"""
    if isinstance(a, int):
        return bool(a & 1)
    if a.c == 0 and len(a.t) == 1:
        (i, c), = a.t.items()
        if c == 1 and i in BOOLATOM:
            return BOOLATOM[i]
    return None


def ite(c, a, b):
    """integer if-then-else"""
    if isinstance(c, bool):
        return a if c else b
    if a == b if not (isinstance(a, Lin) ^ isinstance(b, Lin)) else False:
        return a
    la, ha = interval(a)
    lb, hb = interval(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return atom(z3.If(c, z(a), z(b)), lo, hi)


# comparisons producing python bool or z3 Bool ---------------------------
def lt(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return d < 0
    lo, hi = interval(d)
    if hi is not None and hi < 0:
        return True
    if lo is not None and lo >= 0:
        return False
    return z(a) < z(b)


def le(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return d <= 0
    lo, hi = interval(d)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    return z(a) <= z(b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return d == 0
    lo, hi = interval(d)
    if (hi is not None and hi < 0) or (lo is not None and lo > 0):
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and y in (0, 1):
            bb = as_bool(x)
            if bb is not None:
                return bb if y else z3.Not(bb)
    return z(a) == z(b)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def bz(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


# leaves with facts in a formula -----------------------------------------
_leaf = {}


def leaves(e):
    """ids of subterms of e which carry facts (cached)"""
    i = e.get_id()
    r = _leaf.get(i)
    if r is not None:
        return r[1]
    out = set()
    if i in FACTS:
        out.add(i)
    for c in e.children():
        out |= leaves(c)
    if len(_leaf) > 400000:
        _leaf.clear()
    _leaf[i] = (e, out)
    return out


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r, self.o = r, o

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.r == x.r and type(self.o) == type(x.o) and self.o == x.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.o)


NULL = Ptr(0, 0)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return isinstance(x, Fn) and x.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Opaque:
    """value of a type the verifier does not interpret (floating point, std::string contents)"""
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __eq__(self, x):
        return isinstance(x, Opaque) and x.k == self.k and (x.v is self.v or (
            not isinstance(x.v, z3.AstRef) and x.v == self.v) or (isinstance(x.v, z3.AstRef) and isinstance(
                self.v, z3.AstRef) and x.v.eq(self.v)))

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'Opaque(%s,%s)' % (self.k, self.v)

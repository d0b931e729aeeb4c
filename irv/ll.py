"""Reader for textual LLVM IR (clang 18, -O0): types, globals, functions, debug lines.

Everything the compiler emitted is kept except attributes, alignment, linkage and
metadata other than source lines and class member offsets."""
import re


class ParseError(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<reg>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[-+][0-9]+)?|-?0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<p>[=,(){}\[\]<>*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('token at %r' % s[i:i + 40])
        k = m.lastgroup
        if k != 'ws':
            t = m.group()
            if k in ('reg', 'glob') and t[1:2] == '"':
                t = t[0] + t[2:-1]
            out.append((k, t))
        i = m.end()
    out.append(('end', ''))
    return out


PARAM_ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly',
              'readnone', 'returned', 'inreg', 'immarg', 'noreturn', 'nounwind', 'nofree', 'nest', 'swiftself',
              'inalloca', 'allocptr', 'dead_on_unwind', 'writable', 'nosync', 'range'}
PARAM_ATTR_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
                'preallocated', 'initializes'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.t[self.i][1] == s and self.t[self.i][0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise ParseError('expected %r got %r' % (s, [x[1] for x in self.t[self.i:self.i + 6]]))

    # types -------------------------------------------------------------
    def type(self):
        k, v = self.t[self.i]
        if k == 'word':
            self.i += 1
            if v == 'ptr':
                r = ('p',)
            elif v == 'void':
                r = ('v',)
            elif re.fullmatch(r'i[0-9]+', v):
                r = ('i', int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
                r = ('f', v)
            elif v in ('label', 'metadata', 'token', 'opaque'):
                r = (v,)
            else:
                raise ParseError('type %r' % v)
        elif k == 'reg':
            self.i += 1
            r = ('n', v[1:])
        elif v == '{':
            self.i += 1
            r = ('s', tuple(self.typelist('}')), False)
        elif v == '[':
            self.i += 1
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            r = ('a', n, t)
        elif v == '<':
            self.i += 1
            if self.peek() == '{':
                self.i += 1
                r = ('s', tuple(self.typelist('}')), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                t = self.type()
                self.expect('>')
                r = ('vec', n, t)
        else:
            raise ParseError('type %r' % v)
        while True:
            if self.peek() == '(' and self.kind() == 'p':
                # function type
                self.i += 1
                a = self.typelist(')')
                r = ('fn', r, tuple(a))
            elif self.peek() == '*' and self.kind() == 'p':
                self.i += 1
                r = ('p',)
            else:
                return r

    def typelist(self, close):
        out = []
        if self.accept(close):
            return out
        while True:
            if self.accept('...'):
                out.append(('...',))
            else:
                out.append(self.type())
            if self.accept(close):
                return out
            self.expect(',')

    # values ------------------------------------------------------------
    def value(self, ty):
        k, v = self.t[self.i]
        if k == 'reg':
            self.i += 1
            return ('r', v[1:])
        if k == 'glob':
            self.i += 1
            return ('g', v[1:])
        if k == 'num':
            self.i += 1
            if ty[0] == 'f':
                return ('f', v)
            return ('i', int(v))
        if k == 'str':
            self.i += 1
            return ('str', cstr(v))
        if k == 'word':
            if v in ('true', 'false'):
                self.i += 1
                return ('i', 1 if v == 'true' else 0)
            if v == 'null' or v == 'none':
                self.i += 1
                return ('n',)
            if v in ('undef', 'poison'):
                self.i += 1
                return ('u',)
            if v == 'zeroinitializer':
                self.i += 1
                return ('z',)
            if v == 'getelementptr':
                self.i += 1
                while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.i += 1
                self.expect('(')
                bt = self.type()
                self.expect(',')
                self.type()
                base = self.value(('p',))
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    t = self.type()
                    idx.append((t, self.value(t)))
                self.expect(')')
                return ('gep', bt, base, tuple(idx))
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
                self.i += 1
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t, x, t2)
            if v in ('sub', 'add'):
                self.i += 1
                while self.peek() in ('nuw', 'nsw'):
                    self.i += 1
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                self.type()
                b = self.value(t)
                self.expect(')')
                return ('bin', v, t, a, b)
            if v == 'blockaddress' or v == 'asm':
                raise ParseError(v)
        if v in ('{', '[') or (v == '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            self.i += 1
            if v == '<' and self.peek() == '{':
                self.i += 1
                close = '}'
                packed = True
            else:
                packed = False
            out = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    out.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', tuple(out))
        raise ParseError('value %r (%s)' % (v, k))

    def skip_attrs(self):
        """parameter attributes; returns dict of those with meaning"""
        res = {}
        while self.kind() == 'word':
            v = self.peek()
            if v in PARAM_ATTR:
                self.i += 1
                if v == 'range':
                    self.parens()
            elif v in PARAM_ATTR_P:
                self.i += 1
                if v == 'align' and self.kind() == 'num':
                    self.i += 1
                elif self.accept('('):
                    if v in ('sret', 'byval', 'elementtype', 'byref'):
                        res[v] = self.type()
                    else:
                        self.next()
                    self.expect(')')
            else:
                break
        return res

    def parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            d += (v == '(') - (v == ')')


def cstr(v):
    assert v.startswith('c"')
    b = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == '\\':
            if b[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(b[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'x')

    def __init__(self, op, res, ty, a, dbg, x=None):
        self.op, self.res, self.ty, self.a, self.dbg, self.x = op, res, ty, a, dbg, x

    def __repr__(self):
        return '%s=%s %s %s %s' % (self.res, self.op, self.ty, self.a, self.x)


class Function:
    def __init__(self, name, ret, params, vararg, lines, mod, sret):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self._lines = lines
        self.mod = mod
        self.sret = sret
        self._blocks = None
        self._loops = None
        self.dbg = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        bl = {}
        cur = None
        order = []
        i = 0
        L = self._lines
        self.entry = None
        while i < len(L):
            s = L[i].strip()
            i += 1
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):(?:\s*;.*)?$', s)
            if m:
                name = m.group(1) or m.group(2)
                cur = []
                bl[name] = cur
                order.append(name)
                continue
            if cur is None:
                name = str(len(self.params))
                # implicit entry label: numbered
                cur = []
                bl['%entry'] = cur
                order.append('%entry')
            if re.match(r'^(%\S+ = )?(invoke) ', s):
                s += ' ' + L[i].strip()
                i += 1
            elif re.match(r'^(switch) ', s):
                while not re.search(r'\](,|$)', s):
                    s += ' ' + L[i].strip()
                    i += 1
            elif ' = landingpad' in s:
                while i < len(L) and re.match(r'^\s+(cleanup|catch|filter)\b', L[i]):
                    s += ' ' + L[i].strip()
                    i += 1
            cur.append(self._ins(s))
        self._blocks = bl
        self.order = order
        self.entry = order[0]

    def _ins(self, s):
        toks = tokenize(s)
        p = P(toks, self.mod)
        dbg = None
        # find !dbg
        for j in range(len(toks) - 2, 0, -1):
            if toks[j - 1] == ('meta', '!dbg'):
                dbg = toks[j][1]
                break
        res = None
        if p.kind() == 'reg' and toks[1][1] == '=':
            res = p.next()[1:]
            p.next()
        op = p.next()
        if op in ('tail', 'notail', 'musttail'):
            op = p.next()
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = None
            if p.accept(',') and p.peek() != 'align':
                nt = p.type()
                n = p.value(nt)
            return Ins(op, res, t, (n,), dbg)
        if op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            p.type()
            return Ins(op, res, t, (p.value(('p',)),), dbg)
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return Ins(op, res, t, (v, p.value(('p',))), dbg)
        if op == 'getelementptr':
            inb = p.accept('inbounds')
            t = p.type()
            p.expect(',')
            p.type()
            base = p.value(('p',))
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            return Ins(op, res, t, (base, tuple(idx)), dbg, inb)
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
                               'reassoc', 'disjoint'):
                flags.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Ins(op, res, t, (a, b), dbg, flags)
        if op == 'fneg':
            t = p.type()
            return Ins(op, res, t, (p.value(t),), dbg)
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz'):
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Ins(op, res, t, (a, b), dbg, pred)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc', 'freeze'):
            p.accept('nneg')
            t = p.type()
            v = p.value(t)
            t2 = t
            if p.accept('to'):
                t2 = p.type()
            return Ins(op, res, t2, (v,), dbg, t)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Ins(op, None, None, (p.next()[1:],), dbg)
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            p.expect('label')
            a = p.next()[1:]
            p.expect(',')
            p.expect('label')
            b = p.next()[1:]
            return Ins(op, None, None, (c, a, b), dbg)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()[1:]))
            return Ins(op, None, t, (v, d, tuple(cases)), dbg)
        if op == 'ret':
            t = p.type()
            if t[0] == 'v':
                return Ins(op, None, t, (), dbg)
            return Ins(op, None, t, (p.value(t),), dbg)
        if op == 'unreachable':
            return Ins(op, None, None, (), dbg)
        if op == 'resume':
            t = p.type()
            return Ins(op, None, t, (p.value(t),), dbg)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()[1:]
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
                if p.kind() == 'meta':
                    break
            return Ins(op, res, t, tuple(inc), dbg)
        if op == 'select':
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            return Ins(op, res, t, (c, a, b), dbg)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                idx.append(int(p.next()))
            return Ins(op, res, t, (v, tuple(idx)), dbg)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            v2 = p.value(t2)
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                idx.append(int(p.next()))
            return Ins(op, res, t, (v, v2, tuple(idx)), dbg)
        if op == 'landingpad':
            t = p.type()
            clauses = []
            while True:
                if p.accept('cleanup'):
                    clauses.append(('cleanup', None))
                elif p.accept('catch'):
                    p.type()
                    clauses.append(('catch', p.value(('p',))))
                elif p.accept('filter'):
                    ft = p.type()
                    clauses.append(('filter', p.value(ft)))
                else:
                    break
            return Ins(op, res, t, tuple(clauses), dbg)
        if op in ('call', 'invoke'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'fastcc', 'ccc', 'coldcc') or p.peek() in PARAM_ATTR \
                    or p.peek() in PARAM_ATTR_P:
                if p.peek() in PARAM_ATTR or p.peek() in PARAM_ATTR_P:
                    p.skip_attrs()
                else:
                    p.next()
            t = p.type()
            if t[0] == 'fn':
                t = t[1]
            if p.peek() == 'asm':
                raise ParseError('inline asm')
            callee = p.value(('p',))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    if p.accept('...'):
                        pass
                    else:
                        at = p.type()
                        if at[0] == 'metadata':
                            # skip to , or )
                            d = 0
                            while not (d == 0 and p.peek() in (',', ')')):
                                d += (p.peek() in '({[') - (p.peek() in ')}]') if p.kind() == 'p' else 0
                                p.next()
                            args.append((at, None, {}))
                        else:
                            attrs = p.skip_attrs()
                            args.append((at, p.value(at), attrs))
                    if p.accept(')'):
                        break
                    p.expect(',')
            x = None
            if op == 'invoke':
                while not p.accept('to'):
                    p.next()
                p.expect('label')
                ok = p.next()[1:]
                p.expect('unwind')
                p.expect('label')
                x = (ok, p.next()[1:])
            return Ins(op, res, t, (callee, tuple(args)), dbg, x)
        raise ParseError('instruction %r' % s)

    # natural loops -----------------------------------------------------
    @property
    def loops(self):
        """header -> set of blocks"""
        if self._loops is None:
            self._loops = natural_loops(self)
        return self._loops


def succs(block):
    t = block[-1]
    if t.op == 'br':
        return list(t.a[-2:]) if len(t.a) == 3 else [t.a[0]]
    if t.op == 'switch':
        return [t.a[1]] + [c[1] for c in t.a[2]]
    if t.op == 'invoke':
        return [t.x[0], t.x[1]]
    return []


def natural_loops(f):
    bl = f.blocks
    # dominators (simple iterative)
    order = []
    seen = set()

    def dfs(b):
        stack = [(b, iter(succs(bl[b])))]
        seen.add(b)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succs(bl[s]))))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(f.entry)
    rpo = order[::-1]
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(bl[b]):
            preds[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = set.intersection(*[dom[p] for p in preds[b]]) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    loops = {}
    for b in rpo:
        for s in succs(bl[b]):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
            elif rpo.index(s) <= rpo.index(b):
                raise ParseError('irreducible control flow in %s' % f.name)
    return loops


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.decls = {}
        self.aliases = {}
        self.meta = {}
        self._line = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            s = lines[i]
            if s.startswith('%'):
                p = P(tokenize(s), self)
                name = p.next()[1:]
                p.expect('=')
                p.expect('type')
                self.types[name] = p.type()
            elif s.startswith('@'):
                self._global(s)
            elif s.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(s, lines[i + 1:j])
                i = j
            elif s.startswith('declare '):
                self._define(s, None)
            elif s.startswith('!'):
                m = re.match(r'^(![0-9]+) = (.*)$', s)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1

    def _global(self, s):
        m = re.match(r'^@("[^"]*"|\S+) = (.*)$', s)
        name = m.group(1).strip('"')
        rest = m.group(2)
        if ' alias ' in ' ' + rest:
            m2 = re.search(r'alias .*, ptr @("[^"]*"|[^,\s]+)', rest)
            self.aliases[name] = m2.group(1).strip('"')
            return
        p = P(tokenize(rest), self)
        const = False
        while p.peek() not in ('global', 'constant'):
            p.next()
            if p.kind() == 'end':
                return
        const = p.next() == 'constant'
        ty = p.type()
        init = None
        try:
            if p.peek() not in (',', ''):
                init = p.value(ty)
        except ParseError:
            init = None
        self.globals[name] = (ty, init, const)

    def _define(self, s, body):
        p = P(tokenize(re.sub(r'#dbg.*', '', s)), self)
        p.next()
        rattr = {}
        while True:
            if p.peek() in ('dso_local', 'linkonce_odr', 'internal', 'hidden', 'weak', 'weak_odr', 'private',
                            'available_externally', 'external', 'fastcc', 'protected', 'extern_weak', 'ccc'):
                p.next()
            elif p.kind() == 'word' and (p.peek() in PARAM_ATTR or p.peek() in PARAM_ATTR_P):
                p.skip_attrs()
            else:
                break
        ret = p.type()
        name = p.next()[1:]
        p.expect('(')
        params = []
        vararg = False
        sret = None
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    vararg = True
                else:
                    t = p.type()
                    at = p.skip_attrs() if t[0] != 'metadata' else {}
                    nm = None
                    if p.kind() == 'reg':
                        nm = p.next()[1:]
                    if 'sret' in at:
                        sret = (len(params), at['sret'])
                    params.append((t, nm, at))
                if p.accept(')'):
                    break
                p.expect(',')
        m = re.search(r'!dbg (![0-9]+)', s)
        f = Function(name, ret, params, vararg, body, self, sret)
        f.dbg = m.group(1) if m else None
        if body is None:
            self.decls[name] = f
        else:
            # unnamed parameters are numbered in order with unnamed values
            k = 0
            for j, (t, nm, at) in enumerate(params):
                if nm is None:
                    params[j] = (t, str(k), at)
                    k += 1
                elif nm.isdigit():
                    k = int(nm) + 1
            self.fns[name] = f

    # layout ------------------------------------------------------------
    def resolve(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            b = (t[1] + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if t[0] == 'p':
            return 8
        if t[0] == 'f':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if t[0] == 'a':
            return self.align(t[2])
        if t[0] == 's':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] + [1])
        raise ParseError('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t[0] == 'p':
            return 8
        if t[0] == 'f':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if t[0] == 'a':
            return t[1] * self.size(t[2])
        if t[0] == 's':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise ParseError('size %r' % (t,))

    def offsets(self, t):
        t = self.resolve(t)
        if t[0] == 'a':
            s = self.size(t[2])
            return [i * s for i in range(t[1])]
        o = 0
        out = []
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            out.append(o)
            o += self.size(x)
        return out

    def scalars(self, t, base=0):
        """list of (offset, scalar type)"""
        t = self.resolve(t)
        if t[0] == 'a':
            s = self.size(t[2])
            out = []
            for i in range(t[1]):
                out += self.scalars(t[2], base + i * s)
            return out
        if t[0] == 's':
            out = []
            for o, x in zip(self.offsets(t), t[1]):
                out += self.scalars(x, base + o)
            return out
        return [(base, t)]

    # debug -------------------------------------------------------------
    def where(self, dbg):
        """(file, line) of a !dbg reference"""
        if dbg is None:
            return None
        r = self._line.get(dbg)
        if r is None:
            s = self.meta.get(dbg, '')
            m = re.search(r'line: (\d+)', s)
            line = int(m.group(1)) if m else 0
            sc = re.search(r'scope: (![0-9]+)', s)
            fn = ''
            k = 0
            sc = sc.group(1) if sc else None
            while sc and k < 20:
                t = self.meta.get(sc, '')
                m = re.search(r'file: (![0-9]+)', t)
                if m:
                    m = re.search(r'filename: "([^"]*)"', self.meta.get(m.group(1), ''))
                    fn = m.group(1) if m else ''
                    break
                m = re.search(r'scope: (![0-9]+)', t)
                sc = m.group(1) if m else None
                k += 1
            r = (fn.split('/')[-1], line)
            self._line[dbg] = r
        return r

    def member_offsets(self, class_file_suffix=None):
        """class name -> {member name: byte offset}, from debug info"""
        out = {}
        names = {}
        for k, s in self.meta.items():
            if 'DICompositeType(' in s:
                m = re.search(r'name: "((?:[^"\\]|\\.)*)"', s)
                names[k] = m.group(1) if m else ''
        for k, s in self.meta.items():
            if 'DW_TAG_member' in s and 'DIFlagStaticMember' not in s:
                m = re.search(r'name: "([^"]*)"', s)
                sc = re.search(r'scope: (![0-9]+)', s)
                of = re.search(r'offset: (\d+)', s)
                if m and sc:
                    out.setdefault(names.get(sc.group(1), sc.group(1)), {})[m.group(1)] = (
                        int(of.group(1)) // 8 if of else 0)
        return out

    # ---- class layout from the debug info --------------------------------
    def _di(self):
        if not hasattr(self, '_dic'):
            self._dic = {}
            self._kids = {}
            for k, s in self.meta.items():
                if 'DIDerivedType(' in s or 'DICompositeType(' in s or 'DIBasicType(' in s:
                    d = {'tag': (re.search(r'tag: (DW_TAG_\w+)', s) or [None, ''])[1]}
                    m = re.search(r'name: "((?:[^"\\]|\\.)*)"', s)
                    d['name'] = m.group(1) if m else ''
                    for f in ('scope', 'baseType'):
                        m = re.search(f + r': (![0-9]+)', s)
                        d[f] = m.group(1) if m else None
                    for f in ('size', 'offset'):
                        m = re.search(r'\b' + f + r': (\d+)', s)
                        d[f] = int(m.group(1)) // 8 if m else 0
                    d['static'] = 'DIFlagStaticMember' in s
                    self._dic[k] = d
                    if d['tag'] in ('DW_TAG_member', 'DW_TAG_inheritance') and not d['static']:
                        self._kids.setdefault(d['scope'], []).append(k)
        return self._dic

    def _strip(self, t):
        di = self._di()
        while t in di and di[t]['tag'] in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
            t = di[t]['baseType']
        return t

    def classes(self, pattern):
        """ids of the complete classes whose name matches"""
        di = self._di()
        return [k for k, d in di.items() if d['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type') and
                re.search(pattern, d['name']) and d['size']]

    def layout(self, cls, leaf):
        """path -> (offset, size, type name) of the members of a class, descending until leaf(type name)"""
        di = self._di()
        out = {}

        def go(t, off, path):
            for k in self._kids.get(t, []):
                m = di[k]
                b = self._strip(m['baseType'])
                d = di.get(b, {'tag': '', 'name': '', 'size': m['size']})
                p = path + ('.' if path else '') + m['name'] if m['tag'] == 'DW_TAG_member' else path
                if d['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type') and not leaf(d['name']):
                    go(b, off + m['offset'], p)
                elif m['tag'] == 'DW_TAG_member':
                    nm = d['name'] or d['tag']
                    if d['tag'] == 'DW_TAG_pointer_type':
                        nm = 'ptr'
                    out[p] = (off + m['offset'], m['size'] or d['size'], nm)
        go(cls, 0, '')
        return out

"""Contract of splitter::split against the deterministic specification machine of the CSV dialect."""
import time
import z3
from .val import *
from .mem import *
from . import models
from .engine import Engine, State, Frame, norm_ptr, padd, DeadPath
from .loops import Cand, cellval, scalar

I = z3.IntSort()


class Cfg:
    def __init__(self, quote='"', escape='\\', tl=' ', tr=' ', multiline=False, mode='bool'):
        self.quote, self.escape, self.tl, self.tr, self.multiline, self.mode = quote, escape, tl, tr, multiline, mode

    def opts(self):
        o = []
        lit = lambda cs: ', '.join("'%s'" % {'\\': '\\\\', "'": "\\'", '\t': '\\t'}.get(c, c) for c in cs)
        if self.quote:
            o.append('ss::quote<%s>' % lit(self.quote))
        if self.escape:
            o.append('ss::escape<%s>' % lit(self.escape))
        if self.tl and self.tl == self.tr:
            o.append('ss::trim<%s>' % lit(self.tl))
        else:
            if self.tl:
                o.append('ss::trim_left<%s>' % lit(self.tl))
            if self.tr:
                o.append('ss::trim_right<%s>' % lit(self.tr))
        if self.multiline:
            o.append('ss::multiline')
        if self.mode == 'string':
            o.append('ss::string_error')
        elif self.mode == 'throw':
            o.append('ss::throw_on_error')
        return ', '.join(o)

    def name(self):
        return 'q%d e%d tl%d tr%d m%d %s' % (len(self.quote), len(self.escape), len(self.tl), len(self.tr),
                                             self.multiline, self.mode)

    def const(self):
        return not self.quote and not self.escape


def isin(v, cs):
    return Or(*[eq(v, ord(c)) for c in cs]) if cs else False


class Spec:
    """state of the specification machine"""
    __slots__ = ('mode', 'err', 'pos', 'b', 'CL', 'CC', 'nf', 'FL', 'FC', 'errpos')

    def __init__(self, mode='START', err=None, pos=0, b=0, CL=0, CC=0, nf=0, FL=0, FC=0, errpos=0):
        self.mode, self.err, self.pos, self.b, self.CL, self.CC = mode, err, pos, b, CL, CC
        self.nf, self.FL, self.FC, self.errpos = nf, FL, FC, errpos

    def copy(self, **kw):
        s = Spec.__new__(Spec)
        for k in Spec.__slots__:
            setattr(s, k, kw.get(k, getattr(self, k)))
        return s

    def same(self, o):
        return all(getattr(self, k) == getattr(o, k) for k in Spec.__slots__)

    def __repr__(self):
        return 'Spec(%s)' % ', '.join('%s=%s' % (k, getattr(self, k)) for k in Spec.__slots__)


class SplitPlugin:
    def __init__(self, cfg, eng, n, dlen, i0, F0, L0, M):
        self.cfg, self.eng, self.n, self.D, self.i0, self.F0, self.L0, self.M = cfg, eng, n, dlen, i0, F0, L0, M
        self.S = self.B = self.V = None
        self.off = None
        self.shift = 0

    # ---- specification machine -------------------------------------------
    def L(self, st, j):
        return self.L0.read(st, j)

    def spanR(self, t):
        return self.SRf(t) if self.cfg.tr else 0

    def spanL(self, t):
        return self.SLf(t) if self.cfg.tl else 0

    def append(self, st, sp, frm, to, extra=None):
        """content ++ L0[frm, to) (++ one character); concrete shapes"""
        n1 = sub(to, frm)
        i = sub(self.i0, sp.CL)         # index into the appended part
        cc = sp.CC
        raw = ite(lt(i, 0), cc, self.L(st, add(frm, i)))
        if extra is not None:
            raw = ite(eq(i, n1), extra, raw)
        return add(sp.CL, add(n1, 1 if extra is not None else 0)), raw

    def push(self, st, sp, L=None, C=None):
        c = eq(sp.nf, self.F0)
        if c is False:
            return sp.copy(nf=add(sp.nf, 1))
        d = st.decide(c)
        if d is False:
            return sp.copy(nf=add(sp.nf, 1))
        if d is True:
            return sp.copy(nf=add(sp.nf, 1), FL=sp.CL, FC=sp.CC)
        return sp.copy(nf=add(sp.nf, 1), FL=ite(c, sp.CL, sp.FL), FC=ite(c, sp.CC, sp.FC))

    def step(self, st, sp):
        """the next state, or None if the next character is not determined on this path"""
        cfg = self.cfg
        if sp.mode == 'START':
            p = add(sp.pos, self.spanL(sp.pos))
            if cfg.quote:
                q = st.decide(isin(self.L(st, p), cfg.quote))
                if q is None:
                    return None
                if q:
                    return sp.copy(mode='Q', b=add(p, 1), pos=add(p, 1), CL=0, CC=0)
            return sp.copy(mode='N', b=p, pos=p, CL=0, CC=0)
        if sp.mode == 'N':
            e = sp.pos
            t = add(e, self.spanR(e))
            ch = self.L(st, t)
            eol = st.decide(eq(ch, 0))
            if eol is None:
                return None
            if eol:
                return self.push(st, sp).copy(mode='DONE', pos=add(sp.pos, 1))
            dl = st.decide(self.M(st, t))
            if dl is None:
                return None
            if dl:
                return self.push(st, sp).copy(mode='START', pos=add(t, self.D))
            if cfg.escape:
                es = st.decide(isin(ch, cfg.escape))
                if es is None:
                    return None
                if es:
                    nx = self.L(st, add(t, 1))
                    z0 = st.decide(eq(nx, 0))
                    if z0 is None:
                        return None
                    if z0:
                        cl, cc = self.append(st, sp, e, add(t, 1))
                        return sp.copy(pos=add(t, 1), CL=cl, CC=cc,
                                       err=sp.err if cfg.multiline else 'escape')
                    cl, cc = self.append(st, sp, e, t, nx)
                    return sp.copy(pos=add(t, 2), CL=cl, CC=cc)
            cl, cc = self.append(st, sp, e, add(t, 1))
            return sp.copy(pos=add(t, 1), CL=cl, CC=cc)
        if sp.mode == 'Q':
            e = sp.pos
            ch = self.L(st, e)
            q = st.decide(isin(ch, cfg.quote))
            if q is None:
                return None
            if q:
                t = add(add(e, 1), self.spanR(add(e, 1)))
                c2 = self.L(st, t)
                eol = st.decide(eq(c2, 0))
                if eol is None:
                    return None
                if not eol:
                    dl = st.decide(self.M(st, t))
                    if dl is None:
                        return None
                    if dl:
                        return self.push(st, sp).copy(mode='START', pos=add(t, self.D))
                nx = self.L(st, add(e, 1))
                dq = st.decide(isin(nx, cfg.quote))
                if dq is None:
                    return None
                if dq:
                    cl, cc = self.append(st, sp, e, e, nx)
                    return sp.copy(pos=add(e, 2), CL=cl, CC=cc)
                if eol:
                    return self.push(st, sp).copy(mode='DONE', pos=add(e, 1))
                return sp.copy(mode='DONE', err='mismatch', errpos=e, pos=add(e, 1))
            if cfg.escape:
                es = st.decide(isin(ch, cfg.escape))
                if es is None:
                    return None
                if es:
                    nx = self.L(st, add(e, 1))
                    z0 = st.decide(eq(nx, 0))
                    if z0 is None:
                        return None
                    if z0:
                        return sp.copy(mode='DONE', pos=add(e, 1), err='qescape' if cfg.multiline else 'escape')
                    cl, cc = self.append(st, sp, e, e, nx)
                    return sp.copy(pos=add(e, 2), CL=cl, CC=cc)
            eol = st.decide(eq(ch, 0))
            if eol is None:
                return None
            if eol:
                return sp.copy(mode='DONE', err='open' if cfg.multiline else 'unterminated', pos=add(e, 1))
            cl, cc = self.append(st, sp, e, add(e, 1))
            return sp.copy(pos=add(e, 1), CL=cl, CC=cc)
        return None

    # ---- relation between machine and code --------------------------------
    def mem(self, st, name, size=8):
        return cellval(st, self.S, self.off[name], size)

    def boff(self, st, name):
        p = self.mem(st, name)
        if isinstance(p, Ptr):
            p = norm_ptr(p)
            if p.r == self.B:
                return p.o
        return None

    def vsize(self, st):
        b = cellval(st, self.S, self.off['split_data_'], 8)
        e = cellval(st, self.S, self.off['split_data_'] + 8, 8)
        if isinstance(b, Ptr) and isinstance(e, Ptr) and b.r == e.r:
            return sub(e.o, b.o)
        return None

    def core(self, st, sp):
        if sp.mode == 'DONE' and sp.err:
            return [('done', True)]
        vs = self.vsize(st)
        if vs is None:
            return [('fields', None)]
        out = [('number of fields', eq(vs, scale(sp.nf, 16)))]
        if sp.mode == 'START':
            bg = self.boff(st, 'begin_')
            if bg is None:
                return [('begin', None)]
            out.append(('start of field', eq(add(bg, self.spanL(bg)), add(sp.pos, self.spanL(sp.pos)))))
        elif sp.mode in 'NQ':
            bg, en = self.boff(st, 'begin_'), self.boff(st, 'end_')
            k = self.mem(st, 'escaped_')
            if bg is None or en is None or not isinstance(k, (int, Lin)):
                return [('begin', None)]
            out.append(('position', eq(en, sub(sp.pos, self.shift))))
            out.append(('field start', eq(bg, sub(sp.b, self.shift))))
            out.append(('content length', eq(sp.CL, sub(sub(en, k), bg))))
        return out

    def rest(self, st, sp):
        """name -> thunk"""
        n = self.n
        out = []
        if sp.mode == 'START':
            out.append(('bounds', lambda: And(le(0, sp.pos), le(sp.pos, n), le(0, self.boff(st, 'begin_')),
                                              le(self.boff(st, 'begin_'), n), ge(sp.nf, 0))))
            if self.cfg.tl:
                out.append(('leading spacing skipped', lambda: eq(self.spanL(self.boff(st, 'begin_')), 0)))
        elif sp.mode in 'NQ':
            out.append(('bounds', lambda: And(le(0, sp.b), le(sp.b, sp.pos), le(sp.pos, n), ge(sp.nf, 0))))
            out.append(('shift', lambda: self.r_shift(st, sp)))
            out.append(('content', lambda: self.r_content(st, sp)))
            if self.has('done_'):
                out.append(('stops at the end', lambda: self.r_done(st, sp)))
            if sp.err:
                out.append(('eol', lambda: eq(self.L(st, sp.pos), 0)))
        if sp.mode != 'DONE':
            out.append(('suffix', lambda: self.r_suffix(st, sp)))
            out.append(('fields', lambda: self.r_fields(st, sp, sub(sp.b, self.shift) if sp.mode in 'NQ' else
                                                        self.boff(st, 'begin_'))))
            out.append(('error state', lambda: self.r_err(st, sp)))
        return out

    def has(self, m):
        return m in self.off

    def r_done(self, st, sp):
        d = self.mem(st, 'done_', 1)
        if not isinstance(d, (int, Lin)):
            return None
        return Implies(Not(eq(d, 0)), eq(self.L(st, sp.pos), 0))

    def r_err(self, st, sp):
        v = self.errval(st)
        if v is None:
            return True
        return v if sp.err and sp.err in ('escape',) else Not(v)

    def errval(self, st):
        """formula: the splitter is in the error state"""
        if self.cfg.mode == 'throw':
            return None
        if self.cfg.mode == 'string':
            c = cellval(st, self.S, self.off['error_'], 32)
            return Not(eq(c.n, 0))
        c = cellval(st, self.S, self.off['error_'], 1)
        return Not(eq(c, 0))

    def r_shift(self, st, sp):
        k, cu, en = self.mem(st, 'escaped_'), self.boff(st, 'curr_'), self.boff(st, 'end_')
        if not isinstance(k, (int, Lin)) or cu is None or en is None:
            return None
        if self.cfg.const():
            return eq(k, 0)
        return And(ge(k, 0), Implies(gt(k, 0), And(ge(cu, sub(sp.b, self.shift)), le(add(cu, k), en))))

    def buf(self, st, j):
        return st.mem[self.B].node.read(st, j)

    def r_content(self, st, sp):
        k, cu, en, bg = (self.mem(st, 'escaped_'), self.boff(st, 'curr_'), self.boff(st, 'end_'),
                         self.boff(st, 'begin_'))
        i = self.i0
        if not isinstance(k, (int, Lin)) or cu is None or en is None:
            return None
        plain = self.buf(st, add(bg, i))
        if k == 0:
            v = plain
        else:
            c = Or(eq(k, 0), lt(i, sub(cu, bg)))
            v = ite(c, plain, self.buf(st, add(add(bg, i), k)))
        return Implies(lt(i, sp.CL), eq(v, sp.CC))

    def tail(self, st, sp):
        return self.boff(st, 'begin_') if sp.mode == 'START' else self.boff(st, 'end_')

    def r_suffix(self, st, sp):
        if self.cfg.const() or st.mem[self.B].node is self.L0:
            return True
        E = self.tail(st, sp)
        if E is None:
            return None
        j = self.J
        s = st.fork()
        s.assume(And(ge(j, E), le(add(j, self.shift), self.n)))
        v = self.buf(s, j)
        w = self.L(s, add(j, self.shift))
        if v is w or v == w:
            return True
        return Implies(And(ge(j, E), le(add(j, self.shift), self.n)), eq(v, w))

    def field(self, st, vb):
        r = st.mem[vb.r]
        p = r.node.read(st, scale(self.F0, 2))
        q = r.node.read(st, add(scale(self.F0, 2), 1))
        if not isinstance(p, Ptr) or not isinstance(q, Ptr):
            return None
        p, q = norm_ptr(p), norm_ptr(q)
        if p.r != self.B or q.r != self.B:
            return None
        return p.o, q.o

    def r_fields(self, st, sp, upper):
        vb = cellval(st, self.S, self.off['split_data_'], 8)
        has = lt(self.F0, sp.nf)
        s = st.fork()
        s.assume(has)
        if not s.consistent():
            return True
        pq = self.field(s, vb)
        if pq is None or upper is None:
            return None
        p, q = pq
        ch = self.buf(s, add(p, self.i0))
        return Implies(has, And(le(0, p), le(p, q), le(q, upper), eq(sp.FL, sub(q, p)),
                                Implies(lt(self.i0, sp.FL), eq(ch, sp.FC))))

    def holds(self, st, sp):
        for nm, f in self.core(st, sp):
            if f is None or not st.proves(f):
                return False
        return True

    def sync(self, st, maxk=4):
        sp = st.ghost['spec']
        if self.holds(st, sp):
            if sp.mode == 'START':
                nx = self.step(st, sp)
                if nx is not None and self.holds(st, nx):
                    st.ghost['spec'] = nx
            return True
        for _ in range(maxk):
            sp = self.step(st, sp)
            if sp is None:
                return False
            if self.holds(st, sp):
                st.ghost['spec'] = sp
                return True
        return False

    # ---- plugin interface ---------------------------------------------------
    def key(self, eng, st, fr):
        if 'spec' not in st.ghost:
            return None
        self.sync(st)
        sp = st.ghost['spec']
        return (sp.mode, sp.err)

    def active(self, eng, st, inst):
        return 'spec' in st.ghost

    def at_entry(self, eng, entry, inst):
        inst.data['ghost'] = eng.hints[inst.key].get('ghost', False)

    def havoc_node(self, eng, entry, H, inst, rid):
        if rid in (self.B, self.V):
            inst.data.setdefault('nodes', []).append(rid)
            return H.mem[rid].node
        return None

    def havoc(self, eng, entry, H, inst):
        hint = eng.hints[inst.key]
        if inst.data['ghost']:
            sp = entry.ghost['spec']
            kw = {'pos': fresh('pos'), 'nf': fresh('nf'), 'FL': fresh('FL'), 'FC': fresh('FC', -128, 127)}
            if sp.mode in 'NQ':
                kw.update(b=fresh('b'), CL=fresh('CL'), CC=fresh('CC', -128, 127))
            H.ghost['spec'] = sp.copy(**kw)
        if hint.get('delimiter loop'):
            for rid, r in entry.mem.items():
                if r.cells is None or r.store != 'stack':
                    continue
                for off, (sz, v) in list(r.cells.items()):
                    if isinstance(v, Ptr) and norm_ptr(v).r == self.B:
                        t = add(norm_ptr(v).o, self.shift)
                        self.M(entry, t)
                        for item in inst.amap.values():
                            if item[0] == 'c' and isinstance(cellval(H, *item[1:]), Lin):
                                H.assume(self.agree(t, cellval(H, *item[1:])))
        sp = H.ghost['spec']
        for rid in inst.data.get('nodes', ()):
            r = H.wreg(rid)
            if rid == self.B:
                f = bytefn(fresh_name('hbuf'))
                E = self.tail(H, sp)
                if '!suffix' not in hint['dropped'] and E is not None:
                    r.node = SSplit(lambda j, E=E: ge(j, E), self.L0, f, self.shift)
                else:
                    r.node = f
            else:
                nm = fresh_name('hvec')
                r.node = wordfn(nm, lambda a, j: Ptr(self.B, a))

    def candidates(self, eng, entry, H, inst):
        out = []
        sp0 = entry.ghost['spec']
        for nm, _ in self.core(entry, sp0):
            out.append(Cand('!' + nm, lambda s, iv, nm=nm: dict(self.core(s, s.ghost['spec'])).get(nm)))
        for nm, _ in self.rest(entry, sp0):
            out.append(Cand('!' + nm, lambda s, iv, nm=nm: dict(self.rest(s, s.ghost['spec']))[nm]()))
        if eng.hints[inst.key].get('delimiter loop'):
            out += self.delimiter_loop(entry, inst)
        # spacing already skipped does not change where the spacing ends
        for aid, item in inst.amap.items():
            if item[0] != 'c':
                continue
            v0 = cellval(entry, *item[1:])
            if isinstance(v0, Ptr) and norm_ptr(v0).r == self.B:
                for nm, sf in (('right', self.spanR), ('left', self.spanL)):
                    if (self.cfg.tr if nm == 'right' else self.cfg.tl):
                        def f(s, iv, item=item, v0=v0, sf=sf):
                            v = cellval(s, *item[1:])
                            if not isinstance(v, Ptr) or norm_ptr(v).r != self.B:
                                return None
                            o, o0 = norm_ptr(v).o, norm_ptr(v0).o
                            sh = self.shift
                            return eq(add(o, sf(add(o, sh))), add(o0, sf(add(o0, sh))))
                        out.append(Cand('spacing %s of %s' % (nm, entry.mem[item[1]].name + str(item[2])), f))

                def inb(s, iv, item=item):
                    v = cellval(s, *item[1:])
                    if not isinstance(v, Ptr) or norm_ptr(v).r != self.B:
                        return None
                    return And(le(0, norm_ptr(v).o), le(add(norm_ptr(v).o, self.shift), self.n))
                out.append(Cand('in line %s' % (entry.mem[item[1]].name + str(item[2])), inb))
        return out

    def delimiter_loop(self, entry, inst):
        """characters compared with the delimiter one by one"""
        out = []
        for rid, r in entry.mem.items():
            if r.cells is None or r.store != 'stack':
                continue
            for off, (sz, v) in r.cells.items():
                if not isinstance(v, Ptr) or norm_ptr(v).r != self.B:
                    continue
                t = add(norm_ptr(v).o, self.shift)
                self.M(entry, t)
                for aid, item in inst.amap.items():
                    if item[0] != 'c' or not isinstance(cellval(entry, *item[1:]), (int, Lin)):
                        continue
                    nm = '%s%s, %s%s' % (r.name, off, entry.mem[item[1]].name, item[2])

                    def f(s, iv, item=item, t=t):
                        i = cellval(s, *item[1:])
                        return Or(self.M(s, t), ge(self.Wt(t), i)) if isinstance(i, (int, Lin)) else None

                    def g(s, iv, item=item, t=t):
                        i = cellval(s, *item[1:])
                        return le(add(t, i), self.n) if isinstance(i, (int, Lin)) else None

                    def h(s, iv, item=item):
                        i = cellval(s, *item[1:])
                        return le(i, self.D) if isinstance(i, (int, Lin)) else None
                    out += [Cand('agrees with the delimiter so far ' + nm, f), Cand('compared within the line ' + nm, g),
                            Cand('compared within the delimiter ' + nm, h)]
        return out

    def at_back(self, eng, H0, b, inst):
        if self.dks and not eng.hints[inst.key].get('delimiter loop'):
            eng.hints[inst.key]['delimiter loop'] = True
            return True
        if not b.ghost['spec'].same(H0.ghost['spec']) and not inst.data['ghost']:
            eng.hints[inst.key]['ghost'] = True
            return True
        return False

    def owns(self, eng, H0, b, inst, item):
        return False

    def progress(self, eng, H, b, inst):
        if not inst.data['ghost']:
            return False
        p0, p1 = H.ghost['spec'].pos, b.ghost['spec'].pos
        return And(lt(p0, p1), le(p1, add(self.n, 1)))

    # ---- strncmp against the delimiter -------------------------------------
    def strncmp(self, eng, st, av):
        a, b, n = norm_ptr(av[0]), norm_ptr(av[1]), eng.uns(st, av[2], 64)
        if b.r == self.B:
            a, b = b, a
        if a.r != self.B or b.r != self.Dbuf(st) or b.o != 0:
            return None
        if not st.proves(eq(n, self.D)):
            # another length than the delimiter's: what that says about the delimiter
            eng.obl(st, And(le(0, a.o), le(add(a.o, self.shift), self.n)), 'in bounds read of string')
            r, m = fresh_bool('cmp'), self.M(st, add(a.o, self.shift))
            st.assume(Implies(And(m, le(n, self.D)), r))
            st.assume(Implies(And(r, ge(n, self.D)), m))
            st.assume(Implies(And(r, gt(n, 0), gt(self.D, 0)), eq(self.buf(st, a.o), self.dl.read(st, 0))))
            return ite(r, 0, fresh('strncmp', 1, 255))
        eng.obl(st, And(le(0, a.o), le(add(a.o, self.shift), self.n)), 'in bounds read of string')
        # the text from here on is the unmodified input
        s = st.fork()
        j = fresh('cmpj')
        s.assume(And(ge(j, a.o), le(add(j, self.shift), self.n)))
        v, w = self.buf(s, j), self.L(s, add(j, self.shift))
        if not (v == w or s.proves(eq(v, w))):
            eng.obl(st, False, 'delimiter compared with unmodified text')
            return ite(fresh_bool('cmp'), 0, fresh('strncmp', 1, 255))
        return ite(self.M(st, add(a.o, self.shift)), 0, fresh('strncmp', 1, 255))

    def Dbuf(self, st):
        c = cellval(st, self.Dr, 0, 32)
        return c.buf


def setup(mod, cfg, off):
    """engine and initial state of a split"""
    eng = Engine(mod)
    models.install(eng)
    n = fresh('n', 0, 1 << 60)
    dlen = fresh('dlen', 0, 1 << 60)
    i0 = fresh('i0', 0)
    F0 = fresh('F0', 0)
    SR = z3.Function('spanR', I, I)
    SL = z3.Function('spanL', I, I)

    def span(F):
        def f(t):
            e = F(z(t))
            if e.get_id() in ATOMS:
                return Lin({e.get_id(): 1}, 0)
            tz = z(t)
            zn = z(n)
            return atom(e, 0, None, [z3.Implies(z3.And(tz >= 0, tz <= zn), tz + e <= zn)])
        return f
    SRf, SLf = span(SR), span(SL)

    def facts(j, e):
        zj, zn = z(j), z(n)
        out = [z3.Implies(zj == zn, e == 0), z3.Implies(z3.And(zj >= 0, zj < zn), e != 0)]
        for cs, f in ((cfg.tr, SRf), (cfg.tl, SLf)):
            if cs:
                isp = bz(isin(atom(e), cs))
                out.append(z3.If(isp, z(f(j)) == 1 + z(f(add(j, 1))), z(f(j)) == 0))
        return out
    L0 = bytefn('L0', facts)
    Mf = z3.Function('delim_at', I, z3.BoolSort())
    W = z3.Function('delim_diff', I, I)     # where a position which is no delimiter differs
    dks = []        # delimiter indices read by the code in a loop

    def agree(t, k):
        l, d = L0.read(None, add(t, k)), dl.read(None, k)
        return z3.Implies(z3.And(Mf(z(t)), z(k) >= 0, z(k) < z(dlen)), z(l) == z(d))

    def dfacts(j, e):
        out = [z3.Implies(z3.And(z(j) >= 0, z(j) < z(dlen)), e != 0)]
        if isinstance(j, Lin) and not any(str(ATOMS[i][0].decl()) == 'delim_diff' for i in j.t):
            dks.append(j)
        return out
    dl = bytefn('delim', dfacts)

    def Wt(t):
        e = W(z(t))
        if e.get_id() not in ATOMS:
            a = atom(e, 0, None)
            l, d = L0.read(None, add(t, a)), dl.read(None, a)
            FACTS[e.get_id()].append(z3.Implies(z3.And(z3.Not(Mf(z(t))), z(t) >= 0, z(t) <= z(n), z(dlen) > 0),
                                                z3.And(e < z(dlen), z(t) + e <= z(n), z(l) != z(d))))
        return Lin({e.get_id(): 1}, 0)

    def M(st, t):
        d = st.decide(eq(dlen, 1))
        if d is True:
            return eq(L0.read(st, t), dl.read(st, 0))
        e = Mf(z(t))
        if e.get_id() not in FACTS:
            l = L0.read(st, t)
            FACTS[e.get_id()] = [z3.Implies(e, z3.And(z(t) + z(dlen) <= z(n), z(l) == z(dl.read(st, 0)))),
                                 z3.Implies(z(dlen) == 1, e == (z(l) == z(dl.read(st, 0))))]
        return e
    plug = SplitPlugin(cfg, eng, n, dlen, i0, F0, L0, M)
    plug.SRf, plug.SLf = SRf, SLf
    plug.J = fresh('J', 0)
    plug.dl = dl
    plug.dks, plug.agree, plug.Wt = dks, agree, Wt
    eng.plugin = plug
    st = State(eng)
    plug.off = off
    S = st.new_region('splitter', 'cells', plug_size(mod, off), 'arg')
    B = st.new_region('line', 'bytes', add(n, 1), 'const' if cfg.const() else 'arg')
    B.node = L0
    V = st.new_region('fields', 'words', 0, 'heap')
    V.node = wordfn(fresh_name('oldfields'), lambda a, j: Ptr(B.rid, a))
    V.size = scale(fresh('oldn', 0, 1 << 50), 16)
    D = st.new_region('delimiter', 'cells', 32, 'arg')
    D.cells[0] = (32, StrVal(dlen, dl))
    plug.S, plug.B, plug.V, plug.Dr = S.rid, B.rid, V.rid, D.rid
    return eng, plug, st, S, B, V, D


def plug_size(mod, off):
    return 72 if off['line_'] == 64 else off['line_'] + 8


def init_splitter(st, plug, cfg, off, S, V, fresh_state=True):
    """any state a previous call may have left behind"""
    c = S.cells
    if cfg.mode == 'string':
        c[off['error_']] = (32, StrVal(fresh('errlen', 0, 1 << 30), bytefn(fresh_name('err'))))
    else:
        c[off['error_']] = (1, boolint(fresh_bool('err')))
    c[off['unterminated_quote_']] = (1, boolint(fresh_bool('uq')))
    c[off['done_']] = (1, boolint(fresh_bool('done')))
    c[off['resplitting_']] = (1, 0)
    c[off['escaped_']] = (8, fresh('esc', 0, 1 << 62))
    sd = off['split_data_']
    c[sd] = (8, Ptr(V.rid, 0))
    c[sd + 8] = (8, Ptr(V.rid, V.size))
    c[sd + 16] = (8, Ptr(V.rid, V.size))


DRIVER = r'''
#include <ss/splitter.hpp>
using S = ss::splitter<@OPTS@>;
extern "C" const void* drv_split(S* s, S::line_ptr_type l, const std::string* d) { return &s->split(l, *d); }
extern "C" bool drv_valid(const S* s) { return s->valid(); }
extern "C" bool drv_open(const S* s) { return s->unterminated_quote(); }
extern "C" const void* drv_data(const S* s) { return &s->get_split_data(); }
'''


def split(name, deadline, **kw):
    """task: splitter::split for one configuration of the dialect"""
    from . import tasks
    t0 = time.time()
    eng, plug, kinds = run_split(Cfg(**kw), deadline=deadline)
    return tasks.summarise(eng, name, t0, kinds)


def run_split(cfg, trace=False, deadline=None):
    from . import build
    mod = build.ir(DRIVER.replace('@OPTS@', cfg.opts()), 'split')
    reset()
    off = find_members(mod)
    eng, plug, st, S, B, V, D = setup(mod, cfg, off)
    eng.trace = trace
    eng.deadline = deadline
    init_splitter(st, plug, cfg, off, S, V)
    st.ghost['spec'] = Spec()
    eng.enter(st, mod.fns['drv_split'], [Ptr(S.rid, 0), Ptr(B.rid, 0), Ptr(D.rid, 0)])
    outs, _ = eng.explore([st], None)
    kinds = {}
    for o in outs:
        if not o.consistent():
            continue
        k = check_final(eng, plug, cfg, mod, o)
        kinds[k] = kinds.get(k, 0) + 1
    return eng, plug, kinds


def off_err(plug):
    return plug.off['error_']


def find_members(mod):
    best = None
    for cn, ms in mod.member_offsets().items():
        if cn.startswith('splitter') and 'split_data_' in ms:
            best = ms
    if best is None:
        raise Unsupported('members of splitter not found')
    for m in ('error_', 'unterminated_quote_', 'done_', 'resplitting_', 'escaped_', 'split_data_', 'begin_', 'curr_',
              'end_', 'line_'):
        if m not in best:
            raise Unsupported('splitter member %s not found' % m)
    return best


def call(eng, st, fn, args):
    st = st.fork()
    st.final = None
    st.loops = ()
    eng.enter(st, eng.mod.fns[fn], args)
    outs, _ = eng.explore([st], None)
    return outs


def check_final(eng, plug, cfg, mod, o):
    nm = 'splitter.split %s'
    so = eng.spec_obl
    # finish the machine
    sp = o.ghost['spec']
    if o.proves(eq(plug.D, 0)):
        if cfg.mode == 'throw':
            so(o, o.final[0] == 'throw', nm % 'empty delimiter throws')
            return 'empty delimiter'
        so(o, o.final[0] == 'ret', nm % 'returns')
        so(o, plug.errval(o), nm % 'empty delimiter is an error')
        so(o, eq(plug.vsize(o), 0), nm % 'empty delimiter yields no fields')
        return 'empty delimiter'
    while sp.mode != 'DONE':
        nx = plug.step(o, sp)
        if nx is None or nx.mode == 'N' and nx.err and sp.err and False:
            break
        sp = nx
        if nx.mode == 'N' and nx.err and cfg.mode == 'throw':
            break
    o.ghost['spec'] = sp
    if sp.mode != 'DONE' and not (cfg.mode == 'throw' and sp.err):
        so(o, False, nm % 'consumes the whole line', repr(sp))
        return 'stuck'
    bad = sp.err in ('escape', 'mismatch', 'unterminated')
    if cfg.mode == 'throw':
        so(o, (o.final[0] == 'throw') == bad, nm % 'throws exactly on malformed lines', sp.err)
        if bad:
            return 'error ' + sp.err
    else:
        so(o, o.final[0] == 'ret', nm % 'returns')
        for o2 in call(eng, o, 'drv_valid', [Ptr(plug.S, 0)]):
            v = o2.final[1]
            so(o2, Not(v) if bad else v, nm % ('invalid on malformed line' if bad else 'valid on well-formed line'), sp.err)
    if bad and cfg.mode == 'string':
        c = cellval(o, plug.S, off_err(plug), 32)
        want = {'escape': b'unterminated escape at the end of the line', 'unterminated': b'unterminated quote',
                'mismatch': b'mismatched quote at position: '}[sp.err]
        n, node = len(want), SConst(want)
        if sp.err == 'mismatch':
            dn, dnode = models.decimal(sp.errpos)
            node = SCopy(node, n, dn, dnode, 0)
            n = add(n, dn)
        so(o, eq(c.n, n), nm % 'length of the error message', sp.err)
        s = o.fork()
        s.assume(lt(plug.i0, n))
        so(s, eq(models.strnode(s, c).read(s, plug.i0), node.read(s, plug.i0)), nm % 'text of the error message', sp.err)
    for o2 in call(eng, o, 'drv_open', [Ptr(plug.S, 0)]):
        v = o2.final[1]
        so(o2, v if sp.err in ('open', 'unterminated') else Not(v), nm % 'reports unterminated quote exactly', sp.err)
    if not bad:
        so(o, isinstance(o.final[1], Ptr) and o.final[1] == Ptr(plug.S, plug.off['split_data_']),
           nm % 'returns its field list')
    if not bad and sp.err is None:
        vs = plug.vsize(o)
        so(o, eq(vs, scale(sp.nf, 16)), nm % 'number of fields')
        has = lt(plug.F0, sp.nf)
        s = o.fork()
        s.assume(has)
        if s.consistent():
            pq = plug.field(s, cellval(s, plug.S, plug.off['split_data_'], 8))
            if pq is None:
                so(s, False, nm % 'fields point into the line')
            else:
                p, q = pq
                so(s, And(le(0, p), le(p, q), le(q, plug.n)), nm % 'fields lie inside the line')
                so(s, eq(sub(q, p), sp.FL), nm % 'length of every field')
                s.assume(lt(plug.i0, sp.FL))
                if s.consistent():
                    so(s, eq(plug.buf(s, add(p, plug.i0)), sp.FC), nm % 'every character of every field')
    return 'error %s' % sp.err if sp.err else 'fields'

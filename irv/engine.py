"""Symbolic execution of LLVM IR with loop invariants, contracts and proof obligations.

Every path of a function is executed symbolically; a loop is replaced by an arbitrary iteration that
satisfies its invariant (kept invariants are established at entry and preserved by every back edge), a
call of a function under contract by its contract, any other call by the callee's body."""
import time
import re
import z3
from .val import *
from .mem import *
from . import ll

M64 = 1 << 64


class PC:
    __slots__ = ('p', 'f', 'd', 'cache')

    def __init__(self, p, f):
        self.p, self.f = p, f
        self.d = p.d + 1 if p else 0
        self.cache = {}


class Solver:
    def __init__(self, timeout=8000):
        self.s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
        self.s.set('timeout', timeout)
        self.stack = []         # pc nodes
        self.undo = []          # per level: list of (leaf, old count)
        self.done = {}          # leaf -> facts asserted
        self.queries = 0
        self.time = 0.0
        self.unknowns = 0
        self.second = None      # optional second solver (list of smt2 strings)

    def _facts(self, f, log):
        for i in leaves(f):
            fs = FACTS[i]
            c = self.done.get(i, 0)
            if c < len(fs):
                log.append((i, c))
                self.done[i] = len(fs)
                for x in fs[c:]:
                    self.s.add(x)
                    self._facts(x, log)

    def sync(self, pc):
        chain = []
        n = pc
        st = self.stack
        while n is not None and not (n.d < len(st) and st[n.d] is n):
            chain.append(n)
            n = n.p
        keep = n.d + 1 if n is not None else 0
        while len(st) > keep:
            st.pop()
            for i, c in reversed(self.undo.pop()):
                self.done[i] = c
            self.s.pop()
        for n in reversed(chain):
            self.s.push()
            log = []
            if n.f is not None:
                self._facts(n.f, log)
                self.s.add(n.f)
            st.append(n)
            self.undo.append(log)

    def check(self, pc, f, want_model=False):
        """satisfiability of pc and f"""
        k = f.get_id()
        r = pc.cache.get(k)
        if r is not None and not want_model:
            return r[0]
        t = time.time()
        self.sync(pc)
        self.s.push()
        log = []
        self._facts(f, log)
        self.s.add(f)
        r = str(self.s.check())
        m = self.s.model() if r == 'sat' and want_model else None
        for i, c in reversed(log):
            self.done[i] = c
        self.s.pop()
        self.queries += 1
        if r == 'unknown':
            self.unknowns += 1
        self.time += time.time() - t
        pc.cache[k] = (r, f)
        return (r, m) if want_model else r


class Frame:
    __slots__ = ('fn', 'regs', 'block', 'prev', 'idx', 'allocas', 'site', 'exc', 'onret')

    def __init__(self, fn, site):
        self.fn, self.site = fn, site
        self.regs = {}
        self.block = None
        self.prev = None
        self.idx = 0
        self.allocas = []
        self.exc = None
        self.onret = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.idx, f.site, f.exc, f.onret = (self.fn, self.block, self.prev, self.idx, self.site,
                                                                self.exc, self.onret)
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f


class LoopRec:
    __slots__ = ('depth', 'header', 'body', 'key', 'inst')

    def __init__(self, depth, header, body, key, inst):
        self.depth, self.header, self.body, self.key, self.inst = depth, header, body, key, inst


class State:
    __slots__ = ('eng', 'frames', 'mem', 'own', 'pc', 'ghost', 'loops', 'final', 'exc', 'steps', 'dead')

    def __init__(self, eng):
        self.eng = eng
        self.frames = []
        self.mem = {}
        self.own = set()
        self.pc = PC(None, None)
        self.ghost = {}
        self.loops = ()
        self.final = None
        self.exc = None
        self.steps = 0

    def fork(self):
        s = State.__new__(State)
        s.eng = self.eng
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        s.loops = self.loops
        s.final = self.final
        s.exc = self.exc
        s.steps = self.steps
        return s

    # logic -------------------------------------------------------------
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self.pc = PC(self.pc, z3.BoolVal(False))
            return
        self.pc = PC(self.pc, f)

    def proves(self, f):
        if isinstance(f, bool):
            return f
        return self.eng.solver.check(self.pc, z3.Not(f)) == 'unsat'

    def feasible(self, f):
        if isinstance(f, bool):
            return f
        return self.eng.solver.check(self.pc, f) != 'unsat'

    def consistent(self):
        return self.eng.solver.check(self.pc, z3.BoolVal(True)) != 'unsat'

    def decide(self, f):
        """True / False / None"""
        if isinstance(f, bool):
            return f
        if self.proves(f):
            return True
        if self.proves(Not(f)):
            return False
        return None

    # memory ------------------------------------------------------------
    def reg(self, rid):
        return self.mem[rid]

    def wreg(self, rid):
        if rid not in self.own:
            self.mem[rid] = self.mem[rid].copy()
            self.own.add(rid)
        return self.mem[rid]

    def new_region(self, name, kind, size, store):
        rid = self.eng.next_rid()
        r = Region(rid, name, kind, size, store)
        self.mem[rid] = r
        self.own.add(rid)
        return r

    def ptr_from_int(self, v):
        """pointer for an integer address"""
        if isinstance(v, int):
            if v == 0:
                return NULL
            return Ptr(0, v)
        for i, c in v.t.items():
            if c == 1 and i in BASEATOM:
                return Ptr(BASEATOM[i], sub(v, Lin({i: 1}, 0)))
        raise Unsupported('integer used as pointer: %s' % v)

    def base(self, rid):
        if rid == 0:
            return 0
        return self.eng.base_atom(rid)

    def addr(self, p):
        return add(self.base(p.r), p.o)


def norm_ptr(p):
    """a pointer whose offset moves it to another region (difference of two bases)"""
    o = p.o
    if isinstance(o, int):
        return p
    pos = neg = None
    for i, c in o.t.items():
        r = BASEATOM.get(i)
        if r is not None:
            if c == 1 and pos is None:
                pos = (i, r)
            elif c == -1 and neg is None:
                neg = (i, r)
            else:
                return p
    if pos and neg and neg[1] == p.r:
        t = dict(o.t)
        del t[pos[0]]
        del t[neg[0]]
        return Ptr(pos[1], Lin(t, o.c) if t else o.c)
    return p


class Restart(Exception):
    pass


class Obl:
    __slots__ = ('name', 'ok', 'info', 'ctx')

    def __init__(self, name, ok, info=None, ctx=None):
        self.name, self.ok, self.info, self.ctx = name, ok, info, ctx


class Inst:
    """one analysis of a loop"""

    def __init__(self, key, fn, header):
        self.key, self.fn, self.header = key, fn, header
        self.F = set()
        self.dropped = set()
        self.cmps = {}
        self.strides = {}
        self.havoc = {}     # atom id -> cell item
        self.it = None
        self.active = False
        self.data = {}


class Engine:
    def __init__(self, mod, plugin=None, timeout=8000):
        self.mod = mod
        self.solver = Solver(timeout)
        self.plugin = plugin
        self.models = {}
        self.model_res = []
        self.obls = []
        self.rid = 0
        self.bases = {}
        self.hints = {}
        self.max_steps = 400000
        self.loop_stack = []
        self.nested = {}
        self.fns_seen = set()
        self.paths = 0
        self.loops_seen = {}
        self.trace = False
        self.gcache = {}
        self.contract_used = set()
        self.deadline = None
        self.failed = 0
        self.stop = False
        self.max_failed = 60
        self._mcache = {}
        self.alloc_fails = False
        from . import tasks
        tasks.LAST.append(self)
        self.fbits, self.bitsof = {}, {}
        self.prov = {}          # byte value -> where it was last read

    # ------------------------------------------------------------------
    def next_rid(self):
        self.rid += 1
        return self.rid

    def base_atom(self, rid):
        b = self.bases.get(rid)
        if b is None:
            e = z3.Int('base!%d' % rid)
            b = atom(e, 4096, 1 << 62)
            BASEATOM[e.get_id()] = rid
            self.bases[rid] = b
        return b

    def obl(self, st, cond, kind, info=None):
        """prove cond here; record; continue assuming it"""
        ins = None
        where = '?'
        if st.frames:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.block]
            ins = blk[min(fr.idx, len(blk) - 1)]
            w = self.mod.where(ins.dbg)
            # name the innermost source line inside the library
            fnname = short(fr.fn.name)
            if w is None or not self.is_lib(w[0]):
                for f2 in reversed(st.frames[:-1]):
                    b2 = f2.fn.blocks[f2.block]
                    w2 = self.mod.where(b2[min(f2.idx, len(b2) - 1)].dbg)
                    if w2 and self.is_lib(w2[0]):
                        fnname = short(f2.fn.name)
                        w = w2
                        break
            where = '%s@%s:%d' % (fnname, w[0], w[1]) if w else fnname
        ok = st.proves(cond)
        name = '%s %s' % (where, kind)
        ctx = None
        if not ok:
            ctx = self.context(st, cond) if self.failed < 400 else None
            if self.trace:
                print('FAIL', name, info, str(cond)[:300])
        self.obls.append(Obl(name, ok, info, ctx))
        if not ok:
            self.failed += 1
            if not self.loop_stack and sum(1 for o in self.obls if not o.ok) > self.max_failed:
                self.stop = True
            st.assume(cond)
        return ok

    def spec_obl(self, st, cond, name, info=None):
        ok = st.proves(cond)
        ctx = None
        if not ok:
            ctx = self.context(st, cond) if self.failed < 400 else None
            if self.trace:
                print('FAIL', name, info, str(cond)[:300])
        self.obls.append(Obl(name, ok, info, ctx))
        return ok

    def is_lib(self, f):
        return f.endswith('.hpp') or f.endswith('.cpp')

    def context(self, st, cond):
        if isinstance(cond, bool):
            r = self.solver.check(st.pc, z3.BoolVal(True), True)
        else:
            r = self.solver.check(st.pc, z3.Not(cond), True)
        m = None
        if isinstance(r, tuple) and r[1] is not None:
            try:
                m = {str(d): str(r[1][d]) for d in r[1].decls()[:60]}
            except z3.Z3Exception:
                m = None
        calls = []
        for f in st.frames:
            b = f.fn.blocks[f.block]
            w = self.mod.where(b[min(f.idx, len(b) - 1)].dbg)
            calls.append('%s:%s' % (short(f.fn.name), w))
        return {'condition': str(cond)[:2000], 'status': r[0] if isinstance(r, tuple) else r, 'model': m,
                'stack': calls}

    # ------------------------------------------------------------------
    # memory access
    def access(self, st, p, n, what):
        """bounds and liveness obligation for n bytes at p; returns region"""
        if p is UNDEF:
            self.obl(st, False, 'uninitialised pointer %s' % what)
            raise DeadPath()
        if isinstance(p, Fn):
            raise Unsupported('access to function memory')
        if p.r == 0:
            self.obl(st, False, 'null pointer %s' % what)
            raise DeadPath()
        r = st.mem.get(p.r)
        if r is None or not r.alive:
            self.obl(st, False, 'released memory %s' % what)
            raise DeadPath()
        c = And(le(r.lo, p.o), le(add(p.o, n), r.end()))
        if c is not True:
            if not self.obl(st, c, 'in bounds %s' % what, r.name):
                pass
        else:
            self.count_trivial()
        return r

    def count_trivial(self):
        pass

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ('s', 'a'):
            return tuple(self.load(st, padd(p, o), t) for o, t in
                         zip(self.mod.offsets(ty), ty[1] if ty[0] == 's' else [ty[2]] * ty[1]))
        n = self.mod.size(ty)
        p = norm_ptr(p) if isinstance(p, Ptr) else p
        if isinstance(p, Ptr) and p.r == 0:
            pass
        r = self.access(st, p, n, 'read')
        return self.rload(st, r, p.o, n, ty)

    def rload(self, st, r, off, n, ty):
        if r.kind == 'cells':
            if not isinstance(off, int):
                off = self.concretize(st, off)
            c = r.cells.get(off)
            if c is not None and c[0] == n:
                return self.conv(st, c[1], ty)
            return self.conv(st, self.cell_bytes(r, off, n), ty)
        if r.kind == 'bytes':
            if n == 1:
                v = r.node.read(st, off)
                if isinstance(v, Lin):
                    if v not in self.prov or not (isinstance(r.node, SStore) and r.node.v == v):
                        self.prov[v] = (r.rid, off)    # not when a value just stored is read back
                return self.conv(st, v, ty)
            raise Unsupported('%d byte read of byte sequence' % n)
        if r.kind == 'words':
            if n != r.stride:
                raise Unsupported('%d byte read of word sequence' % n)
            return self.conv(st, r.node.read(st, self.divexact(st, off, r.stride)), ty)
        raise Unsupported('region kind ' + r.kind)

    def concretize(self, st, off):
        """symbolic offset into a cell region: only if it has one possible value"""
        r = self.solver.check(st.pc, z3.BoolVal(True), True)
        if isinstance(r, tuple) and r[0] == 'sat':
            v = r[1].eval(z(off), model_completion=True)
            if z3.is_int_value(v) and st.proves(eq(off, v.as_long())):
                return v.as_long()
        raise Unsupported('symbolic offset %s into object' % (off,))

    def cell_bytes(self, r, off, n):
        """read an integer out of differently sized cells"""
        # contained in one bigger cell
        for o, (s, v) in r.cells.items():
            if o <= off and off + n <= o + s:
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, int):
                    return (v >> (8 * (off - o))) & ((1 << (8 * n)) - 1)
                if isinstance(v, Lin):
                    if off == o:
                        return v      # congruent modulo the smaller width
                    d = 1 << (8 * (off - o))
                    return atom(z(v) / d)
                if isinstance(v, tuple):
                    pass
                raise Unsupported('partial read of %r' % (v,))
        # assembled from smaller cells
        parts = []
        o = off
        while o < off + n:
            c = r.cells.get(o)
            if c is None:
                # bytes never written
                o2 = o + 1
                while o2 < off + n and o2 not in r.cells:
                    o2 += 1
                for o3, (s, v) in r.cells.items():
                    if o3 < o2 and o < o3 + s:
                        raise Unsupported('overlapping read')
                parts.append((o, o2 - o, UNDEF))
                o = o2
                continue
            parts.append((o, c[0], c[1]))
            o += c[0]
        if o != off + n:
            raise Unsupported('straddling read')
        if all(p[2] is UNDEF for p in parts):
            return UNDEF
        res = 0
        for o, s, v in parts:
            if v is UNDEF:
                # padding or indeterminate bytes: arbitrary value
                v = fresh('pad', 0, (1 << (8 * s)) - 1)
            elif isinstance(v, Lin):
                lo, hi = interval(v)
                if lo is None or hi is None or lo < 0 or hi >= 1 << (8 * s):
                    m = z(v) % (1 << (8 * s))
                    v = atom(m, 0, (1 << (8 * s)) - 1)
            elif isinstance(v, int):
                v &= (1 << (8 * s)) - 1
            elif isinstance(v, Opaque) and v.k.startswith('f:'):
                v = self.float_bits(v, s)
            else:
                raise Unsupported('assembling %r' % (v,))
            res = add(res, scale(v, 1 << (8 * (o - off))))
        return res

    def conv(self, st, v, ty):
        if v is UNDEF:
            return UNDEF
        k = ty[0]
        if k == 'p':
            if isinstance(v, (Ptr, Fn)):
                return v
            if isinstance(v, (int, Lin)):
                return st.ptr_from_int(v)
        elif k == 'i':
            if isinstance(v, Ptr):
                return st.addr(v)
            if isinstance(v, (int, Lin)):
                return self.to_bool(st, v) if ty[1] == 1 else v
            if z3.is_expr(v) or isinstance(v, bool):
                return v if ty[1] == 1 else boolint(v)
            if isinstance(v, Opaque) and v.k.startswith('f:') and ty[1] in (32, 64):
                return Opaque('bits', v)
        elif k == 'f':
            if isinstance(v, Opaque):
                if v.k == 'bits':
                    return v.v
                return v
            if isinstance(v, int):
                return self.fconst_bits(v, ty)
            if isinstance(v, Lin):
                m = 1 << (8 * self.mod.size(ty))
                t = [(i, c) for i, c in v.t.items() if c % m]
                if v.c % m == 0 and len(t) == 1 and t[0][1] == 1 and t[0][0] in self.bitsof:
                    return self.bitsof[t[0][0]]
        raise Unsupported('load of %r as %r' % (v, ty))

    def float_bits(self, v, n):
        """the representation of a floating point value, as a number"""
        k = v.v.get_id()
        if k not in self.fbits:
            b = fresh('bits', 0, (1 << (8 * n)) - 1)
            self.fbits[k] = (b, v)
            self.bitsof[next(iter(b.t))] = v
        return self.fbits[k][0]

    def fconst_bits(self, v, ty):
        import struct
        n = self.mod.size(ty)
        b = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        return Opaque('f:' + ty[1], z3.FPVal(struct.unpack('<d' if n == 8 else '<f', b)[0],
                                              z3.Float64() if n == 8 else z3.Float32()))

    def to_bool(self, st, v):
        if isinstance(v, bool) or z3.is_expr(v):
            return v
        if v is UNDEF:
            return UNDEF
        b = as_bool(v)
        if b is not None:
            return b
        lo, hi = interval(v)
        if lo is not None and hi is not None and lo >= 0 and hi <= 1:
            return eq(v, 1)
        if st.proves(And(le(0, v), le(v, 1))):
            return eq(v, 1)
        return z(v) % 2 == 1

    def store(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ('s', 'a'):
            ts = ty[1] if ty[0] == 's' else [ty[2]] * ty[1]
            if v is UNDEF:
                v = [UNDEF] * len(ts)
            for o, t, x in zip(self.mod.offsets(ty), ts, v):
                self.store(st, padd(p, o), x, t)
            return
        n = self.mod.size(ty)
        p = norm_ptr(p) if isinstance(p, Ptr) else p
        r = self.access(st, p, n, 'write')
        if r.store == 'const':
            self.obl(st, False, 'write to read-only memory')
            raise DeadPath()
        if isinstance(v, bool) or (z3.is_expr(v)):
            v = boolint(v)
        if isinstance(v, Ptr):
            v = norm_ptr(v)
        if r.kind == 'cells':
            off = p.o if isinstance(p.o, int) else self.concretize(st, p.o)
            self.put_cell(st, r.rid, off, n, v)
        elif r.kind == 'bytes':
            if n != 1:
                raise Unsupported('%d byte write of byte sequence' % n)
            if v is UNDEF:
                v = fresh('undef', -128, 127)
            v = self.sgn(st, v, 8)
            w = st.wreg(r.rid)
            w.node = SStore(w.node, p.o, v)
        elif r.kind == 'words':
            if n != r.stride:
                raise Unsupported('%d byte write of word sequence' % n)
            w = st.wreg(r.rid)
            w.node = SStore(w.node, self.divexact(st, p.o, r.stride), v)
        else:
            raise Unsupported('region kind')

    def put_cell(self, st, rid, off, n, v):
        r = st.wreg(rid)
        c = r.cells.get(off)
        if c is not None and c[0] == n:
            r.cells[off] = (n, v)
            return
        for o in list(r.cells):
            s, x = r.cells[o]
            if o < off + n and off < o + s:
                del r.cells[o]
                if o >= off and o + s <= off + n:
                    continue
                # split what remains
                if x is UNDEF:
                    continue
                if isinstance(x, Opaque) and x.k.startswith('f:'):
                    x = self.float_bits(x, s)
                if isinstance(x, (int, Lin)):
                    for k in range(s):
                        if not off <= o + k < off + n:
                            if isinstance(x, int):
                                r.cells[o + k] = (1, (x >> (8 * k)) & 255)
                            else:
                                r.cells[o + k] = (1, atom((z(x) / (1 << (8 * k))) % 256, 0, 255))
                else:
                    raise Unsupported('partial overwrite of %r' % (x,))
        r.cells[off] = (n, v)

    def divexact(self, st, off, k):
        if isinstance(off, int):
            if off % k:
                raise Unsupported('misaligned offset')
            return off // k
        if off.c % k == 0 and all(c % k == 0 for c in off.t.values()):
            return Lin({i: c // k for i, c in off.t.items()}, off.c // k)
        raise Unsupported('offset not a multiple of %d: %s' % (k, off))

    # ------------------------------------------------------------------
    # integer normalisation
    def sgn(self, st, v, w):
        if z3.is_expr(v) or isinstance(v, bool):
            v = boolint(v)
            if w == 1:
                return scale(v, -1)
        h = 1 << (w - 1)
        if isinstance(v, int):
            v &= (1 << w) - 1
            return v - (1 << w) if v >= h else v
        lo, hi = interval(v)
        if lo is not None and hi is not None and -h <= lo and hi < h:
            return v
        return self._norm(st, v, -h, h - 1, w)

    def uns(self, st, v, w):
        if z3.is_expr(v) or isinstance(v, bool):
            v = boolint(v)
        h = 1 << w
        if isinstance(v, int):
            return v & (h - 1)
        lo, hi = interval(v)
        if lo is not None and hi is not None and 0 <= lo and hi < h:
            return v
        return self._norm(st, v, 0, h - 1, w)

    def _norm(self, st, v, lo, hi, w):
        if st.proves(And(le(lo, v), le(v, hi))):
            return v
        m = 1 << w
        for k in (1, -1):
            v2 = add(v, k * m)
            if st.proves(And(le(lo, v2), le(v2, hi))):
                return v2
        ilo, ihi = interval(v)
        if ilo is not None and ihi is not None and ilo >= lo - m and ihi <= hi + m:
            # at most one wrap either way
            e = z3.If(z(v) < lo, z(v) + m, z3.If(z(v) > hi, z(v) - m, z(v)))
            return atom(e, lo, hi)
        if st.proves(And(le(lo - m, v), le(v, hi + m))):
            e = z3.If(z(v) < lo, z(v) + m, z3.If(z(v) > hi, z(v) - m, z(v)))
            r = atom(e)
            st.assume(And(le(lo, r), le(r, hi)))
            return r
        r = fresh('wrap', lo, hi)
        q = fresh('wrapq')
        st.assume(eq(v, add(r, scale(q, m))))
        return r

    # ------------------------------------------------------------------
    # operands
    def val(self, st, fr, ty, v):
        k = v[0]
        if k == 'r':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported('register %s not set' % v[1])
        if k == 'i':
            if ty[0] == 'i' and ty[1] == 1:
                return bool(v[1])
            return v[1]
        if k == 'n':
            return NULL
        if k == 'u':
            return UNDEF
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'z':
            return self.zero(ty)
        if k == 'gep':
            base = self.val(st, fr, ('p',), v[2])
            return self.gep(st, fr, v[1], base, v[3])
        if k == 'f':
            return self.fconst(v[1], ty)
        if k == 'agg':
            return tuple(self.val(st, fr, t, x) for t, x in v[1])
        if k == 'cast':
            x = self.val(st, fr, v[2], v[3])
            if v[1] == 'ptrtoint':
                return st.addr(x)
            if v[1] == 'inttoptr':
                return st.ptr_from_int(x)
        raise Unsupported('operand %r' % (v,))

    def fconst(self, s, ty):
        import struct
        sort = z3.Float64() if ty[1] == 'double' else z3.Float32()
        if s.startswith('0x'):
            d = struct.unpack('<d', int(s, 16).to_bytes(8, 'little'))[0]
        else:
            d = float(s)
        return Opaque('f:' + ty[1], z3.FPVal(d, sort))

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'i':
            return False if ty[1] == 1 else 0
        if ty[0] == 'p':
            return NULL
        if ty[0] == 's':
            return tuple(self.zero(t) for t in ty[1])
        if ty[0] == 'a':
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        if ty[0] == 'f':
            return self.fconst('0.0', ty)
        raise Unsupported('zero of %r' % (ty,))

    def global_ptr(self, st, name):
        m = self.mod
        while name in m.aliases:
            name = m.aliases[name]
        if name in m.fns or name in m.decls:
            return Fn(name)
        rid = self.gcache.get(name)
        if rid is None:
            rid = self.next_rid()
            self.gcache[name] = rid
        if rid not in st.mem:
            if name in m.globals:
                ty, init, const = m.globals[name]
                try:
                    size = m.size(ty)
                except (ll.ParseError, KeyError):
                    size = 0
            else:
                ty, init, const, size = None, None, True, 0
            r = Region(rid, '@' + name, 'cells', size, 'const' if const else 'arg')
            st.mem[rid] = r
            if init is not None:
                if init[0] == 'str':
                    r.kind = 'bytes'
                    r.cells = None
                    r.node = SConst(init[1])
                else:
                    try:
                        self.init_cells(st, r, 0, ty, init)
                    except Unsupported:
                        r.cells = {}
        return Ptr(rid, 0)

    def init_cells(self, st, r, off, ty, init):
        ty = self.mod.resolve(ty)
        if init[0] == 'z':
            for o, t in self.mod.scalars(ty, off):
                r.cells[o] = (self.mod.size(t), self.zero(t) if t[0] != 'p' else NULL)
            return
        if ty[0] in ('s', 'a'):
            if init[0] == 'str':
                for k, b in enumerate(init[1]):
                    r.cells[off + k] = (1, b)
                return
            ts = ty[1] if ty[0] == 's' else [ty[2]] * ty[1]
            if len(init) < 2:
                raise Unsupported('initialiser %r of %s' % (init, r.name))
            for o, t, (t2, x) in zip(self.mod.offsets(ty), ts, init[1]):
                self.init_cells(st, r, off + o, t, x)
            return
        v = self.val(st, None, ty, init)
        if isinstance(v, bool):
            v = int(v)
        r.cells[off] = (self.mod.size(ty), v)

    def gep(self, st, fr, ty, base, idx):
        if base is UNDEF:
            return UNDEF
        off = 0
        t = ty
        for n, (it, iv) in enumerate(idx):
            v = self.val(st, fr, it, iv)
            if v is UNDEF:
                return UNDEF
            if n == 0:
                off = add(off, scale(self.sgn_lazy(st, v, it[1]), self.mod.size(t)))
                continue
            rt = self.mod.resolve(t)
            if rt[0] == 's':
                off = add(off, self.mod.offsets(rt)[v])
                t = rt[1][v]
            elif rt[0] == 'a':
                off = add(off, scale(self.sgn_lazy(st, v, it[1]), self.mod.size(rt[2])))
                t = rt[2]
            else:
                raise Unsupported('gep into %r' % (rt,))
        if isinstance(base, Fn):
            raise Unsupported('gep of function')
        return norm_ptr(Ptr(base.r, add(base.o, off)))

    def sgn_lazy(self, st, v, w):
        # 64-bit offsets wrap modulo 2^64 with the address: any representative will do, as long as the
        # access check sees the one in range
        if w < 64:
            return self.sgn(st, v, w)
        if isinstance(v, int):
            return self.sgn(st, v, w)
        lo, hi = interval(v)
        if lo is None or hi is None or lo < -(1 << 62) or hi > (1 << 62):
            if v.c and abs(v.c) > (1 << 62):
                v = Lin(v.t, self.sgn(st, v.c, 64))
        return v

    # ------------------------------------------------------------------
    # exploration
    def explore(self, work, inst):
        """run until every state has left inst (or everything, if inst is None); returns (outside, backs)"""
        outs = []
        backs = []
        work = list(work)
        while work:
            if self.stop:
                break
            st = work.pop()
            if inst is not None and not any(r.inst is inst for r in st.loops):
                outs.append(st)
                continue
            if st.final:
                outs.append(st)
                continue
            try:
                nxt = self.run(st, inst)
            except DeadPath:
                self.paths += 1
                continue
            for s in nxt:
                if isinstance(s, tuple):
                    tag, s2 = s
                    if tag == 'back':
                        if s2.ghost.get('__back') is inst:
                            backs.append(s2)
                        else:
                            # back edge of an enclosing loop
                            outs.append(s2)
                    continue
                work.append(s)
            if self.deadline and time.time() > self.deadline:
                raise Limit('time limit')
        return outs, backs

    def run(self, st, inst):
        """execute until fork / loop event / end"""
        while True:
            if st.final:
                return [st]
            if inst is not None and not any(r.inst is inst for r in st.loops):
                return [st]
            if '__back' in st.ghost and st.ghost['__back'] is not None:
                return [('back', st)]
            fr = st.frames[-1]
            if fr.idx == 0 and fr.block in fr.fn.loops and st.ghost.get('__skip') != (len(st.frames), fr.block):
                key = self.plugin.key(self, st, fr) if self.plugin else None
                rec = None
                for r in st.loops:
                    if r.depth == len(st.frames) and r.header == fr.block and r.key == key:
                        rec = r
                if rec is not None:
                    st.ghost['__back'] = rec.inst
                    return [('back', st)]
                return self.loop(st, fr, key)
            st.ghost.pop('__skip', None)
            blk = fr.fn.blocks[fr.block]
            ins = blk[fr.idx]
            st.steps += 1
            self.nsteps = getattr(self, 'nsteps', 0) + 1
            if st.steps > self.max_steps:
                raise Unsupported('path too long')
            if self.deadline and self.nsteps % 512 == 0 and time.time() > self.deadline:
                raise Limit('time limit')
            r = getattr(self, 'i_' + ins.op)(st, fr, ins)
            if r is not None:
                return r

    def goto(self, st, fr, target):
        d = len(st.frames)
        if st.loops:
            st.loops = tuple(r for r in st.loops if r.depth < d or (r.depth == d and target in r.body))
        fr.prev = fr.block
        fr.block = target
        fr.idx = 0
        blk = fr.fn.blocks[target]
        if blk[0].op == 'phi':
            vals = []
            k = 0
            while blk[k].op == 'phi':
                p = blk[k]
                for v, b in p.a:
                    if b == fr.prev or (b not in fr.fn.blocks and fr.prev == '%entry'):
                        vals.append((p.res, self.val(st, fr, p.ty, v)))
                        break
                else:
                    raise Unsupported('phi')
                k += 1
            for r, v in vals:
                fr.regs[r] = v
            fr.idx = k
            if target in fr.fn.loops and not all(isinstance(v, int) or (isinstance(v, Ptr) and isinstance(v.o, int)) for _, v in vals):
                # known values: a loop over a known number of elements is executed
                raise Unsupported('phi at loop header')

    # ---- instructions -------------------------------------------------
    def i_alloca(self, st, fr, ins):
        size = self.mod.size(ins.ty)
        if ins.a[0] is not None:
            n = self.val(st, fr, ('i', 64), ins.a[0])
            size = size * n
        nm = short(fr.fn.name)
        k = sum(1 for f in st.frames[:-1] if short(f.fn.name) == nm)
        r = st.new_region('%s%s.%s' % (nm, "'%d" % k if k else '', ins.res), 'cells', size, 'stack')
        rt = self.mod.resolve(ins.ty)
        if rt[0] == 'a' and rt[2] == ('i', 8) and rt[1] >= 16:
            self.make_bytes(r)
        elif rt[0] == 's' and len(rt[1]) == 1:
            t1 = self.mod.resolve(rt[1][0])
            if t1[0] == 'a' and t1[2] == ('i', 8) and t1[1] >= 33:
                self.make_bytes(r)
        fr.allocas.append(r.rid)
        fr.regs[ins.res] = Ptr(r.rid, 0)
        fr.idx += 1

    def make_bytes(self, r):
        r.kind = 'bytes'
        r.cells = None
        r.node = bytefn(fresh_name('uninit'))

    def i_load(self, st, fr, ins):
        p = self.val(st, fr, ('p',), ins.a[0])
        fr.regs[ins.res] = self.load(st, p, ins.ty)
        fr.idx += 1

    def i_store(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        p = self.val(st, fr, ('p',), ins.a[1])
        self.store(st, p, v, ins.ty)
        fr.idx += 1

    def i_getelementptr(self, st, fr, ins):
        base = self.val(st, fr, ('p',), ins.a[0])
        fr.regs[ins.res] = self.gep(st, fr, ins.ty, base, ins.a[1])
        fr.idx += 1

    def arith(self, st, fr, ins):
        w = ins.ty[1]
        a = self.val(st, fr, ins.ty, ins.a[0])
        b = self.val(st, fr, ins.ty, ins.a[1])
        return w, a, b

    def i_bin(self, st, fr, ins):
        w, a, b = self.arith(st, fr, ins)
        fr.idx += 1
        if a is UNDEF or b is UNDEF:
            fr.regs[ins.res] = UNDEF
            return
        op = ins.op
        if w == 1:
            if op in ('and', 'or', 'xor'):
                if op == 'and':
                    r = And(a, b)
                elif op == 'or':
                    r = Or(a, b)
                else:
                    r = Not(Iff(a, b))
                fr.regs[ins.res] = r
                return
            raise Unsupported('i1 ' + op)
        if isinstance(a, bool) or z3.is_expr(a):
            a = boolint(a)
        if isinstance(b, bool) or z3.is_expr(b):
            b = boolint(b)
        if op in ('add', 'sub', 'mul'):
            nsw = 'nsw' in ins.x
            if nsw:
                a = self.sgn(st, a, w)
                b = self.sgn(st, b, w)
            if op == 'add':
                r = add(a, b)
            elif op == 'sub':
                r = sub(a, b)
            elif isinstance(a, int) or isinstance(b, int):
                if not nsw:
                    if isinstance(a, int):
                        a = self.sgn(st, a, w)
                    if isinstance(b, int):
                        b = self.sgn(st, b, w)
                r = scale(a, b)
            else:
                r = self.nonlin(st, a, b)
            if nsw:
                h = 1 << (w - 1)
                lo, hi = interval(r)
                if not (lo is not None and hi is not None and lo >= -h and hi < h):
                    fr.idx -= 1
                    self.obl(st, And(le(-h, r), lt(r, h)), 'no signed overflow')
                    fr.idx += 1
            elif isinstance(r, int):
                r &= (1 << w) - 1
        elif op in ('sdiv', 'srem'):
            a = self.sgn(st, a, w)
            b = self.sgn(st, b, w)
            fr.idx -= 1
            self.obl(st, Not(eq(b, 0)), 'division by zero')
            fr.idx += 1
            if isinstance(b, int) and b > 0:
                if isinstance(a, int):
                    q = abs(a) // b * (1 if a >= 0 else -1)
                    r = q if op == 'sdiv' else a - q * b
                elif op == 'sdiv' and a.c % b == 0 and all(c % b == 0 for c in a.t.values()):
                    r = Lin({i: c // b for i, c in a.t.items()}, a.c // b)
                elif st.proves(le(0, a)):
                    r = atom(z(a) / b) if op == 'sdiv' else atom(z(a) % b, 0, b - 1)
                else:
                    q = z3.If(z(a) >= 0, z(a) / b, -((-z(a)) / b))
                    r = atom(q) if op == 'sdiv' else atom(z(a) - b * q)
            else:
                raise Unsupported('symbolic division')
        elif op in ('udiv', 'urem'):
            a = self.uns(st, a, w)
            b = self.uns(st, b, w)
            fr.idx -= 1
            self.obl(st, Not(eq(b, 0)), 'division by zero')
            fr.idx += 1
            if isinstance(b, int):
                if isinstance(a, int):
                    r = a // b if op == 'udiv' else a % b
                elif op == 'udiv' and a.c % b == 0 and all(c % b == 0 for c in a.t.values()):
                    r = Lin({i: c // b for i, c in a.t.items()}, a.c // b)
                else:
                    r = atom(z(a) / b) if op == 'udiv' else atom(z(a) % b, 0, b - 1)
            else:
                raise Unsupported('symbolic division')
        elif op == 'shl':
            if not isinstance(b, int):
                raise Unsupported('shift')
            r = scale(a, 1 << b)
            if isinstance(r, int):
                r &= (1 << w) - 1
        elif op in ('lshr', 'ashr'):
            if not isinstance(b, int):
                raise Unsupported('shift')
            a = self.uns(st, a, w) if op == 'lshr' else self.sgn(st, a, w)
            if isinstance(a, int):
                r = a >> b
            else:
                k = 1 << b
                if a.c % k == 0 and all(c % k == 0 for c in a.t.values()):
                    r = Lin({i: c // k for i, c in a.t.items()}, a.c // k)
                else:
                    lo, hi = interval(a)
                    r = atom(z(a) / k, None if lo is None else lo >> b, None if hi is None else hi >> b)
        elif op in ('and', 'or', 'xor'):
            if isinstance(a, int) and isinstance(b, int):
                a &= (1 << w) - 1
                b &= (1 << w) - 1
                r = a & b if op == 'and' else a | b if op == 'or' else a ^ b
            else:
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    b &= (1 << w) - 1
                    if op == 'and' and (b & (b + 1)) == 0:
                        k = b + 1
                        a = self.uns(st, a, w)
                        lo, hi = interval(a)
                        r = a if hi is not None and hi < k else atom(z(a) % k, 0, k - 1)
                    elif op == 'xor' and b == (1 << w) - 1:
                        r = sub(-1, a)
                    elif op in ('or', 'xor') and b == 0:
                        r = a
                    elif op == 'and' and b == 0:
                        r = 0
                    elif op == 'xor' and b == 1 and st.proves(And(le(0, a), le(a, 1))):
                        r = sub(1, a)
                    elif bin(b).count('1') <= 8 or op == 'and' and w - bin(b).count('1') <= 8:
                        # the bits of the mask one by one
                        a = self.uns(st, a, w)
                        inv = op == 'and' and bin(b).count('1') > 8
                        bits = [k for k in range(w) if (b >> k & 1) != inv]
                        at = {k: z(a) / (1 << k) % 2 for k in bits}
                        if op == 'and' and not inv:
                            r = atom(z3.Sum([at[k] * (1 << k) for k in bits]), 0, b)
                        elif inv:
                            r = atom(z(a) - z3.Sum([at[k] * (1 << k) for k in bits]), 0, b)
                        elif op == 'or':
                            r = atom(z(a) + z3.Sum([(1 - at[k]) * (1 << k) for k in bits]), 0, (1 << w) - 1)
                        else:
                            r = atom(z(a) + z3.Sum([(1 - 2 * at[k]) * (1 << k) for k in bits]), 0, (1 << w) - 1)
                    else:
                        raise Unsupported('bitwise %s %d' % (op, b))
                else:
                    la, ha = interval(a)
                    lb, hb = interval(b)
                    if (la, ha, lb, hb) == (0, 1, 0, 1) or st.proves(And(And(le(0, a), le(a, 1)), And(le(0, b), le(b, 1)))):
                        x, y = self.to_bool(st, a), self.to_bool(st, b)
                        r = boolint(And(x, y) if op == 'and' else Or(x, y) if op == 'or' else Not(Iff(x, y)))
                    else:
                        raise Unsupported('bitwise ' + op)
        else:
            raise Unsupported(op)
        fr.regs[ins.res] = r

    i_add = i_sub = i_mul = i_sdiv = i_srem = i_udiv = i_urem = i_shl = i_lshr = i_ashr = i_and = i_or = i_xor = i_bin

    def nonlin(self, st, a, b):
        la, ha = interval(a)
        lb, hb = interval(b)
        lo = hi = None
        if None not in (la, ha, lb, hb):
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
        elif la is not None and la >= 0 and lb is not None and lb >= 0:
            lo = 0
        return atom(z(a) * z(b), lo, hi)

    def i_icmp(self, st, fr, ins):
        a = self.val(st, fr, ins.ty, ins.a[0])
        b = self.val(st, fr, ins.ty, ins.a[1])
        pred = ins.x
        if a is UNDEF or b is UNDEF:
            fr.regs[ins.res] = UNDEF
            fr.idx += 1
            return
        if ins.ty[0] == 'p':
            r = self.pcmp(st, pred, a, b)
        else:
            r = self.cmp(st, pred, a, b, ins.ty[1])
        fr.regs[ins.res] = r
        fr.idx += 1

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            if pred in ('eq', 'ne'):
                same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                return same if pred == 'eq' else not same
            raise Unsupported('function compare')
        a, b = norm_ptr(a), norm_ptr(b)
        if a.r == b.r:
            f = {'eq': eq, 'ne': lambda x, y: Not(eq(x, y)), 'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge,
                 'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pred]
            self.note_cmp(a.o, b.o)
            return f(a.o, b.o)
        if pred in ('eq', 'ne'):
            # distinct objects: addresses inside them differ (one-past-the-end coincidence excluded)
            return pred == 'ne'
        x, y = st.addr(a), st.addr(b)
        return {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge, 'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pred](x, y)

    def cmp(self, st, pred, a, b, w):
        if w == 1:
            if isinstance(a, (int, Lin)) and not isinstance(a, bool):
                a = self.to_bool(st, a)
            if isinstance(b, (int, Lin)) and not isinstance(b, bool):
                b = self.to_bool(st, b)
            if pred == 'eq':
                return Iff(a, b)
            if pred == 'ne':
                return Not(Iff(a, b))
            raise Unsupported('i1 cmp')
        if isinstance(a, bool) or z3.is_expr(a):
            a = boolint(a)
        if isinstance(b, bool) or z3.is_expr(b):
            b = boolint(b)
        if pred in ('eq', 'ne'):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('compare opaque')
            d = sub(a, b)
            if isinstance(d, int):
                r = d % (1 << w) == 0
            else:
                lo, hi = interval(d)
                m = 1 << w
                if lo is not None and hi is not None and -m < lo and hi < m:
                    r = eq(a, b)
                elif st.proves(And(lt(-m, d), lt(d, m))):
                    r = eq(a, b)
                else:
                    a, b = self.uns(st, a, w), self.uns(st, b, w)
                    r = eq(a, b)
            self.note_cmp(a, b)
            return r if pred == 'eq' else Not(r)
        a0, b0 = a, b
        if pred[0] == 's':
            a, b = self.sgn(st, a, w), self.sgn(st, b, w)
        else:
            a, b = self.uns(st, a, w), self.uns(st, b, w)
        self.note_cmp(a, b)
        if a is not a0 or b is not b0:
            # without bounds the value wraps; the comparison may be the one which bounds it
            self.note_cmp(a0, b0)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)

    def note_cmp(self, a, b):
        for inst in self.loop_stack:
            if len(inst.cmps) < 40:
                d = sub(a, b)
                if isinstance(d, Lin):
                    inst.cmps.setdefault(d.key(), d)

    def i_fcmp(self, st, fr, ins):
        a = self.val(st, fr, ins.ty, ins.a[0])
        b = self.val(st, fr, ins.ty, ins.a[1])
        fr.idx += 1
        if a is UNDEF or b is UNDEF:
            fr.regs[ins.res] = UNDEF
            return
        a, b = a.v, b.v
        f = {'oeq': z3.fpEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ, 'ogt': z3.fpGT, 'oge': z3.fpGEQ}
        if ins.x in f:
            r = f[ins.x](a, b)
        elif ins.x == 'une':
            r = z3.Not(z3.fpEQ(a, b))
        elif ins.x == 'one':
            r = z3.And(z3.Not(z3.fpEQ(a, b)), z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b)))
        elif ins.x in ('ult', 'ule', 'ugt', 'uge', 'ueq'):
            r = z3.Or(f['o' + ins.x[1:]](a, b), z3.fpIsNaN(a), z3.fpIsNaN(b))
        elif ins.x == 'uno':
            r = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        elif ins.x == 'ord':
            r = z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))
        else:
            raise Unsupported('fcmp ' + ins.x)
        fr.regs[ins.res] = r

    def i_fpext(self, st, fr, ins):
        v = self.val(st, fr, ins.x, ins.a[0])
        fr.idx += 1
        if v is UNDEF:
            fr.regs[ins.res] = UNDEF
            return
        fr.regs[ins.res] = Opaque('f:' + ins.ty[1], z3.fpToFP(z3.RNE(), v.v, z3.Float64()))

    def i_sitofp(self, st, fr, ins):
        v = self.val(st, fr, ins.x, ins.a[0])
        fr.idx += 1
        if isinstance(v, int):
            fr.regs[ins.res] = Opaque('f:' + ins.ty[1], z3.FPVal(float(self.sgn(st, v, ins.x[1])), z3.Float64()
                                      if ins.ty[1] == 'double' else z3.Float32()))
            return
        raise Unsupported('sitofp')

    def i_zext(self, st, fr, ins):
        v = self.val(st, fr, ins.x, ins.a[0])
        fr.idx += 1
        if v is UNDEF:
            r = UNDEF
        elif ins.x[1] == 1:
            r = boolint(v) if isinstance(v, bool) or z3.is_expr(v) else v
        else:
            r = self.uns(st, v, ins.x[1])
        fr.regs[ins.res] = r

    def i_sext(self, st, fr, ins):
        v = self.val(st, fr, ins.x, ins.a[0])
        fr.idx += 1
        fr.regs[ins.res] = UNDEF if v is UNDEF else self.sgn(st, v, ins.x[1])

    def i_trunc(self, st, fr, ins):
        v = self.val(st, fr, ins.x, ins.a[0])
        fr.idx += 1
        if v is UNDEF:
            r = UNDEF
        elif ins.ty[1] == 1:
            r = self.to_bool(st, v)
        else:
            r = v
        fr.regs[ins.res] = r

    def i_ptrtoint(self, st, fr, ins):
        v = self.val(st, fr, ins.x, ins.a[0])
        fr.idx += 1
        if v is UNDEF:
            fr.regs[ins.res] = UNDEF
            return
        if isinstance(v, Fn):
            raise Unsupported('ptrtoint of function')
        fr.regs[ins.res] = st.addr(norm_ptr(v))

    def i_inttoptr(self, st, fr, ins):
        v = self.val(st, fr, ins.x, ins.a[0])
        fr.idx += 1
        fr.regs[ins.res] = UNDEF if v is UNDEF else st.ptr_from_int(v)

    def i_bitcast(self, st, fr, ins):
        fr.regs[ins.res] = self.val(st, fr, ins.x, ins.a[0])
        fr.idx += 1
    i_freeze = i_bitcast

    def i_br(self, st, fr, ins):
        if len(ins.a) == 1:
            self.goto(st, fr, ins.a[0])
            return
        c = self.val(st, fr, ('i', 1), ins.a[0])
        return self.branch(st, c, ins.a[1], ins.a[2])

    def branch(self, st, c, a, b):
        fr = st.frames[-1]
        if c is UNDEF:
            self.obl(st, False, 'branch on uninitialised value')
            raise DeadPath()
        if isinstance(c, (int, Lin)) and not isinstance(c, bool):
            c = self.to_bool(st, c)
        if isinstance(c, bool):
            self.goto(st, fr, a if c else b)
            return
        fa = st.feasible(c)
        fb = st.feasible(Not(c))
        if fa and fb:
            s2 = st.fork()
            st.assume(c)
            s2.assume(Not(c))
            self.goto(st, st.frames[-1], a)
            self.goto(s2, s2.frames[-1], b)
            return [s2, st]
        if fa:
            st.assume(c)
            self.goto(st, fr, a)
            return
        if fb:
            st.assume(Not(c))
            self.goto(st, fr, b)
            return
        raise DeadPath()

    def i_switch(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        if v is UNDEF:
            self.obl(st, False, 'branch on uninitialised value')
            raise DeadPath()
        w = ins.ty[1]
        if isinstance(v, int) and not isinstance(v, bool):
            for cv, lab in ins.a[2]:
                if (cv - v) % (1 << w) == 0:
                    self.goto(st, fr, lab)
                    return
            self.goto(st, fr, ins.a[1])
            return
        out = []
        rest = st
        for cv, lab in ins.a[2]:
            c = self.cmp(rest, 'eq', v, cv, w)
            if isinstance(c, bool):
                if c:
                    self.goto(rest, rest.frames[-1], lab)
                    out.append(rest)
                    return out
                continue
            if rest.feasible(c):
                s2 = rest.fork()
                s2.assume(c)
                self.goto(s2, s2.frames[-1], lab)
                out.append(s2)
            rest.assume(Not(c))
        if rest.consistent():
            self.goto(rest, rest.frames[-1], ins.a[1])
            out.append(rest)
        return out

    def i_select(self, st, fr, ins):
        c = self.val(st, fr, ('i', 1), ins.a[0])
        a = self.val(st, fr, ins.ty, ins.a[1])
        b = self.val(st, fr, ins.ty, ins.a[2])
        if c is UNDEF:
            self.obl(st, False, 'branch on uninitialised value')
            raise DeadPath()
        if isinstance(c, bool):
            fr.regs[ins.res] = a if c else b
            fr.idx += 1
            return
        if ins.ty[0] == 'i' and ins.ty[1] > 1 and a is not UNDEF and b is not UNDEF:
            fr.regs[ins.res] = ite(c, a, b)
            fr.idx += 1
            return
        if ins.ty == ('i', 1) and a is not UNDEF and b is not UNDEF:
            fr.regs[ins.res] = Or(And(c, a), And(Not(c), b))
            fr.idx += 1
            return
        out = []
        s2 = st.fork() if st.feasible(Not(c)) else None
        if s2 is not None:
            s2.assume(Not(c))
            s2.frames[-1].regs[ins.res] = b
            s2.frames[-1].idx += 1
            out.append(s2)
        if st.feasible(c):
            st.assume(c)
            fr = st.frames[-1]
            fr.regs[ins.res] = a
            fr.idx += 1
            out.append(st)
        return out

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        for k in ins.a[1]:
            if v is UNDEF:
                break
            v = v[k]
        fr.regs[ins.res] = v
        fr.idx += 1

    def i_insertvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        x = None
        rt = self.mod.resolve(ins.ty)

        def put(v, ty, idx):
            if not idx:
                return x
            ty = self.mod.resolve(ty)
            n = len(ty[1]) if ty[0] == 's' else ty[1]
            v = [UNDEF] * n if v is UNDEF else list(v)
            v[idx[0]] = put(v[idx[0]], ty[1][idx[0]] if ty[0] == 's' else ty[2], idx[1:])
            return tuple(v)
        # type of the inserted element
        t = rt
        for k in ins.a[2]:
            t = self.mod.resolve(t[1][k] if t[0] == 's' else t[2])
        x = self.val(st, fr, t, ins.a[1])
        fr.regs[ins.res] = put(v, rt, ins.a[2])
        fr.idx += 1

    def i_unreachable(self, st, fr, ins):
        self.obl(st, False, 'unreachable code reached')
        raise DeadPath()

    def i_ret(self, st, fr, ins):
        v = None
        if ins.a:
            v = self.val(st, fr, ins.ty, ins.a[0])
            if isinstance(v, Ptr):
                v = norm_ptr(v)
        self.pop_frame(st)
        if fr.onret:
            fr.onret(self, st, v)
        if not st.frames:
            st.final = ('ret', v)
            self.paths += 1
            return [st]
        self.finish_call(st, v)

    def pop_frame(self, st):
        fr = st.frames.pop()
        for rid in fr.allocas:
            st.mem.pop(rid, None)
            st.own.discard(rid)
        d = len(st.frames)
        if st.loops:
            st.loops = tuple(r for r in st.loops if r.depth <= d)

    def finish_call(self, st, v):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.idx]
        if ins.res is not None:
            fr.regs[ins.res] = v
        if ins.op == 'invoke':
            self.goto(st, fr, ins.x[0])
        else:
            fr.idx += 1

    # ---- exceptions ----------------------------------------------------
    SUPER = {'_ZTIN2ss9exceptionE': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
             '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception']}

    def matches(self, thrown, catch):
        if catch is None:
            return True
        return thrown == catch or catch in self.SUPER.get(thrown, ())

    def throw(self, st, ptr, ti):
        """unwind; st.frames[-1] is at the throwing call"""
        first = True
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            if ins.op == 'invoke':
                lp = fr.fn.blocks[ins.x[1]]
                k = 0
                while lp[k].op == 'phi':
                    k += 1
                pad = lp[k]
                sel = None
                for kind, v in pad.a:
                    if kind == 'cleanup':
                        if sel is None:
                            sel = 0
                    elif kind == 'catch':
                        cn = None if v[0] == 'n' else v[1]
                        if self.matches(ti, cn):
                            sel = self.typeid(cn)
                            break
                    else:
                        raise Unsupported('exception filter')
                if sel is not None:
                    self.goto(st, fr, ins.x[1])
                    fr.exc = (ptr, ti, sel)
                    return
            self.pop_frame(st)
        st.final = ('throw', ptr, ti)
        self.paths += 1

    def typeid(self, name):
        if name is None:
            return 1
        self._tid = getattr(self, '_tid', {})
        return self._tid.setdefault(name, len(self._tid) + 2)

    def i_landingpad(self, st, fr, ins):
        p, ti, sel = fr.exc
        st.exc = (p, ti)
        fr.regs[ins.res] = (p, sel)
        fr.idx += 1

    def i_resume(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        p = v[0]
        ti = None
        if st.exc and st.exc[0] == p:
            ti = st.exc[1]
        if ti is None:
            ti = st.ghost.get('__exctype', {}).get(p.r)
        # continue from the caller
        self.pop_frame(st)
        if not st.frames:
            st.final = ('throw', p, ti)
            self.paths += 1
            return [st]
        self.throw(st, p, ti)
        return None

    # ---- calls -----------------------------------------------------------
    def i_call(self, st, fr, ins):
        cv, args = ins.a
        if cv[0] == 'g':
            name = cv[1]
        else:
            f = self.val(st, fr, ('p',), cv)
            if not isinstance(f, Fn):
                raise Unsupported('indirect call')
            name = f.name
        while name in self.mod.aliases:
            name = self.mod.aliases[name]
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith(
                'llvm.experimental.noalias'):
            fr.idx += 1
            return
        av = []
        for t, v, at in args:
            av.append(self.val(st, fr, t, v) if v is not None else None)
        for k, (t, v, at) in enumerate(args):
            if 'byval' in at:
                n = self.mod.size(at['byval'])
                r = st.new_region('byval', 'cells', n, 'stack')
                fr.allocas.append(r.rid)
                self.copy_cells(st, Ptr(r.rid, 0), av[k], n)
                av[k] = Ptr(r.rid, 0)
        return self.do_call(st, fr, ins, name, av)
    i_invoke = i_call

    def find_model(self, name):
        m = self._mcache.get(name, 0)
        if m != 0:
            return m
        m = self.models.get(name)
        if m is None:
            d = demangle(name)
            for rx, f in self.model_res:
                if rx.match(d):
                    m = f
                    break
        self._mcache[name] = m
        return m

    def do_call(self, st, fr, ins, name, av):
        m = self.find_model(name)
        if m is not None:
            self.contract_used.add(getattr(m, 'label', demangle(name)[:120]))
            r = m(self, st, av, ins, name)
            if r is NOTMODEL:
                pass
            elif r is THROWN:
                return [st] if st.final else None
            elif isinstance(r, Forks):
                out = []
                for s, k, v in r.items:
                    if k == 'ret':
                        self.finish_call(s, v)
                    else:
                        self.throw(s, v[0], v[1])
                    out.append(s)
                return out
            else:
                self.finish_call(st, r)
                return
        f = self.mod.fns.get(name)
        if f is None:
            raise Unsupported('call of external function without contract: %s' % demangle(name))
        return self.enter(st, f, av, ins)

    def enter(self, st, f, av, ins=None, site=None):
        if len(st.frames) > 150:
            raise Unsupported('recursion')
        self.fns_seen.add(f.name)
        nf = Frame(f, site or (st.frames[-1].fn.name if st.frames else '', st.frames[-1].block if st.frames else '',
                               st.frames[-1].idx if st.frames else 0))
        for (t, nm, at), v in zip(f.params, av):
            nf.regs[nm] = v
        f.blocks
        nf.block = f.entry
        st.frames.append(nf)

    # ------------------------------------------------------------------
    # memory copies
    def copy_cells(self, st, dst, src, n):
        """n concrete bytes between cell regions"""
        if n == 0:
            return
        rs = self.access(st, src, n, 'read')
        rd = self.access(st, dst, n, 'write')
        so = src.o if isinstance(src.o, int) else None
        do = dst.o if isinstance(dst.o, int) else None
        if rs.kind == 'cells' and rd.kind == 'cells':
            so = src.o if isinstance(src.o, int) else self.concretize(st, src.o)
            do = dst.o if isinstance(dst.o, int) else self.concretize(st, dst.o)
            got = []
            for o, (s, v) in sorted(rs.cells.items()):
                if so <= o and o + s <= so + n:
                    got.append((o, s, v))
                elif o < so + n and so < o + s:
                    v2 = self.cell_bytes(rs, max(o, so), min(o + s, so + n) - max(o, so))
                    got.append((max(o, so), min(o + s, so + n) - max(o, so), v2))
            w = st.wreg(rd.rid)
            self.put_cell(st, rd.rid, do, n, UNDEF)
            del w.cells[do]
            for o, s, v in got:
                w.cells[do + o - so] = (s, v)
            return
        if rs.kind == 'words' and rd.kind == 'cells':
            for k in range(0, n, rs.stride):
                v = self.rload(st, rs, add(src.o, k), rs.stride, ('p',) if rs.stride == 8 else ('i', 8 * rs.stride)) \
                    if False else rs.node.read(st, self.divexact(st, add(src.o, k), rs.stride))
                self.put_cell(st, rd.rid, add(dst.o, k), rs.stride, v)
            return
        if rd.kind == 'words' and rs.kind == 'cells':
            for k in range(0, n, rd.stride):
                c = rs.cells.get(add(src.o, k))
                if c is None or c[0] != rd.stride:
                    raise Unsupported('copy to words')
                w = st.wreg(rd.rid)
                w.node = SStore(w.node, self.divexact(st, add(dst.o, k), rd.stride), c[1])
            return
        if rd.kind == 'cells' and rs.kind == 'bytes':
            for k in range(n):
                self.put_cell(st, rd.rid, add(dst.o, k), 1, rs.node.read(st, add(src.o, k)))
            return
        if rd.kind == 'bytes':
            self.copy_bytes(st, dst, src, n)
            return
        raise Unsupported('copy %s -> %s' % (rs.kind, rd.kind))

    def copy_bytes(self, st, dst, src, n):
        """memmove on byte sequences; n >= 0 already normalised, n != 0"""
        rs = self.access(st, src, n, 'read')
        rd = self.access(st, dst, n, 'write')
        if rd.store == 'const':
            self.obl(st, False, 'write to read-only memory')
            raise DeadPath()
        if rd.kind == 'bytes' and rs.kind == 'bytes':
            w = st.wreg(rd.rid)
            w.node = SCopy(w.node, dst.o, n, rs.node, src.o)
            return
        if rd.kind == 'bytes' and rs.kind == 'cells' and isinstance(n, int):
            vals = []
            for k in range(n):
                v = self.cell_bytes(rs, add(src.o, k), 1)
                if v is UNDEF:
                    v = fresh('undef', -128, 127)
                vals.append(self.sgn(st, v, 8))
            w = st.wreg(rd.rid)
            for k, v in enumerate(vals):
                w.node = SStore(w.node, add(dst.o, k), v)
            return
        if rd.kind == 'words' and rs.kind == 'words' and rs.stride == rd.stride:
            w = st.wreg(rd.rid)
            w.node = SCopy(w.node, self.divexact(st, dst.o, rd.stride), self.divexact(st, n, rd.stride), rs.node,
                           self.divexact(st, src.o, rs.stride))
            return
        raise Unsupported('copy %s -> %s' % (rs.kind, rd.kind))

    # ------------------------------------------------------------------
    # loops
    def loop(self, st, fr, key):
        from . import loops
        mark = len(self.obls)
        depth, header = len(st.frames), fr.block
        try:
            return loops.analyse(self, st.fork(), fr, key)
        except (loops.Peel, Unsupported) as e:
            # a loop over the parts of an object has no invariant of that kind, but few turns
            unroll = isinstance(e, loops.Unroll) or isinstance(e, Unsupported) and str(e).startswith(('symbolic offset', 'loop releases'))
            if not unroll and not isinstance(e, loops.Peel):
                raise
            k = '__peel %d %s' % (depth, header)
            st.ghost[k] = st.ghost.get(k, 0) + 1
            if st.ghost[k] > (40 if unroll else 3):
                raise Unsupported('loop not unrolled completely' if unroll else 'loop changes null pointer to object')
            del self.obls[mark:]
            st.ghost['__skip'] = (depth, header)
            return [st]


class DeadPath(Exception):
    pass


class Forks:
    def __init__(self, items):
        self.items = items


NOTMODEL = object()
THROWN = object()


def padd(p, o):
    if p is UNDEF:
        return UNDEF
    return Ptr(p.r, add(p.o, o))


_dm = {}


def demangle_all(names):
    import subprocess
    names = [n for n in names if n not in _dm]
    if not names:
        return
    out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    for n, d in zip(names, out.stdout.split('\n')):
        _dm[n] = d


def demangle(n):
    if n not in _dm:
        demangle_all([n])
    return _dm[n]


_sh = {}


def short(n):
    r = _sh.get(n)
    if r is None:
        d = demangle(n)
        d = re.sub(r'\[abi:\w+\]', '', d)
        # strip arguments and template parameters
        out = ''
        depth = 0
        i = 0
        while i < len(d):
            ch = d[i]
            if ch == '<' and not d[:i].endswith('operator'):
                depth += 1
            elif ch == '>' and depth > 0:
                depth -= 1
            elif ch == '(' and depth == 0:
                break
            elif depth == 0:
                out += ch
            i += 1
        r = out.split(' ')[-1] if ' ' in out and 'operator' not in out else out
        r = r or d[:60]
        _sh[n] = r
    return r

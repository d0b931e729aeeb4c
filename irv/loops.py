"""Loop rule: frame inference, candidate invariants (Houdini), preservation, termination."""
import re
import z3
from .val import *
from .mem import *
from .engine import Inst, LoopRec, Obl, short, Unsupported, DeadPath, norm_ptr


class Peel(Exception):
    """execute one iteration before the loop rule applies"""


class Unroll(Peel):
    """a loop over a known number of elements"""


class Cand:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, f


def consts(e, _c={}):
    i = e.get_id()
    r = _c.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(e.get_id())
    for c in e.children():
        out |= consts(c)
    _c[i] = (e, out)
    return out


def created(e):
    """largest creation number among the constants of e"""
    m = 0
    for i in consts(e):
        s = str(ATOMS[i][0]) if i in ATOMS else ''
        if '!' in s:
            try:
                m = max(m, int(s.rsplit('!', 1)[1]))
            except ValueError:
                pass
    return m


def items_of(st, F):
    """resolve stable item names to concrete items"""
    byname = {}
    for rid, r in st.mem.items():
        byname.setdefault(r.name, []).append(rid)
    out = []
    for it in sorted(F, key=str):
        for rid in byname.get(it[1], ()):
            out.append((it[0], rid) + it[2:])
    return out


def scalar(v):
    if isinstance(v, Ptr):
        return v.o
    if isinstance(v, (int, Lin)) and not isinstance(v, bool):
        return v
    return None


def cellval(st, rid, off, size):
    r = st.mem.get(rid)
    if r is None or r.cells is None:
        return UNDEF
    c = r.cells.get(off)
    if c is None or c[0] != size:
        return UNDEF
    return c[1]


def analyse(eng, st0, fr0, key):
    fn, header = fr0.fn, fr0.block
    body = fn.loops[header]
    depth = len(st0.frames)
    lk = (tuple(short(f.fn.name) for f in st0.frames), header, str(key), st0.ghost.get('__peel %d %s' % (depth, header), 0))
    hint = eng.hints.setdefault(lk, {'F': set(), 'dropped': set(), 'strides': {}, 'rv': set(), 'n': 0})
    hint['n'] += 1
    for i in eng.loop_stack:
        eng.nested.setdefault(i.key, set()).add(lk)

    def retry():
        """what was found about inner loops was found under a wrong frame"""
        for k in eng.nested.get(lk, ()):
            eng.hints[k]['dropped'].clear()
    eng.loops_seen[(short(fn.name), header)] = eng.loops_seen.get((short(fn.name), header), 0) + 1
    w = eng.mod.where(fn.blocks[header][0].dbg) or ('?', 0)
    lname = '%s@%s:%d loop' % (short(fn.name), w[0], w[1])
    mark = len(eng.obls)
    for attempt in range(60):
        del eng.obls[mark:]
        inst = Inst(lk, fn, header)
        inst.mark = mark
        inst.F = set(hint['F'])
        inst.depth = depth
        entry = st0.fork()
        plug = eng.plugin if eng.plugin and eng.plugin.active(eng, entry, inst) else None
        inst.plug = plug
        if plug:
            plug.at_entry(eng, entry, inst)
        cmark = int(fresh_name('mark').split('!')[1])
        H = entry.fork()
        items = items_of(entry, inst.F)
        inst.items = items
        it = fresh('it', 0)
        inst.it = it
        amap = {}           # atom id -> item
        inst.div = {}
        for i in items:
            havoc(eng, entry, H, inst, i, amap, hint, plug)
        inst.amap = amap
        if plug:
            plug.havoc(eng, entry, H, inst)
        for x in inst.data.pop('assume', ()):
            H.assume(x)

        itid = next(iter(it.t))

        def value_of(st, item):
            if item[0] == 'c':
                return scalar(cellval(st, item[1], item[2], item[3]))
            if item[0] == 's':
                return st.mem[item[1]].size
            if item[0] == 'l':
                return st.mem[item[1]].lo
            return None

        def subst(lin, st, itv):
            """lin (over havoc atoms) at another header visit"""
            if isinstance(lin, int):
                return lin
            r = lin.c
            for i, c in lin.t.items():
                if i == itid:
                    v = itv
                elif i in amap:
                    v = quot(value_of(st, amap[i]), inst.div.get(i, 1))
                    if v is None:
                        return None
                else:
                    v = Lin({i: 1}, 0)
                r = add(r, scale(v, c))
            return r
        inst.subst = subst
        # candidates
        cands = []
        for aid, item in amap.items():
            a = Lin({aid: 1}, 0)
            v0 = quot(value_of(entry, item), inst.div.get(aid, 1))
            if v0 is None and inst.div.get(aid, 1) > 1:
                raise Unsupported('misaligned pointer at loop entry')
            nm = item_name(entry, item)
            cands.append(Cand('%s unchanged' % nm, (lambda s, iv, a=a, v0=v0: lin_rel(subst, a, s, iv, v0, eq))))
            stride = hint['strides'].get(skey(entry, item))
            if isinstance(stride, int) and stride != 0 and stride % inst.div.get(aid, 1) == 0:
                stride //= inst.div.get(aid, 1)
                cands.append(Cand('%s advances by %d' % (nm, stride), (
                    lambda s, iv, a=a, v0=v0, k=stride: lin_rel(subst, a, s, iv, add(v0, scale(iv, k)), eq))))
            cands.append(Cand('%s >= initial' % nm, (lambda s, iv, a=a, v0=v0: lin_rel(subst, a, s, iv, v0, ge))))
            cands.append(Cand('%s <= initial' % nm, (lambda s, iv, a=a, v0=v0: lin_rel(subst, a, s, iv, v0, le))))
            cands.append(Cand('%s >= 0' % nm, (lambda s, iv, a=a: lin_rel(subst, a, s, iv, 0, ge))))
            if v0 in (0, 1) and isinstance(v0, int):
                cands.append(Cand('%s boolean' % nm, (lambda s, iv, a=a: lin_rel(subst, a, s, iv, 1, le))))
        for nm, d in hint.get('cmps', {}).items():
            pass
        for d in hint.get('cmpl', {}).get('d', []):
            dd = d(entry, amap, H) if callable(d) else None
            if dd is None or isinstance(dd, int):
                continue
            for nm, op in (('<= 0', le), ('>= 0', ge)):
                cands.append(Cand('cmp %s %s' % (hintname(dd, amap, entry), nm), (
                    lambda s, iv, dd=dd, op=op: lin_rel(subst, dd, s, iv, 0, op))))
        for aid, item in amap.items():
            if item[0] != 'c':
                continue
            v0 = cellval(entry, *item[1:])
            if isinstance(v0, Ptr) and v0.r in entry.mem and (('l', v0.r) in [i[:2] for i in items] or skey(entry, item) in hint['rv']):
                nm = item_name(entry, item)

                def start(s, iv, item=item):
                    v = cellval(s, *item[1:])
                    return eq(v.o, s.mem[v.r].lo) if isinstance(v, Ptr) and v.r in s.mem else None
                cands.append(Cand('%s at block start' % nm, start))
        cands += sizes(entry, amap, items, hint)
        cands += copies(eng, entry, H, inst, amap, hint, subst)
        if plug:
            cands += plug.candidates(eng, entry, H, inst)
        live = []
        for c in cands:
            if c.name in hint['dropped']:
                continue
            try:
                f = c.f(entry, 0)
            except (Unsupported, DeadPath, KeyError):
                f = None
            if f is None or not entry.proves(f):
                if eng.trace and (eng.trace == 3 or c.name.startswith('!')):
                    print('   entry drop', lname, c.name, str(f)[:500])
                continue
            live.append(c)
        for c in live:
            f = c.f(H, it)
            H.assume(f)
        if not H.consistent():
            raise Unsupported('inconsistent invariant at %s' % lname)
        H.loops = H.loops + (LoopRec(depth, header, body, key, inst),)
        H.ghost['__skip'] = (depth, header)
        H0 = H.fork()
        eng.loop_stack.append(inst)
        try:
            outs, backs = eng.explore([H], inst)
        except Limit:
            del eng.obls[mark:]
            raise
        finally:
            eng.loop_stack.pop()
        # frame
        newF = set()
        for b in backs:
            newF |= diff(eng, H0, b, inst, hint)
        if newF - hint['F']:
            if eng.trace:
                print('  %s frame += %s' % (lname, sorted(newF - hint['F'], key=str)))
            hint['F'] |= newF
            retry()
            continue
        again = False
        for b in backs:
            if plug and plug.at_back(eng, H0, b, inst):
                again = True
            for aid, k in inst.div.items():
                if quot(value_of(b, amap[aid]), k) is None:
                    raise Unsupported('misaligned pointer in loop')
            for item in items:
                if item[0] != 'c':
                    continue
                v1 = cellval(H0, *item[1:])
                v2 = cellval(b, *item[1:])
                if isinstance(v2, Ptr) and isinstance(v1, Ptr) and v1.r != v2.r:
                    sk = skey(H0, item)
                    if sk in hint['rv'] or (plug and plug.owns(eng, H0, b, inst, item)):
                        continue
                    hint['rv'].add(sk)
                    again = True
                s1, s2 = scalar(v1), scalar(v2)
                if s1 is not None and s2 is not None and isinstance(s1, Lin) and not again:
                    d = sub(s2, s1)
                    sk = skey(H0, item)
                    old = hint['strides'].get(sk)
                    new = d if isinstance(d, int) else 'x'
                    if old is None:
                        hint['strides'][sk] = new
                        again = again or (isinstance(new, int) and new != 0)
                    elif old != new and old != 'x':
                        hint['strides'][sk] = 'x'
        if not again and find_copies(eng, H0, backs, inst, amap, hint, cmark, itid):
            again = True
        cm = hint.setdefault('cmpl', {'d': [], 'keys': set(), 'rounds': 0})
        if cm['rounds'] < 4:
            new = False
            for d in inst.cmps.values():
                g = generic_cmp(d, amap, cmark, H0, itid)
                if g and g.key not in cm['keys']:
                    cm['keys'].add(g.key)
                    cm['d'].append(g)
                    new = True
            cm['rounds'] += new
            again = again or new
        if again:
            retry()
            continue
        dropped = set()
        for b in backs:
            for c in live:
                if c.name in dropped:
                    continue
                try:
                    f = c.f(b, add(it, 1))
                except (Unsupported, DeadPath, KeyError):
                    f = None
                if f is None or not b.proves(f):
                    if eng.trace and (eng.trace == 3 or c.name.startswith('!')):
                        print('   drop', lname, c.name, str(f)[:1500])
                        if eng.trace == 2:
                            print(eng.context(b, f) if f is not None else '')
                    dropped.add(c.name)
        if dropped:
            hint['dropped'] |= dropped
            continue
        # stable
        for c in live:
            nm = '%s invariant [%s]' % (lname, c.name.lstrip('!'))
            eng.obls.append(Obl(nm + ' at entry', True))
            for b in backs:
                eng.obls.append(Obl(nm + ' preserved', True))
        term(eng, H0, backs, inst, lname, plug, subst, it, amap, hint)
        for b in backs:
            eng.paths += 1
        return outs
    raise Unsupported('no stable invariant for %s' % lname)


def lin_rel(subst, a, s, iv, v, op):
    x = subst(a, s, iv)
    if x is None or v is None:
        return None
    return op(x, v)


def skey(st, item):
    return (st.mem[item[1]].name,) + item[2:]


def item_name(st, item):
    r = st.mem[item[1]]
    return r.name + ('+%d' % item[2] if len(item) > 2 and item[2] else '') + {'s': '.size', 'l': '.start'}.get(item[0], '')


def hintname(d, amap, st):
    return ' + '.join('%d*%s' % (c, item_name(st, amap[i]) if i in amap else str(ATOMS[i][0]))
                      for i, c in sorted(d.t.items(), key=str)) + ' + %d' % d.c


def holder(st, i):
    """a cell whose value is exactly this atom: names the value in a later visit of the loop"""
    for rid, r in st.mem.items():
        if r.cells is None:
            continue
        for off, (n, v) in r.cells.items():
            s = scalar(v)
            if isinstance(s, Lin) and s.c == 0 and len(s.t) == 1 and s.t.get(i, 0) > 0:
                return ('e', r.name, off, n, s.t[i])
    return None


def generic_cmp(d, amap, cmark, H0, itid):
    """comparison as a function of the loop's havoc atoms, usable in a later attempt"""
    pat = []
    anyh = False
    for i, c in d.t.items():
        if i in amap:
            pat.append((c, ('h', skey(H0, amap[i]), amap[i][0])))
            anyh = True
        elif i == itid:
            return None
        elif created(ATOMS[i][0]) < cmark and not (consts(ATOMS[i][0]) & set(amap)):
            pat.append((c, holder(H0, i) or ('a', i)))
        else:
            return None
    if not anyh:
        return None

    def mk(entry, amap2, H):
        r = d.c
        for c, p in pat:
            if p[0] == 'a':
                if p[1] not in ATOMS:
                    return None
                r = add(r, scale(Lin({p[1]: 1}, 0), c))
            elif p[0] == 'e':
                for rid, x in entry.mem.items():
                    if x.name == p[1] and x.cells is not None:
                        v = quot(scalar(cellval(entry, rid, p[2], p[3])), p[4])
                        if v is not None:
                            r = add(r, scale(v, c))
                            break
                else:
                    return None
            else:
                for aid, item in amap2.items():
                    if item[0] == p[2] and skey(entry, item) == p[1]:
                        r = add(r, scale(Lin({aid: 1}, 0), c))
                        break
                else:
                    return None
        return r
    mk.key = (d.c,) + tuple(sorted(map(str, pat)))
    return mk


def sizes(entry, amap, items, hint):
    """scalars equal to the size of a block the loop reallocates"""
    out = []
    for it in items:
        if it[0] != 'c' or skey(entry, it) not in hint['rv']:
            continue
        p0 = cellval(entry, *it[1:])
        if not isinstance(p0, Ptr) or p0.r not in entry.mem or entry.mem[p0.r].kind != 'bytes':
            continue
        for aid, item in amap.items():
            if item[0] != 'c' or not isinstance(cellval(entry, *item[1:]), (int, Lin)):
                continue

            def f(s, iv, item=item, it=it):
                v, p = cellval(s, *item[1:]), cellval(s, *it[1:])
                if not isinstance(v, (int, Lin)) or not isinstance(p, Ptr) or p.r not in s.mem:
                    return None
                return eq(v, s.mem[p.r].size)
            out.append(Cand('%s is the size of the block of %s' % (item_name(entry, item), item_name(entry, it)), f))
    for it in items:
        if it[0] == 's' and entry.mem[it[1]].kind == 'words':
            for item in items:
                if item[0] != 'c':
                    continue
                v0 = cellval(entry, *item[1:])
                if not isinstance(v0, Ptr) or v0.r != it[1]:
                    continue

                def f(s, iv, item=item, rid=it[1]):
                    v = cellval(s, *item[1:])
                    return eq(v.o, s.mem[rid].size) if isinstance(v, Ptr) and v.r == rid else None
                out.append(Cand('%s is the end of %s' % (item_name(entry, item), entry.mem[it[1]].name), f))
        if it[0] != 's' or entry.mem[it[1]].kind != 'bytes':
            continue
        for aid, item in amap.items():
            if item[0] != 'c':
                continue
            v0 = cellval(entry, *item[1:])
            if not isinstance(v0, (int, Lin)):
                continue

            def f(s, iv, item=item, rid=it[1]):
                v = cellval(s, *item[1:])
                return eq(v, s.mem[rid].size) if isinstance(v, (int, Lin)) and rid in s.mem else None
            out.append(Cand('%s is the size of %s' % (item_name(entry, item), entry.mem[it[1]].name), f))

            def f(s, iv, item=item, rid=it[1]):
                v = cellval(s, *item[1:])
                return le(v, s.mem[rid].size) if isinstance(v, (int, Lin)) and rid in s.mem else None
            out.append(Cand('%s within the size of %s' % (item_name(entry, item), entry.mem[it[1]].name), f))
    return out


def find_copies(eng, H0, backs, inst, amap, hint, cmark, itid):
    """byte sequences the loop fills one character per iteration from another sequence"""
    tab = hint.setdefault('copies', {})
    new = False
    for it in inst.items:
        if it[0] != 'n':
            continue
        rid = it[1]
        nm = H0.mem[rid].name
        if nm in tab or H0.mem[rid].kind != 'bytes':
            continue
        pats = set()
        ex = None
        for b in backs:
            node = b.mem[rid].node
            if node is H0.mem[rid].node:
                continue
            if not isinstance(node, SStore) or not isinstance(node.v, Lin) or node.v not in eng.prov:
                pats.add(None)
                continue
            srid, so = eng.prov[node.v]
            if srid not in H0.mem:
                pats.add(None)
                continue
            d = sub(node.i, b.mem[rid].lo)
            s = sub(so, b.mem[srid].lo)
            # indices in terms of the state at the loop head
            gd = head_expr(d, b, H0, amap, cmark, itid, rid)
            gs = head_expr(s, b, H0, amap, cmark, itid, srid)
            if gd is None or gs is None:
                pats.add(None)
                continue
            pats.add((str(d), H0.mem[srid].name, str(s)))
            ex = (gd, H0.mem[srid].name, gs)
        if len(pats) == 1 and None not in pats and ex:
            tab[nm] = ex
            new = True
        elif pats:
            tab[nm] = None
    return new


def head_expr(d, b, H0, amap, cmark, itid, rid):
    if isinstance(d, int):
        return lambda entry, amap2, H: d
    return generic_cmp(d, amap, cmark, H0, itid)


def copies(eng, entry, H, inst, amap, hint, subst):
    """sets the contents of filled sequences in H; returns the candidate invariants saying so"""
    out = []
    for nm, ex in sorted(hint.get('copies', {}).items(), key=str):
        if ex is None:
            continue
        gd, snm, gs = ex
        rids = [i[1] for i in inst.items if i[0] == 'n' and entry.mem[i[1]].name == nm]
        srids = [r for r in entry.mem if entry.mem[r].name == snm]
        if len(rids) != 1 or len(srids) != 1:
            continue
        rid, srid = rids[0], srids[0]
        if srid != rid and any(i[0] in 'nl' and i[1] == srid for i in inst.items):
            continue
        dH, sH = gd(entry, amap, H), gs(entry, amap, H)
        if dH is None or sH is None:
            continue
        try:
            d0, s0 = subst(dH, entry, 0), subst(sH, entry, 0)
        except KeyError:
            continue
        if d0 is None or s0 is None:
            continue
        src = entry.mem[srid].node
        slo = entry.mem[srid].lo
        elo = entry.mem[rid].lo
        enode = entry.mem[rid].node
        moved = any(i[0] == 'l' and i[1] == rid for i in inst.items)
        for full in ((True, False) if not moved else (False,)):
            name = '@contents of %s%s' % (nm, '' if full else ' (filled part)')
            if name in hint['dropped']:
                continue

            def want(st, d, full=full, rest=None):
                lo = st.mem[rid].lo
                return SCopy(rest if rest is not None else enode, add(lo, d0), sub(d, d0), src, add(slo, s0))

            rest = enode if full else bytefn(fresh_name('hrest'))
            H.wreg(rid).node = want(H, dH, rest=rest)

            def f(s, iv, full=full, want=want):
                if s is entry or s.mem[rid].node is H.mem[rid].node:
                    return True
                d = subst(dH, s, iv)
                if d is None:
                    return None
                J = fresh('J')
                r = s.mem[rid]
                t = s.fork()
                if full:
                    rng = And(le(r.lo, J), lt(J, r.end()))
                else:
                    rng = And(le(add(r.lo, d0), J), lt(J, add(r.lo, d)))
                t.assume(rng)
                v, w = r.node.read(t, J), want(s, d).read(t, J)
                if isinstance(v, (int, Lin)) and isinstance(w, (int, Lin)):
                    q = eq(v, w)
                    return True if t.proves(q) else None
                return None
            out.append(Cand(name, f))

            def order(s, iv):
                d = subst(dH, s, iv)
                return le(d0, d) if d is not None else None
            out.append(Cand('filled part of %s ordered' % nm, order))

            def lock(s, iv):
                d, x = subst(dH, s, iv), subst(sH, s, iv)
                return eq(sub(d, d0), sub(x, s0)) if d is not None and x is not None else None
            out.append(Cand('%s filled in step with %s' % (nm, snm), lock))
            break
    return out


def aligned(st, v):
    r = st.mem.get(v.r)
    return r.unit or r.stride if r is not None and r.kind == 'words' else 1


def quot(v, k):
    """v / k if v is syntactically a multiple"""
    if k == 1 or v is None:
        return v
    if isinstance(v, int):
        return v // k if v % k == 0 else None
    if v.c % k == 0 and all(c % k == 0 for c in v.t.values()):
        return Lin({i: c // k for i, c in v.t.items()}, v.c // k)
    return None


def havoc(eng, entry, H, inst, item, amap, hint, plug):
    kind, rid = item[0], item[1]
    r = H.wreg(rid)
    if kind == 'c':
        off, size = item[2], item[3]
        c = r.cells.get(off)
        if c is None or c[0] != size:
            for o in list(r.cells):
                if o < off + size and off < o + r.cells[o][0]:
                    if off <= o and o + r.cells[o][0] <= off + size:
                        del r.cells[o]
                    else:
                        raise Unsupported('havoc of overlapping cell')
            return
        v = c[1]
        if v is UNDEF:
            return
        if isinstance(v, Ptr):
            a = fresh('h')
            sk = skey(entry, item)
            if sk in hint['rv']:
                if v.r == 0:
                    raise Peel()
                old = H.mem.get(v.r)
                nr = H.new_region(old.name, old.kind, fresh('hsize', 0, 1 << 62), old.store)
                nr.stride = old.stride
                if old.kind == 'bytes':
                    nr.node = bytefn(fresh_name('hcontent'))
                elif old.kind == 'words':
                    raise Unsupported('havoc words region')
                if v.r in H.mem and H.mem[v.r].store == 'heap':
                    H.wreg(v.r).alive = False
                r.cells[off] = (size, Ptr(nr.rid, a))
                inst.data.setdefault('rv', {})[(rid, off)] = nr.rid
            else:
                k = aligned(H, v)
                if quot(v.o, k) is None:
                    k = H.mem[v.r].stride
                r.cells[off] = (size, Ptr(v.r, scale(a, k)))
                if k > 1:
                    inst.div[next(iter(a.t))] = k
            amap[next(iter(a.t))] = item
        elif isinstance(v, (int, Lin)):
            a = fresh('h')
            r.cells[off] = (size, a)
            amap[next(iter(a.t))] = item
        elif isinstance(v, StrVal):
            n = fresh('hlen', 0, 1 << 61)
            r.cells[off] = (size, StrVal(n, bytefn(fresh_name('hstr'))))
        elif isinstance(v, Opaque):
            if v.k.startswith('f:'):
                srt = v.v.sort()
                r.cells[off] = (size, Opaque(v.k, z3.FP(fresh_name('hf'), srt)))
            else:
                r.cells[off] = (size, Opaque(v.k, fresh_name('opaque')))
        else:
            raise Unsupported('havoc of %r' % (v,))
    elif kind == 'n':
        if r.kind == 'bytes':
            node = plug.havoc_node(eng, entry, H, inst, rid) if plug else None
            r.node = node if node is not None else bytefn(fresh_name('hbytes'))
        else:
            node = plug.havoc_node(eng, entry, H, inst, rid) if plug else None
            if node is None:
                raise Unsupported('havoc of word sequence %s' % r.name)
            r.node = node
    elif kind == 's':
        a = fresh('hsize', 0, 1 << 59)
        k = r.stride if r.kind == 'words' else 1
        r.size = scale(a, k)
        if k > 1:
            inst.div[next(iter(a.t))] = k
        amap[next(iter(a.t))] = item
    elif kind == 'l':
        a = fresh('hlo', 0, 1 << 62)
        r.lo = a
        amap[next(iter(a.t))] = item
    elif kind == 'alive':
        raise Unsupported('loop releases %s' % r.name)


def diff(eng, H, b, inst, hint):
    out = set()
    cov = inst.F
    rvr = set(inst.data.get('rv', {}).values())
    for rid, r in H.mem.items():
        r2 = b.mem.get(rid)
        if r2 is None:
            raise Unsupported('region vanished in loop')
        if r2 is r:
            continue
        if rid in rvr:
            continue
        nm = r.name
        if r.alive != r2.alive:
            # acceptable if the pointer to it moved to a new region (tracked as region variable)
            if not r2.alive and points_to(H, b, rid, out, inst):
                continue
            raise Unsupported('loop releases %s' % nm)
        if r.kind != 'cells':
            if r2.node is not r.node and ('n', nm) not in cov:
                out.add(('n', nm))
            if not same(r.size, r2.size) and ('s', nm) not in cov:
                out.add(('s', nm))
            if not same(r.lo, r2.lo) and ('l', nm) not in cov:
                out.add(('l', nm))
            continue
        for off in set(r.cells) | set(r2.cells):
            c, d = r.cells.get(off), r2.cells.get(off)
            if c is d:
                continue
            if c is not None and d is not None and c[0] == d[0] and same(c[1], d[1]):
                continue
            size = max(c[0] if c else 0, d[0] if d else 0)
            if any(x[0] == 'c' and x[1] == nm and x[2] <= off and off + size <= x[2] + x[3] for x in cov):
                continue
            out.add(('c', nm, off, size))
    return out


def points_to(H, b, rid, out, inst):
    """cells pointing at rid in H which point elsewhere in b: the loop replaced the object"""
    found = False
    for r1, r in H.mem.items():
        if r.cells is None:
            continue
        for off, (s, v) in r.cells.items():
            if isinstance(v, Ptr) and v.r == rid:
                v2 = cellval(b, r1, off, s)
                if isinstance(v2, Ptr) and v2.r != rid:
                    out.add(('c', r.name, off, s))
                    found = True
    return found


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    return a == b


def term(eng, H, backs, inst, lname, plug, subst, it, amap, hint):
    """some measure decreases on every back edge"""
    if not backs:
        return
    ms = []
    if plug:
        ms.append(('specification position', lambda b: plug.progress(eng, H, b, inst)))
    for d in inst.cmps.values():
        for s in (1, -1):
            m = scale(d, s)

            def f(b, m=m):
                if not set(m.t) & set(amap):
                    return False
                try:
                    x = subst(m, b, add(it, 1))
                except KeyError:
                    return False
                if x is None:
                    return False
                return And(ge(m, 0), lt(x, m))
            ms.append(('measure %s' % m, f))

            def f2(b, m=m):
                if not set(m.t) & set(amap):
                    return False
                x = subst(m, b, add(it, 1))
                if x is None:
                    return False
                return And(ge(m, -1), lt(x, m))
            ms.append(('measure %s + 1' % m, f2))
    for aid, item in amap.items():
        a = Lin({aid: 1}, 0)
        if item[0] == 'c':
            def up(b, item=item, a=a):
                v = cellval(b, *item[1:])
                if not isinstance(v, Ptr) or v.r not in b.mem:
                    return False
                h = cellval(H, *item[1:])
                if h.r != v.r:
                    return False
                return And(lt(h.o, v.o), le(v.o, b.mem[v.r].end()))

            def down(b, item=item, a=a):
                v = cellval(b, *item[1:])
                if isinstance(v, Ptr):
                    h = cellval(H, *item[1:])
                    if h.r != v.r:
                        return False
                    return And(lt(v.o, h.o), ge(v.o, -1))
                if isinstance(v, (int, Lin)):
                    return And(lt(v, a), ge(v, -1))
                return False
            ms.append(('pointer %s grows' % item_name(H, item), up))
            ms.append(('%s decreases' % item_name(H, item), down))
    for nm, f in ms:
        ok = True
        for b in backs:
            g = f(b)
            if g is False or not b.proves(g):
                ok = False
                break
        if ok:
            for b in backs:
                eng.obls.append(Obl('%s terminates' % lname, True, nm))
            return
    eng.obls.append(Obl('%s terminates' % lname, False, 'no decreasing measure',
                        eng.context(backs[0], True)))

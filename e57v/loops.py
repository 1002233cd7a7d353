"""Loop rule: cut at the header, forget what the body writes, keep the inductive candidate invariants."""
import z3
from . import traces
from .ir import Unsupported, I
from .sym import (State, Ptr, PtrInt, Layer, Base, Region, LoopInst, UNDEF, NULL, isc, bv, zb, simp, ULE, ULT, Limit, Func, ite)


def unrollable(eng, fn, hdr, st, regs, prev):
    """True when the loop's header decides its exit from constants alone (then the loop is just executed)."""
    key = '$peel' + hdr
    n = regs.get(key, 0)
    if prev is None or prev not in fn.loops[hdr]:
        n = 0
    if n > eng.peel_limit:
        return False
    t = fn.blocks[hdr][-1]
    if t.op == 'br' and t.a is None or t.op not in ('br', 'switch'):
        return False
    s = st.fork()
    s.log = set()
    r = dict(regs)
    eng.quiet += 1
    try:
        i = eng.phis(fn, hdr, prev, r)
        work, out = [], []
        eng.last_branch_concrete = False
        if any(x.op in ('call', 'invoke') for x in fn.blocks[hdr][:-1]):
            saved = None
        eng.exec_from(s, r, fn, hdr, i, work, out)
        ok = len(work) == 1 and not out and eng.last_branch_concrete
    except (Unsupported, Limit):
        ok = False
    finally:
        eng.quiet -= 1
    if ok:
        regs[key] = n + 1
    return ok


def short(eng, fn, hdr, st, regs, prev):
    """True when no run from here goes round the loop more than eng.short_loops times (then every run is simply executed)"""
    key = '$short' + hdr
    if prev is not None and prev in fn.loops[hdr]:
        return bool(regs.get(key))
    regs[key] = False
    s = st.fork()
    s.log = set()
    r = dict(regs)
    eng.phis(fn, hdr, prev, r)
    cur = [(s, r)]
    eng.quiet += 1
    try:
        for _ in range(eng.short_loops + 1):
            nxt = []
            for s, r in cur:
                cut = {'header': hdr, 'body': fn.loops[hdr], 'back': [], 'exits': []}
                eng.exec_blocks([(s.fork(), dict(r), hdr, None)], fn, [], cut)
                for bs, br, bp in cut['back']:
                    if eng.feasible(bs):
                        br = dict(br)
                        eng.phis(fn, hdr, bp, br)
                        nxt.append((bs, br))
            if not nxt:
                regs[key] = True
                return True
            if len(nxt) > 4:
                return False
            cur = nxt
    except (Unsupported, Limit):
        return False
    finally:
        eng.quiet -= 1
    return False


class View:
    """values of the loop-carried locations in one state"""
    def __init__(self, L, st, regs, eng):
        self.L, self.st, self.regs, self.eng = L, st, regs, eng

    def phi(self, r):
        return self.regs[r]

    def cell(self, reg, off, n):
        v = self.eng.load(self.st, Ptr(reg, off), I(8 * n)) if not isinstance(self._raw(reg, off), Ptr) else self._raw(reg, off)
        return v

    def _raw(self, reg, off):
        s = self.eng.mem_state(self.st, reg)
        if isinstance(s, Layer):
            return None
        c = s.get(off) or reg.cells.get(off)
        return c[1] if c else None

    def layer(self, reg):
        return self.eng.to_bytes(self.st, reg)

    def ghost(self, name):
        return self.st.ghost[name]

    def num(self, key):
        """numeric value of a tracked variable key, as a BV (pointer -> offset)"""
        k = key[0]
        if k == 'phi':
            v = self.regs[key[1]]
        elif k == 'cell':
            v = self._raw(key[1], key[2])
            if not isinstance(v, Ptr):
                v = self.eng.load(self.st, Ptr(key[1], key[2]), I(8 * key[3]))
        elif k == 'ghost':
            v = self.st.ghost[key[1]]
        if isinstance(v, PtrInt):
            v = v.p
        if isinstance(v, Ptr):
            v = v.off
        if v is UNDEF or v is None:
            return None
        return bv(v, key[-1])


class EntryView(View):
    """entry values, each compound one under a name of its own (defined in the path condition), which keeps the queries small"""
    def __init__(self, L, st, regs, eng):
        View.__init__(self, L, st, regs, eng)
        self.names = {}
        for k in L.keys:
            x = View.num(self, k)
            if x is None or k[-1] != 64:
                continue
            x = simp(x)
            if isc(x) or (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                continue
            self.names[k] = (eng.fresh('entry', 64), x)

    def num(self, key):
        return self.names[key][0] if key in self.names else View.num(self, key)


class Loop:
    pass


def havoc_ptr(eng, v, name):
    if isinstance(v, Ptr) and v.reg is not None:
        return Ptr(v.reg, eng.fresh(name, 64))
    return UNDEF


def havoc(eng, L, st, regs):
    """forget phis and modified locations; returns (state, regs)"""
    s = st.fork()
    r = dict(regs)
    for res, ty, ev in L.phis:
        if ty[0] == 'ptr':
            r[res] = UNDEF if res in L.badptr else havoc_ptr(eng, ev, 'lp' + res)
        elif ty[0] == 'i':
            r[res] = eng.fresh('l' + res, ty[1])
        elif ty[0] == 'fp':
            r[res] = eng.fresh('l' + res, ty[1])
        else:
            raise Unsupported('phi type')
    for m in L.mods:
        if m[0] == 'ghost':
            s.ghost[m[1]] = havoc_ghost(eng, st.ghost.get(m[1]), m[1])
        else:
            _, reg, off, n = m
            ms = eng.mem_state(s, reg)
            if off == 'bytes' or isinstance(ms, Layer):
                eng.to_bytes(s, reg)
                s.mem[reg] = Base('loop(%s)' % reg.name)
            else:
                c = ms.get(off) or reg.cells.get(off)
                old = c[1] if c else None
                if isinstance(old, Ptr) or old is UNDEF:
                    v = UNDEF if (reg, off) in L.badptr else havoc_ptr(eng, old, 'lm')
                elif isinstance(old, (bool, z3.BoolRef)):
                    v = eng.fresh('l(%s.%d)' % (reg.name, off), 1)
                else:
                    v = eng.fresh('l(%s.%d)' % (reg.name, off), 8 * n)
                d = dict(ms)
                for o in [o for o, (k, _) in d.items() if o < off + n and off < o + k]:
                    if o != off or d[o][0] != n:
                        raise Unsupported('overlapping cells written in loop')
                d[off] = (n, v)
                s.mem[reg] = d
    if getattr(L, 'layers', None):
        view = View(L, s, r, eng)
        snap = View(L, s.fork(), dict(r), eng)
        for t, mk in L.layers.items():
            base = tlayer(eng, s, t)
            d, val = mk(snap)
            lay = Func(lambda j, d=d, val=val, base=base: ite(simp(zb(d(j))), val(j), base.read(j), 8))
            if t[0] == 'ghost':
                s.ghost[t[1]] = lay
            else:
                s.mem[t[1]] = lay
    return s, r


def havoc_ghost(eng, v, name):
    if isinstance(v, Layer):
        return Base('loop(%s)' % name)
    if isinstance(v, (bool, z3.BoolRef)):
        return eng.fresh('g' + name, 1)
    if isinstance(v, z3.BitVecRef):
        return eng.fresh('g' + name, v.size())
    if isinstance(v, int):
        return eng.fresh('g' + name, eng.ghost_width.get(name, 64))
    if hasattr(v, 'havoc'):
        return v.havoc(eng)
    if v is None:
        return None
    raise Unsupported('ghost %s in loop' % name)


def explore(eng, L, st, regs):
    """run the body once from the havocked header, quietly"""
    hs, hr = havoc(eng, L, st, regs)
    for f in getattr(L, 'assumed', ()):
        hs.assume(zb(f(View(L, hs, hr, eng))))
    if getattr(L, 'assumed', ()):
        for f in axioms(eng, L, View(L, hs, hr, eng)):
            hs.assume(f)
    log = set()
    hs.log = log
    cut = {'header': L.hdr, 'body': L.body, 'back': [], 'exits': []}
    out = []
    eng.quiet += 1
    try:
        eng.exec_blocks([(hs.fork(), dict(hr), L.hdr, None)], L.fn, out, cut)
    finally:
        eng.quiet -= 1
    return hs, hr, cut, log


def same(m, hs, cut):
    """is the location left as it was on every path back to the header (changed, if at all, only on the way out)?"""
    for bs, br, bp in cut['back']:
        if m[0] == 'ghost':
            if bs.ghost.get(m[1]) is not hs.ghost.get(m[1]):
                return False
        else:
            a, b = bs.mem.get(m[1]), hs.mem.get(m[1])
            if a is b:
                continue
            if not isinstance(a, dict) or not isinstance(b, dict) or m[2] == 'bytes' or a.get(m[2]) is not b.get(m[2]) or m[2] not in a:
                return False
    return True


def enter(eng, fn, hdr, st, regs, prev):
    L = Loop()
    L.fn, L.hdr, L.body = fn, hdr, fn.loops[hdr]
    L.entry_st = st.fork()
    L.entry_st.log = None
    er = dict(regs)
    eng.phis(fn, hdr, prev, er)
    L.entry_regs = er
    L.phis = [(p.res, p.ty, er[p.res]) for p in fn.blocks[hdr] if p.op == 'phi']
    L.mods = []
    L.badptr = set()
    L.imprecise = False
    watermark = Region.count
    pend = {}
    for _ in range(8):
        hs, hr, cut, log = explore(eng, L, L.entry_st, er)
        new = False
        for m in log:
            if m[0] == 'mem':
                reg = m[1]
                if reg.id > watermark and (reg.stack or reg.meta.get('heap')):
                    continue
                if m[2] != 'bytes' and ('mem', reg, 'bytes', 0) in pend:
                    continue
                if m[2] == 'bytes':
                    m = ('mem', reg, 'bytes', 0)
            if m not in pend and not same(m, hs, cut):
                pend[m] = True
                new = True
        # pointers that change object
        for bs, br, bp in cut['back']:
            nr = dict(br)
            eng.phis(fn, hdr, bp, nr)
            for res, ty, ev in L.phis:
                if ty[0] == 'ptr' and res not in L.badptr:
                    v = nr[res]
                    if v is UNDEF or not isinstance(v, Ptr) or not isinstance(ev, Ptr) or v.reg is not ev.reg:
                        L.badptr.add(res)
                        new = True
            for m in pend:
                if m[0] == 'mem' and m[2] != 'bytes' and (m[1], m[2]) not in L.badptr:
                    a = View(L, L.entry_st, er, eng)._raw(m[1], m[2])
                    b = View(L, bs, br, eng)._raw(m[1], m[2])
                    if isinstance(a, Ptr) or isinstance(b, Ptr):
                        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg):
                            L.badptr.add((m[1], m[2]))
                            new = True
        L.mods = [m for m in pend if not (m[0] == 'mem' and m[2] != 'bytes' and ('mem', m[1], 'bytes', 0) in pend)]
        if not new:
            break
    else:
        raise Unsupported('loop modification set does not stabilise')
    if st.log is not None:
        st.log.update(log)
    L.keys = keys(eng, L)
    L.rows = traces.collect(eng, L, L.entry_st, er) if eng.samples else []
    ev = EntryView(L, L.entry_st, er, eng)
    if ev.names:
        for nm, x in ev.names.values():
            L.entry_st.assume(nm == x)
        L.rows = [(v, list(subs) + [(nm, bv(simp(z3.substitute(x, *subs)) if subs else x, 64)) for nm, x in ev.names.values()], e0) for v, subs, e0 in L.rows]
        hs, hr, cut, log = explore(eng, L, L.entry_st, er)
    # functional candidates for the contents of byte regions
    pending = {}
    J = eng.fresh('J', 64)
    if eng.layer_templates:
        for t in targets(L):
            cl = []
            for lt in eng.layer_templates:
                for lab, mk in lt(eng, L, ev, t):
                    if L.rows and not layer_holds(eng, L, t, mk):
                        continue
                    d, val = mk(ev)
                    r, _, _ = eng.entails(L.entry_st.pc, z3.Implies(zb(d(J)), bv(tlayer(eng, L.entry_st, t).read(J), 8) == bv(val(J), 8)), (2000,))
                    if r == 'proved':
                        cl.append((lab, mk))
            if cl:
                pending[t] = cl
    while True:
        L.layers = {t: cl[0][1] for t, cl in pending.items() if cl}
        if L.layers or not eng.layer_templates:
            if L.layers:
                hs, hr, cut, log = explore(eng, L, L.entry_st, er)
        kept, hv, backs = houdini(eng, L, ev, hs, hr, cut)
        bad = None
        hyp = [zb(f(hv)) for _, f, _ in kept]
        for t in list(L.layers):
            for bs, bvw in backs:
                d, val = L.layers[t](bvw)
                g = z3.Implies(zb(d(J)), bv(tlayer(eng, bs, t).read(J), 8) == bv(val(J), 8))
                r, m, be = eng.entails(bs.pc + hyp, g, (3000, 15000))
                if r != 'proved':
                    if eng.debug:
                        print('layer', pending[t][0][0], r, eng.model_values(m) if m is not None else None, flush=True)
                    if r != 'refuted':
                        L.imprecise = True
                    bad = t
                    break
            if bad is not None:
                break
        if bad is None:
            break
        pending[bad] = pending[bad][1:]
        if not any(pending.values()):
            L.layers = {}
            hs, hr, cut, log = explore(eng, L, L.entry_st, er)
            kept, hv, backs = houdini(eng, L, ev, hs, hr, cut)
            break
    for t in L.layers:
        kept.append(('content of %s: %s' % (tname(t), pending[t][0][0]), lambda v: True, 'z3'))
    st2, regs2 = hs.fork(), dict(hr)
    st2.log = st.log
    for lab, f, _ in kept:
        st2.assume(f(hv))
    for f in axioms(eng, L, hv):
        st2.assume(f)
    if L.imprecise:
        st2.imprecise = True
    inst = LoopInst()
    inst.L, inst.kept = L, kept
    inst.hv = View(L, st2.fork(), dict(regs2), eng)
    inst.ev = ev
    regs2['$loop' + hdr] = inst
    name = eng.mod.dem.get(fn.name, fn.name).split('(')[0]
    if not eng.quiet:
        for lab, f, be in kept:
            eng.obls.append({'name': 'loop invariant [%s] in %s: initiation and preservation' % (lab, name),
                             'result': 'proved', 'backend': be or 'z3', 'time': 0, 'model': None, 'info': 'inv',
                             'trace': []})
        eng.loops_seen[(fn.name, hdr)] = [lab for lab, _, _ in kept]
    return st2, regs2


def layer_holds(eng, L, t, mk):
    for v, subs, ev in L.rows:
        d, val = mk(v)
        lay = tlayer(eng, v.st, t)
        for j in eng.layer_probe(v, subs):
            g = z3.Implies(zb(d(j)), bv(lay.read(j), 8) == bv(val(j), 8))
            g = simp(z3.substitute(g, *subs)) if subs else simp(g)
            if g is False or (g is not True and distinct_reads(g)):
                return False
    return True


def distinct_reads(g):
    """f(a) == f(b) with different constants: not an identity"""
    if z3.is_eq(g):
        a, b = g.children()
        return not a.eq(b)
    return False


def targets(L):
    out = []
    for m in L.mods:
        if m[0] == 'ghost' and isinstance(L.entry_st.ghost.get(m[1]), Layer):
            out.append(('ghost', m[1]))
        elif m[0] == 'mem' and m[2] == 'bytes':
            out.append(('mem', m[1]))
    return out


def tname(t):
    return t[1].name if t[0] == 'mem' else t[1]


def tlayer(eng, st, t):
    if t[0] == 'ghost':
        return st.ghost[t[1]]
    return eng.to_bytes(st, t[1])


def initial(eng, L, ev):
    """candidates that hold on entry"""
    cands = []
    for t in eng.templates + [generic]:
        cands += [(lab, f) for lab, f in t(eng, L, ev)]
    if L.rows:
        cands = [(lab, f) for lab, f in cands if traces.holds(f, L.rows)]
    # initiation
    kept = []
    goals = []
    for lab, f in cands:
        try:
            g = f(ev)
        except (KeyError, Unsupported, z3.Z3Exception):
            continue
        if g is None:
            continue
        g = simp(zb(g))
        if g is False:
            continue
        if g is True:
            kept.append((lab, f, 'simplify'))
        else:
            goals.append((lab, f, g))
    dead = set()
    ses = eng.session(L.entry_st.pc) if goals else None
    for i, (lab, f, g) in enumerate(goals):
        if i in dead:
            continue
        r, m, be = ses.entails(g, eng.houdini_ms)
        if r == 'unknown' and lab.startswith('!'):
            r, m, be = eng.entails(L.entry_st.pc, g, (5000,))
        if eng.debug and lab.startswith('!') and r != 'proved':
            print('init', r, lab, eng.model_values(m) if m is not None else None, flush=True)
        if r == 'proved':
            kept.append((lab, f, be))
        elif r == 'refuted' and m is not None:
            dead.update(k for k, x in enumerate(goals) if k > i and z3.is_false(m.eval(x[2], model_completion=True)))
    return kept


def houdini(eng, L, ev, hs, hr, cut):
    """the largest inductive subset of the candidates; where the body has loops of its own, their summaries may rely on the (prioritised) candidates assumed when it was explored, so it is
    explored again until the ones assumed are among the ones kept"""
    start = initial(eng, L, ev)
    inner = any(h != L.hdr and h in L.body for h in L.fn.loops)
    if not inner:
        return select(eng, L, start, ev, hs, hr, cut)
    H = [(lab, f) for lab, f, _ in start if lab.startswith('!')]
    while True:
        L.assumed = [f for _, f in H]
        hs2, hr2, cut2, _ = explore(eng, L, L.entry_st, L.entry_regs)
        kept, hv, backs = select(eng, L, start, ev, hs2, hr2, cut2)
        labels = {lab for lab, _, _ in kept}
        rest = [x for x in H if x[0] in labels]
        if len(rest) == len(H):
            break
        H = rest
    for a in State.__slots__:
        setattr(hs, a, getattr(hs2, a))
    L.assumed = []
    hr.clear()
    hr.update(hr2)
    return kept, hv, backs


def select(eng, L, kept, ev, hs, hr, cut):
    fn, hdr = L.fn, L.hdr
    hv = View(L, hs, hr, eng)
    # consecution
    backs = []
    for bs, br, bp in cut['back']:
        nr = dict(br)
        eng.phis(fn, hdr, bp, nr)
        backs.append((bs, View(L, bs, nr, eng)))
    while True:
        hyp = [zb(f(hv)) for _, f, _ in kept] + axioms(eng, L, hv)
        if isinstance(ev, EntryView) and ev.names:
            hyp += [g for g in (f(ev) for _, f, _ in kept) if g is not None and simp(zb(g)) is not True]
        drop = set()
        for bs, bvw in backs:
            goals = []
            for i, (lab, f, be) in enumerate(kept):
                if i in drop:
                    continue
                g = f(bvw)
                if g is None:
                    drop.add(i)
                else:
                    goals.append((i, zb(g)))
            ses = eng.session(bs.pc + hyp)
            lite = [h for h in bs.pc + hyp if linear(h)] if any(kept[i][0].startswith('!') for i, _ in goals) else None
            for i, g in goals:
                if i in drop:
                    continue
                r = None
                if kept[i][0].startswith('!'):
                    gd = guard(eng, L, hv)
                    vs = set(traces.consts([g, zb(kept[i][1](hv))] + ([zb(gd)] if gd is not None else [])))
                    hl = [h for h in lite if set(traces.consts([zb(h)])) <= vs]
                    r, m, be = eng.entails(hl, g, (2000,))
                if r != 'proved':
                    r, m, be = ses.entails(g, eng.houdini_ms)
                if r == 'unknown' and kept[i][0].startswith('!'):
                    r, m, be = eng.entails(bs.pc + hyp, g, (7000,))
                if r != 'proved' and m is not None:
                    drop.update(k for k, h in goals if not kept[k][0].startswith('!') and z3.is_false(m.eval(h, model_completion=True)))
                if r != 'proved':
                    drop.add(i)
                    if r != 'refuted' and kept[i][0].startswith('!'):
                        L.imprecise = True
                    if eng.debug and kept[i][0].startswith('!'):
                        print('!', r, kept[i][0], g, eng.model_values(m) if m is not None else None)
        if eng.debug:
            print('houdini', len(kept), 'drop', [kept[i][0] for i in drop], flush=True)
        if not drop:
            if eng.debug:
                print('\n'.join('   kept ' + k[0] for k in kept))
            break
        kept = [k for i, k in enumerate(kept) if i not in drop]
    return kept, hv, backs


def axioms(eng, L, v):
    """instances, at the loop head, of the defining equations of the specification's recursive functions"""
    return [zb(f) for a in eng.axioms for f in a(eng, L, v)]


def linear(h, limit=120):
    """small and free of division, remainder, reads of uninterpreted contents"""
    seen, todo = set(), [zb(h)]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if len(seen) > limit or not z3.is_app(e):
            return False
        k = e.decl().kind()
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT) or \
                (k == z3.Z3_OP_UNINTERPRETED and e.num_args()):
            return False
        todo.extend(e.children())
    return True


def back_edge(eng, fn, inst, st, regs, prev):
    r = dict(regs)
    eng.phis(fn, inst.L.hdr, prev, r)
    v = View(inst.L, st, r, eng)
    for h in eng.loop_hooks:
        h(eng, inst, v)


def keys(eng, L):
    ks = []
    for res, ty, ev in L.phis:
        if ty[0] == 'i':
            ks.append(('phi', res, ty[1]))
        elif ty[0] == 'ptr' and res not in L.badptr and isinstance(ev, Ptr) and ev.reg is not None:
            ks.append(('phi', res, 64))
    for m in L.mods:
        if m[0] == 'ghost':
            v = L.entry_st.ghost.get(m[1])
            if isinstance(v, z3.BitVecRef):
                ks.append(('ghost', m[1], v.size()))
            elif isinstance(v, int) and not isinstance(v, bool):
                ks.append(('ghost', m[1], eng.ghost_width.get(m[1], 64)))
        elif m[2] != 'bytes' and (m[1], m[2]) not in L.badptr:
            ks.append(('cell', m[1], m[2], m[3], 8 * m[3] if not isptrcell(L, m, eng) else 64))
    return [k for k in ks if k[-1] > 1 and not (k[0] == 'ghost' and k[1] in eng.nokeys)]


def isptrcell(L, m, eng):
    v = View(L, L.entry_st, L.entry_regs, eng)._raw(m[1], m[2])
    return isinstance(v, Ptr)


def kname(k):
    if k[0] == 'phi':
        return 'local ' + k[1]
    if k[0] == 'ghost':
        return 'ghost ' + k[1]
    return '%s+%d' % (k[1].name, k[2])


def bounds_of(eng, L):
    """loop-invariant operands of comparisons in the loop: candidate bounds, by width"""
    defs = set()
    for b in L.body:
        for x in L.fn.blocks[b]:
            if x.res:
                defs.add(x.res)
    out = {}
    for b in L.body:
        for x in L.fn.blocks[b]:
            if x.op == 'icmp' and x.ty[0] in ('i', 'ptr'):
                for a in x.a:
                    v = None
                    if a[0] == 'reg' and a[1] not in defs and a[1] in L.entry_regs:
                        v = L.entry_regs[a[1]]
                    elif a[0] == 'c':
                        v = a[1]
                    w = 64 if x.ty[0] == 'ptr' else x.ty[1]
                    if isinstance(v, Ptr):
                        v = v.off
                    if v is None or v is UNDEF or isinstance(v, (bool, z3.BoolRef)) or w == 1:
                        continue
                    if isinstance(v, PtrInt):
                        v = v.p.off
                    lst = out.setdefault(w, [])
                    if not any((isc(v) and isc(o) and v == o) or (not isc(v) and not isc(o) and v.eq(o)) for o in lst):
                        lst.append(v)
    return out


def guard(eng, L, view):
    """condition under which the header enters the body, in the given state (None: not a simple header)"""
    fn, hdr = L.fn, L.hdr
    t = fn.blocks[hdr][-1]
    if t.op != 'br' or t.a is None:
        return None
    ins = [b in L.body for b in t.x]
    if ins[0] == ins[1]:
        return None
    s = view.st.fork()
    s.log = None
    s.pc = []
    r = dict(view.regs)
    eng.quiet += 1
    try:
        i = next(i for i, x in enumerate(fn.blocks[hdr]) if x.op != 'phi')
        work, out = [], []
        eng.nofeas += 1
        try:
            eng.exec_from(s, r, fn, hdr, i, work, out)
        finally:
            eng.nofeas -= 1
    except (Unsupported, Limit, StopIteration):
        return None
    finally:
        eng.quiet -= 1
    if out:
        return None
    body = [w for w in work if w[2] in L.body]
    if not body:
        return False
    if len(work) == 1:
        return True
    if len(body) > 1:
        return z3.Or(*[z3.And(*w[0].pc) for w in body])
    return z3.And(*body[0][0].pc) if body[0][0].pc else True


def generic(eng, L, ev):
    c = []
    for m in L.mods:
        if m[0] == 'ghost' and isinstance(L.entry_st.ghost.get(m[1]), (bool, z3.BoolRef)):
            e = zb(L.entry_st.ghost[m[1]])
            c.append(('ghost %s unchanged' % m[1], lambda v, m=m, e=e: zb(v.ghost(m[1])) == e))
    ks = L.keys
    bnds = bounds_of(eng, L)
    sg = any(x.op == 'icmp' and x.x in ('sgt', 'sge', 'slt', 'sle') for b in L.body for x in L.fn.blocks[b])
    for k in ks:
        w = k[-1]
        e = ev.num(k)
        if e is None:
            continue
        nm = kname(k)
        c.append(('%s unchanged' % nm, lambda v, k=k, e=e: eqn(v.num(k), e)))
        if sg:
            c.append(('%s >=s initial' % nm, lambda v, k=k, e=e: v.num(k) >= e))
            c.append(('%s >=s 0' % nm, lambda v, k=k: v.num(k) >= 0))
        c.append(('%s >=u initial' % nm, lambda v, k=k, e=e: z3.UGE(v.num(k), e)))
        c.append(('%s <=u initial' % nm, lambda v, k=k, e=e: z3.ULE(v.num(k), e)))
        for b in bnds.get(w, []):
            bb = bv(b, w)
            c.append(('%s <=u bound %s' % (nm, str(b)[:20]), lambda v, k=k, bb=bb: z3.ULE(v.num(k), bb)))
            if sg:
                c.append(('%s <=s bound %s' % (nm, str(b)[:20]), lambda v, k=k, bb=bb: v.num(k) <= bb))
    if L.rows:
        wide = [k for k in ks if k[-1] >= 32]
        rel = [(r, False) for r in traces.sparse(L, L.rows, wide)]
        inb = []
        for row in L.rows:
            g = guard(eng, L, row[0])
            if g is not None and simp(z3.substitute(zb(g), *row[1]) if not isinstance(g, bool) and row[1] else g) is True:
                inb.append(row)
        if inb:
            rel += [(r, True) for r in traces.sparse(L, inb, wide) if not any(r == q for q, _ in rel)]
        for (cur, ent, cst), cond in rel:
            def f0(v, cur=cur, ent=ent, cst=cst):
                t = z3.BitVecVal(cst, 64)
                for k, q in cur.items():
                    x = v.num(k)
                    if x is None:
                        return None
                    t = t + (x if k[-1] == 64 else z3.SignExt(64 - k[-1], x)) * q
                for k, q in ent.items():
                    x = ev.num(k)
                    t = t + (x if k[-1] == 64 else z3.SignExt(64 - k[-1], x)) * q
                return t == 0

            def f(v, f0=f0, cond=cond):
                t = f0(v)
                if cond and t is not None:
                    g = guard(eng, L, v)
                    return None if g is None else z3.Implies(zb(g), t)
                return t
            if cond:
                for sg_ in (1, -1):
                    def h(v, cur=cur, ent=ent, cst=cst, sg_=sg_):
                        lo, hi = z3.BitVecVal(0, 64), z3.BitVecVal(0, 64)
                        for view, d in ((v, cur), (ev, ent)):
                            for k, q in d.items():
                                x = view.num(k)
                                if x is None or k[-1] != 64:
                                    return None
                                if q * sg_ > 0:
                                    lo = lo + x * abs(q)
                                else:
                                    hi = hi + x * abs(q)
                        if cst * sg_ > 0:
                            lo = lo + abs(cst)
                        else:
                            hi = hi + abs(cst)
                        return z3.ULE(lo, hi)
                    nice = all(abs(q) in (1, 4, 8, 1020, 1024) for q in list(cur.values()) + list(ent.values()))
                    c.append((('!' if nice else '') + 'affine <= (%d) ' % sg_ + ' '.join('%+d*%s' % (q, kname(k)) for k, q in cur.items()), h))
            nice = all(abs(q) in (1, 4, 8, 1020, 1024) for q in list(cur.values()) + list(ent.values()))
            c.append((('!' if nice else '') + ('while in loop: ' if cond else '') + 'affine ' + ' '.join('%+d*%s' % (q, kname(k)) for k, q in cur.items()), f))
        for a in wide:
            for b in wide:
                if a != b and a[-1] == b[-1]:
                    c.append(('%s <=u %s' % (kname(a), kname(b)), lambda v, a=a, b=b: z3.ULE(v.num(a), v.num(b))))
        return c
    for i in range(len(ks)):
        for j in range(i + 1, len(ks)):
            a, b = ks[i], ks[j]
            ea, eb = ev.num(a), ev.num(b)
            if ea is None or eb is None:
                continue
            w = max(a[-1], b[-1])
            if min(a[-1], b[-1]) < 32:
                continue
            X = lambda t, k, w=w: t if k[-1] == w else z3.ZeroExt(w - k[-1], t)
            c.append(('%s - %s constant' % (kname(a), kname(b)),
                      lambda v, a=a, b=b, ea=ea, eb=eb, X=X: X(v.num(a), a) - X(v.num(b), b) == X(ea, a) - X(eb, b)))
            c.append(('%s + %s constant' % (kname(a), kname(b)),
                      lambda v, a=a, b=b, ea=ea, eb=eb, X=X: X(v.num(a), a) + X(v.num(b), b) == X(ea, a) + X(eb, b)))
    return c


def eqn(a, b):
    return None if a is None else a == b

"""Concrete sample executions of a loop, used only to propose and filter candidate invariants.

Nothing learnt here is trusted: every candidate that survives is proved by the solver.
"""
import time
import z3
from fractions import Fraction
from math import gcd
from .ir import Unsupported
from .sym import Ptr, PtrInt, Layer, Func, State, isc, bv, zb, simp, norm, Limit, UNDEF


def sub1(v, subs):
    if isinstance(v, (bool, int)) or v is None or v is UNDEF:
        return v
    if isinstance(v, (z3.BitVecRef, z3.BoolRef)):
        return simp(z3.substitute(v, *subs))
    if isinstance(v, Ptr):
        o = sub1(v.off, subs)
        return v if o is v.off else Ptr(v.reg, o)
    if isinstance(v, PtrInt):
        return PtrInt(sub1(v.p, subs))
    if isinstance(v, tuple):
        return tuple(sub1(x, subs) for x in v)
    if isinstance(v, Layer):
        return SubLayer(v, subs)
    return v


class SubLayer(Layer):
    __slots__ = ('prev', 'subs')

    def __init__(self, prev, subs):
        self.prev, self.subs = prev, subs

    def read(self, i):
        v = self.prev.read(i)
        return v if isc(v) else simp(z3.substitute(v, *self.subs))


def sub_state(st, subs):
    s = State()
    s.log = None
    for reg, m in st.mem.items():
        if isinstance(m, Layer):
            s.mem[reg] = SubLayer(m, subs)
        else:
            s.mem[reg] = {o: (n, sub1(v, subs)) for o, (n, v) in m.items()}
    s.ghost = {k: sub1(v, subs) for k, v in st.ghost.items()}
    return s


def consts(fs):
    seen, out, st = set(), {}, list(fs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[e.decl().name()] = e
        st.extend(e.children())
    return out


def assignment(eng, st, sample):
    """complete a sample into an assignment satisfying the path condition, or None"""
    subs = list(sample)
    if not st.pc:
        return subs
    g = simp(z3.substitute(z3.And(*st.pc), *subs)) if subs else simp(z3.And(*st.pc))
    if g is False:
        return None
    if g is not True:
        s = z3.SimpleSolver()
        s.set('timeout', 400)
        s.add(g)
        if s.check() != z3.sat:
            return None
        m = s.model()
        for n, c in consts([g]).items():
            v = m.eval(c, model_completion=True)
            subs.append((c, v))
    return subs


def collect(eng, L, st, regs, iters=5, want=None):
    from .loops import View
    rows = []
    got = 0
    want = want or eng.want_samples
    t0 = time.time()
    for sample in eng.samples:
        if got >= want or (got >= 10 and time.time() - t0 > 6):
            break
        subs = assignment(eng, st, sample)
        if subs is None:
            continue
        cs = sub_state(st, subs)
        cr = {k: (sub1(v, subs) if not k.startswith('$') else v) for k, v in regs.items()}
        ev = View(L, cs.fork(), dict(cr), eng)
        got += 1
        eng.quiet += 1
        try:
            for _ in range(iters):
                rows.append((View(L, cs.fork(), dict(cr), eng), subs, ev))
                cut = {'header': L.hdr, 'body': L.body, 'back': [], 'exits': []}
                try:
                    eng.exec_blocks([(cs, dict(cr), L.hdr, None)], L.fn, [], cut)
                except (Unsupported, Limit):
                    break
                nxt = None
                for bs, br, bp in cut['back']:
                    # undecided conditions (checksum values and the like) are taken to hold: samples only guide the search
                    if nxt is None or len(bs.pc) < len(nxt[0].pc):
                        nxt = (bs, br, bp)
                if nxt is None:
                    break
                cs, cr, bp = nxt
                cr = dict(cr)
                eng.phis(L.fn, L.hdr, bp, cr)
                cs = sub_state(cs, subs)
                cs.pc = []
        finally:
            eng.quiet -= 1
    return rows


def holds(f, rows):
    """False if some sample state refutes the candidate"""
    for v, subs, ev in rows:
        try:
            g = f(v)
        except (KeyError, Unsupported):
            return True
        if g is None:
            return False
        g = simp(z3.substitute(zb(g), *subs)) if subs else simp(zb(g))
        if g is False:
            return False
    return True


def signed(x, w=64):
    return x - (1 << w) if x >> (w - 1) else x


def affine(L, rows, keys, consts_=(1,)):
    """integer affine equalities satisfied by all sample states: list of ({key: coeff}, {entrykey: coeff}, const)"""
    mat = []
    for v, subs, ev in rows:
        r = []
        ok = True
        for view in (v, ev):
            for k in keys:
                x = view.num(k)
                x = simp(x) if x is not None else None
                if x is None or not isc(x):
                    ok = False
                    break
                r.append(Fraction(signed(x, k[-1])))
            if not ok:
                break
        if ok:
            mat.append(r + [Fraction(1)])
    n = 2 * len(keys) + 1
    if len(mat) < n:
        # few samples: still usable, relations are proved afterwards, but keep only those likely
        if len(mat) < 6:
            return []
    basis = nullspace(mat, n)
    out = []
    for b in basis:
        den = 1
        for x in b:
            den = den * x.denominator // gcd(den, x.denominator)
        c = [int(x * den) for x in b]
        if all(x == 0 for x in c[:len(keys)]):
            continue
        if max(abs(x) for x in c) > 1 << 20:
            continue
        out.append((dict((k, c[i]) for i, k in enumerate(keys) if c[i]),
                    dict((k, c[len(keys) + i]) for i, k in enumerate(keys) if c[len(keys) + i]), c[-1]))
    return out


def nullspace(mat, n):
    m = [r[:] for r in mat]
    piv = []
    r = 0
    # eliminate starting from the last columns so relations are expressed over loop variables first
    for col in range(n):
        p = next((i for i in range(r, len(m)) if m[i][col] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        pv = m[r][col]
        m[r] = [x / pv for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][col] != 0:
                f = m[i][col]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv.append(col)
        r += 1
    free = [c for c in range(n) if c not in piv]
    basis = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, pc in enumerate(piv):
            v[pc] = -m[i][f]
        basis.append(v)
    return basis


def sparse(L, rows, keys):
    """affine equalities over at most three loop variables (and their entry values), without redundant supersets"""
    from itertools import combinations
    out, have = [], []
    for size in (1, 2, 3):
        for sub in combinations(keys, size):
            if any(set(h) <= set(sub) for h in have):
                continue
            rel = [r for r in affine(L, rows, list(sub)) if set(r[0]) == set(sub)]
            if size == 1:
                rel = [r for r in rel if any(r[1].values())][:1]
            for r in rel[:2]:
                out.append(r)
                if size > 1:
                    have.append(sub)
    return out

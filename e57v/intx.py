"""Exact translation of bit-vector queries to linear integer arithmetic with uninterpreted functions.

Sums are kept linear and wrapped once per term; the wrap is dropped only when interval analysis over the
hypotheses shows it cannot happen.  The translation is equivalence-preserving (machine arithmetic is NOT treated as
mathematical).  Terms outside the fragment raise NotInt and the query goes to the bit-vector back end.
"""
import z3

K = {}
for n in ('TRUE', 'FALSE', 'AND', 'OR', 'NOT', 'IMPLIES', 'XOR', 'EQ', 'DISTINCT', 'ITE', 'IFF', 'UNINTERPRETED', 'BNUM', 'BADD', 'BSUB',
          'BNEG', 'BMUL', 'BUDIV', 'BUDIV_I', 'BUREM', 'BUREM_I', 'ULEQ', 'ULT', 'UGEQ', 'UGT', 'SLEQ', 'SLT', 'SGEQ',
          'SGT', 'CONCAT', 'EXTRACT', 'ZERO_EXT', 'SIGN_EXT', 'BLSHR', 'BSHL', 'BASHR', 'BAND', 'BOR', 'BNOT', 'BXOR'):
    K[n] = getattr(z3, 'Z3_OP_' + n)
KN = {v: k for k, v in K.items()}


class NotInt(Exception):
    pass


def num(e):
    return e.as_long()


class IntX:
    def __init__(self):
        self.memo = {}
        self.bmemo = {}
        self.bnd = {}          # BV term id -> (lo, hi)
        self.keep = []
        self.consts = {}       # name -> (bv const, int const)
        self.side = []         # side constraints (ranges)
        self.fns = {}
        self.n = 0

    # ---- bounds from hypotheses
    def learn(self, hyps):
        atoms = []
        for h in hyps:
            self._atoms(h, True, atoms)
        for _ in range(4):
            ch = False
            for rel, a, b in atoms:
                la, ha = self.rng(a)
                lb, hb = self.rng(b)
                if rel == 'ule':
                    ch |= self._set(a, la, min(ha, hb))
                    ch |= self._set(b, max(lb, la), hb)
                elif rel == 'ult':
                    ch |= self._set(a, la, min(ha, hb - 1))
                    ch |= self._set(b, max(lb, la + 1), hb)
                elif rel == 'eq':
                    ch |= self._set(a, max(la, lb), min(ha, hb))
                    ch |= self._set(b, max(la, lb), min(ha, hb))
            if not ch:
                break
        self.memo.clear()

    def _set(self, e, lo, hi):
        if e.decl().kind() == K['BNUM']:
            return False
        old = self.rng(e)
        if lo > hi:
            return False        # contradictory hypotheses: leave it to the solver
        if (lo, hi) != old:
            self.bnd[e.get_id()] = (lo, hi)
            self.keep.append(e)
            return True
        return False

    def rng(self, e):
        k = e.decl().kind()
        w = e.size()
        if k == K['BNUM']:
            return (num(e), num(e))
        b = self.bnd.get(e.get_id())
        top = (0, (1 << w) - 1)
        if b is None:
            b = top
        if k == K['ZERO_EXT']:
            lo, hi = self.rng(e.arg(0))
            b = (max(b[0], lo), min(b[1], hi))
        elif k in (K['BUREM'], K['BUREM_I']) and e.arg(1).decl().kind() == K['BNUM'] and num(e.arg(1)):
            b = (b[0], min(b[1], num(e.arg(1)) - 1))
        elif k in (K['BUDIV'], K['BUDIV_I']) and e.arg(1).decl().kind() == K['BNUM'] and num(e.arg(1)):
            lo, hi = self.rng(e.arg(0))
            c = num(e.arg(1))
            b = (max(b[0], lo // c), min(b[1], hi // c))
        elif k == K['BLSHR'] and e.arg(1).decl().kind() == K['BNUM']:
            lo, hi = self.rng(e.arg(0))
            c = num(e.arg(1))
            b = (max(b[0], lo >> c), min(b[1], hi >> c))
        elif k == K['BAND']:
            for x in e.children():
                b = (b[0], min(b[1], self.rng(x)[1]))
        elif k == K['ITE']:
            l1, h1 = self.rng(e.arg(1))
            l2, h2 = self.rng(e.arg(2))
            b = (max(b[0], min(l1, l2)), min(b[1], max(h1, h2)))
        elif k == K['CONCAT']:
            ch = e.children()
            if all(x.decl().kind() == K['BNUM'] and num(x) == 0 for x in ch[:-1]):
                lo, hi = self.rng(ch[-1])
                b = (max(b[0], lo), min(b[1], hi))
        elif k == K['BADD']:
            rs = [self.rng(x) for x in e.children()]
            if sum(h for _, h in rs) < 1 << w:
                b = (max(b[0], sum(l for l, _ in rs)), min(b[1], sum(h for _, h in rs)))
        elif k == K['BMUL'] and e.num_args() == 2:
            (l1, h1), (l2, h2) = self.rng(e.arg(0)), self.rng(e.arg(1))
            if h1 * h2 < 1 << w:
                b = (max(b[0], l1 * l2), min(b[1], h1 * h2))
        if b[0] > b[1]:
            return top
        return b

    def _atoms(self, h, pos, out):
        k = h.decl().kind()
        if k == K['AND'] and pos:
            for c in h.children():
                self._atoms(c, True, out)
        elif k == K['OR'] and not pos:
            for c in h.children():
                self._atoms(c, False, out)
        elif k == K['NOT']:
            self._atoms(h.arg(0), not pos, out)
        elif k in (K['ULEQ'], K['UGEQ'], K['ULT'], K['UGT']):
            a, b = h.arg(0), h.arg(1)
            if k in (K['UGEQ'], K['UGT']):
                a, b = b, a
            strict = k in (K['ULT'], K['UGT'])
            if pos:
                out.append(('ult' if strict else 'ule', a, b))
            else:
                out.append(('ule' if strict else 'ult', b, a))
        elif k == K['EQ'] and pos and z3.is_bv(h.arg(0)):
            out.append(('eq', h.arg(0), h.arg(1)))
        elif k in (K['SLEQ'], K['SGEQ'], K['SLT'], K['SGT']):
            # signed lower bound 0 gives an unsigned upper bound
            a, b = h.arg(0), h.arg(1)
            if k in (K['SGEQ'], K['SGT']):
                a, b = b, a
            strict = k in (K['SLT'], K['SGT'])
            if not pos:
                a, b = b, a
                strict = not strict
            # a <= b signed
            w = a.size()
            if a.decl().kind() == K['BNUM'] and num(a) < 1 << (w - 1):
                out.append(('ule', b, z3.BitVecVal((1 << (w - 1)) - 1, w)))
                out.append(('ule', z3.BitVecVal(num(a) + (1 if strict else 0), w), b))

    # ---- terms
    def lin(self, e, coef, acc):
        """accumulate coef*e (mod 2^w) into acc: id -> [coef, term]; returns constant"""
        k = e.decl().kind()
        if k == K['BNUM']:
            return coef * num(e)
        if k == K['BADD']:
            return sum(self.lin(c, coef, acc) for c in e.children())
        if k == K['BSUB']:
            ch = e.children()
            return self.lin(ch[0], coef, acc) + sum(self.lin(c, -coef, acc) for c in ch[1:])
        if k == K['BNEG']:
            return self.lin(e.arg(0), -coef, acc)
        if k == K['BMUL']:
            ch = e.children()
            cs = [c for c in ch if c.decl().kind() == K['BNUM']]
            vs = [c for c in ch if c.decl().kind() != K['BNUM']]
            if len(vs) == 1:
                f = coef
                for c in cs:
                    f *= self.scoef(num(c), e.size())
                return self.lin(vs[0], f, acc)
            raise NotInt('nonlinear')
        if k == K['BSHL'] and e.arg(1).decl().kind() == K['BNUM'] and num(e.arg(1)) < e.size():
            return self.lin(e.arg(0), coef << num(e.arg(1)), acc)
        t = acc.setdefault(e.get_id(), [0, e])
        t[0] += coef
        return 0

    @staticmethod
    def scoef(c, w):
        return c - (1 << w) if c >> (w - 1) else c

    def tr(self, e):
        """-> (int term, lo, hi)"""
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            x, lo, hi = self._tr(e)
            b = self.rng(e)
            lo, hi = max(lo, b[0]), min(hi, b[1])
            if lo > hi:
                lo, hi = 0, (1 << e.size()) - 1
            r = self.memo[i] = (x, lo, hi)
            self.keep.append(e)
            if i in self.bnd and lo <= hi and not z3.is_int_value(x):
                # the hypothesis it was learnt from may be simplified by it: keep it
                self.side.append(z3.And(x >= lo, x <= hi))
        return r

    def wrap(self, s, lo, hi, w):
        M = 1 << w
        if lo >= 0 and hi < M:
            return s, lo, hi
        if lo >= -M and hi < M:
            if hi < 0:
                return s + M, lo + M, hi + M
            return z3.If(s < 0, s + M, s), 0, M - 1
        if lo >= 0 and hi < 2 * M:
            return z3.If(s >= M, s - M, s), 0, M - 1
        if lo >= -M and hi < 2 * M:
            return z3.If(s < 0, s + M, z3.If(s >= M, s - M, s)), 0, M - 1
        return s % M, 0, M - 1

    def _tr(self, e):
        k = e.decl().kind()
        w = e.size()
        M = 1 << w
        if k == K['BNUM']:
            return z3.IntVal(num(e)), num(e), num(e)
        if k in (K['BADD'], K['BSUB'], K['BNEG'], K['BMUL'], K['BSHL']):
            acc = {}
            try:
                c = self.lin(e, 1, acc)
            except NotInt:
                if k == K['BMUL'] and e.num_args() == 2:
                    a, la, ha = self.tr(e.arg(0))
                    b, lb, hb = self.tr(e.arg(1))
                    if ha * hb < M:
                        return a * b, la * lb, ha * hb
                raise
            if acc and list(acc) == [e.get_id()]:
                raise NotInt('shift')
            c = self.scoef(c % M, w)
            terms = []
            lo = hi = c
            for cf, t in acc.values():
                cf = self.scoef(cf % M, w)
                if cf == 0:
                    continue
                x, l, h = self.tr(t)
                terms.append(x if cf == 1 else cf * x)
                lo += min(cf * l, cf * h)
                hi += max(cf * l, cf * h)
            s = z3.Sum(*terms) if len(terms) > 1 else (terms[0] if terms else z3.IntVal(0))
            if c:
                s = s + c
            # a constant just below 2^w may be better read as positive
            return self.wrap(s, lo, hi, w)
        if k in (K['BUDIV'], K['BUDIV_I'], K['BUREM'], K['BUREM_I']):
            d = e.arg(1)
            if d.decl().kind() != K['BNUM'] or num(d) == 0:
                raise NotInt('division by variable')
            c = num(d)
            x, lo, hi = self.tr(e.arg(0))
            q, r = self.divmod(x, lo, hi, c)
            return q if k in (K['BUDIV'], K['BUDIV_I']) else r
        if k == K['BLSHR']:
            if e.arg(1).decl().kind() != K['BNUM']:
                raise NotInt('shift')
            c = num(e.arg(1))
            if c >= w:
                return z3.IntVal(0), 0, 0
            x, lo, hi = self.tr(e.arg(0))
            return self.divmod(x, lo, hi, 1 << c)[0]
        if k == K['BASHR']:
            if e.arg(1).decl().kind() != K['BNUM']:
                raise NotInt('shift')
            c = num(e.arg(1))
            x, lo, hi = self.tr(e.arg(0))
            if hi < M // 2:
                return self.divmod(x, lo, hi, 1 << c)[0]
            raise NotInt('ashr')
        if k == K['EXTRACT']:
            h, l = e.params()
            x, lo, hi = self.tr(e.arg(0))
            if l:
                x, lo, hi = self.divmod(x, lo, hi, 1 << l)[0]
            if h + 1 < e.arg(0).size() or True:
                x, lo, hi = self.divmod(x, lo, hi, 1 << (h - l + 1))[1]
            return x, lo, hi
        if k == K['CONCAT']:
            s, lo, hi = None, 0, 0
            for c in e.children():
                x, l, h = self.tr(c)
                f = 1 << c.size()
                s = x if s is None else s * f + x
                lo, hi = lo * f + l, hi * f + h
            return s, lo, hi
        if k == K['ZERO_EXT']:
            return self.tr(e.arg(0))
        if k == K['SIGN_EXT']:
            x, lo, hi = self.tr(e.arg(0))
            w0 = e.arg(0).size()
            if hi < 1 << (w0 - 1):
                return x, lo, hi
            return z3.If(x >= (1 << (w0 - 1)), x + (M - (1 << w0)), x), 0, M - 1
        if k == K['BAND']:
            ch = e.children()
            cs = [c for c in ch if c.decl().kind() == K['BNUM']]
            vs = [c for c in ch if c.decl().kind() != K['BNUM']]
            if len(cs) == 1 and len(vs) == 1:
                m = num(cs[0])
                if m & (m + 1) == 0:
                    x, lo, hi = self.tr(vs[0])
                    return self.divmod(x, lo, hi, m + 1)[1]
                inv = (~m) & (M - 1)
                if inv & (inv + 1) == 0:
                    x, lo, hi = self.tr(vs[0])
                    r = self.divmod(x, lo, hi, inv + 1)[1]
                    return x - r[0], 0, hi
            raise NotInt('and')
        if k == K['BNOT']:
            x, lo, hi = self.tr(e.arg(0))
            return (M - 1) - x, M - 1 - hi, M - 1 - lo
        if k == K['ITE']:
            c = self.b(e.arg(0))
            a, l1, h1 = self.tr(e.arg(1))
            b, l2, h2 = self.tr(e.arg(2))
            return z3.If(c, a, b), min(l1, l2), max(h1, h2)
        if k == K['UNINTERPRETED']:
            if e.num_args() == 0:
                n = e.decl().name()
                if n not in self.consts:
                    c = z3.Int(n)
                    self.consts[n] = (e, c)
                    self.side.append(z3.And(c >= 0, c < M))
                return self.consts[n][1], 0, M - 1
            return self.app(e), 0, M - 1
        raise NotInt(KN.get(k, str(e.decl())))

    def app(self, e):
        d = e.decl()
        f = self.fns.get(d.name())
        args = [self.tr(a)[0] if z3.is_bv(a) else self.b(a) for a in e.children()]
        if f is None:
            sorts = [z3.IntSort() if z3.is_bv(a) else z3.BoolSort() for a in e.children()]
            sorts.append(z3.IntSort() if z3.is_bv(e) else z3.BoolSort())
            f = self.fns[d.name()] = z3.Function(d.name() + '|int', *sorts)
        r = f(*args)
        if z3.is_bv(e):
            self.side.append(z3.And(r >= 0, r < (1 << e.size())))
        return r

    def divmod(self, x, lo, hi, c):
        if hi < c:
            return (z3.IntVal(0), 0, 0), (x, lo, hi)
        if z3.is_int_value(x):
            v = x.as_long()
            return (z3.IntVal(v // c), v // c, v // c), (z3.IntVal(v % c), v % c, v % c)
        key = ('dm', x.get_id(), c)
        if key not in self.bmemo:
            self.n += 1
            q, r = z3.Int('q!%d' % self.n), z3.Int('r!%d' % self.n)
            self.side.append(z3.And(x == c * q + r, r >= 0, r < c, q >= 0, q <= hi // c))
            self.bmemo[key] = (q, r)
            self.keep.append(x)
        q, r = self.bmemo[key]
        return (q, lo // c, hi // c), (r, 0, c - 1)

    def sgn(self, e):
        x, lo, hi = self.tr(e)
        w = e.size()
        if hi < 1 << (w - 1):
            return x
        if lo >= 1 << (w - 1):
            return x - (1 << w)
        return z3.If(x >= (1 << (w - 1)), x - (1 << w), x)

    def b(self, e):
        i = e.get_id()
        r = self.bmemo.get(i)
        if r is None:
            r = self.bmemo[i] = self._b(e)
            self.keep.append(e)
        return r

    def _b(self, e):
        k = e.decl().kind()
        ch = e.children()
        if k == K['TRUE']:
            return z3.BoolVal(True)
        if k == K['FALSE']:
            return z3.BoolVal(False)
        if k == K['AND']:
            return z3.And(*[self.b(c) for c in ch])
        if k == K['OR']:
            return z3.Or(*[self.b(c) for c in ch])
        if k == K['NOT']:
            return z3.Not(self.b(ch[0]))
        if k == K['IMPLIES']:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if k == K['XOR']:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if k == K['ITE']:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if k in (K['EQ'], K['IFF']):
            if z3.is_bool(ch[0]):
                return self.b(ch[0]) == self.b(ch[1])
            if z3.is_bv(ch[0]):
                return self.tr(ch[0])[0] == self.tr(ch[1])[0]
            raise NotInt('eq sort')
        if k == K['DISTINCT'] and len(ch) == 2:
            if z3.is_bool(ch[0]):
                return self.b(ch[0]) != self.b(ch[1])
            return self.tr(ch[0])[0] != self.tr(ch[1])[0]
        if k in (K['ULEQ'], K['ULT'], K['UGEQ'], K['UGT']):
            a, b = self.tr(ch[0])[0], self.tr(ch[1])[0]
            return {K['ULEQ']: a <= b, K['ULT']: a < b, K['UGEQ']: a >= b, K['UGT']: a > b}[k]
        if k in (K['SLEQ'], K['SLT'], K['SGEQ'], K['SGT']):
            a, b = self.sgn(ch[0]), self.sgn(ch[1])
            return {K['SLEQ']: a <= b, K['SLT']: a < b, K['SGEQ']: a >= b, K['SGT']: a > b}[k]
        if k == K['UNINTERPRETED']:
            if e.num_args() == 0:
                n = e.decl().name()
                c = z3.Bool(n)
                self.consts[n] = (e, c)
                return c
            return self.app(e)
        raise NotInt(KN.get(k, str(e.decl())))


class IntModel:
    """model of an integer query, evaluated on the original bit-vector terms"""
    def __init__(self, ix, m):
        self.ix, self.m = ix, m

    def eval(self, g, model_completion=True):
        try:
            n = len(self.ix.side)
            t = self.ix.b(g)
            if len(self.ix.side) > n:
                return z3.BoolVal(True)      # needs new side variables: inconclusive
            return self.m.eval(t, model_completion=True)
        except NotInt:
            return z3.BoolVal(True)

    def values(self):
        out = {}
        for n, (e, c) in self.ix.consts.items():
            v = self.m.eval(c, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            else:
                out[n] = z3.is_true(v)
        return out


SCALE = 1       # a second attempt at a unit gives every query more time
BAD = {}        # formulas that have no integer translation (kept alive so that ids stay valid)


def note(f, ex):
    if ex.args[0] not in ('nonlinear', 'division by variable', 'and'):      # these depend on the bounds learned
        BAD[f.get_id()] = f


def translate(ix, fs, goal=None):
    """translations of the formulas that have one, and whether all of them do; the goal must have one"""
    if goal is not None and goal.get_id() in BAD:
        raise NotInt('goal')
    ok = [f for f in fs if f.get_id() not in BAD]
    ix.learn(ok if goal is None else ok + [goal])
    out, whole = [], len(ok) == len(fs)
    for f in ok:
        try:
            out.append(ix.b(f))
        except NotInt as ex:
            note(f, ex)
            whole = False
    if goal is not None:
        try:
            out.append(ix.b(goal))
        except NotInt as ex:
            note(goal, ex)
            raise
    return out, whole


def check(fs, timeout, hyps=None):
    """-> (result, IntModel or None); raises NotInt; the last formula is the (negated) goal"""
    ix = IntX()
    fs = [f if z3.is_expr(f) else z3.BoolVal(bool(f)) for f in fs]
    gs, whole = translate(ix, fs[:-1], fs[-1])
    s = z3.SimpleSolver()
    s.set('timeout', int(timeout * SCALE))
    s.add(*ix.side)
    s.add(*gs)
    r = s.check()
    if not whole and r != z3.unsat:
        return z3.unknown, None
    return r, (IntModel(ix, s.model()) if r == z3.sat else None)


class Session:
    """several goals against one set of hypotheses, translated once"""
    def __init__(self, hyps):
        self.ix = IntX()
        gs, self.whole = translate(self.ix, [f if z3.is_expr(f) else z3.BoolVal(bool(f)) for f in hyps])
        self.s = z3.SimpleSolver()
        self.done = 0
        self.s.add(*gs)
        self._sides()

    def _sides(self):
        new = self.ix.side[self.done:]
        self.done = len(self.ix.side)
        if new:
            self.s.add(*new)

    def refute(self, goal, timeout):
        """unsat means the goal follows"""
        g = self.ix.b(goal)
        self._sides()
        self.s.push()
        try:
            self.s.set('timeout', int(timeout * SCALE))
            self.s.add(z3.Not(g))
            r = self.s.check()
            return r, (IntModel(self.ix, self.s.model()) if r == z3.sat else None)
        finally:
            self.s.pop()

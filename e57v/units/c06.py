import z3
from ..sym import Ptr, State, Region, ULT, ULE, bv, simp, zb
from ..ir import I, Unsupported
from ..unit import Unit
from ..filemodel import B

NATIVE = 'c06'
NATIVE_MS = 8000
SDB = 'e57::SourceDestBufferImpl'
J = z3.BitVec('J', 64)
# name, enumerator, bytes, kind
REPS = [('Int8', 1, 1, 's'), ('UInt8', 2, 1, 'u'), ('Int16', 3, 2, 's'), ('UInt16', 4, 2, 'u'), ('Int32', 5, 4, 's'), ('UInt32', 6, 4, 'u'),
        ('Int64', 7, 8, 's'), ('Bool', 8, 1, 'b'), ('Real32', 9, 4, 'f'), ('Real64', 10, 8, 'f'), ('UString', 11, 1, 'x')]


def setup(e, rep, scaling=None):
    """a buffer object over user memory with any capacity, stride and position -> (state, this, user region, element offset, conversion flag)"""
    _, num, size, _ = rep
    st = State()
    this = Region('sdbuf')
    cells = st.mem.setdefault(this, {})

    def W(m, n, v):
        cells[e.off(SDB, m)] = (n, v)
    cap, stride = z3.BitVecs('capacity stride', 64)
    idx = z3.BitVec('nextIndex', 32)
    conv = z3.Bool('doConversion')
    scal = z3.Bool('doScaling') if scaling is None else z3.BoolVal(scaling)
    B1 = lambda c: z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    total = z3.BitVec('user.size', 64)
    user = e.new_bytes(st, 'user', total)
    off = simp(z3.ZeroExt(32, idx) * stride)
    W('memoryRepresentation_', 4, num)
    W('base_', 8, Ptr(user, 0))
    W('capacity_', 8, cap)
    W('doConversion_', 1, B1(conv))
    W('doScaling_', 1, B1(scal))
    W('stride_', 8, stride)
    W('nextIndex_', 4, idx)
    st.assume(ULT(cap, B((1 << 32) - 1)))
    st.assume(ULT(total, B(1 << 60)))
    # the caller owns capacity elements at this stride
    st.assume(z3.Implies(ULT(z3.ZeroExt(32, idx), cap), z3.And(ULE(off, B(1 << 59)), ULE(off + size, total))))
    e.bool_bytes = True
    return st, this, user, off, conv, cap, idx


def fp(e, v, w):
    return e.tofp(v, w)


def rng(rep):
    _, _, size, k = rep
    n = 8 * size
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if k == 's' else (0, (1 << n) - 1)


def real_in(e, v, w, rep):
    """(certainly fits, certainly does not fit) for a real v and an integer type, exact arithmetic"""
    lo, hi = rng(rep)
    S = z3.Float64()
    x = fp(e, v, w)
    if w == 32:
        x = z3.fpFPToFP(z3.RNE(), x, S)
    nan = z3.fpIsNaN(x)
    le_hi = z3.fpLEQ(x, z3.FPVal(float(hi), S)) if hi < 1 << 53 else z3.fpLT(x, z3.FPVal(float(hi + 1), S))
    fits = z3.And(z3.Not(nan), z3.fpGEQ(x, z3.FPVal(float(lo), S)), le_hi)
    wide = hi >= 1 << 53
    bad = z3.Or(nan, z3.fpLT(x, z3.FPVal(float(lo), S)) if wide else z3.fpLEQ(x, z3.FPVal(float(lo - 1), S)), z3.fpGEQ(x, z3.FPVal(float(hi + 1), S)))
    return fits, bad


def elem(e, st, user, off, size):
    m = e.to_bytes(st, user)
    b = [bv(m.read(simp(B(off) + k)), 8) for k in range(size)]
    return b[0] if size == 1 else z3.Concat(*reversed(b))


def frame(e, s, u0, user, off, size, moved):
    now = e.to_bytes(s, user)
    inside = ULT(J - off, B(size)) if moved else z3.BoolVal(False)
    e.prove(s, z3.Implies(z3.And(ULT(J, z3.BitVec('user.size', 64)), z3.Not(inside)), bv(now.read(J), 8) == bv(u0.read(J), 8)),
            'only the element\'s own bytes change' if moved else 'the user buffer is not changed')


def finish(e, o, this, idx, cap, conv_ok, conv, fits, bad, name):
    """common part: room, conversion permission, fit; returns True when the transfer happened"""
    s = o.st
    nidx = bv(e.load(s, Ptr(this, e.off(SDB, 'nextIndex_')), I(32)), 32)
    room = ULT(z3.ZeroExt(32, idx), cap)
    allowed = z3.BoolVal(True) if conv_ok else conv
    if o.kind == 'ret':
        e.cover(s, 'delivers')
        e.prove(s, room, 'never transfers past the capacity')
        e.prove(s, allowed, 'converts only when conversion is permitted')
        e.prove(s, z3.Not(bad), 'a value that does not fit is refused')
        e.prove(s, nidx == idx + 1, 'advances by exactly one element')
        return True
    e.cover(s, 'refuses')
    e.prove(s, z3.Not(z3.And(room, allowed, fits)), 'a value that fits is delivered')
    e.prove(s, nidx == idx, 'a refused transfer does not advance')
    return False


def T(x):
    return z3.BoolVal(x)


def put(ctx, arg):
    """setNextInt64(v) / setNextFloat(v) / setNextDouble(v) into a buffer of this element type"""
    rep, src = arg[:2]
    unscaled = len(arg) > 2
    name, num, size, k = rep
    e = ctx.engine(safety=('bounds', 'null', 'fptoint'), fpmode='exact')
    st, this, user, off, conv, cap, idx = setup(e, rep, False)
    w = {'Int64': 64, 'Float': 32, 'Double': 64}[src]
    v = z3.BitVec('value', w)
    u0 = st.mem[user]
    f = ctx.fn(r'^e57::SourceDestBufferImpl::setNext%s\(%s\)$' % (src, {'Int64': 'long', 'Float': 'float', 'Double': 'double'}[src])) if not unscaled else ctx.fn(r'^e57::SourceDestBufferImpl::setNextInt64\(long, double, double\)$')
    for o in e.call(st, f, [Ptr(this), v] + (list(z3.BitVecs('scale offset', 64)) if unscaled else [])):
        fits, bad, want = T(True), T(False), None
        if k == 'x':
            fits, bad = T(False), T(True)
        elif src == 'Int64':
            conv_ok = k != 'f'
            if k in 'su':
                lo, hi = rng(rep)
                fits = z3.And(v >= lo, v <= hi) if hi < (1 << 63) - 1 else T(True)
                bad = z3.Not(fits)
                want = z3.Extract(8 * size - 1, 0, v)
            elif k == 'b':
                want = z3.If(v != 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            else:
                want = bv(e.cast(o.st, 'sitofp', v, I(64), ('fp', 8 * size)), 8 * size)
        else:
            conv_ok = k == 'f'
            x = fp(e, v, w)
            if k in 'su':
                fits, bad = real_in(e, v, w, rep)
                want = bv((z3.fpToSBV if k == 's' else z3.fpToUBV)(z3.RTZ(), x, z3.BitVecSort(8 * size)), 8 * size)
            elif k == 'b':
                fits = z3.Not(z3.fpIsNaN(x))
                want = z3.If(z3.Not(z3.fpIsZero(x)), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            elif w == 64 and size == 4:
                lim = z3.FPVal(3.4028234663852886e38, z3.Float64())
                fits = z3.And(z3.fpLEQ(x, lim), z3.fpGEQ(x, z3.fpNeg(lim)))
                over = z3.FPVal(2.0 ** 128 - 2.0 ** 103, z3.Float64())
                bad = z3.And(z3.Not(z3.fpIsNaN(x)), z3.Or(z3.fpGEQ(x, over), z3.fpLEQ(x, z3.fpNeg(over))))
                want = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), x, z3.Float32()))
            elif w == 32 and size == 8:
                want = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), x, z3.Float64()))
            else:
                want = v
        if k == 'x':
            conv_ok = True
        if finish(e, o, this, idx, cap, conv_ok, conv, fits, bad, name) and want is not None:
            got = elem(e, o.st, user, off, size)
            if k == 'f' and src != 'Int64':
                S = e.fps(8 * size)
                g, h = z3.fpBVToFP(got, S), z3.fpBVToFP(want, S)
                e.prove(o.st, z3.Or(got == want, z3.And(z3.fpIsNaN(g), z3.fpIsNaN(h))), 'the element receives the value')
            else:
                e.prove(o.st, got == want, 'the element receives the value')
        frame(e, o.st, u0, user, off, size, o.kind == 'ret')


def get(ctx, arg):
    """getNextInt64() / getNextFloat() / getNextDouble() from a buffer of this element type"""
    rep, dst = arg[:2]
    unscaled = len(arg) > 2
    name, num, size, k = rep
    e = ctx.engine(safety=('bounds', 'null', 'fptoint'), fpmode='exact')
    st, this, user, off, conv, cap, idx = setup(e, rep, False)
    u0 = st.mem[user]
    w = {'Int64': 64, 'Float': 32, 'Double': 64}[dst]
    raw = elem(e, st, user, off, size) if k != 'x' else None
    if k == 'b':
        st.assume(ULE(raw, 1))
    f = ctx.fn(r'^e57::SourceDestBufferImpl::getNext%s\(\)$' % dst) if not unscaled else ctx.fn(r'^e57::SourceDestBufferImpl::getNextInt64\(double, double\)$')
    for o in e.call(st, f, [Ptr(this)] + (list(z3.BitVecs('scale offset', 64)) if unscaled else [])):
        fits, bad, want = T(True), T(False), None
        conv_ok = True
        if k == 'x':
            fits, bad = T(False), T(True)
        elif dst == 'Int64':
            if k in 'su':
                want = raw if size == 8 else (z3.SignExt if k == 's' else z3.ZeroExt)(64 - 8 * size, raw)
            elif k == 'b':
                want, conv_ok = z3.ZeroExt(56, raw), False
            else:
                conv_ok = False
                fits, bad = real_in(e, raw, 8 * size, REPS[6])
                want = z3.fpToSBV(z3.RTZ(), fp(e, raw, 8 * size), z3.BitVecSort(64))
        else:
            conv_ok = k == 'f'
            if k in 'sub':
                want = bv(e.cast(o.st, 'sitofp' if k == 's' else 'uitofp', raw, I(8 * size), ('fp', w)), w)
            elif w == 8 * size:
                want = raw
            elif w == 64:
                want = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), fp(e, raw, 32), z3.Float64()))
            else:
                x = fp(e, raw, 64)
                lim = z3.FPVal(3.4028234663852886e38, z3.Float64())
                fits = z3.And(z3.fpLEQ(x, lim), z3.fpGEQ(x, z3.fpNeg(lim)))
                over = z3.FPVal(2.0 ** 128 - 2.0 ** 103, z3.Float64())
                bad = z3.And(z3.Not(z3.fpIsNaN(x)), z3.Or(z3.fpGEQ(x, over), z3.fpLEQ(x, z3.fpNeg(over))))
                want = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), x, z3.Float32()))
        if finish(e, o, this, idx, cap, conv_ok, conv, fits, bad, name) and want is not None:
            got = bv(o.val, w)
            if dst != 'Int64':
                S = e.fps(w)
                g, h = z3.fpBVToFP(got, S), z3.fpBVToFP(want, S)
                e.prove(o.st, z3.Or(got == want, z3.fpEQ(g, h), z3.And(z3.fpIsNaN(g), z3.fpIsNaN(h))), 'the value of the element is delivered')
            else:
                e.prove(o.st, got == want, 'the value of the element is delivered')
        frame(e, o.st, u0, user, off, size, False)


UNITS = []
for r in REPS:
    for d in ('Int64', 'Float', 'Double'):
        UNITS.append(Unit('set %s from %s' % (r[0], d), put, arg=(r, d), budget=90))
        UNITS.append(Unit('get %s as %s' % (d, r[0]), get, arg=(r, d), budget=90))
ASSUMPTIONS = ['the caller owns capacity elements of the stated stride, capacity < 2^32 - 1',
               'int to real conversion is to the nearest real, real to integer drops the fraction (the C++ conversions); a fraction beyond the last integer of the type may be refused']

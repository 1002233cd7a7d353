import z3
from ..sym import Ptr, State, Region, ULT, ULE, bv, simp, zb
from ..ir import I, Unsupported
from ..unit import Unit
from ..filemodel import B
from . import c06
from .c06 import REPS, SDB, setup, elem, frame, rng, real_in, T, J

NATIVE = 'c07'
NATIVE_MS = 8000


def ops(e):
    F = lambda n, a: e.funary(n, a, 64)
    O = lambda op, a, b: e.fop(op, a, b, 64)
    half = 0x3FE0000000000000
    return F, O, half


def todouble(e, st, raw, size, k):
    if k == 'f':
        return raw if size == 8 else e.cast(st, 'fpext', raw, ('fp', 32), ('fp', 64))
    x = raw
    if size < 4:
        x = (z3.SignExt if k == 's' else z3.ZeroExt)(32 - 8 * size, raw)
        return e.cast(st, 'sitofp', x, I(32), ('fp', 64))
    return e.cast(st, 'sitofp' if k == 's' else 'uitofp', x, I(8 * size), ('fp', 64))


def get(ctx, arg):
    """getNextInt64(scale, offset): with scaling, the stored raw integer is floor((x - offset) / scale + 1/2) computed in double precision, refused when it is
    not an int64"""
    rep, scaling = arg, True
    name, num, size, k = rep
    e = ctx.engine(safety=('bounds', 'null', 'fptoint'), fpmode='uf')
    st, this, user, off, conv, cap, idx = setup(e, rep, scaling)
    raw = elem(e, st, user, off, size)
    if k == 'b':
        st.assume(ULE(raw, 1))
    u0 = st.mem[user]
    scale, offset = z3.BitVecs('scale offset', 64)
    room = ULT(z3.ZeroExt(32, idx), cap)
    f = ctx.fn(r'^e57::SourceDestBufferImpl::getNextInt64\(double, double\)$')
    fn_, op, half = ops(e)
    for o in e.call(st, f, [Ptr(this), scale, offset]):
        s = o.st
        nidx = bv(e.load(s, Ptr(this, e.off(SDB, 'nextIndex_')), I(32)), 32)
        frame(e, s, u0, user, off, size, False)
        x = z3.ZeroExt(24, raw) if k == 'b' else None
        xd = todouble(e, s, raw, size, k) if k != 'b' else e.cast(s, 'sitofp', x, I(32), ('fp', 64))
        cands = [xd]
        if k == 'b':
            one, zero = e.cast(s, 'sitofp', 1, I(32), ('fp', 64)), e.cast(s, 'sitofp', 0, I(32), ('fp', 64))
            xd = z3.If(raw == 1, bv(one, 64), bv(zero, 64))
        elif k == 'u' and size < 4:
            pass
        r = bv(fn_('floor', op('fadd', op('fdiv', op('fsub', xd, offset), scale), half)), 64)
        fits, bad = real_in(e, r, 64, REPS[6])
        zero_scale = z3.fpIsZero(e.tofp(scale, 64))
        if o.kind == 'ret':
            e.cover(s, 'delivers')
            e.prove(s, room, 'never transfers past the capacity')
            if k == 'f':
                e.prove(s, conv, 'converts only when conversion is permitted')
            e.prove(s, z3.Not(bad), 'a raw value that does not fit is refused')
            e.prove(s, nidx == idx + 1, 'advances by exactly one element')
            e.soft = True
            e.prove(s, bv(o.val, 64) == z3.fpToSBV(z3.RTZ(), e.tofp(r, 64), z3.BitVecSort(64)), 'the raw integer is (x - offset) / scale rounded to nearest')
            e.soft = False
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.Not(z3.And(room, fits, z3.Not(zero_scale), conv if k == 'f' else T(True))), 'a raw value that fits is delivered')
            e.prove(s, nidx == idx, 'a refused transfer does not advance')


def put(ctx, arg):
    """setNextInt64(raw, scale, offset): with scaling, the element receives raw * scale + offset (integer elements: rounded to nearest), refused when it does not
    fit the element"""
    rep, scaling = arg, True
    name, num, size, k = rep
    e = ctx.engine(safety=('bounds', 'null', 'fptoint'), fpmode='uf')
    st, this, user, off, conv, cap, idx = setup(e, rep, scaling)
    u0 = st.mem[user]
    v, scale, offset = z3.BitVecs('raw scale offset', 64)
    room = ULT(z3.ZeroExt(32, idx), cap)
    f = ctx.fn(r'^e57::SourceDestBufferImpl::setNextInt64\(long, double, double\)$')
    fn_, op, half = ops(e)
    for o in e.call(st, f, [Ptr(this), v, scale, offset]):
        s = o.st
        nidx = bv(e.load(s, Ptr(this, e.off(SDB, 'nextIndex_')), I(32)), 32)
        frame(e, s, u0, user, off, size, o.kind == 'ret')
        got = elem(e, s, user, off, size)
        vd = e.cast(s, 'sitofp', v, I(64), ('fp', 64))
        sv = bv(op('fadd', op('fmul', vd, scale), offset), 64)
        if k == 'f':
            r = sv
        else:
            r = bv(fn_('floor', op('fadd', sv, half)), 64)
        x = e.tofp(r, 64)
        fits, bad = T(True), T(False)
        if k in 'su':
            fits, bad = real_in(e, r, 64, rep)
            want = (z3.fpToSBV if k == 's' else z3.fpToUBV)(z3.RTZ(), x, z3.BitVecSort(8 * size))
        elif k == 'b':
            fits = z3.Not(z3.fpIsNaN(x))
            want = z3.If(z3.fpIsZero(x), z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))
        elif size == 4:
            lim = z3.FPVal(3.4028234663852886e38, z3.Float64())
            fits = z3.And(z3.fpLEQ(x, lim), z3.fpGEQ(x, z3.fpNeg(lim)))
            over = z3.FPVal(2.0 ** 128 - 2.0 ** 103, z3.Float64())
            bad = z3.And(z3.Not(z3.fpIsNaN(x)), z3.Or(z3.fpGEQ(x, over), z3.fpLEQ(x, z3.fpNeg(over))))
            want = bv(e.cast(s, 'fptrunc', r, ('fp', 64), ('fp', 32)), 32)
        else:
            want = r
        if o.kind == 'ret':
            e.cover(s, 'delivers')
            e.prove(s, room, 'never transfers past the capacity')
            if k == 'f':
                e.prove(s, conv, 'converts only when conversion is permitted')
            e.prove(s, z3.Not(bad), 'a value that does not fit is refused')
            e.prove(s, nidx == idx + 1, 'advances by exactly one element')
            e.soft = True
            e.prove(s, got == want, 'the element receives raw * scale + offset')
            e.soft = False
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.Not(z3.And(room, fits, conv if k == 'f' else T(True))), 'a value that fits is delivered')
            e.prove(s, nidx == idx, 'a refused transfer does not advance')


def raw_put(ctx, arg):
    """setNextInt64(raw, scale, offset) without scaling: the element receives the raw integer unchanged or the call fails"""
    c06.put(ctx, (arg, 'Int64', True))


def raw_get(ctx, arg):
    """getNextInt64(scale, offset) without scaling: the raw integer of the element is delivered unchanged or the call fails"""
    c06.get(ctx, (arg, 'Int64', True))


UNITS = []
for r in REPS[:-1]:
    UNITS.append(Unit('read %s scaled' % r[0], put, arg=r, budget=90))
    UNITS.append(Unit('write %s scaled' % r[0], get, arg=r, budget=90))
    UNITS.append(Unit('read %s raw' % r[0], raw_put, arg=r, budget=90))
    UNITS.append(Unit('write %s raw' % r[0], raw_get, arg=r, budget=90))
ASSUMPTIONS = ['double-precision +, -, *, /, floor and conversions between widths are uninterpreted here (any fixed functions): the contract pins the order of operations; ranges and casts are decided exactly',
               'the caller owns capacity elements of the stated stride, capacity < 2^32 - 1']

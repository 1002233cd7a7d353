import z3
from ..sym import Ptr, State, Region, bv, zb, NULL
from ..ir import I
from ..unit import Unit
from ..filemodel import B
from .. import lfile
from .c06 import REPS, real_in

NATIVE = 'c08'
NATIVE_MS = 8000
NI = 'e57::NodeImpl'
FMAX = z3.FPVal(3.4028234663852886e38, z3.Float64())


def setup(e, open_=True):
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, open_)
    h = Region('handle')                       # the ImageFile handle of the caller
    st.mem[h] = {}
    lfile.weak(e, st, h, 0, im)
    this = Region('node')
    st.mem[this] = {}
    return st, h, this


def impl(e, s, this):
    return e.load(s, Ptr(this), ('ptr',))


def getters(e, ctx, s, this, cls, want):
    """every accessor of the public handle gives the recorded value"""
    for name, (rty, val) in want.items():
        f = ctx.fn(r'^e57::%s::%s\(\) const$' % (cls, name))
        for o in e.call(s.fork(), f, [Ptr(this)]):
            e.prove(o.st, z3.BoolVal(o.kind == 'ret'), '%s() succeeds on an open file' % name)
            if o.kind == 'ret':
                e.prove(o.st, bv(o.val, rty) == val, '%s() reads back what was given' % name)


def decide(e, ctx, st, this, h, f, args, ok, cls, want, extra=lambda s: None):
    for o in e.call(st, f, [Ptr(this), Ptr(h)] + args):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'creates')
            e.prove(s, ok, 'created only within its bounds')
            extra(s)
            getters(e, ctx, s, this, cls, want)
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.Not(ok), 'a value within bounds is accepted')
            e.prove(s, bv(o.val.code, 32) == 35, 'refused with the out-of-bounds error')


def integer(ctx):
    """IntegerNode(file, value, minimum, maximum): created exactly when minimum <= value <= maximum, else ErrorValueOutOfBounds; accessors return the three numbers"""
    e = ctx.engine()
    st, h, this = setup(e)
    v, lo, hi = z3.BitVecs('value minimum maximum', 64)
    f = ctx.fn(r'^e57::IntegerNode::IntegerNode\(e57::ImageFile const&, long, long, long\)$')
    decide(e, ctx, st, this, h, f, [v, lo, hi], z3.And(lo <= v, v <= hi), 'IntegerNode', {'value': (64, v), 'minimum': (64, lo), 'maximum': (64, hi)})


def scaled(ctx, kinds):
    """ScaledIntegerNode(file, rawValue, minimum, maximum, scale, offset), the three integer overloads: created exactly when minimum <= rawValue <= maximum, else
    ErrorValueOutOfBounds; accessors return the five numbers given"""
    e = ctx.engine(fpmode='uf')
    st, h, this = setup(e)
    args, full = [], []
    for n, k in zip(('rawValue', 'minimum', 'maximum'), kinds):
        x = z3.BitVec(n, 64 if k == 'long' else 32)
        args.append(x)
        full.append(x if k == 'long' else z3.SignExt(32, x))
    v, lo, hi = full
    scale, offset = z3.BitVecs('scale offset', 64)
    f = ctx.fn(r'^e57::ScaledIntegerNode::ScaledIntegerNode\(e57::ImageFile const&, %s, double, double\)$' % ', '.join(kinds))
    sc = lambda x: bv(e.fop('fadd', e.fop('fmul', e.cast(st, 'sitofp', x, I(64), ('fp', 64)), scale, 64), offset, 64), 64)
    decide(e, ctx, st, this, h, f, args + [scale, offset], z3.And(lo <= v, v <= hi), 'ScaledIntegerNode',
           {'rawValue': (64, v), 'minimum': (64, lo), 'maximum': (64, hi), 'scale': (64, scale), 'offset': (64, offset),
            'scaledValue': (64, sc(v)), 'scaledMinimum': (64, sc(lo)), 'scaledMaximum': (64, sc(hi))})


def scaled_real(ctx):
    """ScaledIntegerNode(file, scaledValue, scaledMinimum, scaledMaximum, scale, offset): the raw numbers are floor((x - offset) / scale + 1/2) in double precision;
    created exactly when all three are int64 numbers and the raw value is within the raw bounds, else ErrorValueOutOfBounds"""
    e = ctx.engine(safety=('bounds', 'null', 'fptoint'), fpmode='uf')
    st, h, this = setup(e)
    xs = z3.BitVecs('scaledValue scaledMinimum scaledMaximum', 64)
    scale, offset = z3.BitVecs('scale offset', 64)
    half = 0x3FE0000000000000
    op = lambda o, a, b: e.fop(o, a, b, 64)
    raw = [bv(e.funary('floor', op('fadd', op('fdiv', op('fsub', x, offset), scale), half), 64), 64) for x in xs]
    fits = z3.And(*[real_in(e, r, 64, REPS[6])[0] for r in raw])
    v, lo, hi = [z3.fpToSBV(z3.RTZ(), e.tofp(r, 64), z3.BitVecSort(64)) for r in raw]
    f = ctx.fn(r'^e57::ScaledIntegerNode::ScaledIntegerNode\(e57::ImageFile const&, double, double, double, double, double\)$')
    decide(e, ctx, st, this, h, f, list(xs) + [scale, offset], z3.And(fits, lo <= v, v <= hi), 'ScaledIntegerNode',
           {'rawValue': (64, v), 'minimum': (64, lo), 'maximum': (64, hi), 'scale': (64, scale), 'offset': (64, offset)})


def real(ctx):
    """FloatNode(file, value, precision, minimum, maximum): created exactly when the value is not below the minimum nor above the maximum, where single precision
    first narrows the bounds to the single-precision range; else ErrorValueOutOfBounds; accessors return value, precision and (narrowed) bounds"""
    e = ctx.engine()
    st, h, this = setup(e)
    v, lo, hi = z3.BitVecs('value minimum maximum', 64)
    prec = z3.BitVec('precision', 32)
    st.assume(z3.Or(prec == 1, prec == 2))
    fp = lambda x: e.tofp(x, 64)
    big = z3.fpToIEEEBV(FMAX)
    nbig = z3.fpToIEEEBV(z3.fpNeg(FMAX))
    single = prec == 1
    lo2 = z3.If(z3.And(single, z3.fpLT(fp(lo), z3.fpNeg(FMAX))), nbig, lo)
    hi2 = z3.If(z3.And(single, z3.fpGT(fp(hi), FMAX)), big, hi)
    bad = z3.Or(z3.fpLT(fp(v), fp(lo2)), z3.fpGT(fp(v), fp(hi2)))
    f = ctx.fn(r'^e57::FloatNode::FloatNode\(e57::ImageFile const&, double, e57::FloatPrecision, double, double\)$')
    numbers = z3.Not(z3.Or(*[z3.fpIsNaN(fp(x)) for x in (v, lo, hi)]))

    def extra(s):
        e.prove(s, z3.Implies(z3.And(single, numbers), z3.And(z3.fpLEQ(fp(v), FMAX), z3.fpGEQ(fp(v), z3.fpNeg(FMAX)))), 'a single-precision element holds no value beyond single range')
    decide(e, ctx, st, this, h, f, [v, prec, lo, hi], z3.Not(bad), 'FloatNode',
           {'value': (64, v), 'precision': (32, prec), 'minimum': (64, lo2), 'maximum': (64, hi2)}, extra)


UNITS = [Unit('integer', integer)] + [Unit('scaled ' + ' '.join(k), scaled, arg=k) for k in (('long', 'long', 'long'), ('int', 'long', 'long'), ('int', 'int', 'int'))] + [
    Unit('scaled real', scaled_real), Unit('float', real)]
ASSUMPTIONS = ['the file is open (closed files: C15)', 'double arithmetic of scaled values is uninterpreted: code and specification use the same operations in the same order',
               'NaN is neither below a minimum nor above a maximum']

import z3
from ..sym import Ptr, State, Region, Store, Func, Base, ULT, ULE, bv, simp, zb, ite, isc
from ..ir import I
from ..unit import Unit
from ..models import RET
from ..filemodel import B
from .. import lfile

NATIVE = 'c04'
NATIVE_MS = 9000
SB = 'e57::SourceDestBufferImpl'
TYPES = {8: 'unsigned char', 16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}
W = z3.BitVecSort(64)
V = z3.Function('value', W, W)                      # d-th value supplied by the user's buffer
D, T = z3.BitVecs('D T', 64)                        # an arbitrary record, an arbitrary bit of it


def register(b):
    return 8 if b <= 8 else 16 if b <= 16 else 32 if b <= 32 else 64


def bit(lay, p):
    """bit p of a byte sequence, least significant first"""
    p = B(p)
    return z3.Extract(0, 0, z3.LShR(bv(lay.read(simp(z3.LShR(p, 3))), 8), z3.Extract(7, 0, p & 7)))


def bit_of(x, t):
    return z3.Extract(0, 0, z3.LShR(x, t))


def user_buffer(e, st):
    u = Region('userBuffer')
    st.mem[u] = {}
    cap, nx = z3.BitVecs('capacity nextIndex', 64)
    st.assume(z3.And(ULT(cap, B(1 << 32)), ULE(nx, cap)))
    st.mem[u][e.off(SB, 'capacity_')] = (8, cap)
    st.mem[u][e.off(SB, 'nextIndex_')] = (4, z3.Extract(31, 0, nx))
    return u, cap, nx


def limits(st, b):
    mn, mx = z3.BitVecs('minimum maximum', 64)
    d = mx - mn
    st.assume(mn < mx)
    if b < 64:
        st.assume(ULT(d, B(1 << b)))
    st.assume(ULE(B(1 << (b - 1)), d))
    return mn, mx


def decode(ctx, b):
    """inputProcessAligned, for one bit width and any minimum, position, amount of input and room: delivers, in order and without gaps, the largest number of whole records
    that fit, each value being the minimum plus its bits in the stream (least significant first), and reports exactly the bits used"""
    R = register(b)
    e = ctx.engine()
    e.fpmode = 'uf'
    st = State()
    cls = 'e57::BitpackIntegerDecoder<%s>' % TYPES[R]
    d = Region('decoder')
    st.mem[d] = {}
    u, cap, nx = user_buffer(e, st)
    mn, mx = limits(st, b)
    cur, mxr, fb, eb, size = z3.BitVecs('currentRecordIndex_ maxRecordCount_ firstBit endBit size', 64)
    scaled = z3.BitVec('scaled', 8)
    st.assume(ULE(scaled, 1))
    c = st.mem[d]
    c[e.off('e57::BitpackDecoder', 'destBuffer_')] = (8, Ptr(u))
    c[e.off('e57::BitpackDecoder', 'currentRecordIndex_')] = (8, cur)
    c[e.off('e57::BitpackDecoder', 'maxRecordCount_')] = (8, mxr)
    c[e.off(cls, 'isScaledInteger_')] = (1, scaled)
    c[e.off(cls, 'minimum_')], c[e.off(cls, 'maximum_')] = (8, mn), (8, mx)
    c[e.off(cls, 'scale_')], c[e.off(cls, 'offset_')] = (8, z3.BitVec('scale', 64)), (8, z3.BitVec('offset', 64))
    c[e.off(cls, 'bitsPerRecord_')] = (4, b)
    c[e.off(cls, 'destBitMask_')] = (R // 8, (1 << b) - 1)
    st.assume(z3.And(ULE(cur, mxr), ULT(fb, B(R)), ULE(fb, eb), ULE(eb, size * 8), ULE(size, B(65536)), z3.URem(size, B(R // 8)) == 0))
    inb = e.new_bytes(st, 'inbuf', size)
    lay = st.mem[inb]
    st.ghost['n'], st.ghost['pos'] = B(0), fb

    def put(eng, s, a, name):
        v, k = B(a[1]), B(s.ghost['n'])
        eng.prove(s, z3.Implies(ULT(T, B(b)), bit_of(v - mn, T) == bit(lay, B(s.ghost['pos']) + T)), 'each bit of the value is the stream\'s')
        if b < 64:
            eng.prove(s, ULT(v - mn, B(1 << b)), 'no bits beyond the declared width')
        eng.prove(s, z3.BoolVal(a[0].reg is u), 'goes to the user\'s buffer')
        eng.prove(s, (scaled == 1) if len(a) > 2 else (scaled == 0), 'scaled exactly if the field is')
        if len(a) > 2:
            eng.prove(s, z3.And(B(a[2]) == z3.BitVec('scale', 64), B(a[3]) == z3.BitVec('offset', 64)), 'the field\'s scale and offset')
        bad = s.fork()
        s.set('n', simp(k + 1))
        s.set('pos', simp(B(s.ghost['pos']) + b))
        return eng.throw_e57(bad, 6) + RET(s)
    e.model(r'^e57::SourceDestBufferImpl::setNextInt64\(', put)

    def template(eng, L, ev):
        k = [x for x in L.keys if x[-1] == 32]
        q = [x for x in L.keys if x[-1] == 64]
        z = lambda x: z3.ZeroExt(32, x)
        for w in k:
            for o in q:
                yield '!%s words and %s bits' % (w[1], o[1]), lambda v, w=w, o=o: z(v.num(w)) * R + v.num(o) == B(v.ghost('pos'))
        for w in q:
            for o in q:
                if w != o:
                    yield '!%s words and %s bits' % (w[1], o[1]), lambda v, w=w, o=o: v.num(w) * R + v.num(o) == B(v.ghost('pos'))
        for o in q:
            yield '!%s in a word' % o[1], lambda v, o=o: ULT(v.num(o), B(R))
            yield '!%s counts' % o[1], lambda v, o=o: B(v.ghost('n')) == v.num(o)
        yield '!position', lambda v: z3.And(B(v.ghost('pos')) == fb + B(v.ghost('n')) * b, ULE(B(v.ghost('n')), eb))
    e.templates.append(template)
    lo = lambda x, y: z3.If(ULT(x, y), x, y)
    n = lo(lo(cap - nx, z3.UDiv(eb - fb, B(b))), mxr - cur)
    for o in e.call(st, ctx.fn(r'^e57::BitpackIntegerDecoder<%s>::inputProcessAligned\(' % TYPES[R]), [Ptr(d), Ptr(inb), fb, eb]):
        s = o.st
        if o.kind != 'ret':
            e.prove(s, o.val.code == 6, 'fails only if the buffer refuses the value')
            continue
        e.cover(s, 'returns')
        e.prove(s, B(s.ghost['n']) == n, 'as many records as there are input, room and records left')
        e.prove(s, B(s.ghost['pos']) == fb + n * b, 'record n starts n widths after the first')
        e.prove(s, B(o.val) == n * b, 'reports the bits used')
        e.prove(s, B(e.load(s, Ptr(d, e.off('e57::BitpackDecoder', 'currentRecordIndex_')), I(64))) == cur + n, 'the records are counted')


def width(ctx):
    """bitsNeeded, for every pair of limits: the smallest width that holds the range"""
    e = ctx.engine()
    st = State()
    im = Region('image')
    st.mem[im] = {}
    mn, mx = z3.BitVecs('minimum maximum', 64)
    st.assume(mn <= mx)
    f = ctx.fn(r'^e57::ImageFileImpl::bitsNeeded\(')
    for o in e.call(st, f, [Ptr(im), mn, mx][-len(e.mod.fn(f).params):]):
        s = o.st
        e.prove(s, z3.BoolVal(o.kind == 'ret'), 'never fails')
        e.cover(s, 'returns')
        r, d = z3.ZeroExt(32, bv(o.val, 32)), mx - mn
        e.prove(s, z3.And(ULE(r, 64), z3.Or(r == 64, ULT(d, B(1) << r))), 'the range fits')
        e.prove(s, z3.Or(r == 0, ULE(B(1) << (r - 1), d)), 'one bit less would not do')


BE = 'e57::BitpackEncoder'


def encoder(e, st, b, R, cls):
    own = lambda eng, s, a, x: eng.call(s, eng.mod.find(r'^e57::BitpackEncoder::outputAvailable\(')[0], a)
    q = lfile.vobject(e, st, 'encoder', lambda slot: own if slot == 7 else None)
    capw, first, endw, cur = z3.BitVecs('capacityWords first endWords currentRecordIndex_', 64)
    cap, end = capw * (R // 8), endw * (R // 8)
    st.assume(ULT(cur, B(1 << 60)))
    st.assume(z3.And(ULT(B(1), capw), ULE(capw, B(1 << 27)), ULE(first, end), ULE(endw, capw)))
    out = e.new_bytes(st, 'outBuffer', cap)
    c = st.mem[q]
    o = e.off(BE, 'outBuffer_')
    c[o], c[o + 8], c[o + 16] = (8, Ptr(out, 0)), (8, Ptr(out, cap)), (8, Ptr(out, cap))
    for m, v in (('outBufferFirst_', first), ('outBufferEnd_', end), ('outBufferAlignmentSize_', R // 8), ('currentRecordIndex_', cur)):
        c[e.off(BE, m)] = (8, v)
    used, reg = z3.BitVec('registerBitsUsed_', 32), z3.BitVec('register_', R)
    st.assume(ULT(used, R))
    z = z3.ZeroExt(64 - R, reg) if R < 64 else reg
    st.assume(z3.LShR(z, z3.ZeroExt(32, used)) == 0)            # invariant of the class: nothing above the bits used
    c[e.off(cls, 'registerBitsUsed_')] = (4, used)
    c[e.off(cls, 'register_')] = (R // 8, reg)
    return q, out, cap, first, end, cur, z3.ZeroExt(32, used), z


def shifted(e, q, out, cap, align):
    """outBufferShiftDown by its contract: the queue is moved, whole, to where its end is the first aligned position"""
    def go(eng, s, a, name):
        ld = lambda m: B(eng.load(s, Ptr(q, eng.off(BE, m)), I(64)))
        f, n = ld('outBufferFirst_'), ld('outBufferEnd_')
        f1, w = eng.fresh('shifted.first', 64), eng.fresh('shifted.words', 64)
        e1 = w * align
        s.assume(ULE(w, B(1 << 30)))
        s.assume(z3.And(e1 - f1 == n - f, ULE(f1, e1), ULE(e1, cap), ULT(e1, n - f + align)))
        old = eng.to_bytes(s, out)
        base = Base('shifted')
        s.mem[out] = Func(lambda j: ite(simp(z3.And(ULE(f1, B(j)), ULT(B(j), e1))), old.read(simp(B(j) - f1 + f)), base.read(j), 8))
        if s.log is not None:
            s.log.add(('mem', out, 'bytes', 0))
        eng.store(s, Ptr(q, eng.off(BE, 'outBufferFirst_')), I(64), f1)
        eng.store(s, Ptr(q, eng.off(BE, 'outBufferEnd_')), I(64), e1)
        return RET(s)
    e.model(r'^e57::BitpackEncoder::outBufferShiftDown\(', go)


def encode(ctx, b):
    """processRecords, for one bit width and any limits, values, queue contents and request: takes the next values in order, as many as fit, and appends to the stream each
    value's offset from the minimum in exactly that many bits, least significant first, with no gaps and nothing already in the stream disturbed; a value outside the limits
    is refused"""
    R = register(b)
    e = ctx.engine()
    e.fpmode = 'uf'
    e.bit_ms = 8000
    st = State()
    cls = 'e57::BitpackIntegerEncoder<%s>' % TYPES[R]
    q, out, cap, first, end, cur, used, reg = encoder(e, st, b, R, cls)
    shifted(e, q, out, cap, R // 8)
    u = Region('userBuffer')
    st.mem[u] = {}
    mn, mx = limits(st, b)
    scaled = z3.BitVec('scaled', 8)
    st.assume(ULE(scaled, 1))
    c = st.mem[q]
    c[e.off(BE, 'sourceBuffer_')] = (8, Ptr(u))
    c[e.off(cls, 'isScaledInteger_')] = (1, scaled)
    c[e.off(cls, 'minimum_')], c[e.off(cls, 'maximum_')] = (8, mn), (8, mx)
    c[e.off(cls, 'scale_')], c[e.off(cls, 'offset_')] = (8, z3.BitVec('scale', 64)), (8, z3.BitVec('offset', 64))
    c[e.off(cls, 'bitsPerRecord_')] = (4, b)
    c[e.off(cls, 'sourceBitMask_')] = (8, (1 << b) - 1)
    req = z3.BitVec('recordCount', 64)
    st.assume(ULE(req, B(0xffffffff)))
    lay0 = st.mem[out]
    st.ghost['n'], st.ghost['pos'], st.ghost['P'] = B(0), used, z3.BitVec('P0', 64)     # values taken; stream bits after the queued bytes; where record D's bits are
    J = z3.BitVec('J', 64)
    st.assume(ULT(T, B(b)))

    def get(eng, s, a, name):
        k = B(s.ghost['n'])
        eng.prove(s, z3.BoolVal(a[0].reg is u), 'taken from the user\'s buffer')
        eng.prove(s, (scaled == 1) if len(a) > 1 else (scaled == 0), 'scaled exactly if the field is')
        if len(a) > 1:
            eng.prove(s, z3.And(B(a[1]) == z3.BitVec('scale', 64), B(a[2]) == z3.BitVec('offset', 64)), 'the field\'s scale and offset')
        bad = s.fork()
        bad.set('src', True)
        s.set('P', simp(z3.If(k == D, B(s.ghost['pos']), B(s.ghost['P']))))
        s.set('n', simp(k + 1))
        s.set('pos', simp(B(s.ghost['pos']) + b))
        return eng.throw_e57(bad, 6) + RET(s, V(k))
    st.ghost['src'] = False
    e.model(r'^e57::SourceDestBufferImpl::getNextInt64\(', get)

    def stored(v, p, words, start, regv):
        """bit p after `start`: in the words already moved out, else in the register"""
        lay = v.layer(out)
        return z3.If(ULT(p, words * R), bit(Shift(lay, start), p), bit_of(regv, p - words * R))

    ro, uo = e.off(cls, 'register_'), e.off(cls, 'registerBitsUsed_')

    def regs(v):
        st_ = v.st
        r = e.load(st_, Ptr(q, ro), I(R))
        n = e.load(st_, Ptr(q, uo), I(32))
        r = bv(r, R)
        return (z3.ZeroExt(64 - R, r) if R < 64 else r), z3.ZeroExt(32, bv(n, 32))

    def template(eng, L, ev):
        if not any(m[0] == 'ghost' and m[1] == 'n' for m in L.mods):
            return
        start = B(e.load(L.entry_st, Ptr(q, e.off(BE, 'outBufferEnd_')), I(64)))
        lay1 = ev.layer(out)
        yield '!register holds its bits only', lambda v: z3.And(z3.LShR(regs(v)[0], regs(v)[1]) == 0, ULT(regs(v)[1], B(R)))
        yield '!position', lambda v: B(v.ghost('pos')) == used + B(v.ghost('n')) * b
        yield '!number of values', lambda v: z3.And(ULE(B(v.ghost('n')), req), ULE(B(v.ghost('pos')), B(1 << 40)))
        yield '!earlier output kept', lambda v: z3.Implies(ULT(J, start), bv(v.layer(out).read(J), 8) == bv(lay1.read(J), 8))
        yield '!record position', lambda v: z3.Implies(ULT(D, B(v.ghost('n'))), z3.And(ULE(used, B(v.ghost('P'))), ULE(B(v.ghost('P')) + b, B(v.ghost('pos')))))
        yield '!record start', lambda v: z3.Implies(ULT(D, B(v.ghost('n'))), B(v.ghost('P')) == used + D * b)
        yield '!values in range', lambda v: z3.Implies(ULT(D, B(v.ghost('n'))), z3.And(mn <= V(D), V(D) <= mx))
        for k in L.keys:
            if k[-1] not in (32, 64):
                continue
            n = lambda v, k=k: v.num(k) if k[-1] == 64 else z3.ZeroExt(32, v.num(k))
            if k[0] == 'ghost':
                continue
            yield '!%s words moved out' % k[1], lambda v, n=n: z3.And(n(v) * R + regs(v)[1] == B(v.ghost('pos')), ULE(n(v) * (R // 8), cap - start))
            yield '!%s counts' % k[1], lambda v, n=n: n(v) == B(v.ghost('n'))
            if k[0] == 'phi':
                yield '!record bits in %s words and register' % k[1], lambda v, n=n: z3.Implies(ULT(D, B(v.ghost('n'))), stored(v, B(v.ghost('P')) + T, n(v), start, regs(v)[0]) == bit_of(V(D) - mn, T))
                yield '!pending bits in %s words and register' % k[1], lambda v, n=n: z3.Implies(ULT(J, used), stored(v, J, n(v), start, regs(v)[0]) == bit_of(reg, J))
    e.templates.append(template)
    pending = end - first
    for o in e.call(st, ctx.fn(r'^e57::BitpackIntegerEncoder<%s>::processRecords\(' % TYPES[R]), [Ptr(q), req]):
        s = o.st
        ld = lambda m: B(e.load(s, Ptr(q, e.off(BE, m)), I(64)))
        n = B(s.ghost['n'])
        if o.kind != 'ret':
            e.cover(s, 'refuses')
            e.prove(s, z3.Or(zb(s.ghost['src']), z3.And(o.val.code == 35, z3.Or(V(n - 1) < mn, mx < V(n - 1)))), 'fails only on a value outside the limits or one the buffer cannot supply')
            e.prove(s, ld('currentRecordIndex_') == cur, 'a refused record is not counted')
            e.prove(s, ld('outBufferEnd_') - ld('outBufferFirst_') == pending, 'nothing is added to the output')
            continue
        e.cover(s, 'returns')
        f1, e1 = ld('outBufferFirst_'), ld('outBufferEnd_')
        lay = e.to_bytes(s, out)
        r1, u1 = regs(type('S', (), {'st': s}))
        e.prove(s, z3.And(ULE(f1, e1), ULE(e1, cap), z3.URem(e1, B(R // 8)) == 0, ULT(u1, B(R)), z3.LShR(r1, u1) == 0), 'the encoder\'s invariant holds again')
        e.prove(s, ld('currentRecordIndex_') - cur == n, 'the records taken are counted')
        e.prove(s, B(o.val) == ld('currentRecordIndex_'), 'the count is reported')
        e.prove(s, z3.And(ULE(n, req), z3.Implies(ULT(n, req), ULT(cap - (f1 + pending), (n + 1) * b + B(R)))), 'as many as requested, or as many as fit')
        e.prove(s, z3.Implies(z3.And(ULE(f1, J), ULT(J, f1 + pending)), bv(lay.read(J), 8) == bv(lay0.read(simp(first + J - f1)), 8)), 'earlier output is kept')
        at = f1 + pending
        moved = (e1 - at) * 8
        e.prove(s, moved + u1 == used + n * b, 'exactly that many bits per record are added')
        now = lambda p: z3.If(ULT(p, moved), bit(Shift(lay, at), p), bit_of(r1, p - moved))
        e.prove(s, z3.Implies(ULT(J, used), now(J) == bit_of(reg, J)), 'bits not yet moved out are kept')
        e.prove(s, z3.Implies(ULT(D, n), now(B(s.ghost['P']) + T) == bit_of(V(D) - mn, T)), 'each record is its offset from the minimum, least significant bit first')
        e.prove(s, z3.Implies(ULT(D, n), B(s.ghost['P']) == used + D * b), 'with no gaps')
        e.prove(s, z3.Implies(ULT(D, n), z3.And(mn <= V(D), V(D) <= mx)), 'only values inside the limits are taken')


class Shift:
    def __init__(self, lay, off):
        self.lay, self.o = lay, off

    def read(self, j):
        return self.lay.read(simp(self.o + j))


def flush(ctx, R):
    """registerFlushToOutput: the bits in the register, padded with zeros to a whole register, go to the end of the output, or nothing changes and the answer is no"""
    e = ctx.engine()
    st = State()
    cls = 'e57::BitpackIntegerEncoder<%s>' % TYPES[R]
    q, out, cap, first, end, cur, used, reg = encoder(e, st, 1, R, cls)
    lay0 = st.mem[out]
    J = z3.BitVec('J', 64)
    for o in e.call(st, ctx.fn(r'^e57::BitpackIntegerEncoder<%s>::registerFlushToOutput\(' % TYPES[R]), [Ptr(q)]):
        s = o.st
        e.prove(s, z3.BoolVal(o.kind == 'ret'), 'never fails')
        if o.kind != 'ret':
            continue
        e.cover(s, 'returns')
        ld = lambda m: B(e.load(s, Ptr(q, e.off(BE, m)), I(64)))
        f1, e1 = ld('outBufferFirst_'), ld('outBufferEnd_')
        lay = e.to_bytes(s, out)
        r1, u1 = bv(e.load(s, Ptr(q, e.off(cls, 'register_')), I(R)), R), bv(e.load(s, Ptr(q, e.off(cls, 'registerBitsUsed_')), I(32)), 32)
        yes = zb(o.val)
        e.prove(s, z3.And(f1 == first, z3.Implies(ULT(J, end), bv(lay.read(J), 8) == bv(lay0.read(J), 8))), 'earlier output is kept')
        e.prove(s, z3.Implies(z3.Not(yes), z3.And(e1 == end, z3.ZeroExt(32, u1) == used, (z3.ZeroExt(64 - R, r1) if R < 64 else r1) == reg)), 'when refused nothing changes')
        e.prove(s, z3.Implies(z3.Not(yes), ULE(cap - end, B(R // 8))), 'refused only when the output is full')
        e.prove(s, z3.Implies(yes, z3.And(r1 == 0, u1 == 0, e1 == z3.If(used == 0, end, end + R // 8))), 'the register is empty afterwards')
        word = z3.Concat(*[bv(lay.read(simp(end + k)), 8) for k in reversed(range(R // 8))]) if R > 8 else bv(lay.read(end), 8)
        e.prove(s, z3.Implies(z3.And(yes, used != 0), (z3.ZeroExt(64 - R, word) if R < 64 else word) == reg), 'its bits are the end of the output')


def feed(ctx, arg):
    """inputProcess, for one word size and any stored and offered bytes, whatever the field's decoder uses of them: each call hands the decoder, aligned, exactly the stream
    that follows the bits used so far; bytes taken are the next of the stream and none is lost or repeated"""
    Wd, null = arg
    e = ctx.engine()
    st = State()
    BD = 'e57::BitpackDecoder'
    G = z3.Function('stream', W, z3.BitVecSort(8))
    fbit, end, avail = z3.BitVecs('inBufferFirstBit_ inBufferEndByte_ availableByteCount', 64)
    X = z3.BitVec('X', 64)
    size = 1024
    st.ghost['pos'], st.ghost['eaten'] = fbit, B(0)

    def aligned(eng, s, a, x):
        i, fb, eb, pos = a[1], B(a[2]), B(a[3]), B(s.ghost['pos'])
        eng.prove(s, z3.BoolVal(i.reg is inb), 'the decoder is handed the stored bytes')
        o = B(i.off)
        eng.prove(s, z3.And(ULE(o, B(size)), ULE(eb, (B(size) - o) * 8), ULE(fb, eb), ULT(fb, B(Wd)), z3.URem(o, B(Wd // 8)) == 0), 'aligned, within the buffer')
        eng.prove(s, z3.And(ULE(fb, pos), z3.URem(pos - fb, B(8)) == 0), 'on a byte of the stream')
        eng.prove(s, z3.Implies(ULT(X, z3.LShR(eb, 3)), bv(eng.to_bytes(s, inb).read(simp(o + X)), 8) == G(z3.LShR(pos - fb, 3) + X)), 'which is the stream after what was used')
        bad = s.fork()
        n = eng.fresh('used', 64)
        s.assume(ULE(n, eb - fb))
        s.set('pos', simp(pos + n))
        s.set('eaten', n)
        s.set('called', True)
        return eng.throw_e57(bad, 6) + RET(s, n)
    st.ghost['called'] = False
    d = lfile.vobject(e, st, 'decoder', lambda slot: aligned if slot >= 5 else None)
    inb = e.new_bytes(st, 'inBuffer', size)
    lay = Base('inBuffer0')
    st.mem[inb] = Func(lambda j: ite(simp(ULT(B(j), end)), G(B(j)), lay.read(j), 8))
    src = e.new_bytes(st, 'source', avail)
    st.mem[src] = Func(lambda j: G(simp(end + B(j))))
    st.assume(z3.And(ULE(end, B(size)), ULT(fbit, B(Wd)), ULE(fbit, end * 8), ULE(avail, B(65536))))
    if null:
        st.assume(avail == 0)
    c = st.mem[d]
    o = e.off(BD, 'inBuffer_')
    c[o], c[o + 8], c[o + 16] = (8, Ptr(inb, 0)), (8, Ptr(inb, size)), (8, Ptr(inb, size))
    c[e.off(BD, 'inBufferFirstBit_')], c[e.off(BD, 'inBufferEndByte_')] = (8, fbit), (8, end)
    c[e.off(BD, 'inBufferAlignmentSize_')] = (4, Wd // 8)
    c[e.off(BD, 'bitsPerWord_')], c[e.off(BD, 'bytesPerWord_')] = (4, Wd), (4, Wd // 8)
    f1 = lambda v: B(e.load(v.st, Ptr(d, e.off(BD, 'inBufferFirstBit_')), I(64)))
    n1 = lambda v: B(e.load(v.st, Ptr(d, e.off(BD, 'inBufferEndByte_')), I(64)))
    base = lambda v: z3.LShR(B(v.ghost('pos')) - f1(v), 3)

    def template(eng, L, ev):
        yield '!stored', lambda v: z3.And(ULT(f1(v), B(Wd)), ULE(f1(v), n1(v) * 8), ULE(n1(v), B(size)), ULE(f1(v), B(v.ghost('pos'))), z3.URem(B(v.ghost('pos')) - f1(v), B(8)) == 0)
        for k in L.keys:
            if k[0] == 'phi' and k[-1] == 64:
                yield '!%s left of the input' % k[1], lambda v, k=k: z3.And(ULE(v.num(k), avail), base(v) + n1(v) == end + avail - v.num(k))
                yield '!%s used of the input' % k[1], lambda v, k=k: z3.And(ULE(v.num(k), avail), base(v) + n1(v) == end + v.num(k))

    def layers(eng, L, ev, t):
        if t == ('mem', inb):
            yield '!stored bytes are the stream', lambda v: (lambda q: ULT(B(q), n1(v)), lambda q: G(simp(base(v) + B(q))))
    e.templates.append(template)
    e.layer_templates.append(layers)
    for o in e.call(st, ctx.fn(r'^e57::BitpackDecoder::inputProcess\('), [Ptr(d), Ptr(None, 0) if null else Ptr(src), avail]):
        s = o.st
        if o.kind != 'ret':
            e.prove(s, o.val.code == 6, 'fails only as the field\'s decoder does')
            continue
        e.cover(s, 'returns')
        v = type('S', (), {'st': s, 'ghost': lambda self, n: s.ghost[n]})()
        r = B(o.val)
        e.prove(s, z3.And(ULT(f1(v), B(Wd)), ULE(f1(v), n1(v) * 8), ULE(n1(v), B(size)), z3.URem(B(s.ghost['pos']) - f1(v), B(8)) == 0), 'the decoder\'s invariant holds again')
        e.prove(s, z3.And(ULE(r, avail), base(v) + n1(v) == end + r), 'every byte taken is stored or used')
        e.prove(s, z3.Implies(ULT(X, n1(v)), bv(e.to_bytes(s, inb).read(X), 8) == G(base(v) + X)), 'the stored bytes are the stream after what was used')
        e.prove(s, zb(s.ghost['called']), 'the field\'s decoder is run')
        e.prove(s, z3.Or(r == avail, B(s.ghost['eaten']) == 0), 'stops early only when the field\'s decoder can use no more')


def constant(ctx, which):
    """fields whose limits are equal: the writer takes every record and refuses a value other than the constant, the reader delivers the constant for as many records as there
    are room and records left"""
    e = ctx.engine()
    e.fpmode = 'uf'
    st = State()
    cls = 'e57::ConstantInteger%s' % which
    q = Region('coder')
    st.mem[q] = {}
    u, cap, nx = user_buffer(e, st)
    cur, mxr, req, mn = z3.BitVecs('currentRecordIndex_ maxRecordCount_ recordCount minimum', 64)
    scaled = z3.BitVec('scaled', 8)
    st.assume(z3.And(ULE(scaled, 1), ULE(cur, mxr), ULE(mxr, B(1 << 60)), ULE(req, B(0xffffffff))))
    c = st.mem[q]
    for m, v, n in (('isScaledInteger_', scaled, 1), ('minimum_', mn, 8), ('scale_', z3.BitVec('scale', 64), 8), ('offset_', z3.BitVec('offset', 64), 8), ('currentRecordIndex_', cur, 8)):
        c[e.off('e57::ConstantInteger' + which, m)] = (n, v)
    c[e.off(cls, 'destBuffer_' if which == 'Decoder' else 'sourceBuffer_')] = (8, Ptr(u))
    if which == 'Decoder':
        c[e.off(cls, 'maxRecordCount_')] = (8, mxr)
    st.ghost['n'], st.ghost['src'] = B(0), False

    def touch(eng, s, a, name):
        k = B(s.ghost['n'])
        p = a[1:] if which == 'Encoder' else a[2:]
        eng.prove(s, z3.BoolVal(a[0].reg is u), 'the user\'s buffer')
        eng.prove(s, (scaled == 1) if p else (scaled == 0), 'scaled exactly if the field is')
        if p:
            eng.prove(s, z3.And(B(p[0]) == z3.BitVec('scale', 64), B(p[1]) == z3.BitVec('offset', 64)), 'the field\'s scale and offset')
        if which == 'Decoder':
            eng.prove(s, B(a[1]) == mn, 'the value is the constant')
        bad = s.fork()
        bad.set('src', True)
        s.set('n', simp(k + 1))
        return eng.throw_e57(bad, 6) + RET(s, *([V(k)] if which == 'Encoder' else []))
    e.model(r'^e57::SourceDestBufferImpl::[gs]etNextInt64\(', touch)

    def template(eng, L, ev):
        yield '!values so far', lambda v: z3.Implies(ULT(D, B(v.ghost('n'))), V(D) == mn)
        for k in L.keys:
            if k[0] == 'phi':
                yield '!%s counts' % k[1], lambda v, k=k: (v.num(k) if k[-1] == 64 else z3.ZeroExt(32, v.num(k))) == B(v.ghost('n')) if k[-1] in (32, 64) else z3.BoolVal(True)
    e.templates.append(template)
    lo = lambda x, y: z3.If(ULT(x, y), x, y)
    want = req if which == 'Encoder' else lo(cap - nx, mxr - cur)
    f = ctx.fn(r'^e57::ConstantIntegerEncoder::processRecords\(' if which == 'Encoder' else r'^e57::ConstantIntegerDecoder::inputProcess\(')
    for o in e.call(st, f, [Ptr(q), req] if which == 'Encoder' else [Ptr(q), Ptr(None, 0), B(0)]):
        s = o.st
        n = B(s.ghost['n'])
        now = B(e.load(s, Ptr(q, e.off(cls, 'currentRecordIndex_')), I(64)))
        if o.kind != 'ret':
            e.prove(s, zb(s.ghost['src']) if which == 'Decoder' else z3.Or(zb(s.ghost['src']), z3.And(o.val.code == 35, V(n - 1) != mn)), 'fails only on a value that is not the constant or one the buffer refuses')
            e.prove(s, now == cur, 'a refused record is not counted')
            continue
        e.cover(s, 'returns')
        e.prove(s, z3.And(n == want, now == cur + n), 'every record is taken and counted')
        if which == 'Encoder':
            e.prove(s, z3.Implies(ULT(D, n), V(D) == mn), 'each being the constant')
            e.prove(s, B(o.val) == now, 'reports the records counted')


QUICK = (1, 3, 8, 9, 13, 16, 17, 24, 31, 32, 33, 48, 53, 63, 64)
UNITS = [Unit('bit width', width)] + [Unit('flush %d' % R, flush, arg=R) for R in TYPES] + \
    [Unit('constant %s' % w, constant, arg=w) for w in ('Encoder', 'Decoder')] + \
    [Unit('feed %d bit words%s' % (R, ', no input' if n else ''), feed, arg=(R, n)) for R in TYPES for n in (False, True)] + \
    [Unit('encode %d bits' % b, encode, arg=b, budget=400, thorough=b not in QUICK) for b in reversed(range(1, 65))] + \
    [Unit('decode %d bits' % b, decode, arg=b) for b in range(1, 65)]
ASSUMPTIONS = [
    'bit widths are enumerated, not quantified: 1..64 for decoding in both tiers; for encoding %s in the quick tier and 1..64 in the thorough tier; limits, values, positions, counts and buffer contents are arbitrary' % (QUICK,),
    'getNextInt64/setNextInt64 by contract: supply or store one value, or refuse it (C06, C07 decide them); they do not touch the coder',
    'at most 2^32-1 records per call and 2^60 per field, an output buffer of 2 to 2^27 words whose size is a multiple of the word, an input buffer of 1024 bytes',
    'constructors and the factories that choose the word size from the limits (EncoderFactory, DecoderFactory) are run natively, not under contract: the masks and widths they store are assumed here',
    'outBufferShiftDown by the contract decided in C11',
]

import z3
from ..sym import Ptr, State, Region, Func, Base, ULT, ULE, bv, simp, zb, ite
from ..ir import I
from ..unit import Unit
from ..models import RET
from ..filemodel import B
from .. import lfile, flatstr
from .c04 import user_buffer, shifted, feed, BE, Shift
from . import c11

NATIVE = 'c05'
NATIVE_MS = 10000
W = z3.BitVecSort(64)
BD = 'e57::BitpackDecoder'
D, T, J = z3.BitVecs('D T J', 64)               # an arbitrary record, an arbitrary byte of it, an arbitrary byte of the output
lo = lambda x, y: z3.If(ULT(x, y), x, y)


def byte_of(x, t):
    return z3.Extract(7, 0, z3.LShR(x, t * 8))


def real_decode(ctx, size):
    """BitpackFloatDecoder: delivers, in order, the largest number of whole values that fit, each with exactly the stream's bits"""
    e = ctx.engine()
    e.fpmode = 'uf'
    st = State()
    cls = 'e57::BitpackFloatDecoder'
    d = Region('decoder')
    st.mem[d] = {}
    u, cap, nx = user_buffer(e, st)
    cur, mxr, eb, n8 = z3.BitVecs('currentRecordIndex_ maxRecordCount_ endBit size', 64)
    c = st.mem[d]
    c[e.off(BD, 'destBuffer_')] = (8, Ptr(u))
    c[e.off(BD, 'currentRecordIndex_')], c[e.off(BD, 'maxRecordCount_')] = (8, cur), (8, mxr)
    c[e.off(cls, 'precision_')] = (4, 1 if size == 4 else 2)
    e.bit_ms = 4000
    st.assume(z3.And(ULE(cur, mxr), ULE(eb, n8 * 8), ULE(n8, B(65536))))
    inb = e.new_bytes(st, 'inbuf', n8)
    lay = st.mem[inb]
    st.ghost['n'] = B(0)
    stored = z3.Concat(*[bv(lay.read(simp(D * size + k)), 8) for k in reversed(range(size))])

    def store(eng, s, a, name):
        k = B(s.ghost['n'])
        eng.prove(s, z3.BoolVal(('setNextFloat(' in eng.mod.dem.get(name, name)) == (size == 4) and a[0].reg is u), 'handed over in the field\'s own precision to the user\'s buffer')
        eng.prove(s, z3.Implies(k == D, bv(a[1], size * 8) == stored), 'the value has the stream\'s bits')
        bad = s.fork()
        s.set('n', simp(k + 1))
        return eng.throw_e57(bad, 6) + RET(s)
    e.model(r'^e57::SourceDestBufferImpl::setNext(Float|Double|Real)', store)

    def template(eng, L, ev):
        yield '!some', lambda v: ULE(B(v.ghost('n')), B(65536))
        for k in L.keys:
            if k[-1] in (32, 64) and k[0] != 'ghost':
                z = lambda v, k=k: v.num(k) if k[-1] == 64 else z3.ZeroExt(32, v.num(k))
                yield '!%s counts' % k[1], lambda v, z=z: z(v) == B(v.ghost('n'))
                yield '!%s is at' % k[1], lambda v, z=z: z(v) == B(v.ghost('n')) * size
    e.templates.append(template)
    n = lo(lo(cap - nx, z3.UDiv(eb, B(8 * size))), mxr - cur)
    for o in e.call(st, ctx.fn(r'^e57::BitpackFloatDecoder::inputProcessAligned\('), [Ptr(d), Ptr(inb), B(0), eb]):
        s = o.st
        if o.kind != 'ret':
            e.prove(s, o.val.code == 6, 'fails only if the buffer refuses the value')
            continue
        e.cover(s, 'returns')
        e.prove(s, B(s.ghost['n']) == n, 'as many values as there are input, room and records left')
        e.prove(s, B(o.val) == n * 8 * size, 'reports the bits used')
        e.prove(s, B(e.load(s, Ptr(d, e.off(BD, 'currentRecordIndex_')), I(64))) == cur + n, 'the records are counted')


def encoder(e, st, align, kind):
    own = lambda eng, s, a, x: eng.call(s, eng.mod.find(r'^e57::BitpackEncoder::outputAvailable\(')[0], a)
    q = lfile.vobject(e, st, kind, lambda slot: own if slot == 7 else None)
    capw, first, endw, cur = z3.BitVecs('capacityWords first endWords currentRecordIndex_', 64)
    cap, end = capw * align, endw * align
    st.assume(z3.And(ULT(B(1), capw), ULE(capw, B(1 << 27)), ULE(first, end), ULE(endw, capw), ULT(cur, B(1 << 60))))
    out = e.new_bytes(st, 'outBuffer', cap)
    c = st.mem[q]
    o = e.off(BE, 'outBuffer_')
    c[o], c[o + 8], c[o + 16] = (8, Ptr(out, 0)), (8, Ptr(out, cap)), (8, Ptr(out, cap))
    for m, v in (('outBufferFirst_', first), ('outBufferEnd_', end), ('outBufferAlignmentSize_', align), ('currentRecordIndex_', cur)):
        c[e.off(BE, m)] = (8, v)
    shifted(e, q, out, cap, align)
    u = Region('userBuffer')
    st.mem[u] = {}
    c[e.off(BE, 'sourceBuffer_')] = (8, Ptr(u))
    return q, out, cap, first, end, cur, u


def real_encode(ctx, size):
    """BitpackFloatEncoder: takes the next values in order, as many as requested or fit, and appends exactly their bits"""
    e = ctx.engine()
    e.fpmode = 'uf'
    st = State()
    q, out, cap, first, end, cur, u = encoder(e, st, size, 'encoder')
    st.mem[q][e.off('e57::BitpackFloatEncoder', 'precision_')] = (4, 1 if size == 4 else 2)
    V = z3.Function('value', W, z3.BitVecSort(size * 8))
    req = z3.BitVec('recordCount', 64)
    st.assume(z3.And(ULE(req, B(0xffffffff)), ULT(T, B(size)), ULT(D, B(1 << 32))))
    lay0 = st.mem[out]
    st.ghost['n'], st.ghost['src'] = B(0), False

    def get(eng, s, a, name):
        k = B(s.ghost['n'])
        eng.prove(s, z3.BoolVal(('getNextFloat(' in eng.mod.dem.get(name, name)) == (size == 4) and a[0].reg is u), 'taken in the field\'s own precision from the user\'s buffer')
        bad = s.fork()
        bad.set('src', True)
        s.set('n', simp(k + 1))
        return eng.throw_e57(bad, 6) + RET(s, V(k))
    e.model(r'^e57::SourceDestBufferImpl::getNext(Float|Double)', get)
    pick = lambda k: ite(simp(T == 0), z3.Extract(7, 0, V(k)), ite(simp(T == 1), z3.Extract(15, 8, V(k)), ite(simp(T == 2), z3.Extract(23, 16, V(k)), z3.Extract(31, 24, V(k)), 8), 8), 8) if size == 4 else \
        ite(simp(T == 0), z3.Extract(7, 0, V(k)), ite(simp(T == 1), z3.Extract(15, 8, V(k)), ite(simp(T == 2), z3.Extract(23, 16, V(k)), ite(simp(T == 3), z3.Extract(31, 24, V(k)), ite(
            simp(T == 4), z3.Extract(39, 32, V(k)), ite(simp(T == 5), z3.Extract(47, 40, V(k)), ite(simp(T == 6), z3.Extract(55, 48, V(k)), z3.Extract(63, 56, V(k)), 8), 8), 8), 8), 8), 8), 8)

    def template(eng, L, ev):
        start = B(e.load(L.entry_st, Ptr(q, e.off(BE, 'outBufferEnd_')), I(64)))
        lay1 = ev.layer(out)
        yield '!earlier output kept', lambda v: z3.Implies(ULT(J, start), bv(v.layer(out).read(J), 8) == bv(lay1.read(J), 8))
        yield '!number of values', lambda v: ULE(B(v.ghost('n')), req)
        yield '!records so far', lambda v: z3.Implies(ULT(D, B(v.ghost('n'))), bv(v.layer(out).read(simp(start + D * size + T)), 8) == pick(D))
        for k in L.keys:
            if k[-1] in (32, 64) and k[0] != 'ghost':
                z = lambda v, k=k: v.num(k) if k[-1] == 64 else z3.ZeroExt(32, v.num(k))
                yield '!%s counts' % k[1], lambda v, z=z: z(v) == B(v.ghost('n'))
                yield '!%s is at' % k[1], lambda v, z=z: z(v) == start + B(v.ghost('n')) * size
    e.templates.append(template)
    pending = end - first
    for o in e.call(st, ctx.fn(r'^e57::BitpackFloatEncoder::processRecords\('), [Ptr(q), req]):
        s = o.st
        ld = lambda m: B(e.load(s, Ptr(q, e.off(BE, m)), I(64)))
        n = B(s.ghost['n'])
        if o.kind != 'ret':
            e.prove(s, zb(s.ghost['src']), 'fails only if the buffer cannot supply a value')
            e.prove(s, z3.And(ld('currentRecordIndex_') == cur, ld('outBufferEnd_') - ld('outBufferFirst_') == pending), 'nothing is added then')
            continue
        e.cover(s, 'returns')
        f1, e1 = ld('outBufferFirst_'), ld('outBufferEnd_')
        lay = e.to_bytes(s, out)
        at = f1 + pending
        e.prove(s, z3.And(ULE(f1, e1), ULE(e1, cap)), 'the encoder\'s invariant holds again')
        e.prove(s, e1 == at + n * size, 'exactly the values\' bytes are added')
        e.prove(s, z3.And(ld('currentRecordIndex_') == cur + n, B(o.val) == cur + n), 'the records taken are counted')
        e.prove(s, z3.And(ULE(n, req), z3.Implies(ULT(n, req), ULT(cap - e1, B(size)))), 'as many as requested, or as many as fit')
        e.prove(s, z3.Implies(z3.And(ULE(f1, J), ULT(J, at)), bv(lay.read(J), 8) == bv(lay0.read(simp(first + J - f1)), 8)), 'earlier output is kept')
        e.prove(s, z3.Implies(ULT(D, n), bv(lay.read(simp(at + D * size + T)), 8) == pick(D)), 'each value has its own bits, in order')


def string_decode(ctx):
    """BitpackStringDecoder, from any state it can be left in: the stream is a sequence of records (length prefix of one or eight bytes, then that many bytes); each completed record is
    delivered once, in order, with exactly its bytes, and the state kept for an incomplete one is what was read of it"""
    e = ctx.engine()
    e.bool_bytes = True
    e.bit_ms = 4000
    st = State()
    cls = 'e57::BitpackStringDecoder'
    G = z3.Function('stream', W, z3.BitVecSort(8))
    d = Region('decoder')
    st.mem[d] = {}
    u = Region('userBuffer')
    st.mem[u] = {}
    cur, mxr, avail, pos0, cap = z3.BitVecs('currentRecordIndex_ maxRecordCount_ available position capacity', 64)
    st.assume(z3.And(ULE(cur, mxr), ULE(mxr, B(1 << 60)), ULE(avail, B(65536)), ULE(pos0, B(1 << 60)), ULT(cap, B(1 << 32))))
    # the record being read: where it starts; its prefix and length follow from the stream
    beg0 = z3.BitVec('begin', 64)
    plen = lambda b: z3.If(z3.Extract(0, 0, G(b)) == 0, B(1), B(8))
    word = lambda b: z3.Concat(*[G(simp(b + k)) for k in reversed(range(8))])
    slen = lambda b: z3.If(z3.Extract(0, 0, G(b)) == 0, z3.ZeroExt(56, z3.LShR(G(b), 1)), z3.LShR(word(b), 1))
    rp, npr, pl, sl, nsr, ss, sn = z3.BitVec('readingPrefix_', 8), z3.BitVec('nBytesPrefixRead_', 32), z3.BitVec('prefixLength_', 32), *z3.BitVecs('stringLength_ nBytesStringRead_ text textLength', 64)
    pb = e.new_bytes(st, 'prefixBytes_', 8)
    c = st.mem[d]
    w = lambda m: e.mod.dbg_size(cls, m) if hasattr(e.mod, 'dbg_size') else None
    c[e.off(BD, 'destBuffer_')] = (8, Ptr(u))
    c[e.off(BD, 'currentRecordIndex_')], c[e.off(BD, 'maxRecordCount_')] = (8, cur), (8, mxr)
    po = e.off(cls, 'prefixBytes_')
    d.meta['subs'] = [(po, po + 8, pb)]
    c[e.off(cls, 'readingPrefix_')] = (1, rp)
    c[e.off(cls, 'prefixLength_')], c[e.off(cls, 'nBytesPrefixRead_')] = (4, pl), (4, npr)
    c[e.off(cls, 'stringLength_')], c[e.off(cls, 'nBytesStringRead_')] = (8, sl), (8, nsr)
    so = e.off(cls, 'currentString_')
    c[so], c[so + 8] = (8, ss), (8, sn)
    inb = e.new_bytes(st, 'inbuf', avail)
    st.mem[inb] = Func(lambda j: G(simp(pos0 + B(j))))
    chars = e.new_bytes(st, 'stream', B(1 << 62))
    st.mem[chars] = Func(lambda j: G(B(j)))
    flatstr.install(e, chars, lambda p: simp(pos0 + B(p.off)) if p.reg is inb else None)
    st.ghost['beg'], st.ghost['n'], st.ghost['src'] = beg0, B(0), False
    ld = lambda s, m, n=64: bv(e.load(s, Ptr(d, e.off(cls if m not in ('currentRecordIndex_',) else BD, m)), I(n)), n)
    z32 = lambda x: z3.ZeroExt(32, x)

    def inv(s, beg, pos, pbytes):
        """what the members say about a record starting at `beg` of which the bytes before `pos` were read"""
        r, a, l = ld(s, 'readingPrefix_', 8), z32(ld(s, 'nBytesPrefixRead_', 32)), z32(ld(s, 'prefixLength_', 32))
        t, m = ld(s, 'stringLength_'), ld(s, 'nBytesStringRead_')
        x, y = (B(e.load(s, Ptr(d, so + k), I(64))) for k in (0, 8))
        yield 'reading the prefix or the text', z3.And(ULE(r, 1), ULE(beg, pos), ULE(beg, B(1 << 61)))
        yield 'prefix', z3.Implies(r == 1, z3.And(pos == beg + a, ULT(a, B(8)), z3.Or(a == 0, z3.And(l == plen(beg), ULT(a, l)))))
        yield 'text', z3.Implies(r == 0, z3.And(t == slen(beg), m == pos - beg - plen(beg), ULE(plen(beg), pos - beg), ULE(m, t)))
        yield 'no prefix while reading text', z3.Implies(r == 0, a == 0)
        yield 'text kept', z3.Implies(r == 0, z3.And(y == m, z3.Or(y == 0, x == beg + plen(beg))))
        for k in range(8):
            yield 'prefix byte %d' % k, z3.Implies(z3.And(r == 1, ULT(B(k), a)), bv(pbytes.read(k), 8) == G(simp(beg + k)))
    for _, f in inv(st, beg0, pos0, st.mem[pb]):
        st.assume(f)
    # only records the stream completes are ever delivered; one of astronomic length is never completed
    st.assume(ULE(pos0 - beg0, B(1 << 60)))

    nxt = {}

    def deliver(eng, s, a, name):
        x, y = flatstr.get(eng, s, a[1])
        b = B(s.ghost['beg'])
        eng.prove(s, z3.BoolVal(a[0].reg is u), 'goes to the user\'s buffer')
        eng.prove(s, z3.And(y == slen(b), z3.Or(y == 0, x == b + plen(b))), 'the text delivered is the record\'s')
        bad = s.fork()
        bad.set('src', True)
        s.set('n', simp(B(s.ghost['n']) + 1))
        s.set('beg', simp(b + plen(b) + slen(b)))
        return eng.throw_e57(bad, 6) + RET(s)
    e.model(r'^e57::SourceDestBufferImpl::setNextString\(', deliver)
    e.model(r'^e57::SourceDestBufferImpl::capacity\(', lambda eng, s, a, x: RET(s, cap))
    nx0 = z3.BitVec('nextIndex', 64)
    st.assume(ULE(nx0, cap))
    e.model(r'^e57::SourceDestBufferImpl::nextIndex\(', lambda eng, s, a, x: RET(s, z3.Extract(31, 0, nx0 + B(s.ghost['n']))))

    def template(eng, L, ev):
        labels = [x for x, _ in inv(L.entry_st, beg0, pos0, e.to_bytes(L.entry_st, pb))]
        yield '!counted', lambda v: z3.And(B(e.load(v.st, Ptr(d, e.off(BD, 'currentRecordIndex_')), I(64))) == cur + B(v.ghost('n')), ULE(B(v.ghost('n')), mxr - cur), ULE(nx0 + B(v.ghost('n')), cap))
        for k in L.keys:
            if k[0] == 'phi' and k[-1] == 64:
                yield '!%s within the input' % k[1], lambda v, k=k: ULE(v.num(k), avail)
                for i, lab in enumerate(labels):
                    yield '!%s: %s' % (k[1], lab), lambda v, k=k, i=i: list(inv(v.st, B(v.ghost('beg')), simp(pos0 + v.num(k)), v.layer(pb)))[i][1]
                yield '!%s: prefix being read' % k[1], lambda v, k=k: z3.And(ld(v.st, 'readingPrefix_', 8) == 1, pos0 + v.num(k) == B(v.ghost('beg')) + z32(ld(v.st, 'nBytesPrefixRead_', 32)),
                    ULE(z32(ld(v.st, 'nBytesPrefixRead_', 32)), B(8)), z3.Or(z32(ld(v.st, 'nBytesPrefixRead_', 32)) == 0, z3.And(z32(ld(v.st, 'prefixLength_', 32)) == plen(B(v.ghost('beg'))),
                    ULE(z32(ld(v.st, 'nBytesPrefixRead_', 32)), plen(B(v.ghost('beg')))))))
                for j in range(8):
                    yield '!%s: byte %d of the prefix' % (k[1], j), lambda v, j=j: z3.Implies(ULT(B(j), z32(ld(v.st, 'nBytesPrefixRead_', 32))), bv(v.layer(pb).read(j), 8) == G(simp(B(v.ghost('beg')) + j)))
    e.templates.append(template)
    for o in e.call(st, ctx.fn(r'^e57::BitpackStringDecoder::inputProcessAligned\('), [Ptr(d), Ptr(inb), B(0), avail * 8]):
        s = o.st
        n = B(s.ghost['n'])
        if o.kind != 'ret':
            e.prove(s, zb(s.ghost['src']), 'fails only if the buffer refuses a string')
            continue
        e.cover(s, 'returns')
        used = z3.LShR(B(o.val), 3)
        e.prove(s, z3.And(ULE(used, avail), used * 8 == B(o.val)), 'uses whole bytes of what is there')
        e.prove(s, z3.Or(used == avail, nx0 + n == cap, cur + n == mxr), 'stops when the input, the room or the records run out')
        e.prove(s, ld(s, 'currentRecordIndex_') == cur + n, 'the records are counted')
        for lab, f in inv(s, B(s.ghost['beg']), simp(pos0 + used), e.to_bytes(s, pb)):
            e.prove(s, f, 'state afterwards: ' + lab)


def string_encode(ctx):
    """BitpackStringEncoder, from any state it can be left in: each string taken becomes its length prefix (one byte below 128, else eight) and exactly its bytes, records follow each other without
    gaps, whatever part of a record fits; a record counts when it is complete"""
    e = ctx.engine()
    e.bool_bytes = True
    e.bit_ms = 4000
    st = State()
    cls = 'e57::BitpackStringEncoder'
    q, out, cap, first, end, cur, u = encoder(e, st, 1, 'encoder')
    CH = z3.Function('text', W, z3.BitVecSort(8))
    AD = z3.Function('textOf', W, W)                     # where the k-th string's bytes are in the flat sequence
    LEN = z3.Function('lengthOf', W, W)
    chars = e.new_bytes(st, 'text', B((1 << 62)))
    st.mem[chars] = Func(lambda j: CH(B(j)))
    flatstr.install(e, chars, lambda p: B(p.off) if p.reg is chars else None)
    req, pos0, beg0, chp, tot = z3.BitVecs('recordCount position begin currentCharPosition_ totalBytesProcessed_', 64)
    act, pc = z3.BitVecs('isStringActive_ prefixComplete_', 8)
    c = st.mem[q]
    so = e.off(cls, 'currentString_')
    sstart, slen0 = z3.BitVecs('currentString currentLength', 64)
    for m, n, v in (('totalBytesProcessed_', 8, tot), ('isStringActive_', 1, act), ('prefixComplete_', 1, pc), ('currentCharPosition_', 8, chp)):
        c[e.off(cls, m)] = (n, v)
    c[so], c[so + 8] = (8, sstart), (8, slen0)
    st.assume(z3.And(ULE(req, B(0xffffffff)), ULE(B(1 << 58), pos0), ULE(pos0, B(1 << 59)), ULE(beg0, pos0), ULE(pos0 - beg0, B(1 << 57)), ULE(act, 1), ULE(pc, 1)))
    st.ghost['n'], st.ghost['beg'], st.ghost['P'], st.ghost['src'] = B(1), beg0, z3.If(D == 0, beg0, z3.BitVec('P0', 64)), False     # strings taken (string 0 is the one at hand, if any); start of the last; of string D
    plen = lambda l: z3.If(ULE(l, B(127)), B(1), B(8))
    ok = lambda k: z3.And(ULE(LEN(k), B(1 << 56)), ULE(AD(k), B(1 << 61)))
    st.assume(z3.And(ok(B(0)), ok(D)))
    ld = lambda s, m, n=64: bv(e.load(s, Ptr(q, e.off(cls if m[0] not in 'o' and m != 'currentRecordIndex_' else BE, m)), I(n)), n)

    def inv(s, n, beg, pos):
        """what the members say about the last string taken, which starts at `beg`, when the stream has been written up to `pos`"""
        a, p, x = ld(s, 'isStringActive_', 8), ld(s, 'prefixComplete_', 8), ld(s, 'currentCharPosition_')
        y, z = (B(e.load(s, Ptr(q, so + k), I(64))) for k in (0, 8))
        k = simp(n - 1)
        yield 'flags', z3.And(ULE(a, 1), ULE(p, 1))
        yield 'string at hand', z3.Implies(a == 1, z3.And(y == AD(k), z == LEN(k)))
        yield 'prefix next', z3.Implies(z3.And(a == 1, p == 0), z3.And(pos == beg, x == 0))
        yield 'text next', z3.Implies(z3.And(a == 1, p == 1), z3.And(pos == beg + plen(LEN(k)) + x, ULE(x, LEN(k))))
        yield 'between strings', z3.Implies(a == 0, pos == beg + plen(LEN(k)) + LEN(k))
        yield 'lengths', ok(k)
    for _, f in inv(st, B(1), beg0, pos0):
        st.assume(f)
    PB = [z3.Function('prefixByte%d' % t, W, z3.BitVecSort(8)) for t in range(8)]

    def defined(l):
        """the bytes of the prefix of a string of that length (instances of the definition of PB)"""
        w = (l << 1) | 1
        return [PB[t](l) == (z3.If(ULE(l, B(127)), simp(z3.Extract(7, 0, l << 1)), simp(z3.Extract(7, 0, w))) if t == 0 else simp(z3.Extract(8 * t + 7, 8 * t, w))) for t in range(8)]
    for f in defined(slen0):
        st.assume(f)
    e.axioms.append(lambda eng, L, v: defined(B(e.load(v.st, Ptr(q, so + 8), I(64)))))

    def prefix(k, t):
        """byte t of the prefix of string k"""
        return PB[t.as_long()](LEN(k))

    def text(k, t):
        return CH(AD(k) + t - plen(LEN(k)))
    end_of = lambda k: plen(LEN(k)) + LEN(k)

    def held(P, p, lay, at, part, t):
        x = B(P) + t
        return z3.Implies(z3.And(ULT(t, end_of(D)), ULT(t, plen(LEN(D))) if part is prefix else ULE(plen(LEN(D)), t), ULE(pos0, x), ULT(x, p)),
                          bv(lay.read(simp(at + x - pos0)), 8) == part(D, t))
    parts = [(prefix, B(t), 'prefix byte %d' % t) for t in range(8)] + [(text, T, 'text')]
    lay0 = st.mem[out]

    def take(eng, s, a, name):
        dst, buf = (a[0], a[1])
        k = B(s.ghost['n'])
        eng.prove(s, z3.BoolVal(buf.reg is u), 'taken from the user\'s buffer')
        bad = s.fork()
        bad.set('src', True)
        last = simp(k - 1)
        nb = simp(B(s.ghost['beg']) + plen(LEN(last)) + LEN(last))
        s.assume(ok(k))
        s.set('beg', nb)
        s.set('P', simp(z3.If(k == D, nb, B(s.ghost['P']))))
        s.set('n', simp(k + 1))
        flatstr.put(eng, s, dst, AD(k), LEN(k))
        return eng.throw_e57(bad, 6) + RET(s)
    e.model(r'^e57::SourceDestBufferImpl::getNextString', take)
    def template(eng, L, ev):
        top = any(m[0] == 'ghost' and m[1] == 'n' for m in L.mods)
        start = B(e.load(L.entry_st, Ptr(q, e.off(BE, 'outBufferEnd_')), I(64)))
        lay1 = ev.layer(out)
        yield '!earlier output kept', lambda v: z3.Implies(ULT(J, start), bv(v.layer(out).read(J), 8) == bv(lay1.read(J), 8))
        pos = lambda v, k, kind: {'free': simp(pos0 + cap - start - v.num(k)), 'at': simp(pos0 + v.num(k) - start)}[kind]
        ks = [k for k in L.keys if k[0] == 'phi' and k[-1] == 64]
        for k in ks:
            yield '!%s in the buffer' % k[1], lambda v, k=k: ULE(v.num(k), cap)
            yield '!%s after the earlier output' % k[1], lambda v, k=k: ULE(start, v.num(k))
            yield '!%s room' % k[1], lambda v, k=k: ULE(v.num(k), cap - start)
            for k2 in ks:
                if k2 != k and top:
                    yield '!%s and %s' % (k[1], k2[1]), lambda v, k=k, k2=k2: v.num(k) == cap - v.num(k2)
            for kind in ('free', 'at') if top else ('at',):
                if top:
                    for i, (lab, _) in enumerate(inv(L.entry_st, B(1), beg0, pos0)):
                        yield '!%s(%s): %s' % (k[1], kind, lab), lambda v, k=k, i=i, kind=kind: list(inv(v.st, B(v.ghost('n')), B(v.ghost('beg')), pos(v, k, kind)))[i][1]
                for part, t, lab in parts:
                    yield '!%s(%s): %s so far' % (k[1], kind, lab), lambda v, k=k, kind=kind, part=part, t=t: z3.Implies(ULT(D, B(v.ghost('n'))), held(v.ghost('P'), pos(v, k, kind), v.layer(out), start, part, t))
        if top:
            yield '!where string D is', lambda v: z3.Implies(ULT(D, B(v.ghost('n'))), z3.If(D == B(v.ghost('n')) - 1, B(v.ghost('P')) == B(v.ghost('beg')), ULE(B(v.ghost('P')) + end_of(D), B(v.ghost('beg')))))
            yield '!positions', lambda v: z3.And(ULE(B(1), B(v.ghost('n'))), ULE(B(v.ghost('n')), B(1 << 33)), ULE(B(v.ghost('beg')), B(1 << 60)), ULE(B(v.ghost('P')), B(1 << 60)))
            for k in L.keys:
                if k[-1] == 32 and k[0] == 'phi':
                    yield '!%s complete' % k[1], lambda v, k=k: z3.And(z3.ZeroExt(32, v.num(k)) == B(v.ghost('n')) - z3.ZeroExt(56, ld(v.st, 'isStringActive_', 8)) - z3.If(act == 0, B(1), B(0)), ULE(z3.ZeroExt(32, v.num(k)), req))
    e.templates.append(template)
    pending = end - first
    for o in e.call(st, ctx.fn(r'^e57::BitpackStringEncoder::processRecords\('), [Ptr(q), req]):
        s = o.st
        n, beg = B(s.ghost['n']), B(s.ghost['beg'])
        if o.kind != 'ret':
            e.prove(s, zb(s.ghost['src']), 'fails only if the buffer cannot supply a string')
            continue
        e.cover(s, 'returns')
        f1, e1 = ld(s, 'outBufferFirst_'), ld(s, 'outBufferEnd_')
        at = f1 + pending
        pos = simp(pos0 + e1 - at)
        lay = e.to_bytes(s, out)
        e.prove(s, z3.And(ULE(f1, at), ULE(at, e1), ULE(e1, cap)), 'the encoder\'s invariant holds again')
        for lab, f in inv(s, n, beg, pos):
            e.prove(s, f, 'state afterwards: ' + lab)
        e.prove(s, z3.Implies(z3.And(ULE(f1, J), ULT(J, at)), bv(lay.read(J), 8) == bv(lay0.read(simp(first + J - f1)), 8)), 'earlier output is kept')
        P = B(s.ghost['P'])
        for part, t, lab in parts:
            e.prove(s, z3.Implies(ULT(D, n), held(P, pos, lay, at, part, t)), 'each byte written is the string\'s: ' + lab)
        done = n - z3.ZeroExt(56, ld(s, 'isStringActive_', 8)) - z3.If(act == 0, B(1), B(0))
        e.prove(s, z3.And(ld(s, 'currentRecordIndex_') - cur == done, B(o.val) == ld(s, 'currentRecordIndex_')), 'a record counts when it is complete')
        e.prove(s, z3.Or(done == req, ULT(cap - e1, B(8))), 'as many as requested, or until the output is full')


UNITS = [Unit('string encode', string_encode, budget=450), Unit('string decode', string_decode, budget=450)] + [Unit('real decode %d' % n, real_decode, arg=n) for n in (4, 8)] + \
    [Unit('real encode %d' % n, real_encode, arg=n) for n in (4, 8)] + [Unit('feed %d bit words' % n, feed, arg=(n, False)) for n in (8, 32, 64)]
ASSUMPTIONS = [
    'std::string by its standard meaning on pieces of one byte sequence (e57v/flatstr.py); getNextString/setNextString/getNextFloat/getNextDouble/setNextFloat/setNextDouble by contract: one value, or a refusal (C06 decides the numeric ones)',
    'strings shorter than 2^56 bytes; at most 2^32-1 records per call; positions in a stream below 2^59',
    'outBufferShiftDown by the contract decided in C11; BitpackDecoder::inputProcess, which hands the bytes over, is the unit "feed" (also run here)',
    'constructors, EncoderFactory and DecoderFactory are run natively, not under contract',
]

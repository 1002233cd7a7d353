import z3
from ..sym import Ptr, State, Region, ULT, ULE, bv, simp, zb, NULL, Outcome
from ..ir import I, PTR
from ..unit import Unit
from ..models import RET
from ..filemodel import B
from .. import lfile

NATIVE = 'c09'
NATIVE_MS = 9000
E, K = z3.BitVecs('E K', 64)                                    # an arbitrary index entry, an arbitrary byte
PS = z3.Function('streamBytesBefore', z3.BitVecSort(64), z3.BitVecSort(64))     # sum of the 16-bit lengths stored in [6, o)


class Pkt:
    def __init__(self, e, st, name='packet'):
        self.reg = e.new_bytes(st, name, 65536)
        self.lay = st.mem[self.reg]
        self.type = self.u8(0)
        self.len = z3.ZeroExt(48, self.u16(2)) + 1
        self.count = z3.ZeroExt(48, self.u16(4))

    def u(self, o, n):
        return z3.Concat(*[bv(self.lay.read(simp(B(o) + i)), 8) for i in reversed(range(n))]) if n > 1 else bv(self.lay.read(simp(B(o))), 8)

    def u8(self, o):
        return self.u(o, 1)

    def u16(self, o):
        return self.u(o, 2)

    def u64(self, o):
        return self.u(o, 8)

    # the definition of the sum, one step
    def step(self, o):
        return PS(B(o) + 2) == PS(B(o)) + z3.ZeroExt(48, self.u16(o))

    def used(self):
        return 6 + 2 * self.count + PS(6 + 2 * self.count)

    def header(self, bl):
        """a data packet header consistent in itself and with the number of bytes present"""
        return z3.And(self.type == 1, ULE(B(6), self.len), z3.URem(self.len, B(4)) == 0, z3.Or(bl == 0, ULE(self.len, z3.ZeroExt(32, bl))),
                      z3.Or(ULE(self.len, B(8)), self.count != 0), ULE(6 + 2 * self.count, self.len))

    def sound(self, bl):
        u = self.used()
        return z3.And(self.header(bl), ULE(u, self.len), ULE(self.len, u + 3),
                      *[z3.Implies(ULT(u + i, self.len), self.u8(u + i) == 0) for i in range(3)])


def sums(e, st, p):
    """make the length sum available: PS(6) = 0, one defining step at each loop head, and `running total = PS(position)` as an invariant to be proved"""
    st.assume(PS(B(6)) == 0)
    X = lambda t, k: t if k[-1] == 64 else z3.ZeroExt(64 - k[-1], t)

    def pos(L, v):
        for k in L.keys:
            if k[-1] not in (32, 64):
                continue
            x = v.num(k)
            if x is None:
                continue
            yield k, 'i', 6 + 2 * X(x, k)
            if k[-1] == 64:
                yield k, 'p', x

    def axiom(eng, L, v):
        for k, how, o in pos(L, v):
            yield p.step(o)

    def template(eng, L, ev):
        for k in L.keys:
            for t in L.keys:
                if k == t or k[-1] not in (32, 64) or t[-1] not in (32, 64):
                    continue
                for how in ('i', 'p'):
                    if how == 'p' and k[-1] != 64:
                        continue

                    def o(v, k=k, how=how):
                        return 6 + 2 * X(v.num(k), k) if how == 'i' else v.num(k)
                    yield '!%s is the sum of the lengths before %s (%s)' % (t[1], k[1], how), lambda v, t=t, o=o: z3.And(
                        X(v.num(t), t) == PS(o(v)), ULE(PS(o(v)), 32768 * (o(v) - 6) + 0), ULE(B(6), o(v)), ULE(o(v), 6 + 2 * p.count))
    e.axioms.append(axiom)
    e.templates.append(template)


def verify_data(ctx):
    """DataPacket::verify accepts exactly the sound packets: type, length and count consistent, room for the length table, stream bytes plus at most 3 zero padding bytes
    filling the packet; every read is inside the 64 KiB buffer, for all its contents"""
    e = ctx.engine()
    st = State()
    p = Pkt(e, st)
    sums(e, st, p)
    bl = z3.BitVec('bufferLength', 32)

    def seen(eng, L, ev):
        for k in L.keys:
            if k[-1] in (32, 64):
                yield '!padding before %s is zero' % k[1], lambda v, k=k: z3.Implies(z3.And(ULE(p.used(), K), ULT(K, p.len), ULT(K, X64(v, k))), p.u8(K) == 0)
    e.templates.append(seen)
    for o in e.call(st, ctx.fn(r'^e57::DataPacket::verify\('), [Ptr(p.reg), bl]):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'accepts')
            e.prove(s, p.header(bl), 'an accepted packet has a consistent header')
            e.prove(s, z3.And(ULE(p.used(), p.len), ULE(p.len, p.used() + 3)), 'stream bytes and at most 3 padding bytes fill an accepted packet')
            e.prove(s, z3.Implies(z3.And(ULE(p.used(), K), ULT(K, p.len)), p.u8(K) == 0), 'the padding of an accepted packet is zero')
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.Not(p.sound(bl)), 'a sound packet is accepted')
            e.prove(s, bv(o.val.code, 32) == 2, 'the error is a bad packet')
        e.prove(s, z3.BoolVal(s.mem[p.reg] is p.lay), 'the packet is only looked at')


def verify_header(ctx):
    """DataPacketHeader::verify accepts exactly the consistent headers"""
    e = ctx.engine()
    st = State()
    p = Pkt(e, st)
    bl = z3.BitVec('bufferLength', 32)
    for o in e.call(st, ctx.fn(r'^e57::DataPacketHeader::verify\('), [Ptr(p.reg), bl]):
        e.cover(o.st, o.kind)
        e.prove(o.st, p.header(bl) if o.kind == 'ret' else z3.Not(p.header(bl)), 'accepted exactly when consistent')


def stream(ctx, fn, both):
    e = ctx.engine()
    st = State()
    p = Pkt(e, st)
    st.assume(p.header(z3.BitVecVal(0, 32)))           # precondition: the packet was accepted (the cache holds no others: C10)
    sums(e, st, p)
    n = z3.BitVec('bytestreamNumber', 32)
    n64 = z3.ZeroExt(32, n)
    out = Region('byteCount')
    st.mem[out] = {0: (4, z3.BitVec('oldByteCount', 32))}
    at = 6 + 2 * p.count + PS(6 + 2 * n64)
    size = z3.ZeroExt(48, p.u16(6 + 2 * n64))
    for o in e.call(st, ctx.fn(fn), [Ptr(p.reg), n] + ([Ptr(out)] if both else [])):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'yields a slice')
            cnt = z3.ZeroExt(32, bv(e.load(s, Ptr(out), I(32)) if both else o.val, 32))
            e.prove(s, ULT(n64, p.count), 'only existing streams are handed out')
            e.prove(s, cnt == size, 'the slice has the length recorded for the stream')
            if both:
                e.prove(s, z3.BoolVal(isinstance(o.val, Ptr) and o.val.reg is p.reg), 'the slice is in the packet')
                e.prove(s, B(o.val.off) == at, 'the slice starts after the preceding streams')
                e.prove(s, ULE(B(o.val.off) + cnt, p.len), 'the slice lies within the packet')
            e.prove(s, ULE(at + size, p.len), 'the recorded slice lies within the packet')
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.Or(ULE(p.count, n64), ULT(p.len, at + size)), 'a slice that lies within the packet is handed out')
        e.prove(s, z3.BoolVal(s.mem[p.reg] is p.lay), 'the packet is only looked at')


def bytestream(ctx):
    """DataPacket::getBytestream: exactly the bytes recorded for that stream, inside the packet, or an error"""
    stream(ctx, r'^e57::DataPacket::getBytestream\(', True)


def bytestream_length(ctx):
    """DataPacket::getBytestreamBufferLength: the length recorded for that stream, or an error"""
    stream(ctx, r'^e57::DataPacket::getBytestreamBufferLength\(', False)


def index_setup(ctx, deep):
    e = ctx.engine()
    st = State()
    p = Pkt(e, st)
    bl, total, size = z3.BitVec('bufferLength', 32), z3.BitVec('totalRecordCount', 64), z3.BitVec('fileSize', 64)
    lvl = z3.ZeroExt(56, p.u8(6))
    hdr = z3.And(p.type == 0, ULE(B(16), p.len), z3.URem(p.len, B(4)) == 0, p.count != 0, ULE(p.count, B(2048)), ULE(lvl, B(5)), z3.Or(lvl == 0, ULE(B(2), p.count)),
                 *[p.u8(7 + i) == 0 for i in range(9)], z3.Or(bl == 0, ULE(p.len, z3.ZeroExt(32, bl))), ULE(16 + 16 * p.count, p.len))
    rec = lambda i: p.u64(16 + 16 * i)
    chunk = lambda i: p.u64(24 + 16 * i)

    def entry(i):
        c = [z3.Or(total == 0, ULT(rec(i), total)), z3.Or(size == 0, ULT(chunk(i), size)),
             z3.Or(i == 0, z3.And(ULT(rec(i - 1), rec(i)), ULT(chunk(i - 1), chunk(i))))]
        return z3.Implies(ULT(i, p.count), z3.And(*c))

    def padding(k):
        return z3.Implies(z3.And(ULE(16 + 16 * p.count, k), ULT(k, p.len)), p.u8(k) == 0)
    args = [Ptr(p.reg), bl, total, size]
    return e, st, p, hdr, entry, padding, args


X64 = lambda v, k: v.num(k) if k[-1] == 64 else z3.ZeroExt(64 - k[-1], v.num(k))


def index_only(ctx):
    """IndexPacket::verify accepts only packets with a consistent header, room for all entries, zero padding, and strictly increasing, in-range entries (an arbitrary one)"""
    e, st, p, hdr, entry, padding, args = index_setup(ctx, True)

    def seen(eng, L, ev):
        for k in L.keys:
            if k[-1] in (32, 64):
                yield '!entries before %s are in order' % k[1], lambda v, k=k: z3.Implies(ULT(E, X64(v, k)), entry(E))
                yield '!padding before %s is zero' % k[1], lambda v, k=k: z3.Implies(ULT(K, X64(v, k)), padding(K))
    e.templates.append(seen)
    for o in e.call(st, ctx.fn(r'^e57::IndexPacket::verify\('), args):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'accepts')
            e.prove(s, hdr, 'an accepted index has a consistent header and room for its entries')
            e.prove(s, padding(K), 'the padding of an accepted index is zero')
            e.prove(s, entry(E), 'the entries of an accepted index increase strictly and are in range')
        else:
            e.cover(s, 'refuses')
        e.prove(s, z3.BoolVal(s.mem[p.reg] is p.lay), 'the packet is only looked at')


def index_all(ctx):
    """IndexPacket::verify accepts every sound index packet"""
    e, st, p, hdr, entry, padding, args = index_setup(ctx, True)
    st.assume(hdr)

    def sound(eng, L, v):
        for k in L.keys:
            if k[-1] in (32, 64):
                yield entry(X64(v, k))
                yield padding(X64(v, k))
    e.axioms.append(sound)
    for o in e.call(st, ctx.fn(r'^e57::IndexPacket::verify\('), args):
        e.cover(o.st, o.kind) if o.kind == 'ret' else None
        e.prove(o.st, z3.BoolVal(o.kind == 'ret'), 'a sound index packet is accepted')


def verify_empty(ctx):
    """EmptyPacketHeader::verify accepts exactly consistent empty packets"""
    e = ctx.engine()
    st = State()
    p = Pkt(e, st)
    bl = z3.BitVec('bufferLength', 32)
    ok = z3.And(p.type == 2, ULE(B(4), p.len), z3.URem(p.len, B(4)) == 0, z3.Or(bl == 0, ULE(p.len, z3.ZeroExt(32, bl))))
    for o in e.call(st, ctx.fn(r'EmptyPacketHeader::verify\('), [Ptr(p.reg), bl]):
        e.cover(o.st, o.kind)
        e.prove(o.st, ok if o.kind == 'ret' else z3.Not(ok), 'accepted exactly when consistent')


def verify_section(ctx):
    """CompressedVectorSectionHeader::verify accepts exactly headers with the right id, zero reserved bytes, a length that is a multiple of 4 and smaller than the file, and
    positions inside the file"""
    e = ctx.engine()
    st = State()
    r = e.new_bytes(st, 'section', 32)
    lay = st.mem[r]
    b = lambda o: bv(lay.read(o), 8)
    q = lambda o: z3.Concat(*[b(o + i) for i in reversed(range(8))])
    size = z3.BitVec('filePhysicalSize', 64)
    ok = z3.And(b(0) == 1, *[b(1 + i) == 0 for i in range(7)], z3.URem(q(8), B(4)) == 0, z3.Or(size == 0, z3.And(ULT(q(8), size), ULT(q(16), size), ULT(q(24), size))))
    for o in e.call(st, ctx.fn(r'^e57::CompressedVectorSectionHeader::verify\('), [Ptr(r), size]):
        e.cover(o.st, o.kind)
        e.prove(o.st, ok if o.kind == 'ret' else z3.Not(ok), 'accepted exactly when consistent')


CR, DC = 'e57::CompressedVectorReaderImpl', 'e57::DecodeChannel'


def feed(ctx):
    """feedPacketToDecoders, any number of channels: what decoders are given lies within the packet and is exactly their part of it (shared with C20)"""
    from . import c20
    c20.feed(ctx)


def find_next(ctx):
    """findNextDataPacket: walks packet by packet from the given position and yields a position inside the section whose packet is a data packet, or none; every step
    moves forward, so no packet contents make it loop forever"""
    e = ctx.engine()
    lfile.names(e)
    st = State()
    start, end = z3.BitVec('next', 64), z3.BitVec('sectionEnd', 64)
    st.assume(z3.And(ULT(end, B(1 << 60))))
    st.ghost['at'] = st.ghost['expected'] = start
    cached = Pkt(e, st, 'cached')

    def lock(eng, s, a, name):
        eng.store(s, a[0], PTR, Ptr(Region("packetlock")))
        eng.prove(s, ULT(B(a[2]), end), 'only positions inside the section are looked at')
        eng.prove(s, z3.And(B(a[2]) == B(s.ghost['expected']), bv(s.ghost['type'], 8) != 1), 'packets are looked at one after the other, none skipped, until a data packet')
        out = eng.throw_e57(s.fork(), eng.fresh('readerror', 32))
        p = Pkt(eng, s, 'pkt')
        s.assume(z3.And(ULE(B(4), p.len), ULE(p.type, z3.BitVecVal(2, 8))))
        s.set('at', B(a[2]))
        s.set('expected', simp(B(a[2]) + p.len))
        s.set('type', p.type)
        eng.store(s, a[3], PTR, Ptr(p.reg))
        return out + RET(s)
    e.model(r'^e57::PacketReadCache::lock\(', lock)
    e.model(r'^e57::PacketLock::~PacketLock\(', lambda eng, s, a, n: RET(s))
    st.ghost['type'] = z3.BitVecVal(0, 8)
    this = Region('reader')
    st.mem[this] = {e.off(CR, 'cache_'): (8, Ptr(Region('cache'))), e.off(CR, 'sectionEndLogicalOffset_'): (8, end)}

    def forward(eng, L, ev):
        for k in L.keys:
            if k[0] == 'phi' and k[-1] == 64:
                yield '!%s moves forward' % k[1], lambda v, k=k: z3.And(ULE(start, v.num(k)), v.num(k) == B(v.ghost('expected')), bv(v.ghost('type'), 8) != 1)
                yield '%s forward' % k[1], lambda v, k=k: ULE(start, v.num(k))
    e.templates.append(forward)
    for o in e.call(st, ctx.fn(r'^e57::CompressedVectorReaderImpl::findNextDataPacket\('), [Ptr(this), start]):
        s = o.st
        if o.kind != 'ret':
            continue
        r = B(o.val)
        e.cover(s, 'found or not')
        e.prove(s, z3.Or(r == B((1 << 64) - 1), z3.And(ULE(start, r), ULT(r, end))), 'the position found is inside the section, not before the start')
        e.prove(s, z3.Implies(r != B((1 << 64) - 1), z3.And(s.ghost['type'] == 1, B(s.ghost['at']) == r)), 'the packet found is a data packet')


UNITS = [Unit('data packet', verify_data), Unit('data packet header', verify_header), Unit('bytestream', bytestream), Unit('bytestream length', bytestream_length),
         Unit('index packet: only sound', index_only), Unit('index packet: all sound', index_all), Unit('empty packet', verify_empty), Unit('section header', verify_section),
         Unit('feed', feed, budget=500), Unit('next data packet', find_next)]
ASSUMPTIONS = ['a packet buffer is 65536 bytes (C10: readPacket fills such a buffer, entries of the cache)',
               'what is shown for one arbitrary channel is used for the others (feed)',
               'a decoder consumes at most the bytes it is given (C04, C05)']

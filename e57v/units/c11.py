import z3
from ..sym import Ptr, State, Region, Store, Func, ULT, ULE, bv, simp, zb, ite, isc
from ..ir import I
from ..unit import Unit
from ..models import RET
from ..filemodel import B, l2p
from .. import lfile
from . import c17

NATIVE = 'c11'
NATIVE_MS = 8000
IM, CW, BE = 'e57::ImageFileImpl', 'e57::CompressedVectorWriterImpl', 'e57::BitpackEncoder'
W = z3.BitVecSort(64)
A = z3.Function('pending', W, W)                    # bytes waiting in the stream whose entry in the stream table is at offset o (a multiple of 16)
SA = z3.Function('pendingBefore', W, W)             # sum of A over [0, o)
SC = z3.Function('takenBefore', W, W)               # sum of the amounts taken: entries of the count table in [0, o), o a multiple of 8
PS = z3.Function('lengthsBefore', W, W)             # sum of the 16-bit lengths in the packet in [6, o)
S = z3.Function('streamByte', W, W, z3.BitVecSort(8))   # byte k of the pending output of the stream at o
E, K = z3.BitVecs('E K', 64)                        # an arbitrary stream, an arbitrary byte of it
NMAX = 21842


def word(lay, o, n=8):
    return z3.Concat(*[bv(lay.read(simp(B(o) + k)), 8) for k in reversed(range(n))])


def packet_write(ctx):
    """packetWrite, for any number of streams with any amounts pending: the packet is sound (length a multiple of 4, at most 65536, header and stream lengths describing its
    contents, zero padding), holds for each stream the front of its pending output, each stream is drained once by exactly that amount, nothing pending is skipped when
    all of it fits, and the packet exactly fills the space reserved for it"""
    e = ctx.engine()
    e.short_loops = 4
    e.fpmode = 'uf'
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, True, 1)
    un = z3.BitVec('unusedLogicalStart', 64)
    st.assume(z3.And(ULE(B(48), un), ULT(un, B(1 << 59)), ULE(B(st.ghost['llen']), un)))
    w, cv = c17.writer(e, st, im)
    pk = e.new_bytes(st, 'packet', 65536)
    w.meta['subs'] = [(e.off(CW, 'dataPacket_'), e.off(CW, 'dataPacket_') + 65536, pk)]
    N = z3.BitVec('streams', 64)
    st.assume(z3.And(ULT(B(0), N), ULE(N, B(NMAX))))
    vec, enc, vt = Region('streams', size=simp(N * 16)), Region('encoders'), Region('encoder.vtable')
    for r in (vec, enc, vt):
        st.mem[r] = {}
    vec.ptrhook = lambda eng, s, reg, off: Ptr(enc, off)
    enc.ptrhook = lambda eng, s, reg, off: Ptr(vt, 0)
    vo = e.off(CW, 'bytestreams_')
    st.mem[w][vo], st.mem[w][vo + 8], st.mem[w][vo + 16] = (8, Ptr(vec, 0)), (8, Ptr(vec, simp(N * 16))), (8, Ptr(vec, simp(N * 16)))
    st.assume(bv(st.mem[pk].read(0), 8) == 1)       # set when the writer is built (constructor of the packet), never written since
    st.ghost['next'] = B(0)
    st.ghost['verified'] = False
    st.assume(z3.And(SA(B(0)) == 0, SC(B(0)) == 0, PS(B(6)) == 0, ULT(E, N)))
    st.assume(ULE(A(E * 16), B(65536)))

    def tables(s):
        return [r for r in s.mem if r.name.startswith('vec') and r.size is not None and not isc(r.size)]

    def count(s):
        t = tables(s)
        return e.to_bytes(s, t[0]) if t else None

    def available(eng, s, a, x):
        o = B(a[0].off)
        s.assume(ULE(A(o), B(65536)))
        return RET(s, simp(A(o)))

    def read(eng, s, a, x):
        o, dst, n = B(a[0].off), a[1], B(a[2])
        eng.prove(s, o == B(s.ghost['next']) * 16, 'streams are drained in order, each once')
        eng.prove(s, z3.BoolVal(dst.reg is pk), 'encoded bytes go into the packet')
        bad = s.fork()
        bad.assume(ULT(A(o), n))
        out = eng.throw_e57(bad, 11) if eng.feasible(bad) else []       # contract of outputRead: more than is pending is refused
        s.assume(ULE(n, A(o)))
        eng.bounds(s, pk, dst.off, n, 'encoder output')
        old = eng.to_bytes(s, pk)
        p = B(dst.off)
        if s.log is not None:
            s.log.add(('mem', pk, 'bytes', 0))
        s.mem[pk] = Func(lambda j: ite(simp(z3.And(ULE(p, B(j)), ULT(B(j) - p, n))), S(o, simp(B(j) - p)), old.read(j), 8))
        s.set('next', simp(B(s.ghost['next']) + 1))
        return out + RET(s)

    def slot(eng, s, reg, off):
        r = Region('encoder.v%d' % (off // 8), size=0)
        r.meta['vslot'] = {7: available, 8: read}.get(off // 8)
        return Ptr(r, 0)
    vt.ptrhook = slot

    # indices: which stream a loop variable stands for
    def index(L, v):
        for k in L.keys:
            if k[-1] not in (32, 64):
                continue
            x = v.num(k)
            if x is None:
                continue
            ev = L.entry_regs.get(k[1]) if k[0] == 'phi' else v._raw(k[1], k[2]) if k[0] == 'cell' else None
            if isinstance(ev, Ptr):
                if ev.reg is vec:
                    yield k, z3.UDiv(x, B(16)), x, None
                elif ev.reg in tables(L.entry_st):
                    yield k, z3.UDiv(x, B(8)), None, x
            else:
                i = x if k[-1] == 64 else z3.ZeroExt(32, x)
                yield k, i, i * 16, i * 8

    def axiom(eng, L, v):
        cnt = count(v.st)
        s0 = L.entry_st
        for k, i, so, co in index(L, v):
            o = i * 16 if so is None else so
            yield z3.And(SA(o + 16) == SA(o) + A(o), ULE(A(o), B(65536)))
            if co is not None and cnt is not None:
                yield SC(co + 8) == SC(co) + word(cnt, co)
        # facts about every stream, once they have been shown for an arbitrary one
        if cnt is None or any(m[0] == 'mem' and m[1] in tables(s0) for m in L.mods):
            return
        c0 = count(s0)
        full = {'one packet takes all': lambda i: word(cnt, i * 8) == A(i * 16), 'taken amounts are 32-bit': lambda i: ULT(word(cnt, i * 8), B(1 << 32)),
                'sums are ordered': lambda i: z3.And(ULE(SC(i * 8), SC(i * 8) + word(cnt, i * 8)), ULE(SC(i * 8) + word(cnt, i * 8), SC(N * 8)), SC(i * 8 + 8) == SC(i * 8) + word(cnt, i * 8))}
        for lab, fact in full.items():
            kk = (id(L), lab)
            if kk not in known:
                known[kk] = eng.entails(s0.pc, fact(E), (4000,))[0] == 'proved'
            if known[kk]:
                for k, i, so, co in index(L, v):
                    if co is not None:
                        yield z3.Implies(ULT(i, N), fact(i))
    known = {}

    def template(eng, L, ev):
        views = list(index(L, ev))
        hdr0 = [ev.layer(pk).read(j) for j in range(6)]
        pm = any(m[0] == 'mem' and m[1] is pk for m in L.mods)
        tm = any(m[0] == 'mem' and m[1] in tables(L.entry_st) for m in L.mods)
        cnt0 = count(L.entry_st)

        def at(v, k):
            return next((q for q in index(L, v) if q[0] == k), None)
        if pm:
            yield '!header bytes kept', lambda v: z3.And(*[bv(v.layer(pk).read(j), 8) == bv(hdr0[j], 8) for j in range(6)])
            yield '!lengths kept', lambda v: word(v.layer(pk), 6 + 2 * E, 2) == word(ev.layer(pk), 6 + 2 * E, 2)
        for k, i, so, co in views:
            yield '!%s within the streams' % k[1], lambda v, k=k: ULE(at(v, k)[1], N)
            if so is None:
                yield '!%s is aligned' % k[1], lambda v, k=k: z3.And(z3.URem(v.num(k), B(8)) == 0, ULE(v.num(k), N * 8))
            elif co is None:
                yield '!%s is aligned' % k[1], lambda v, k=k: z3.And(z3.URem(v.num(k), B(16)) == 0, ULE(v.num(k), N * 16))
            if so is not None:
                yield '!sum of pending before %s' % k[1], lambda v, k=k: z3.And(ULE(SA(at(v, k)[2]), at(v, k)[1] * 65536),
                                                                             z3.Implies(ULT(E, at(v, k)[1]), ULE(A(E * 16), SA(at(v, k)[2]))))
            for t in L.keys:
                if t == k or t[-1] != 64:
                    continue
                if so is not None:
                    yield '!%s is the sum of pending before %s' % (t[1], k[1]), lambda v, k=k, t=t: v.num(t) == SA(at(v, k)[2])
                if co is not None and cnt0 is not None and not tm:
                    yield '!%s is the sum of taken before %s' % (t[1], k[1]), lambda v, k=k, t=t: v.num(t) == SC(at(v, k)[3])
                    yield '!%s is the end of what was taken before %s' % (t[1], k[1]), lambda v, k=k, t=t: v.num(t) == 6 + 2 * N + SC(at(v, k)[3])
            if co is not None and cnt0 is not None and not tm:
                yield '!sum of taken before %s' % k[1], lambda v, k=k: z3.And(ULE(SC(at(v, k)[3]), at(v, k)[1] * B(1 << 32)),
                    z3.Implies(ULT(E, at(v, k)[1]), z3.And(SC(E * 8 + 8) == SC(E * 8) + word(cnt0, E * 8), ULE(SC(E * 8), SC(E * 8) + word(cnt0, E * 8)), ULE(SC(E * 8) + word(cnt0, E * 8), SC(at(v, k)[3])))))
                yield '!taken is pending before %s' % k[1], lambda v, k=k: SC(at(v, k)[3]) == SA(at(v, k)[1] * 16)
            if tm and co is not None:
                yield '!all taken before %s' % k[1], lambda v, k=k: z3.Implies(ULT(E, at(v, k)[1]), word(count(v.st), E * 8) == A(E * 16))
                yield '!32-bit before %s' % k[1], lambda v, k=k: z3.Implies(ULT(E, at(v, k)[1]), ULT(word(count(v.st), E * 8), B(1 << 32)))
            if pm and cnt0 is not None and co is not None:
                yield '!lengths before %s' % k[1], lambda v, k=k: z3.Implies(ULT(E, at(v, k)[1]), z3.ZeroExt(48, word(v.layer(pk), 6 + 2 * E, 2)) == word(cnt0, E * 8))
                yield '!contents before %s' % k[1], lambda v, k=k: z3.Implies(z3.And(ULT(E, at(v, k)[1]), ULT(K, word(cnt0, E * 8))),
                    bv(v.layer(pk).read(simp(6 + 2 * N + SC(E * 8) + K)), 8) == S(E * 16, K))
                yield '!no more than pending before %s' % k[1], lambda v, k=k: z3.Implies(ULT(E, at(v, k)[1]), ULE(word(cnt0, E * 8), A(E * 16)))
                yield '!streams drained before %s' % k[1], lambda v, k=k: B(v.ghost('next')) == at(v, k)[1]
    e.axioms.append(axiom)
    e.templates.append(template)

    def verify(eng, s, a, name):
        """DataPacket::verify by its contract (C09): accepts exactly the sound packets"""
        lay, cnt = eng.to_bytes(s, pk), count(s)
        n = z3.ZeroExt(32, bv(a[1], 32))
        u16 = lambda o: z3.ZeroExt(48, word(lay, o, 2))
        eng.prove(s, z3.BoolVal(a[0].reg is pk or a[0].reg is w), 'the packet itself is checked')
        # lemma, by induction over the streams: the lengths in the packet add up to the bytes taken
        step = PS(8 + 2 * E) == PS(6 + 2 * E) + u16(6 + 2 * E)
        sc = SC(E * 8 + 8) == SC(E * 8) + word(cnt, E * 8)
        eng.prove(s, z3.Implies(z3.And(step, sc, PS(6 + 2 * E) == SC(E * 8)), PS(8 + 2 * E) == SC(E * 8 + 8)), 'lemma: lengths add up to the bytes taken (step)')
        s.assume(PS(6 + 2 * N) == SC(N * 8))
        used = 6 + 2 * N + SC(N * 8)
        eng.prove(s, z3.And(bv(lay.read(0), 8) == 1, bv(lay.read(1), 8) == 0), 'marked as a data packet, flags clear')
        eng.prove(s, z3.And(u16(2) + 1 == n, z3.URem(n, B(4)) == 0, ULE(n, B(65536))), 'the header states the length, a multiple of 4')
        eng.prove(s, u16(4) == N, 'the header states the number of streams')
        eng.prove(s, z3.And(ULE(used, n), ULT(n, used + 4)), 'lengths and contents and at most 3 bytes of padding fill the packet')
        eng.prove(s, z3.And(*[z3.Implies(ULT(used + i, n), bv(lay.read(simp(used + i)), 8) == 0) for i in range(3)]), 'padding is zero')
        s.set('verified', True)
        return RET(s)
    e.model(r'^e57::DataPacket::verify\(', verify)
    dp, cnt0 = z3.BitVec('dataPhysicalOffset_', 64), z3.BitVec('dataPacketsCount_', 64)
    for o in e.call(st, ctx.fn(r'^e57::CompressedVectorWriterImpl::packetWrite\(\)'), [Ptr(w)]):
        s = o.st
        new = B(e.load(s, Ptr(im, e.off(IM, 'unusedLogicalStart_')), I(64)))
        ld = lambda m: B(e.load(s, Ptr(w, e.off(CW, m)), I(64)))
        wr = [x for x in s.ghost['ev'] if x[0] == 'write']
        if o.kind != 'ret':
            e.cover(s, 'fails')
            mx = B(65536 - 6) - 2 * N
            e.prove(s, z3.Or(zb(s.ghost['fault']), ULE(mx, SA(N * 16))), 'when all of it fits, fails only if the disk failed')
            continue
        if not s.ghost['verified']:
            e.cover(s, 'nothing to send')
            e.prove(s, z3.BoolVal(not wr), 'no packet is written')
            e.prove(s, A(E * 16) == 0, 'no packet only if nothing is pending')
            continue
        e.cover(s, 'sends a packet')
        lc, cnt = s.ghost['lc'], count(s)
        c = word(cnt, E * 8)
        n = new - un
        e.prove(s, z3.BoolVal(len(wr) == 1), 'one write')
        e.prove(s, z3.And(B(wr[0][1]) == un, B(wr[0][2]) == n), 'the packet exactly fills the space it reserves')
        e.prove(s, B(s.ghost['next']) == N, 'every stream was drained once')
        e.prove(s, z3.Concat(bv(lc.read(un + 3), 8), bv(lc.read(un + 2), 8)) == z3.Extract(15, 0, n - 1), 'the packet records its length')
        e.prove(s, z3.ZeroExt(48, word(lc, un + 6 + 2 * E, 2)) == c, 'the length recorded for a stream is the amount taken from it')
        e.prove(s, ULE(c, A(E * 16)), 'no more is taken than was pending')
        e.prove(s, z3.Implies(ULT(SA(N * 16), B(65530) - 2 * N), c == A(E * 16)), 'when all of it fits, all of it is sent')
        e.prove(s, z3.Implies(ULT(K, c), bv(lc.read(simp(un + 6 + 2 * N + SC(E * 8) + K)), 8) == S(E * 16, K)), 'the chunk of a stream is the front of its pending output')
        e.prove(s, z3.Implies(ULT(K, B(st.ghost['llen'])), bv(lc.read(K), 8) == bv(st.ghost['lc'].read(K), 8)), 'no earlier byte of the file changes')
        e.prove(s, ld('dataPhysicalOffset_') == z3.If(cnt0 == 0, l2p(un), dp), 'the position of the first data packet is remembered')
        e.prove(s, ld('dataPacketsCount_') == cnt0 + 1, 'the packet is counted')


def shift(ctx):
    for al in (1, 2, 4, 8):
        queue(ctx, 'outBufferShiftDown', al)


def queue(ctx, what, align=None):
    """a stream's output queue: outputAvailable is the number of bytes in it; outputRead removes exactly the bytes it copies out, from the front; moving the queue down in
    its buffer keeps every byte and leaves the end aligned; clearing empties it"""
    e = ctx.engine()
    st = State()
    own = lambda eng, s, a, x: eng.call(s, ctx.fn(r'^e57::BitpackEncoder::outputAvailable\('), a)
    q = lfile.vobject(e, st, 'encoder', lambda slot: own if slot == 7 else None)
    cap, first, end, al = z3.BitVecs('capacity first end alignment', 64)
    if align:
        al = B(align)
    else:
        st.assume(z3.Or(al == 1, al == 2, al == 4, al == 8))
    st.assume(z3.And(ULT(B(0), cap), ULE(cap, B(1 << 32)), z3.URem(cap, al) == 0, ULE(first, end), ULE(end, cap)))
    out = e.new_bytes(st, 'outBuffer', cap)
    o = e.off(BE, 'outBuffer_')
    c = st.mem[q]
    c[o], c[o + 8], c[o + 16] = (8, Ptr(out, 0)), (8, Ptr(out, cap)), (8, Ptr(out, cap))
    for m, v in (('outBufferFirst_', first), ('outBufferEnd_', end), ('outBufferAlignmentSize_', al)):
        c[e.off(BE, m)] = (8, v)
    lay0 = st.mem[out]
    args = [Ptr(q)]
    n = z3.BitVec('count', 64)
    if what == 'outputRead':
        dst = e.new_bytes(st, 'destination', n)
        args += [Ptr(dst), n]
    J = z3.BitVec('J', 64)
    pending = end - first
    for x in e.call(st, ctx.fn(r'^e57::BitpackEncoder::%s\(' % what), args):
        s = x.st
        ld = lambda m: B(e.load(s, Ptr(q, e.off(BE, m)), I(64)))
        f1, e1 = ld('outBufferFirst_'), ld('outBufferEnd_')
        lay = e.to_bytes(s, out)
        if x.kind != 'ret':
            if what == 'outputRead':
                e.cover(s, 'refuses')
            e.prove(s, ULT(pending, n) if what == 'outputRead' else z3.BoolVal(False), 'refuses only to read more than is pending')
            continue
        e.cover(s, 'returns')
        e.prove(s, z3.And(ULE(f1, e1), ULE(e1, cap)), 'the queue stays inside its buffer')
        if what == 'outputAvailable':
            e.prove(s, B(x.val) == pending, 'the number of bytes pending')
        if what == 'outputClear':
            e.prove(s, f1 == e1, 'the queue is empty')
            continue
        if what == 'outputRead':
            e.prove(s, ULE(n, pending), 'no more is read than was pending')
            e.prove(s, e1 - f1 == pending - n, 'exactly the bytes read are removed')
            e.prove(s, z3.Implies(ULT(J, n), bv(e.to_bytes(s, dst).read(J), 8) == bv(lay0.read(simp(first + J)), 8)), 'the bytes read are the front of the queue')
            e.prove(s, z3.Implies(ULT(J, pending - n), bv(lay.read(simp(f1 + J)), 8) == bv(lay0.read(simp(first + n + J)), 8)), 'the rest stays, in order')
        else:
            e.prove(s, e1 - f1 == pending, 'nothing is added or removed')
            e.prove(s, z3.Implies(ULT(J, pending), bv(lay.read(simp(f1 + J)), 8) == bv(lay0.read(simp(first + J)), 8)), 'every pending byte stays, in order')
        if what == 'outBufferShiftDown':
            e.prove(s, z3.And(z3.URem(e1, al) == 0, ULT(e1, pending + al)), 'the queue ends at the first aligned position')


UNITS = [Unit('packet', packet_write, budget=500), Unit('empty packet', c17.packet, arg='packetWriteZeroRecords')] + \
    [Unit('queue ' + w, queue, arg=w) for w in ('outputAvailable', 'outputRead', 'outputClear')] + [Unit('queue outBufferShiftDown', shift)]
ASSUMPTIONS = ['at most 21842 fields per record (more leave no room for data in a 64 KiB packet)',
               'each stream offers at most 65536 pending bytes (size of the encoder output buffer)',
               'the proportional share of an overfull packet is single-precision arithmetic left uninterpreted: that its total never exceeds the packet is guarded by the code\'s own '
               'check (which raises an error) and that the check never fires is only sampled natively']

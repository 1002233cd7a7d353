import z3
from ..sym import Ptr, State, Region, Unsupported, ULT, ULE, bv, simp, zb, ite, isc
from ..ir import I, PTR
from ..unit import Unit
from ..models import RET
from ..filemodel import B, l2p
from .. import lfile
from . import c17, c09

NATIVE = 'c20'
NATIVE_MS = 12000
IM, CW, CR, DC, SD = 'e57::ImageFileImpl', 'e57::CompressedVectorWriterImpl', 'e57::CompressedVectorReaderImpl', 'e57::DecodeChannel', 'e57::SourceDestBufferImpl'
E = z3.BitVec('E', 64)            # an arbitrary stream: what is shown for it holds for each
MAX = B((1 << 64) - 1)
NMAX = 21842


def vtable(handlers):
    vt = Region('vtable')

    def slot(eng, s, reg, off):
        r = Region('v%d' % (off // 8), size=0)
        r.meta['vslot'] = handlers.get(off // 8)
        return Ptr(r, 0)
    vt.ptrhook = slot
    return vt


def const_part(off, size):
    """off = a multiple of size + this"""
    off = simp(off)
    if isc(off):
        return off % size
    if z3.is_app(off) and off.decl().kind() == z3.Z3_OP_BADD:
        return sum(c.as_long() for c in off.children() if z3.is_bv_value(c)) % size
    return 0


def table(e, st, name, n, size, fields):
    """n records of that size, holding pointers at the given offsets: pointers into regions whose offsets name the record"""
    r = e.new_bytes(st, name, simp(n * size))

    def hook(eng, s, reg, off):
        c = const_part(off, size)
        if c not in fields:
            return Ptr(Region('ctl', isnull=False), 0)
        return Ptr(fields[c], simp(B(off) - c))
    r.ptrhook = hook
    return r


class Records:
    """scalar members of the records of a table: those of record E are ghost state 'name.member', reading another record yields an arbitrary value (what is shown for E
    holds for each record)"""

    def __init__(self, e, st, tab, size, members, fn=None):
        self.size, self.members, self.fn = size, {o: (m, w) for m, o, w in members}, fn
        tab.meta['record'] = self
        if fn is None:
            for m, o, w in members:
                st.ghost['.' + m] = z3.BitVec('E.' + m, 8 * w)

    def at(self, off, n):
        c = const_part(off, self.size)
        if c not in self.members or self.members[c][1] != n:
            raise Unsupported('access to %d bytes at %d of a record' % (n, c))
        return self.members[c][0], simp(B(off) - c)

    def load(self, eng, s, off, n):
        m, o = self.at(off, n)
        if self.fn:
            return self.fn(m)(o)
        return simp(z3.If(o == E * self.size, bv(s.ghost['.' + m], 8 * n), eng.fresh('other.' + m, 8 * n)))

    def store(self, eng, s, off, n, v):
        m, o = self.at(off, n)
        v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if isinstance(v, z3.BoolRef) else bv(int(v) if isinstance(v, bool) else v, 8 * n)
        s.set('.' + m, simp(z3.If(o == E * self.size, v, bv(s.ghost['.' + m], 8 * n))))


def entry(L, k):
    if k[0] == 'phi':
        return L.entry_regs.get(k[1])
    if k[0] == 'cell' and isinstance(L.entry_st.mem.get(k[1]), dict):
        return L.entry_st.mem[k[1]].get(k[2], (0, None))[1]


def iterators(L, tab, size):
    """loop variables that stand for a record of the table: (key, v -> offset of the record)"""
    for k in L.keys:
        if k[-1] not in (32, 64):
            continue
        ev = entry(L, k)
        if isinstance(ev, Ptr):
            if ev.reg is tab:
                yield k, lambda v, k=k: v.num(k)
        elif k[0] == 'phi':
            yield k, lambda v, k=k: (v.num(k) if k[-1] == 64 else z3.ZeroExt(32, v.num(k))) * size


def aligned(L, tab, size, n):
    for k, at in iterators(L, tab, size):
        yield '!%s is a record' % k[1], lambda v, at=at: z3.And(z3.URem(at(v), B(size)) == 0, ULE(at(v), n * size))


# ------------------------------------------------------------------------------------------------ writing
def streams(ctx, e, st, handlers):
    """a writer with any number of streams"""
    lfile.install(e)
    lfile.names(e)
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, True, 1)
    w, cv = c17.writer(e, st, im)
    N = z3.BitVec('streams', 64)
    st.assume(z3.And(ULT(B(0), N), ULE(N, B(NMAX)), ULT(E, N)))
    enc = Region('encoders')
    vt = vtable(handlers)
    enc.ptrhook = lambda eng, s, reg, off: Ptr(vt, 0)
    st.mem[enc] = {}
    tab = table(e, st, 'bytestreams', N, 16, {0: enc})
    o = e.off(CW, 'bytestreams_')
    st.mem[w][o], st.mem[w][o + 8], st.mem[w][o + 16] = (8, Ptr(tab, 0)), (8, Ptr(tab, simp(N * 16))), (8, Ptr(tab, simp(N * 16)))
    return w, cv, im, N, tab


def mine(a, size=16):
    return simp(B(a.off) == E * size)


def write(ctx):
    """write(n): with every stream at the same record before, every stream has taken exactly n more records after, each from the front of its rewound buffer, never
    asked for more than are left; the record count grows by exactly n. More than the buffers hold is refused, and nothing is asked of any stream"""
    e = ctx.engine()
    st = State()
    rec, req = z3.BitVec('recordCount_', 64), z3.BitVec('requested', 64)
    end = rec + req
    st.assume(z3.And(ULT(rec, B(1 << 60)), ULT(req, B(1 << 47))))    # so the sum over at most 21842 streams does not wrap
    st.ghost['cur'] = rec                                            # record the stream E is at
    st.ghost['rewound'] = B(0)
    st.ghost['asked'] = z3.BoolVal(False)

    def index(eng, s, a, x):
        other = eng.fresh('otherRecord', 64)
        s.assume(z3.And(ULE(rec, other), ULE(other, end)))           # shown for E at every step, so true of each
        return RET(s, ite(mine(a[0]), B(s.ghost['cur']), other, 64))

    def process(eng, s, a, x):
        n = B(a[1])
        cur, m = B(s.ghost['cur']), mine(a[0])
        eng.cover(s, 'a stream is given records')
        eng.prove(s, z3.Implies(m, ULE(n, end - cur)), 'no stream is given more records than were offered')
        eng.prove(s, B(s.ghost['rewound']) == N, 'all buffers were rewound before')
        got = eng.fresh('processed', 64)
        s.assume(ULE(got, n))
        s.set('asked', True)
        bad = eng.throw_e57(s.fork(), eng.fresh('codecerror', 32))
        s.set('cur', simp(z3.If(m, cur + got, cur)))
        return RET(s, simp(z3.If(m, cur + got, eng.fresh('record', 64)))) + bad

    def pending(eng, s, a, x):
        p = eng.fresh('pending', 64)
        s.assume(ULE(p, B(65536)))
        return RET(s, p)
    w, cv, im, N, tab = streams(ctx, e, st, {2: process, 4: index, 7: pending})
    # the user's buffers
    sdb = Region('sourceBuffers')
    st.mem[sdb] = {}
    stab = table(e, st, 'sbufs', N, 16, {0: sdb})
    o = e.off(CW, 'sbufs_')
    st.mem[w][o], st.mem[w][o + 8], st.mem[w][o + 16] = (8, Ptr(stab, 0)), (8, Ptr(stab, simp(N * 16))), (8, Ptr(stab, simp(N * 16)))
    cap = z3.BitVec('capacity', 64)

    def rewind(eng, s, a, n):
        eng.prove(s, B(a[0].off) == B(s.ghost['rewound']) * 16, 'each buffer is rewound once')
        s.set('rewound', simp(B(s.ghost['rewound']) + 1))
        return RET(s)
    e.model(r'^e57::SourceDestBufferImpl::rewind\(', rewind)
    e.model(r'^e57::SourceDestBufferImpl::capacity\(', lambda eng, s, a, n: RET(s, cap))   # equal for all buffers (checkBuffers)
    e.model(r'^e57::CompressedVectorWriterImpl::packetWrite\(', lambda eng, s, a, n: RET(s, eng.fresh('packet', 64)) + eng.throw_e57(s.fork(), eng.fresh('writeerror', 32)))

    def template(eng, L, ev):
        for t in (tab, stab):
            yield from aligned(L, t, 16, N)
        yield '!a stream stays within what was offered', lambda v: z3.And(ULE(rec, B(v.ghost('cur'))), ULE(B(v.ghost('cur')), end))
        for k, at in iterators(L, stab, 16):
            yield '!rewound before %s' % k[1], lambda v, at=at: z3.And(ULE(B(v.ghost('rewound')), N), B(v.ghost('rewound')) * 16 == at(v))
        for k, at in iterators(L, tab, 16):
            for t in L.keys:
                if t != k and t[-1] == 64 and not isinstance(entry(L, t), Ptr):
                    yield '!%s covers streams before %s' % (t[1], k[1]), lambda v, at=at, t=t: z3.And(ULE(v.num(t), z3.UDiv(at(v), B(16)) * B(1 << 47)),
                        z3.Implies(ULT(E * 16, at(v)), ULE(end - B(v.ghost('cur')), v.num(t))))
    e.templates.append(template)
    for oc in e.call(st, ctx.fn(r'^e57::CompressedVectorWriterImpl::write\(unsigned long\)$'), [Ptr(w), req]):
        s = oc.st
        r1 = B(e.load(s, Ptr(w, e.off(CW, 'recordCount_')), I(64)))
        if oc.kind != 'ret':
            e.prove(s, r1 == rec, 'a failed write counts no records')
            e.prove(s, z3.Implies(ULT(cap, req), z3.Not(zb(s.ghost['asked']))), 'more than the buffers hold is refused before any stream is asked')
            e.prove(s, z3.Or(zb(s.ghost['asked']), ULT(cap, req), B(s.ghost['rewound']) == N), 'nothing else is refused')
            continue
        e.cover(s, 'writes')
        e.prove(s, z3.Or(ULE(req, cap), req == 0), 'more than the buffers hold is refused')
        e.prove(s, r1 == rec + req, 'the record count grows by exactly the records offered')
        e.prove(s, B(s.ghost['cur']) == rec + req, 'every stream has taken exactly the records offered')


def total(ctx):
    """totalOutputAvailable: at least what is pending in each stream, zero if nothing is"""
    e = ctx.engine()
    st = State()
    A = z3.Function('pending', z3.BitVecSort(64), z3.BitVecSort(64))
    none = z3.Bool('nothing pending')

    def pending(eng, s, a, x):
        o = B(a[0].off)
        s.assume(z3.And(ULE(A(o), B(65536)), z3.Implies(none, A(o) == 0)))
        return RET(s, A(o))
    w, cv, im, N, tab = streams(ctx, e, st, {7: pending})

    def template(eng, L, ev):
        yield from aligned(L, tab, 16, N)
        for k, at in iterators(L, tab, 16):
            for t in L.keys:
                if t != k and t[-1] == 64 and not isinstance(entry(L, t), Ptr):
                    yield '!%s covers %s' % (t[1], k[1]), lambda v, at=at, t=t: z3.And(ULE(v.num(t), z3.UDiv(at(v), B(16)) * B(65536)), z3.Implies(ULT(E * 16, at(v)), ULE(A(E * 16), v.num(t))))
                    yield '!%s is zero' % t[1], lambda v, t=t: z3.Implies(none, v.num(t) == 0)
    e.templates.append(template)
    for oc in e.call(st, ctx.fn(r'^e57::CompressedVectorWriterImpl::totalOutputAvailable\('), [Ptr(w)]):
        e.cover(oc.st, 'returns')
        e.prove(oc.st, z3.BoolVal(oc.kind == 'ret'), 'never fails')
        e.prove(oc.st, ULE(A(E * 16), B(oc.val)), 'no stream has more pending than the total')
        e.prove(oc.st, z3.Implies(none, B(oc.val) == 0), 'the total is zero when nothing is pending')


def flush(ctx):
    """flush: the register of every stream is handed to its output once"""
    e = ctx.engine()
    st = State()
    st.ghost['n'] = B(0)

    def reg(eng, s, a, x):
        s.set('n', simp(z3.If(mine(a[0]), B(s.ghost['n']) + 1, B(s.ghost['n']))))
        return RET(s, z3.Bool('flushed!%d' % id(s)))
    w, cv, im, N, tab = streams(ctx, e, st, {6: reg})

    def template(eng, L, ev):
        yield from aligned(L, tab, 16, N)
        for k, at in iterators(L, tab, 16):
            yield '!before %s' % k[1], lambda v, at=at: B(v.ghost('n')) == z3.If(ULT(E * 16, at(v)), B(1), B(0))
    e.templates.append(template)
    for oc in e.call(st, ctx.fn(r'^e57::CompressedVectorWriterImpl::flush\('), [Ptr(w)]):
        e.cover(oc.st, 'returns')
        e.prove(oc.st, B(oc.st.ghost['n']) == 1, 'the register of every stream is flushed once')


def close(ctx):
    """close: every stream is emptied (pending output and register), then an index packet, then the section header, in place, with the length of the section and the
    positions of the first data packet and the index; the node gets the record count and the position of the section. Closing again does nothing"""
    e = ctx.engine()
    e.short_loops = 4
    st = State()
    st.ghost['pend'] = z3.BitVec('pendingE', 64)
    st.ghost['reg'] = z3.Bool('registerE')             # bits left in the register of E
    st.ghost['idx'] = False
    w, cv, im, N, tab = streams(ctx, e, st, {})
    rec, start, un = z3.BitVec('recordCount_', 64), z3.BitVec('sectionHeaderLogicalStart_', 64), z3.BitVec('unusedLogicalStart', 64)
    st.assume(z3.And(ULE(B(48), start), ULE(start + 32, un), ULT(un, B(1 << 59)), z3.URem(un - start, B(4)) == 0, ULE(B(st.ghost['llen']), un), ULE(start + 32, B(st.ghost['llen']))))
    st.ghost['unused'] = un
    opened = z3.Bool('isOpen')
    st.mem[w][e.off(CW, 'isOpen_')] = (1, z3.If(opened, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    e.bool_bytes = True
    wc = e.off(IM, 'writerCount_')
    count = z3.BitVec('writerCount', 32)
    st.mem[im][wc] = (4, count)
    st.assume(z3.And(0 < count, count < 1000))
    dpc, dpo, tip = z3.BitVec('dataPacketsCount_', 64), z3.BitVec('dataPhysicalOffset_', 64), z3.BitVec('topIndexPhysicalOffset_', 64)
    CV = 'e57::CompressedVectorNodeImpl'
    for m in ('recordCount_', 'binarySectionLogicalStart_'):
        st.mem[cv][e.off(CV, m)] = (8, z3.BitVec('old' + m, 64))

    def fl(eng, s, a, n):
        # each register is handed over if there is room, so afterwards it is empty or output is pending (C04)
        p1, r1 = eng.fresh('pending', 64), z3.Bool('register!%d' % eng.fresh('k', 8).get_id())
        s.assume(z3.And(ULE(B(s.ghost['pend']), p1), z3.Implies(r1, z3.And(s.ghost['reg'], p1 != 0)), ULE(p1, B(65536))))
        s.set('pend', p1)
        s.set('reg', r1)
        return RET(s)

    def tot(eng, s, a, n):
        t = eng.fresh('total', 64)
        s.assume(ULE(B(s.ghost['pend']), t))
        return RET(s, t)

    def advance(eng, s, n):
        u = B(eng.load(s, Ptr(im, eng.off(IM, 'unusedLogicalStart_')), I(64)))
        eng.store(s, Ptr(im, eng.off(IM, 'unusedLogicalStart_')), I(64), simp(u + n))
        ln = eng.fresh('length', 64)
        s.assume(z3.And(ULE(B(s.ghost['llen']), ln), ULE(ln, u + n)))
        s.set('llen', ln)
        pl = eng.fresh('physical', 64)
        s.assume(z3.And(ULE(l2p(ln), pl + 1024), ULT(pl, B(1 << 60))))
        s.set('plen', pl)
        return u

    def pw(eng, s, a, n):
        """packetWrite (C11): sends the front of what is pending, in a packet of 4-byte multiple length right at the allocation mark"""
        out = eng.throw_e57(s.fork(), eng.fresh('writeerror', 32))
        sz = eng.fresh('packetsize', 64)
        s.assume(z3.And(z3.URem(sz, B(4)) == 0, ULT(B(0), sz), ULE(sz, B(65536))))
        s.assume(ULT(B(eng.load(s, Ptr(im, eng.off(IM, 'unusedLogicalStart_')), I(64))), B(1 << 59)))
        u = advance(eng, s, sz)
        p1 = eng.fresh('pending', 64)
        s.assume(ULE(p1, B(s.ghost['pend'])))
        s.set('pend', p1)
        first(eng, s, u)
        return out + RET(s, eng.fresh('packet', 64))

    def first(eng, s, u):
        k = B(eng.load(s, Ptr(w, e.off(CW, 'dataPacketsCount_')), I(64)))
        d = B(eng.load(s, Ptr(w, e.off(CW, 'dataPhysicalOffset_')), I(64)))
        eng.store(s, Ptr(w, e.off(CW, 'dataPhysicalOffset_')), I(64), simp(z3.If(k == 0, l2p(u), d)))
        eng.store(s, Ptr(w, e.off(CW, 'dataPacketsCount_')), I(64), simp(k + 1))

    def zero(eng, s, a, n):
        out = eng.throw_e57(s.fork(), eng.fresh('writeerror', 32))
        eng.cover(s, 'no data packet yet')
        eng.prove(s, B(eng.load(s, Ptr(w, e.off(CW, 'dataPacketsCount_')), I(64))) == 0, 'an empty data packet only when there is no other')
        u = advance(eng, s, B(8))
        first(eng, s, u)
        return out + RET(s, eng.fresh('packet', 64))

    def index(eng, s, a, n):
        out = eng.throw_e57(s.fork(), eng.fresh('writeerror', 32))
        eng.prove(s, z3.And(B(s.ghost['pend']) == 0, z3.Not(zb(s.ghost['reg']))), 'every stream is emptied before the index is written')
        eng.prove(s, z3.BoolVal(not s.ghost['idx']), 'one index packet')
        eng.prove(s, B(eng.load(s, Ptr(w, e.off(CW, 'dataPacketsCount_')), I(64))) != 0, 'there is a data packet before the index')
        u = advance(eng, s, B(32))
        eng.store(s, Ptr(w, e.off(CW, 'topIndexPhysicalOffset_')), I(64), simp(l2p(u)))
        s.set('idx', True)
        return out + RET(s)
    for n, h in (('flush', fl), ('totalOutputAvailable', tot), ('packetWrite', pw), ('packetWriteZeroRecords', zero), ('packetWriteIndex', index)):
        e.model(r'^e57::CompressedVectorWriterImpl::%s\(' % n, h)

    def verify(eng, s, a, n):
        s.set('verified', True)
        return RET(s) + eng.throw_e57(s.fork(), 1)
    e.model(r'^e57::CompressedVectorSectionHeader::verify\(', verify)
    e.model(r'^std::vector<std::shared_ptr<e57::Encoder>.*::(clear|_M_erase_at_end)\(', lambda eng, s, a, n: RET(s))

    def template(eng, L, ev):
        U = ('cell', im, e.off(IM, 'unusedLogicalStart_'), 8, 64)
        C = ('cell', w, e.off(CW, 'dataPacketsCount_'), 8, 64)
        if U in L.keys:
            yield '!section grows in words', lambda v: z3.And(z3.URem(v.num(U) - start, B(4)) == 0, ULE(un, v.num(U)), ULT(v.num(U), B((1 << 59) + (1 << 20))), ULE(B(v.ghost('llen')), v.num(U)), ULE(start + 32, B(v.ghost('llen'))))
        yield '!register empty unless output pending', lambda v: z3.Implies(zb(v.ghost('reg')), B(v.ghost('pend')) != 0)
    e.templates.append(template)
    un0 = B(e.load(st, Ptr(im, e.off(IM, 'unusedLogicalStart_')), I(64)))
    st.assume(z3.And(un0 == un, z3.Implies(dpc == 0, dpo == 0), ULT(dpc, B(1 << 60))))
    for oc in e.call(st, ctx.fn(r'^e57::CompressedVectorWriterImpl::close\(\)'), [Ptr(w)]):
        s = oc.st
        ld = lambda r, c, m: B(e.load(s, Ptr(r, e.off(c, m)), I(64)))
        n1 = bv(e.load(s, Ptr(im, wc), I(32)), 32)
        op = bv(e.load(s, Ptr(w, e.off(CW, 'isOpen_')), I(8)), 8)
        wr = [x for x in s.ghost['ev'] or () if x[0] == 'write']
        rc, bs = ld(cv, CV, 'recordCount_'), ld(cv, CV, 'binarySectionLogicalStart_')
        e.prove(s, op == 0, 'the writer is closed afterwards, come what may')
        e.prove(s, n1 == z3.If(opened, count - 1, count), 'the number of open writers falls by one, once')
        if oc.kind != 'ret':
            continue
        if not s.ghost['idx']:
            e.cover(s, 'already closed')
            e.prove(s, z3.Not(opened), 'nothing is skipped when the writer is open')
            e.prove(s, z3.And(z3.BoolVal(not wr), rc == z3.BitVec('oldrecordCount_', 64), bs == z3.BitVec('oldbinarySectionLogicalStart_', 64)), 'closing again changes nothing')
            continue
        e.cover(s, 'closes')
        lc = s.ghost['lc']
        def states(o, v, what):
            for k in range(8):
                e.prove(s, bv(lc.read(simp(start + o + k)), 8) == z3.Extract(8 * k + 7, 8 * k, B(v)), what)
        e.prove(s, z3.And(rc == rec, bs == start), 'the node gets the record count and the position of the section')
        e.prove(s, z3.BoolVal(len(wr) == 1), 'the section header is written once')
        e.prove(s, z3.And(B(wr[0][1]) == start, B(wr[0][2]) == 32), 'the section header is written over the space reserved for it')
        states(0, 1, 'the section header is marked as one')
        states(8, simp(ld(im, IM, 'unusedLogicalStart_') - start), 'the section header states the length of the section')
        states(16, ld(w, CW, 'dataPhysicalOffset_'), 'the section header states where the first data packet is')
        states(24, ld(w, CW, 'topIndexPhysicalOffset_'), 'the section header states where the index is')


# ------------------------------------------------------------------------------------------------ reading
class Reader:
    """a reader with any number of channels; what happens to channel E is kept in ghost state"""

    def __init__(self, ctx, e, st, handlers, fn=None):
        lfile.install(e)
        lfile.names(e)
        f = lfile.init(e, st)
        self.im = lfile.imagefile(e, st, f, True, 0)
        self.N = N = z3.BitVec('channels', 64)
        st.assume(z3.And(ULT(B(0), N), ULE(N, B(1 << 20)), ULT(E, N)))
        self.S = S = e.mod.sizeof(('named', '%"struct.e57::DecodeChannel"'))
        self.dec, self.sdb = Region('decoders'), Region('destBuffers')
        vt = vtable(handlers)
        self.dec.ptrhook = lambda eng, s, reg, off: Ptr(vt, 0)
        st.mem[self.dec], st.mem[self.sdb] = {}, {}
        self.tab = table(e, st, 'channels', N, S, {e.off(DC, 'dbuf'): self.sdb, e.off(DC, 'decoder'): self.dec})
        Records(e, st, self.tab, S, [(m, e.off(DC, m), w) for m, w in FIELDS], fn)
        self.r = r = Region('reader')
        c = st.mem[r] = {}
        self.vec(e, st, 'channels_', self.tab, S)
        c[e.off(CR, 'cache_')] = (8, Ptr(Region('cache')))
        c[e.off(CR, 'sectionEndLogicalOffset_')] = (8, z3.BitVec('sectionEnd', 64))
        c[e.off(CR, 'isOpen_')] = (1, 1)
        cv = Region('cvnode')
        st.mem[cv] = {}
        lfile.weak(e, st, cv, e.off('e57::NodeImpl', 'destImageFile_'), self.im)
        lfile.weak(e, st, r, e.off(CR, 'cVector_'), cv)
        self.e = e

    def vec(self, e, st, m, tab, size):
        o = e.off(CR, m)
        c = st.mem[self.r]
        c[o], c[o + 8], c[o + 16] = (8, Ptr(tab, 0)), (8, Ptr(tab, simp(self.N * size))), (8, Ptr(tab, simp(self.N * size)))


FIELDS = (('bytestreamNumber', 4), ('maxRecordCount', 8), ('currentPacketLogicalOffset', 8), ('currentBytestreamBufferIndex', 8), ('currentBytestreamBufferLength', 8), ('inputFinished', 1))


def earliest(ctx):
    """earliestPacketNeededForInput: the lowest packet position of the channels that still want input; none exactly if no channel does"""
    e = ctx.engine()
    e.bool_bytes = True
    st = State()
    W = z3.BitVecSort(64)
    DONE, FILL, CAP = [z3.Function(n, W, z3.BitVecSort(k)) for n, k in (('completed', 64), ('filled', 32), ('capacity', 64))]
    V = z3.BitVec('V', 64)
    MEM = {m: z3.Function(m, W, z3.BitVecSort(8 * w)) for m, w in FIELDS}
    R = Reader(ctx, e, st, {3: lambda eng, s, a, x: RET(s, DONE(B(a[0].off)))}, MEM.get)
    e.model(r'^e57::SourceDestBufferImpl::nextIndex\(', lambda eng, s, a, n: RET(s, FILL(B(a[0].off))))
    e.model(r'^e57::SourceDestBufferImpl::capacity\(', lambda eng, s, a, n: RET(s, CAP(B(a[0].off))))

    def hungry(o):
        return z3.And(ULT(DONE(o), MEM['maxRecordCount'](o)), z3.ZeroExt(32, FILL(o)) != CAP(o), MEM['inputFinished'](o) == 0)
    cur = MEM['currentPacketLogicalOffset']
    no = z3.Bool('no channel wants V')

    def axiom(eng, L, v):
        for k, at in iterators(L, R.tab, R.S):
            o = at(v)
            yield z3.Implies(z3.And(no, ULT(o, R.N * R.S)), z3.Not(z3.And(hungry(o), cur(o) == V)))
            yield z3.Implies(ULT(o, R.N * R.S), ULE(MEM['inputFinished'](o), z3.BitVecVal(1, 8)))
    e.axioms.append(axiom)
    st.assume(z3.And(V != MAX, ULE(MEM['inputFinished'](E * R.S), z3.BitVecVal(1, 8)), z3.Implies(no, z3.Not(z3.And(hungry(B(0)), cur(B(0)) == V))), ULE(MEM['inputFinished'](B(0)), z3.BitVecVal(1, 8))))

    def template(eng, L, ev):
        yield from aligned(L, R.tab, R.S, R.N)
        for k, at in iterators(L, R.tab, R.S):
            for t in L.keys:
                if t != k and t[-1] == 64 and not isinstance(entry(L, t), Ptr):
                    yield '!%s lowest before %s' % (t[1], k[1]), lambda v, at=at, t=t: z3.Implies(z3.And(ULT(E * R.S, at(v)), hungry(E * R.S)), ULE(v.num(t), cur(E * R.S)))
                    yield '!%s is a position' % t[1], lambda v, t=t: z3.Implies(no, v.num(t) != V)
    e.templates.append(template)
    for oc in e.call(st, ctx.fn(r'^e57::CompressedVectorReaderImpl::earliestPacketNeededForInput\('), [Ptr(R.r)]):
        s = oc.st
        e.cover(s, 'returns')
        e.prove(s, z3.BoolVal(oc.kind == 'ret'), 'never fails')
        r = B(oc.val)
        e.prove(s, z3.Implies(hungry(E * R.S), ULE(r, cur(E * R.S))), 'no channel waits for an earlier packet')
        e.prove(s, z3.Implies(no, r != V), 'some channel waits for the packet named')


def read(ctx):
    """read(): every buffer is rewound first; returns the number of records now in every buffer (the same in all, else an error), never more than fit or than remain;
    fewer than both only for a channel whose input ended"""
    e = ctx.engine()
    e.bool_bytes = True
    st = State()
    fill0, done0, mx, cap = z3.BitVec('fill', 32), z3.BitVec('completed', 64), z3.BitVec('maxRecordCount', 64), z3.BitVec('capacity', 64)
    Z = lambda x: z3.ZeroExt(32, x)
    st.ghost.update(fill=fill0, done=done0, fin=z3.Bool('finished'), rewound=B(0))
    st.assume(z3.And(ULE(Z(fill0), cap), ULT(B(0), cap), ULT(cap, B(1 << 32)), ULE(done0, mx), ULT(mx, B(1 << 62))))

    def advance(eng, s, m):
        """channel E decodes some more records (decoder contract, C04/C05): as many as fit and remain at most"""
        f, d = bv(s.ghost['fill'], 32), B(s.ghost['done'])
        k = eng.fresh('decoded', 32)
        s.assume(z3.Implies(m, z3.And(ULE(Z(f) + Z(k), cap), ULE(d + Z(k), mx))))
        s.set('fill', simp(z3.If(m, f + k, f)))
        s.set('done', simp(z3.If(m, d + Z(k), d)))

    def process(eng, s, a, x):
        eng.prove(s, z3.BoolVal(isinstance(a[1], Ptr) and (a[1].reg is None or a[1].reg.isnull is True)), 'decoders are only asked to use what they hold')
        eng.prove(s, B(a[2]) == 0, 'no input is given before the packets are known')
        eng.prove(s, B(s.ghost['rewound']) == R.N, 'all buffers are rewound first')
        bad = eng.throw_e57(s.fork(), eng.fresh('decodeerror', 32))
        advance(eng, s, mine(a[0], R.S))
        return RET(s, eng.fresh('eaten', 64)) + bad
    R = Reader(ctx, e, st, {4: process})
    dtab = table(e, st, 'dbufs', R.N, 16, {0: Region('dbufs.impl')})
    R.vec(e, st, 'dbufs_', dtab, 16)

    def rewind(eng, s, a, n):
        eng.prove(s, B(a[0].off) == B(s.ghost['rewound']) * 16, 'each buffer is rewound once')
        s.set('fill', simp(z3.If(mine(a[0]), z3.BitVecVal(0, 32), bv(s.ghost['fill'], 32))))
        s.set('rewound', simp(B(s.ghost['rewound']) + 1))
        return RET(s)
    e.model(r'^e57::SourceDestBufferImpl::rewind\(', rewind)
    e.model(r'^e57::SourceDestBufferImpl::nextIndex\(', lambda eng, s, a, n: RET(s, simp(z3.If(mine(a[0], R.S), bv(s.ghost['fill'], 32), eng.fresh('otherfill', 32)))))

    def hungry(s):
        return z3.And(ULT(B(s.ghost['done']), mx), Z(bv(s.ghost['fill'], 32)) != cap, z3.Not(zb(s.ghost['fin'])))

    def early(eng, s, a, n):
        r = eng.fresh('earliest', 64)
        s.assume(z3.Implies(hungry(s), r != MAX))
        return RET(s, r)
    e.model(r'^e57::CompressedVectorReaderImpl::earliestPacketNeededForInput\(', early)

    def feed(eng, s, a, n):
        bad = eng.throw_e57(s.fork(), eng.fresh('readerror', 32))
        eng.cover(s, 'feeds a packet')
        eng.prove(s, B(a[1]) != MAX, 'no packet is fed when none is wanted')
        advance(eng, s, z3.BoolVal(True))
        s.set('fin', z3.Or(zb(s.ghost['fin']), zb(eng.fresh('end', 1))))
        return RET(s) + bad
    e.model(r'^e57::CompressedVectorReaderImpl::feedPacketToDecoders\(', feed)

    def template(eng, L, ev):
        yield from aligned(L, R.tab, R.S, R.N)
        yield from aligned(L, dtab, 16, R.N)
        for k, at in iterators(L, dtab, 16):
            yield '!rewound before %s' % k[1], lambda v, at=at: z3.And(ULE(B(v.ghost('rewound')), R.N), B(v.ghost('rewound')) * 16 == at(v), z3.If(ULT(E * 16, at(v)), bv(v.ghost('fill'), 32) == 0, bv(v.ghost('fill'), 32) == fill0))
        yield '!records are counted once', lambda v: z3.Implies(B(v.ghost('rewound')) == R.N, z3.And(B(v.ghost('done')) == done0 + Z(bv(v.ghost('fill'), 32)), ULE(Z(bv(v.ghost('fill'), 32)), cap), ULE(B(v.ghost('done')), mx)))
        for k, at in iterators(L, R.tab, R.S):
            for t in L.keys:
                if t != k and t[-1] == 32:
                    yield '!%s is the count before %s' % (t[1], k[1]), lambda v, at=at, t=t: z3.Implies(ULT(E * R.S, at(v)), v.num(t) == bv(v.ghost('fill'), 32))
    e.templates.append(template)
    for oc in e.call(st, ctx.fn(r'^e57::CompressedVectorReaderImpl::read\(\)$'), [Ptr(R.r)]):
        s = oc.st
        if oc.kind != 'ret':
            e.cover(s, 'fails')
            continue
        e.cover(s, 'returns')
        r = bv(oc.val, 32)
        e.prove(s, r == bv(s.ghost['fill'], 32), 'the count returned is the number of records in every buffer')
        e.prove(s, B(s.ghost['done']) == done0 + Z(r), 'every channel moved on by exactly the records returned')
        e.prove(s, z3.And(ULE(Z(r), cap), ULE(Z(r), mx - done0)), 'never more than fit, never more than remain')
        e.prove(s, z3.Or(zb(s.ghost['fin']), Z(r) == cap, Z(r) == mx - done0), 'fewer than fit and remain only when the input ended')


def feed(ctx):
    """feedPacketToDecoders, any number of channels: each channel waiting for this packet whose buffer has room is given, once, exactly the part of its stream in the
    packet it has not taken yet; it then stands right behind what it took, or, having taken all, at the start of its stream in the next data packet; it is finished
    only when there is none; no other channel moves"""
    e = ctx.engine()
    e.bool_bytes = True
    st = State()
    Z = lambda x: z3.ZeroExt(32, x)
    at0 = z3.BitVec('packet', 64)
    mx, cap = z3.BitVec('maxRecordCount', 64), z3.BitVec('capacity', 64)
    st.ghost.update(fill=z3.BitVec('fill', 32), done=z3.BitVec('completed', 64), fed=B(0), took=B(0))
    st.ghost['open'] = 0
    W = z3.BitVecSort(64)
    POS, LEN = z3.Function('streamAt', W, W, W), z3.Function('streamLength', W, W, z3.BitVecSort(16))     # of stream n in packet k (0: this, 1: the next)
    PL, PC = z3.BitVec('packetLength', 64), [z3.BitVec('streams%d' % i, 64) for i in (0, 1)]
    pk = [e.new_bytes(st, 'packet%d' % i, 65536) for i in (0, 1)]
    st.assume(z3.And(ULT(at0, B(1 << 60)), ULE(B(8), PL), ULE(PL, B(65536))))
    st.assume(z3.Concat(bv(st.mem[pk[0]].read(3), 8), bv(st.mem[pk[0]].read(2), 8)) == z3.Extract(15, 0, PL - 1))

    def blocked(s):
        return z3.Or(ULE(mx, B(s.ghost['done'])), Z(bv(s.ghost['fill'], 32)) == cap)

    def completed(eng, s, a, x):
        return RET(s, simp(z3.If(mine(a[0], R.S), B(s.ghost['done']), eng.fresh('othercompleted', 64))))

    def process(eng, s, a, x):
        m, p, n = mine(a[0], R.S), a[1], B(a[2])
        eng.cover(s, 'feeds a decoder')
        eng.prove(s, z3.BoolVal(isinstance(p, Ptr) and p.reg is pk[0]), 'a decoder is fed from the current packet')
        eng.prove(s, z3.Implies(m, z3.And(B(p.off) == POS(B(0), Z(num)) + idx0, n == z3.ZeroExt(48, LEN(B(0), Z(num))) - idx0)), 'a decoder gets exactly the part of its stream it has not taken')
        eng.prove(s, z3.Implies(m, z3.And(ULE(B(p.off), PL), ULE(n, PL - B(p.off)))), 'what a decoder gets lies within the packet')
        eng.prove(s, z3.Implies(m, z3.And(cur0 == at0, z3.Not(blocked(s)))), 'only a channel waiting for this packet, with room, is fed')
        bad = eng.throw_e57(s.fork(), eng.fresh('decodeerror', 32))
        got, f1, d1 = eng.fresh('consumed', 64), eng.fresh('fill', 32), eng.fresh('completed', 64)
        s.assume(ULE(got, n))
        s.assume(z3.Or(got == n, ULE(mx, d1), Z(f1) == cap))       # a decoder takes all it is given unless its buffer is full or all records are out
        s.set('fill', simp(z3.If(m, f1, bv(s.ghost['fill'], 32))))
        s.set('done', simp(z3.If(m, d1, B(s.ghost['done']))))
        s.set('fed', simp(z3.If(m, B(s.ghost['fed']) + 1, B(s.ghost['fed']))))
        s.set('took', simp(z3.If(m, got, B(s.ghost['took']))))
        return RET(s, got) + bad
    R = Reader(ctx, e, st, {3: completed, 4: process})
    F0 = {m: st.ghost['.' + m] for m, w in FIELDS}
    num, idx0, len0, cur0, fin0 = F0['bytestreamNumber'], F0['currentBytestreamBufferIndex'], F0['currentBytestreamBufferLength'], F0['currentPacketLogicalOffset'], F0['inputFinished']
    # the object invariant of a channel: what it remembers of its stream is what the packet says, and it is not past its end
    st.assume(z3.And(F0['maxRecordCount'] == mx, z3.Implies(cur0 == at0, len0 == z3.ZeroExt(48, LEN(B(0), Z(num)))), z3.Implies(cur0 == at0, ULE(idx0, len0)), fin0 == 0))

    def lock(eng, s, a, name):
        eng.store(s, a[0], PTR, Ptr(Region("packetlock")))
        bad = eng.throw_e57(s.fork(), eng.fresh('readerror', 32))
        k = s.ghost['open']
        eng.prove(s, B(a[2]) == (at0 if k == 0 else B(s.ghost['next'])), 'the packet the channels wait for is fetched' if k == 0 else 'the next data packet is fetched')
        s.set('open', 1)
        eng.store(s, a[3], PTR, Ptr(pk[k]))
        return RET(s) + bad
    e.model(r'^e57::PacketReadCache::lock\(', lock)
    e.model(r'^e57::PacketLock::~PacketLock\(', lambda eng, s, a, n: RET(s))

    def getb(eng, s, a, name):
        """getBytestream, getBytestreamBufferLength by contract (C09)"""
        k = pk.index(a[0].reg)
        n = Z(bv(a[1], 32))
        out = eng.throw_e57(s.fork(), 11)
        at, size = POS(B(k), n), LEN(B(k), n)
        s.assume(z3.And(ULT(n, PC[k]), ULE(at, B(65536))))
        if k == 0:
            s.assume(z3.And(ULE(at, PL), ULE(z3.ZeroExt(48, size), PL - at)))
        if len(a) > 2:
            eng.store(s, a[2], I(32), z3.ZeroExt(16, size))
            return out + RET(s, Ptr(pk[k], at))
        return out + RET(s, z3.ZeroExt(16, size))
    e.model(r'^e57::DataPacket::getBytestream(BufferLength)?\(', getb)
    e.model(r'^e57::SourceDestBufferImpl::nextIndex\(', lambda eng, s, a, n: RET(s, simp(z3.If(mine(a[0], R.S), bv(s.ghost['fill'], 32), eng.fresh('otherfill', 32)))))
    e.model(r'^e57::SourceDestBufferImpl::capacity\(', lambda eng, s, a, n: RET(s, simp(z3.If(mine(a[0], R.S), cap, eng.fresh('othercap', 64)))))

    def find(eng, s, a, name):
        bad = eng.throw_e57(s.fork(), eng.fresh('readerror', 32))
        eng.prove(s, z3.Or(B(a[1]) == MAX, B(a[1]) == at0 + PL), 'the next packet is looked for right behind this one')
        f = eng.fresh('next', 64)
        s.assume(z3.If(B(a[1]) == MAX, f == MAX, z3.Or(f == MAX, ULE(B(a[1]), f))))
        s.set('from', B(a[1]))
        s.set('next', f)
        return RET(s, f) + bad
    e.model(r'^e57::CompressedVectorReaderImpl::findNextDataPacket\(', find)
    st.ghost['next'] = MAX
    st.ghost['from'] = MAX

    def template(eng, L, ev):
        yield from aligned(L, R.tab, R.S, R.N)
        s0 = L.entry_st
        fe = {m: bv(s0.ghost['.' + m], 8 * w) for m, w in FIELDS}
        G = lambda v, m: bv(v.ghost('.' + m), 8 * dict(FIELDS)[m])
        cells = any(m[0] == 'ghost' and m[1][0] == '.' for m in L.mods)
        first = any(m[0] == 'ghost' and m[1] == 'fed' for m in L.mods)
        bl0 = z3.Or(cur0 != at0, blocked(s0))
        for k, at in iterators(L, R.tab, R.S):
            if cells:
                for m, w in FIELDS:
                    yield '!%s of a channel not yet visited at %s' % (m, k[1]), lambda v, at=at, m=m, w=w: z3.Implies(ULE(at(v), E * R.S), G(v, m) == fe[m])
                    yield '!%s of a channel at %s' % (m, k[1]), lambda v, at=at, m=m, w=w: G(v, m) == fe[m]
                    yield '!%s of a channel that waits for another packet at %s' % (m, k[1]), lambda v, at=at, m=m, w=w: z3.Implies(bl0, G(v, m) == fe[m])
            if first:
                fed = lambda v: B(v.ghost('fed'))
                yield '!not yet fed at %s' % k[1], lambda v, at=at: z3.Implies(z3.Or(bl0, ULE(at(v), E * R.S)), z3.And(fed(v) == 0, v.ghost('fill') == st.ghost['fill'], v.ghost('done') == st.ghost['done'], B(v.ghost('took')) == 0))
                yield '!fed once at %s' % k[1], lambda v, at=at: z3.Implies(z3.And(z3.Not(bl0), ULT(E * R.S, at(v))), z3.And(fed(v) == 1, G(v, 'currentBytestreamBufferIndex') == idx0 + B(v.ghost('took')),
                    ULE(B(v.ghost('took')), len0 - idx0), z3.Or(B(v.ghost('took')) == len0 - idx0, ULE(mx, B(v.ghost('done'))), Z(bv(v.ghost('fill'), 32)) == cap)))
                for t in L.keys:
                    if t != k and t[-1] == 64 and not isinstance(entry(L, t), Ptr):
                        yield '!%s names the next packet at %s' % (t[1], k[1]), lambda v, t=t, at=at: z3.Or(v.num(t) == MAX, v.num(t) == at0 + PL)
                        yield '!%s set by an exhausted channel at %s' % (t[1], k[1]), lambda v, t=t, at=at: z3.Implies(z3.And(z3.Not(bl0), ULT(E * R.S, at(v)), B(v.ghost('took')) == len0 - idx0), v.num(t) == at0 + PL)
                    if t[-1] in (1, 8):
                        yield '!%s noted at %s' % (t[1], k[1]), lambda v, t=t, at=at: z3.Implies(z3.And(z3.Not(bl0), ULT(E * R.S, at(v)), B(v.ghost('took')) == len0 - idx0), flag(v, t))
            elif cells:
                moved = lambda v: z3.And(G(v, 'currentPacketLogicalOffset') == B(s0.ghost['next']), G(v, 'currentBytestreamBufferIndex') == 0,
                                         G(v, 'currentBytestreamBufferLength') == z3.ZeroExt(48, LEN(B(1), Z(num))))
                yield '!moved to the next packet at %s' % k[1], lambda v, at=at: z3.Implies(z3.And(ULT(E * R.S, at(v)), cur0 == at0, z3.Not(blocked(s0))), moved(v))
                yield '!finished at %s' % k[1], lambda v, at=at: z3.Implies(z3.And(ULT(E * R.S, at(v)), cur0 == at0, z3.Not(blocked(s0))), G(v, 'inputFinished') == 1)

    def flag(v, t):
        x = v.num(t)
        return x if z3.is_bool(x) else x == 1
    e.templates.append(template)
    for oc in e.call(st, ctx.fn(r'^e57::CompressedVectorReaderImpl::feedPacketToDecoders\('), [Ptr(R.r), at0]):
        s = oc.st
        if oc.kind != 'ret':
            e.cover(s, 'fails')
            continue
        e.cover(s, 'returns')
        F1 = {m: bv(s.ghost['.' + m], 8 * w) for m, w in FIELDS}
        fed, took, nxt = B(s.ghost['fed']), B(s.ghost['took']), B(s.ghost['next'])
        wait = z3.And(cur0 == at0, z3.Not(z3.Or(ULE(mx, st.ghost['done']), Z(st.ghost['fill']) == cap)))
        e.prove(s, fed == z3.If(wait, B(1), B(0)), 'a channel that waits for this packet and has room is fed once, no other')
        e.prove(s, z3.And(F1['bytestreamNumber'] == num, F1['maxRecordCount'] == mx), 'a channel keeps its stream')
        e.prove(s, z3.Implies(z3.Not(wait), z3.And(*[F1[m] == F0[m] for m, _ in FIELDS])), 'a channel that was not fed does not move')
        stay = z3.And(F1['currentPacketLogicalOffset'] == at0, F1['currentBytestreamBufferIndex'] == idx0 + took, F1['currentBytestreamBufferLength'] == len0)
        move = z3.And(F1['currentPacketLogicalOffset'] == nxt, nxt != MAX, B(s.ghost['from']) == at0 + PL, F1['currentBytestreamBufferIndex'] == 0, took == len0 - idx0,
                      F1['currentBytestreamBufferLength'] == z3.ZeroExt(48, LEN(B(1), Z(num))))
        e.prove(s, z3.Implies(wait, z3.Or(stay, move)), 'a channel that was fed stands right behind what it took, or at its stream in the next packet having taken all')
        e.prove(s, z3.Implies(wait, z3.Or(blocked(s), move, F1['inputFinished'] == 1)), 'a channel that took all and has room moves on, unless the data ended')
        e.prove(s, z3.Implies(F1['inputFinished'] != 0, z3.And(wait, took == len0 - idx0, nxt == MAX, B(s.ghost['from']) == at0 + PL)), 'a channel is finished only when it took all and no data packet follows')


def seek(ctx):
    """seek: always refused, nothing changes"""
    e = ctx.engine()
    st = State()
    R = Reader(ctx, e, st, {})
    for oc in e.call(st, ctx.fn(r'^e57::CompressedVectorReaderImpl::seek\('), [Ptr(R.r), z3.BitVec('record', 64)]):
        e.cover(oc.st, 'refused')
        e.prove(oc.st, z3.BoolVal(oc.kind != 'ret'), 'seeking is refused')


UNITS = [Unit('write', write, budget=400), Unit('total output', total), Unit('flush', flush), Unit('close', close), Unit('earliest packet', earliest), Unit('read', read, budget=400),
         Unit('feed', feed, budget=500), Unit('next data packet', c09.find_next), Unit('seek', seek)]
ASSUMPTIONS = ['at most 21842 fields per record and 2^47 records per write call (sums over the streams do not wrap)',
               'all buffers of one call have the same capacity (checkBuffers, exercised natively)',
               'contracts of encoders and decoders as proved in C04, C05: a stream takes or delivers records in order, at most as many as asked for or fit; a decoder takes all the input it is '
               'given unless its buffer is full or all records are out',
               'the streams of a writer and the channels of a reader are distinct objects set up by the constructors (in prototype order, all at record 0), which are exercised natively, not proved',
               'what is shown for one arbitrary stream or channel is used for the others at every step (induction over the steps of the run)',
               'termination of the write and read loops is not proved (partial correctness)']

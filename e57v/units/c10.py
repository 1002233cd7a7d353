import z3
from ..sym import Ptr, State, Region, ULT, ULE, bv, simp, zb, NULL, Copy, Store, Func, ite
from ..ir import I, PTR
from ..unit import Unit
from ..models import RET
from ..filemodel import B
from .. import lfile

NATIVE = 'c10'
NATIVE_MS = 10000
PC, CE = 'e57::PacketReadCache', 'e57::CacheEntry'
E, K = z3.BitVecs('E K', 64)        # an arbitrary entry and an arbitrary byte of its packet


def verify(e, st, a, name):
    """DataPacket/IndexPacket/EmptyPacketHeader::verify: look at the packet, accept it or throw (discharged in C09)"""
    bad = st.fork()
    bad.set('badpacket', True)
    return RET(st) + e.throw_e57(bad, 2)


def setup(e):
    lfile.install(e)
    e.model(r'^e57::(DataPacket|IndexPacket|EmptyPacketHeader)::verify\(', verify)
    st = State()
    f = lfile.init(e, st)
    st.ghost['badpacket'] = False
    n = z3.BitVec('entries', 64)
    st.assume(z3.And(ULT(B(0), n), ULT(n, B(1 << 32))))
    S = e.mod.sizeof(('named', '%"struct.e57::PacketReadCache::CacheEntry"'))
    ent = e.new_bytes(st, 'cache', n * S)
    this = Region('PacketReadCache')
    c = st.mem[this] = {}
    lk, use = z3.BitVecs('lockCount useCount', 32)
    c[e.off(PC, 'lockCount_')] = (4, lk)
    c[e.off(PC, 'useCount_')] = (4, use)
    c[e.off(PC, 'cFile_')] = (8, Ptr(f))
    v = e.off(PC, 'entries_')
    c[v] = (8, Ptr(ent))
    c[v + 8] = (8, Ptr(ent, n * S))
    c[v + 16] = (8, Ptr(ent, n * S))
    st.assume(ULT(E, n))

    def below(eng, L, ev):
        for k in L.keys:
            if k[0] == 'phi' and k[-1] == 32:
                yield '!%s below the number of entries' % k[1], lambda v, k=k: ULT(z3.ZeroExt(32, v.num(k)), n)
    e.templates.append(below)
    return st, this, ent, n, S, lk, f


def at(lay, off, k):
    return z3.Concat(*[bv(lay.read(simp(B(off) + i)), 8) for i in reversed(range(k))])


def inv(e, lay, lc, q):
    """the entry at byte q holds nothing, or the packet stored at its offset"""
    off = at(lay, q + e.off(CE, 'logicalOffset_'), 8)
    ln = z3.ZeroExt(48, at(lc, off + 2, 2)) + 1
    return z3.Or(off == 0, z3.Implies(ULT(K, ln), bv(lay.read(simp(q + e.off(CE, 'buffer_') + K)), 8) == bv(lc.read(simp(off + K)), 8)))


def filled(e, lay, lay0):
    """entries whose buffer or recorded offset was written"""
    out = []
    while lay is not lay0 and hasattr(lay, 'prev'):
        if isinstance(lay, Copy) or (isinstance(lay, Store) and lay.n == 8):
            q = simp(B(lay.off) - e.off(CE, 'buffer_' if isinstance(lay, Copy) else 'logicalOffset_'))
            if not any(simp(q - x).eq(z3.BitVecVal(0, 64)) if not isinstance(simp(q - x), int) else simp(q - x) == 0 for x in out):
                out.append(q)
        lay = lay.prev
    return out


def entries(e, s, lay0, lay, lc, S):
    """the cache invariant after an operation, for an arbitrary entry E: untouched, or (a filled one) holding nothing or exactly the stored packet"""
    rest = s.fork()
    for q in filled(e, lay, lay0):
        e.prove(s, z3.And(z3.URem(q, B(S)) == 0, ULE(q + S, z3.BitVec('entries', 64) * S)), 'what is written is an entry')
        c = s.fork()
        c.assume(inv(e, lay0, lc, q))
        e.prove(c, inv(e, lay, lc, q), 'an entry that was written holds nothing or exactly the packet stored at its offset')
        rest.assume(E * S != q)
        rest.assume(z3.Or(ULE(E * S + S, q), ULE(q + S, E * S)))     # distinct entries do not overlap
    for i in range(8):
        x = E * S + e.off(CE, 'logicalOffset_') + i
        e.prove(rest, bv(lay.read(simp(x)), 8) == bv(lay0.read(simp(x)), 8), 'the offset recorded for any other entry is untouched')
    x = E * S + e.off(CE, 'buffer_') + K
    e.prove(rest, z3.Implies(ULT(K, B(65536)), bv(lay.read(simp(x)), 8) == bv(lay0.read(simp(x)), 8)), 'the packet held by any other entry is untouched')


def lock(ctx):
    """PacketReadCache::lock(offset): refused without effect while a packet is locked or for offset 0; otherwise yields the buffer of an entry recorded for exactly that
    offset. In every outcome - including failed reads and rejected packets - each entry still holds nothing or exactly the packet stored at its recorded offset"""
    e = ctx.engine()
    st, this, ent, n, S, lk, f = setup(e)
    lay0, lc = st.mem[ent], st.ghost['lc']
    want = z3.BitVec('packetLogicalOffset', 64)
    st.assume(ULT(want, B(1 << 60)))
    out, pkt = Region('plock'), Region('pkt')
    st.mem[out], st.mem[pkt] = {}, {0: (8, NULL)}
    fn = ctx.fn(r'^e57::PacketReadCache::lock\(')
    for o in e.call(st, fn, [Ptr(out), Ptr(this), want, Ptr(pkt)]):
        s = o.st
        lay = e.to_bytes(s, ent)
        now = bv(e.load(s, Ptr(this, e.off(PC, 'lockCount_')), I(32)), 32)
        if o.kind == 'ret':
            e.cover(s, 'hit' if s.ghost['ev'] == () else 'miss')
            e.prove(s, z3.And(lk == 0, want != 0), 'granted only when nothing is locked')
            e.prove(s, now == 1, 'exactly one packet is then locked')
            p = e.load(s, Ptr(pkt), PTR)
            e.prove(s, z3.BoolVal(isinstance(p, Ptr) and p.reg is ent), 'the packet pointer is into the cache')
            q = simp(B(p.off) - e.off(CE, 'buffer_'))
            e.prove(s, z3.And(ULT(q, n * S), z3.URem(q, B(S)) == 0), 'the packet pointer is an entry\'s buffer')
            e.prove(s, at(lay, q + e.off(CE, 'logicalOffset_'), 8) == want, 'that entry is recorded for the requested offset')
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.Or(lk != 0, want == 0, zb(s.ghost['fault']), zb(s.ghost.get('past', False)), zb(s.ghost['badpacket']), z3.BoolVal(s.ghost['ev'] != ())), 'a stored packet is refused only for a reason')
            e.prove(s, now == lk, 'a refused request locks nothing')
        e.prove(s, z3.Implies(lk != 0, z3.And(bv(lay.read(K), 8) == bv(lay0.read(K), 8))), 'nothing changes while a packet is locked')
        entries(e, s, lay0, lay, lc, S)
        e.prove(s, z3.BoolVal(s.ghost['lc'] is lc), 'the file is only read')


def unlock(ctx):
    """PacketReadCache::unlock: succeeds exactly when one packet is locked, and then none is; never touches a packet"""
    e = ctx.engine()
    st, this, ent, n, S, lk, f = setup(e)
    fn = ctx.fn(r'^e57::PacketReadCache::unlock\(')
    for o in e.call(st, fn, [Ptr(this), z3.BitVec('index', 32)]):
        s = o.st
        now = bv(e.load(s, Ptr(this, e.off(PC, 'lockCount_')), I(32)), 32)
        e.cover(s, o.kind)
        e.prove(s, z3.BoolVal(s.mem[ent] is st.mem[ent]), 'no packet is touched')
        if o.kind == 'ret':
            e.prove(s, z3.And(lk == 1, now == 0), 'the one locked packet is released')
        else:
            e.prove(s, z3.And(lk != 1, now == lk), 'refused only when not exactly one packet is locked')


def release(ctx):
    """~PacketLock: destroying the lock of the one locked packet leaves none locked, never throws, never touches a packet"""
    e = ctx.engine()
    st, this, ent, n, S, lk, f = setup(e)
    PL = 'e57::PacketLock'
    pl = Region('PacketLock')
    st.mem[pl] = {e.off(PL, 'cache_'): (8, Ptr(this)), e.off(PL, 'cacheIndex_'): (4, z3.BitVec('index', 32))}
    fn = ctx.fn(r'^e57::PacketLock::~PacketLock\(\)$')
    for o in e.call(st, fn, [Ptr(pl)]):
        s = o.st
        e.cover(s, 'released')
        now = bv(e.load(s, Ptr(this, e.off(PC, 'lockCount_')), I(32)), 32)
        e.prove(s, z3.BoolVal(o.kind == 'ret'), 'releasing never throws')
        e.prove(s, z3.Implies(lk == 1, now == 0), 'the packet is released')
        e.prove(s, z3.BoolVal(s.mem[ent] is st.mem[ent]), 'no packet is touched')


def create(ctx):
    """PacketReadCache(file, n): refused for n = 0; otherwise n entries, none recorded for a packet, none locked"""
    e = ctx.engine()
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    this = Region('PacketReadCache')
    st.mem[this] = {}
    n = z3.BitVec('packetCount', 32)
    S = e.mod.sizeof(('named', '%"struct.e57::PacketReadCache::CacheEntry"'))
    heap = {}

    def alloc(eng, s, a, name):
        r = eng.new_bytes(s, 'entries', simp(B(a[1]) * S))
        heap[0] = r
        return RET(s, Ptr(r))

    def build(eng, s, a, name):
        """a run of default-constructed entries: each gets what its own constructor stores (discharged by the unit 'new entry')"""
        first, cnt = a[0], B(a[1])
        old = eng.to_bytes(s, first.reg)
        q = lambda j: z3.URem(B(j) - B(first.off), B(S))
        hd = e.off(CE, 'logicalOffset_')
        s.mem[first.reg] = Func(lambda j: ite(simp(z3.And(ULT(B(j) - B(first.off), cnt * S), ULT(q(j) - hd, B(8)))), 0, old.read(j), 8))
        return RET(s, Ptr(first.reg, simp(B(first.off) + cnt * S)))
    e.model(r'CacheEntry.*::(_M_)?allocate\(', alloc)
    e.model(r'__uninitialized_default_n(_a|_1)?<.*CacheEntry', build)
    fn = ctx.fn(r'^e57::PacketReadCache::PacketReadCache\(')
    for o in e.call(st, fn, [Ptr(this), Ptr(f), n]):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'creates')
            v = e.off(PC, 'entries_')
            b, x = e.load(s, Ptr(this, v), PTR), e.load(s, Ptr(this, v + 8), PTR)
            e.prove(s, n != 0, 'an empty cache is refused')
            e.prove(s, z3.BoolVal(b.reg is x.reg), 'the entries are one array')
            e.prove(s, B(x.off) - B(b.off) == z3.ZeroExt(32, n) * S, 'there are as many entries as asked for')
            e.prove(s, bv(e.load(s, Ptr(this, e.off(PC, 'lockCount_')), I(32)), 32) == 0, 'nothing is locked')
            s.assume(ULT(E, z3.ZeroExt(32, n)))
            lay = e.to_bytes(s, b.reg)
            for i in range(8):
                e.prove(s, bv(lay.read(simp(E * S + B(b.off) + e.off(CE, 'logicalOffset_') + i)), 8) == 0, 'no entry is recorded for a packet')
        else:
            e.cover(s, 'refuses')
            e.prove(s, n == 0, 'refused only when empty')


def entry(ctx):
    """CacheEntry(): a new entry is recorded for no packet"""
    e = ctx.engine()
    st = State()
    this = Region('entry')
    st.mem[this] = {}
    fn = ctx.fn(r'^e57::PacketReadCache::CacheEntry::CacheEntry\(\)$')
    for o in e.call(st, fn, [Ptr(this)]):
        e.cover(o.st, 'created')
        e.prove(o.st, B(e.load(o.st, Ptr(this, e.off(CE, 'logicalOffset_')), I(64))) == 0, 'a new entry is recorded for no packet')


UNITS = [Unit('lock', lock), Unit('unlock', unlock), Unit('release', release), Unit('create', create), Unit('new entry', entry)]
ASSUMPTIONS = ['CheckedFile seek/read are used by contract (C01, C02), packet verify functions by the contract "look, then accept or throw" (C09)',
               'fewer than 2^32 cache entries', 'std::vector<CacheEntry>(n) default-constructs n adjacent entries (library contract)',
               'file positions below 2^60']

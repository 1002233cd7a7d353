import z3
from ..sym import Ptr, State, Region, ULT, ULE, bv, simp, zb
from ..ir import I, Unsupported
from ..unit import Unit
from ..filemodel import B, l2p, p2l
from .. import cf

NATIVE = 'c02'
J = z3.BitVec('J', 64)


def jsample(r, nn, lp, PJ, RJ):
    j = r.randrange(0, max(nn, 1))
    return [(J, cf.V(j)), (PJ, cf.V((lp + j) // 1020)), (RJ, cf.V((lp + j) % 1020))]


def read(ctx, arg):
    """CheckedFile::read(buf, n), file of whole pages, any position, any n < 2^60: on return buf[j] == payload byte at logical position p+j for
    all j < n, the position is p+n, p+n <= length, no disk call failed or was short, and (for every page the policy selects) the stored checksum
    of each page a byte came from equals the checksum of its payload; nothing outside buf[0..n) is written; a throw means the range was too long,
    a disk call failed or was short, or the last page read has a wrong checksum"""
    view, policy = arg
    e = ctx.engine()
    st, this, ll = cf.setup(e, True, policy, view)
    if view:
        cf.bufview_contract(e)
    n = z3.BitVec('n', 64)
    st.assume(ULT(n, B(1 << 60)))
    user = e.new_bytes(st, 'user', n)
    p0 = p2l(st.ghost['fpos'])
    fc = st.ghost['fc']
    flen0 = st.ghost['flen']
    mod = None if policy in (0, 100) else max(1, int(round(100.0 / policy)))

    # PJ, RJ name the page and offset of position p0+J (definitions: they exist and are unique for every J)
    PJ, RJ = z3.BitVecs('pageJ offJ', 64)
    st.assume(ULT(J, B(1 << 60)))
    st.assume(ULT(PJ, B(1 << 52)))
    st.assume(ULT(RJ, B(1020)))
    st.assume(PJ * 1020 + RJ == p0 + J)

    def goodJ():
        g = cf.good(fc, PJ * 1024)
        return g if mod is None else z3.Implies(z3.URem(PJ, B(mod)) == 0, g)

    def layers(eng, L, ev, t):
        if t != ('mem', user):
            return
        for k, s in cf.progress(eng, L, ev, n):
            def mk(v, k=k, s=s):
                done = (v.num(k) - ev.num(k)) * s
                return (lambda j: ULT(B(j), done)), (lambda j: fc.read(l2p(p0 + B(j))))
            yield 'delivered prefix of length |%s|' % (k,), mk
    e.layer_templates.append(layers)

    def verified(eng, L, ev):
        for k, s in cf.progress(eng, L, ev, n):
            yield '!pages of delivered prefix |%s| verified' % (k,), lambda v, k=k, s=s: z3.Implies(ULT(J, (v.num(k) - ev.num(k)) * s), goodJ())
    e.templates.append(cf.page_templates)
    if policy:
        e.templates.append(verified)
    cf.samples(e, n, ll, extra=lambda r, nn, lp: jsample(r, nn, lp, PJ, RJ))
    pos = lambda s: e.load(s, Ptr(*e.view_cursor), I(64)) if view else s.ghost['fpos']
    for o in e.call(st, ctx.fn(r'^e57::CheckedFile::read\('), [Ptr(this), Ptr(user), n, 0]):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'read returns')
            c = s.fork()
            c.assume(z3.UGT(n, B(3000)))
            e.cover(c, 'read over several pages returns')
            e.prove(s, z3.Implies(ULT(J, n), bv(e.to_bytes(s, user).read(J), 8) == bv(fc.read(l2p(p0 + J)), 8)), 'delivered byte j is the payload byte at position p+j')
            e.prove(s, B(pos(s)) == l2p(p0 + n), 'position advances by n')
            e.prove(s, z3.And(ULE(p0 + n, ll), ULE(p0, p0 + n)), 'returns only if the range lies in the file')
            e.prove(s, z3.Not(zb(s.ghost['fault'])), 'returns only if no disk call failed or was short')
            if policy:
                e.prove(s, z3.Implies(ULT(J, n), goodJ()), 'every selected page a byte came from has a matching checksum')
            e.prove(s, z3.BoolVal(s.ghost['fc'] is fc), 'the file is not changed')
        else:
            code = o.val.code
            last = B(s.ghost['lastread'])
            e.cover(s, 'a throw')
            if simp(bv(code, 32)) == 16:
                e.prove(s, z3.Not(cf.good(fc, last)), 'a checksum error means the page just read has a wrong checksum')
            else:
                e.prove(s, z3.Or(zb(s.ghost['fault']), z3.UGT(p0 + n, ll)), 'an error means the range was too long or a disk call failed')
        e.prove(s, z3.BoolVal(all(r is user or r is this or r.stack or r.meta.get('heap') or r not in st.mem or s.mem.get(r) is st.mem[r]
                                  or (view and r is e.view_cursor[0]) for r in s.mem)), 'writes nothing but the caller buffer')


def bufview(ctx):
    """BufferView::read(buf, n): returns exactly when n <= size - cursor, then buf[j] == stream[cursor+j] for j < n and the cursor advances by n"""
    e = ctx.engine()
    st = State()
    size, cur, n = z3.BitVecs('size cursor n', 64)
    st.assume(ULT(size, B(1 << 60)))
    st.assume(ULE(cur, size))
    stream = e.new_bytes(st, 'stream', size)
    user = e.new_bytes(st, 'user', n)
    this = Region('view')
    BV = 'e57::BufferView'
    st.mem[this] = {e.off(BV, 'streamSize_'): (8, size), e.off(BV, 'cursorStream_'): (8, cur), e.off(BV, 'stream_'): (8, Ptr(stream))}
    src = st.mem[stream]

    def layers(eng, L, ev, t):
        if t != ('mem', user):
            return
        for k, s in cf.progress(eng, L, ev, n):
            def mk(v, k=k, s=s):
                done = (v.num(k) - ev.num(k)) * s
                return (lambda j: ULT(B(j), done)), (lambda j: src.read(cur + B(j)))
            yield 'copied prefix |%s|' % (k,), mk
    e.layer_templates.append(layers)
    import random
    r = random.Random(1)
    for _ in range(60):
        sz = r.randrange(0, 5000)
        c = r.randrange(0, sz + 1)
        e.samples.append([(size, cf.V(sz)), (cur, cf.V(c)), (n, cf.V(r.randrange(0, min(sz - c, 6) + 1)))])
    for o in e.call(st, ctx.fn(r'^e57::BufferView::read\('), [Ptr(this), Ptr(user), n]):
        s = o.st
        e.cover(s, o.kind)
        if o.kind == 'ret':
            e.prove(s, ULE(n, size - cur), 'returns only inside the stream')
            e.prove(s, z3.Implies(ULT(J, n), bv(e.to_bytes(s, user).read(J), 8) == bv(src.read(cur + J), 8)), 'copies the bytes at the cursor')
            e.prove(s, B(e.load(s, Ptr(this, e.off(BV, 'cursorStream_')), I(64))) == cur + n, 'advances the cursor by n')
        else:
            e.prove(s, z3.UGT(n, size - cur), 'throws only outside the stream')
            e.prove(s, B(e.load(s, Ptr(this, e.off(BV, 'cursorStream_')), I(64))) == cur, 'a throw leaves the cursor')


def physpage(ctx):
    """readPhysicalPage(buf, page): on return buf[0..1024) are the bytes at page*1024 and no disk call failed or was short"""
    e = ctx.engine()
    st, this, ll = cf.setup(e, True)
    buf = e.new_bytes(st, 'page_buffer', 1024)
    pg = z3.BitVec('page', 64)
    st.assume(ULT(pg, B(1 << 50)))
    fc = st.ghost['fc']
    for o in e.call(st, ctx.fn(r'^e57::CheckedFile::readPhysicalPage\('), [Ptr(this), Ptr(buf), pg]):
        s = o.st
        e.cover(s, o.kind)
        if o.kind == 'ret':
            e.prove(s, z3.Implies(ULT(J, B(1024)), bv(e.to_bytes(s, buf).read(J), 8) == bv(fc.read(pg * 1024 + J), 8)), 'page bytes')
            e.prove(s, z3.Not(zb(s.ghost['fault'])), 'returns only if no disk call failed or was short')
            e.prove(s, ULT(pg * 1024, st.ghost['flen']), 'returns only for a page inside the file')
        else:
            e.prove(s, z3.Or(zb(s.ghost['fault']), z3.UGE(pg * 1024, st.ghost['flen'])), 'throws only if a disk call failed or the page is past the end')


def verify(ctx):
    """verifyChecksum(page): returns exactly when the four stored bytes equal the byte-swapped checksum of the first 1020 bytes, else throws ErrorBadChecksum"""
    e = ctx.engine()
    st, this, ll = cf.setup(e, True)
    buf = e.new_bytes(st, 'page_buffer', 1024)
    lay = st.mem[buf]
    from .. import filemodel as F
    for o in e.call(st, ctx.fn(r'^e57::CheckedFile::verifyChecksum\('), [Ptr(this), Ptr(buf), z3.BitVec('page', 64)]):
        s = o.st
        e.cover(s, o.kind)
        crcs = s.ghost.get('crcs') or ()
        if len(crcs) != 1:
            raise Unsupported('verifyChecksum computes %d checksums' % len(crcs))
        l0, off, size, c = crcs[0]
        e.prove(s, z3.And(B(size) == 1020, B(off) == 0), 'the checksum covers the 1020 payload bytes')
        stored = z3.Concat(*[bv(lay.read(k), 8) for k in (1023, 1022, 1021, 1020)])
        e.prove(s, (stored == F.swap32(c)) if o.kind == 'ret' else (stored != F.swap32(c)), 'accepts exactly the matching checksum')
        if o.kind == 'throw':
            e.prove(s, z3.Or(bv(o.val.code, 32) == 16, zb(s.ghost['fault'])), 'a mismatch is reported as a bad checksum')


mods = {}
for p in range(1, 100):
    mods.setdefault(max(1, int(round(100.0 / p))), p)
quick = [50, 33, 10, 1, 99]
UNITS = [Unit('read file no verification', read, arg=(False, 0)), Unit('read file full verification', read, arg=(False, 100)),
         Unit('read memory no verification', read, arg=(True, 0)), Unit('read memory full verification', read, arg=(True, 100)),
         Unit('memory source', bufview), Unit('physical page', physpage), Unit('verify checksum', verify)]
UNITS += [Unit('read file policy %d%%' % p, read, arg=(False, p)) for p in quick]
UNITS += [Unit('read file policy %d%%' % p, read, arg=(False, p), thorough=True) for p in range(1, 100) if p not in quick]
ASSUMPTIONS = ['read(2) and lseek(2) behave as POSIX states: a complete read returns the stored bytes, every call may fail or be short',
               'CRC::Calculate is a function of the bytes it is given (CRCpp is not verified)',
               'file length below 2^60 and a multiple of 1024, which the constructor enforces; requests below 2^60 bytes']

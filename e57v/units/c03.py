import random
import z3
from ..sym import Ptr, State, Region, ULT, ULE, bv, simp, zb
from ..ir import I, Unsupported
from ..unit import Unit
from ..filemodel import B, l2p, p2l, swap32
from .. import cf

NATIVE = 'c03'
J = z3.BitVec('J', 64)


def seal_hook(eng, st, buf, n):
    """every write(2): one whole page whose last four bytes are the swapped checksum of its first 1020 bytes, at a page boundary"""
    if eng.quiet:
        return
    eng.prove(st, B(n) == 1024, 'a disk write is one whole page')
    eng.prove(st, B(st.ghost['fpos']) & 1023 == 0, 'a disk write starts at a page boundary')
    crcs = st.ghost.get('crcs') or ()
    if not crcs:
        eng.prove(st, False, 'a page is checksummed before it is written')
        return
    lay, off, size, c = crcs[-1]
    now = eng.to_bytes(st, buf.reg)
    eng.prove(st, z3.And(B(size) == 1020, z3.Implies(ULT(J, B(1020)), bv(lay.read(B(off) + J), 8) == bv(now.read(B(buf.off) + J), 8))),
              'the checksum is of the payload that is written')
    st4 = z3.Concat(*[bv(now.read(B(buf.off) + k), 8) for k in (1023, 1022, 1021, 1020)])
    eng.prove(st, st4 == swap32(c), 'a written page carries the checksum of its payload')


def pages(ll):
    return z3.UDiv(ll + 1019, B(1020))


def flen_templates(eng, L, ev):
    for k in cf.keys64(L):
        if k == ('ghost', 'flen', 64):
            continue
        f0 = B(L.entry_st.ghost['flen'])
        yield 'file length = max(initial, 1024*%s)' % (k,), lambda v, k=k: B(v.ghost('flen')) == z3.If(ULT(f0, v.num(k) * 1024), v.num(k) * 1024, f0)
    yield 'file length is whole pages', lambda v: B(v.ghost('flen')) & 1023 == 0
    yield 'file length does not shrink', lambda v: z3.UGE(B(v.ghost('flen')), B(L.entry_st.ghost['flen']))
    yield 'file length < 2^62', lambda v: ULT(B(v.ghost('flen')), B(1 << 62))


def run(ctx, name, extend):
    e = ctx.engine()
    st, this, ll = cf.setup(e, False, 100)
    st.ghost['fcver'] = 1
    e.write_hook = seal_hook
    e.nokeys |= {'crcs'}
    n = z3.BitVec('n', 64)
    st.assume(ULT(n, B(1 << 58)))
    st.assume(ULT(st.ghost['flen'], B(1 << 58)))
    fc, flen0 = st.ghost['fc'], st.ghost['flen']
    if extend:
        p0 = ll
        data = lambda j: z3.BitVecVal(0, 8)
    else:
        p0 = p2l(st.ghost['fpos'])
        user = e.new_bytes(st, 'user', n)
        ub = st.mem[user]
        data = lambda j: bv(ub.read(j), 8)
        st.assume(ULE(p0, ll))

    def layers(eng, L, ev, t):
        if t != ('ghost', 'fc'):
            return
        for k, s in cf.progress(eng, L, ev, n):
            def mk(v, k=k, s=s):
                done = (v.num(k) - ev.num(k)) * s

                def dom(q):
                    return z3.And(ULT(B(q) & 1023, B(1020)), z3.Or(ULT(B(q), flen0), ULT(p2l(q) - p0, done)))
                return dom, (lambda q: z3.If(ULT(p2l(q) - p0, done), data(p2l(q) - p0), bv(fc.read(B(q)), 8)))
            yield 'file payload = initial with prefix |%s| replaced' % (k,), mk
    e.layer_templates.append(layers)
    e.templates += [cf.page_templates, flen_templates]
    rnd = random.Random(1)
    for _ in range(400):
        pg = rnd.choice([rnd.randrange(0, 12), rnd.randrange(0, 3000)])
        lo = pg * 1020 - (rnd.randrange(0, 1020) if pg and rnd.random() < .6 else 0)
        lp = rnd.choice([lo, rnd.randrange(0, lo + 1)])
        pos = lp // 1020 * 1024 + lp % 1020
        if extend:
            pos = rnd.randrange(0, 5000)
            lp = lo
        nn = rnd.choice([rnd.randrange(0, 5000), rnd.randrange(0, 1100), 1020 - lp % 1020])
        e.samples.append([(z3.BitVec('file.length', 64), cf.V(pg * 1024)), (z3.BitVec('file.pos', 64), cf.V(pos)), (ll, cf.V(lo)), (n, cf.V(nn)),
                          (z3.BitVec('fd', 32), cf.V(3, 32)), (J, cf.V(rnd.randrange(0, lo + nn + 1)))])
    args = [Ptr(this), simp(ll + n), 0] if extend else [Ptr(this), Ptr(user), n]
    for o in e.call(st, ctx.fn(name), args):
        s = o.st
        lln = B(e.load(s, Ptr(this, e.off(cf.CF, 'logicalLength_')), I(64)))
        if o.kind == 'ret':
            e.cover(s, 'returns')
            c = s.fork()
            c.assume(z3.UGT(n, B(3000)))
            e.cover(c, 'returns after several pages')
            fin = s.ghost['fc']
            d = s.fork()
            d.assume(ULT(J, B(1 << 60)))
            e.prove(d, z3.Implies(ULT(J - p0, n), bv(fin.read(l2p(J)), 8) == data(J - p0)), 'written logical bytes equal the given data')
            e.prove(d, z3.Implies(z3.And(ULT(l2p(J), flen0), z3.Not(ULT(J - p0, n))), bv(fin.read(l2p(J)), 8) == bv(fc.read(l2p(J)), 8)),
                    'every other existing logical byte is unchanged')
            e.prove(s, B(s.ghost['fpos']) == l2p(p0 + n), 'position ends just past the data')
            e.prove(s, lln == z3.If(ULT(ll, p0 + n), p0 + n, ll), 'logical length is the larger of the old length and the end of the write')
            e.prove(s, z3.And(B(s.ghost['flen']) & 1023 == 0, ULE(lln, z3.LShR(B(s.ghost['flen']), 10) * 1020)), 'the file is whole pages that hold every logical byte')
            e.prove(s, z3.Not(zb(s.ghost['fault'])), 'returns only if no disk call failed or was short')
        else:
            e.cover(s, 'throws')
            e.prove(s, zb(s.ghost['fault']), 'throws only if a disk call failed or was short')


def write(ctx):
    """CheckedFile::write(buf, n) at any logical position p up to the logical end: on return logical bytes p..p+n equal buf, all other existing payload
    bytes are unchanged, the position is p+n, the length max(old, p+n), no disk call failed or was short; every page written is sealed"""
    run(ctx, r'^e57::CheckedFile::write\(', False)


def extend(ctx):
    """CheckedFile::extend(length + n): as write of n zero bytes at the logical end"""
    run(ctx, r'^e57::CheckedFile::extend\(', True)


def page(ctx):
    """writePhysicalPage(buf, page): the page on disk is buf with its checksum, returns only if the disk took the whole page"""
    e = ctx.engine()
    st, this, ll = cf.setup(e, False)
    st.ghost['fcver'] = 1
    e.write_hook = seal_hook
    buf = e.new_bytes(st, 'page_buffer', 1024)
    b0 = st.mem[buf]
    pg = z3.BitVec('page', 64)
    st.assume(ULT(pg, B(1 << 50)))
    st.assume(ULE(pg * 1024, st.ghost['flen']))
    fc, flen0 = st.ghost['fc'], st.ghost['flen']
    for o in e.call(st, ctx.fn(r'^e57::CheckedFile::writePhysicalPage\('), [Ptr(this), Ptr(buf), pg]):
        s = o.st
        e.cover(s, o.kind)
        if o.kind == 'ret':
            fin = s.ghost['fc']
            e.prove(s, z3.Implies(ULT(J, B(1020)), bv(fin.read(pg * 1024 + J), 8) == bv(b0.read(J), 8)), 'payload of the page is stored')
            e.prove(s, z3.Implies(z3.And(ULT(J, flen0), z3.UGE(J - pg * 1024, B(1024))), bv(fin.read(J), 8) == bv(fc.read(J), 8)), 'no other byte changes')
            e.prove(s, z3.Not(zb(s.ghost['fault'])), 'returns only if no disk call failed or was short')
        else:
            e.prove(s, zb(s.ghost['fault']), 'throws only if a disk call failed or was short')


def readonly(ctx):
    """write and extend on a read-only file throw ErrorFileReadOnly and change nothing"""
    e = ctx.engine()
    st, this, ll = cf.setup(e, True)
    n = z3.BitVec('n', 64)
    user = e.new_bytes(st, 'user', n)
    for f, args in ((r'^e57::CheckedFile::write\(', [Ptr(this), Ptr(user), n]), (r'^e57::CheckedFile::extend\(', [Ptr(this), n, 0])):
        for o in e.call(st.fork(), ctx.fn(f), args):
            e.cover(o.st, 'refused')
            e.prove(o.st, z3.BoolVal(o.kind == 'throw'), 'a read-only file refuses the write')
            if o.kind == 'throw':
                e.prove(o.st, bv(o.val.code, 32) == 15, 'with ErrorFileReadOnly')
            e.prove(o.st, z3.BoolVal(o.st.ghost['fc'] is st.ghost['fc']), 'the file is unchanged')


UNITS = [Unit('write', write, budget=200), Unit('extend', extend, budget=200), Unit('write page', page), Unit('read-only', readonly)]
ASSUMPTIONS = ['write(2) and lseek(2) behave as POSIX states; every call may fail or be short',
               'CRC::Calculate is a function of the bytes it is given (CRCpp is not verified)',
               'positions up to the logical end only; bytes of a new last page past the logical end are unspecified until extend() zeroes them']

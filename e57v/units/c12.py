import z3
from ..sym import Ptr, State, Region, ULT, ULE, bv, simp, zb
from ..ir import I
from ..unit import Unit
from ..filemodel import B, p2l
from .. import lfile

NATIVE = 'c12'
NATIVE_MS = 8000
BL, NI = 'e57::BlobNodeImpl', 'e57::NodeImpl'
J = z3.BitVec('J', 64)


def setup(e, open_=True):
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, open_)
    this = Region('blob')
    c = st.mem[this] = {}
    ln, start = z3.BitVecs('blobLength sectionStart', 64)
    st.assume(ULT(ln, B(1 << 62)))
    st.assume(ULT(start, B(1 << 60)))
    c[e.off(BL, 'blobLogicalLength_')] = (8, ln)
    c[e.off(BL, 'binarySectionLogicalStart_')] = (8, start)
    att = z3.Bool('isAttached')
    c[e.off(NI, 'isAttached_')] = (1, z3.If(att, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    lfile.weak(e, st, this, e.off(NI, 'destImageFile_'), im)
    n, at = z3.BitVecs('count start', 64)
    size = z3.BitVec('user.size', 64)
    st.assume(ULE(n, size))
    st.assume(ULT(size, B(1 << 62)))
    user = e.new_bytes(st, 'user', size)
    return st, this, user, ln, start, n, at, att, im


def inside(at, n, ln):
    return z3.And(at >= 0, ULE(at, ln), ULE(n, ln - at))


def read(ctx):
    """BlobNodeImpl::read(buf, start, count): delivers exactly blob bytes [start, start+count) when 0 <= start and start+count <= length (exact arithmetic);
    otherwise throws ErrorBadAPIArgument without touching file or buffer; a failure inside the range happens only if the file is too short or the disk failed"""
    e = ctx.engine()
    st, this, user, ln, start, n, at, att, im = setup(e)
    u0 = st.mem[user]
    f = ctx.fn(r'^e57::BlobNodeImpl::read\(')
    ok = inside(at, n, ln)
    for o in e.call(st, f, [Ptr(this), Ptr(user), at, n]):
        s = o.st
        now = e.to_bytes(s, user)
        if o.kind == 'ret':
            e.cover(s, 'reads')
            e.prove(s, ok, 'only a range inside the blob is read')
            e.prove(s, z3.Implies(z3.And(ULT(J, n)), bv(now.read(J), 8) == bv(st.ghost['lc'].read(start + 16 + at + J), 8)), 'byte j delivered is blob byte start+j')
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.Or(zb(s.ghost['fault']), zb(s.ghost.get('past', False)), z3.Not(ok)), 'a range inside the blob is refused only if the file ends early or the disk failed')
            if not s.ghost['fault'] and not s.ghost.get('past'):
                e.prove(s, z3.BoolVal(s.ghost['ev'] == ()), 'a refused range leaves the file alone')
        e.prove(s, z3.Implies(z3.Or(z3.Not(ok), ULE(n, J)), bv(now.read(J), 8) == bv(u0.read(J), 8)), 'no byte outside the requested count is touched')
        e.prove(s, z3.BoolVal(s.ghost['lc'] is st.ghost['lc']), 'reading does not change the file')


def write(ctx):
    """BlobNodeImpl::write(buf, start, count): on a writable file with the node attached, stores exactly blob bytes [start, start+count) when the range lies in the
    blob, leaves every other file byte alone; otherwise throws without touching the file"""
    e = ctx.engine()
    st, this, user, ln, start, n, at, att, im = setup(e)
    st.assume(ULE(start + 16 + ln, st.ghost['llen']))   # reserved when the blob was created
    u0 = st.mem[user]
    f = ctx.fn(r'^e57::BlobNodeImpl::write\(')
    ok = inside(at, n, ln)
    wr = z3.Bool('isWriter')
    for o in e.call(st, f, [Ptr(this), Ptr(user), at, n]):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'writes')
            e.prove(s, ok, 'only a range inside the blob is written')
            e.prove(s, wr, 'written only to a writable file')
            e.prove(s, att, 'written only when attached')
            e.prove(s, bv(s.ghost['lc'].read(J), 8) == z3.If(z3.And(ULE(start + 16 + at, J), ULT(J - (start + 16 + at), n)), bv(u0.read(J - (start + 16 + at)), 8),
                                                             z3.If(ULT(J, B(st.ghost['llen'])), bv(st.ghost['lc'].read(J), 8), z3.BitVecVal(0, 8))), 'exactly the blob bytes in the range change, to the given bytes')
            e.prove(s, B(s.ghost['llen']) == B(st.ghost['llen']), 'the file does not grow')
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.Or(zb(s.ghost['fault']), z3.Not(ok), z3.Not(wr), z3.Not(att)), 'a range inside the blob is refused only if the disk failed')
            if not s.ghost['fault']:
                e.prove(s, z3.BoolVal(s.ghost['ev'] == ()), 'a refused range leaves the file alone')
        e.prove(s, bv(e.to_bytes(s, user).read(J), 8) == bv(u0.read(J), 8), 'the caller buffer is only read')


def closed(ctx, which):
    """BlobNodeImpl::read/write on a closed file throw ErrorImageFileNotOpen and touch nothing"""
    e = ctx.engine()
    st, this, user, ln, start, n, at, att, im = setup(e, open_=False)
    u0 = st.mem[user]
    f = ctx.fn(r'^e57::BlobNodeImpl::%s\(' % which)
    for o in e.call(st, f, [Ptr(this), Ptr(user), at, n]):
        s = o.st
        e.cover(s, 'refuses')
        e.prove(s, z3.BoolVal(o.kind != 'ret'), 'refused on a closed file')
        if o.kind != 'ret':
            e.prove(s, bv(o.val.code, 32) == 45, 'with the file-not-open error')
        e.prove(s, z3.BoolVal(s.ghost['ev'] == ()), 'the file is left alone')
        e.prove(s, bv(e.to_bytes(s, user).read(J), 8) == bv(u0.read(J), 8), 'the caller buffer is left alone')


def create(ctx):
    """BlobNodeImpl(file, byteCount): a negative count is refused before space is reserved; otherwise reserves at least 16 + byteCount bytes (a multiple of 4, under
    4 more) at the first free position, writes a section header there that gives the reserved length, and remembers where the blob is"""
    e = ctx.engine()
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    un = z3.BitVec('unusedLogicalStart', 64)
    im = lfile.imagefile(e, st, f, True, 1)
    st.assume(ULT(un, B(1 << 60)))
    st.assume(ULE(B(st.ghost['llen']), un))
    this = Region('blob')
    st.mem[this] = {}
    wp = Region('weak')
    st.mem[wp] = {}
    lfile.weak(e, st, wp, 0, im)
    n = z3.BitVec('byteCount', 64)
    st.assume(n < (1 << 60))
    fn = ctx.fn(r'^e57::BlobNodeImpl::BlobNodeImpl\(std::weak_ptr<e57::ImageFileImpl>, long\)$')
    for o in e.call(st, fn, [Ptr(this), Ptr(wp), n]):
        s = o.st
        new = B(e.load(s, Ptr(im, e.off('e57::ImageFileImpl', 'unusedLogicalStart_')), I(64)))
        if o.kind == 'ret':
            e.cover(s, 'creates')
            ld = lambda m: B(e.load(s, Ptr(this, e.off(BL, m)), I(64)))
            got = new - un
            e.prove(s, n >= 0, 'a negative size is refused')
            e.prove(s, ld('blobLogicalLength_') == n, 'the blob has the requested length')
            e.prove(s, ld('binarySectionLogicalStart_') == un, 'the section starts at the first free position')
            e.prove(s, z3.And(ULE(n + 16, got), ULT(got, n + 20), z3.URem(got, B(4)) == 0), 'space for header and bytes is reserved, rounded up to 4')
            lc = s.ghost['lc']
            e.prove(s, B(s.ghost['llen']) == new, 'the file already covers the reserved space')
            e.prove(s, bv(lc.read(un), 8) == 0, 'the section is marked as a blob')
            e.prove(s, z3.Concat(*[bv(lc.read(un + 8 + k), 8) for k in reversed(range(8))]) == got, 'the section header gives the reserved length')
            e.prove(s, z3.Implies(z3.And(ULE(un + 16, J), ULT(J, new)), bv(lc.read(J), 8) == 0), 'the new blob is all zeros')
            e.prove(s, z3.Implies(ULT(J, B(st.ghost['llen'])), bv(lc.read(J), 8) == bv(st.ghost['lc'].read(J), 8)), 'no earlier byte of the file changes')
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.Or(zb(s.ghost['fault']), n < 0), 'refused only for a negative size or a disk failure')
            e.prove(s, z3.Implies(n < 0, new == un), 'a refused size reserves nothing')
            e.prove(s, ULE(un, new), 'reserved space is never given back')


def reopen(ctx):
    """BlobNodeImpl(file, fileOffset, length) for a blob found in a file: its bytes are those after the 16-byte section header at that physical position"""
    e = ctx.engine()
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, True)
    this = Region('blob')
    st.mem[this] = {}
    wp = Region('weak')
    st.mem[wp] = {}
    lfile.weak(e, st, wp, 0, im)
    off, n = z3.BitVecs('fileOffset length', 64)
    fn = ctx.fn(r'^e57::BlobNodeImpl::BlobNodeImpl\(std::weak_ptr<e57::ImageFileImpl>, long, long\)$')
    for o in e.call(st, fn, [Ptr(this), Ptr(wp), off, n]):
        s = o.st
        e.prove(s, z3.BoolVal(o.kind == 'ret'), 'attaching to a stored blob does not fail')
        if o.kind == 'ret':
            e.cover(s, 'attaches')
            ld = lambda m: B(e.load(s, Ptr(this, e.off(BL, m)), I(64)))
            e.prove(s, ld('blobLogicalLength_') == n, 'the blob has the stored length')
            e.prove(s, ld('binarySectionLogicalStart_') == p2l(off), 'the section is at the stored position')


UNITS = [Unit('read', read), Unit('write', write), Unit('read closed', closed, arg='read'), Unit('write closed', closed, arg='write'), Unit('create', create), Unit('reopen', reopen)]
ASSUMPTIONS = ['CheckedFile seek/read/write/extend are used by contract; the C01, C02 and C03 units discharge those contracts',
               'blob lengths below 2^62, section starts below 2^60, the caller owns count bytes at buf']

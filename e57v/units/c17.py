import re
import z3
from ..sym import Ptr, State, Region, Store, ULT, ULE, bv, simp, zb
from ..ir import I
from ..unit import Unit
from ..filemodel import B, l2p
from .. import lfile
from . import c12

NATIVE = 'c17'
NATIVE_MS = 8000
IM, CW = 'e57::ImageFileImpl', 'e57::CompressedVectorWriterImpl'
J = z3.BitVec('J', 64)


def allocate(ctx):
    """allocateSpace(n, extend): returns the first unallocated position and moves it up by exactly n (so the regions of any two calls are disjoint, by induction on
    the history); with extend the file already has exactly that length, without it the file is not touched; no other field of the file object changes"""
    e = ctx.engine()
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, True, 1)
    un = z3.BitVec('unusedLogicalStart', 64)
    n, ext = z3.BitVec('byteCount', 64), z3.Bool('doExtendNow')
    st.assume(z3.And(ULE(B(48), un), ULT(un, B(1 << 60)), ULT(n, B(1 << 60))))
    st.assume(ULE(B(st.ghost['llen']), un))
    c0 = dict(st.mem[im])
    uo = e.off(IM, 'unusedLogicalStart_')
    for o in e.call(st, ctx.fn(r'^e57::ImageFileImpl::allocateSpace\('), [Ptr(im), n, ext]):
        s = o.st
        new = B(e.load(s, Ptr(im, uo), I(64)))
        if o.kind == 'ret':
            e.cover(s, 'allocates with extension' if s.ghost['ev'] else 'allocates')
            e.prove(s, B(o.val) == un, 'the region starts at the first unallocated position')
            e.prove(s, new == un + n, 'the allocation grows by exactly the size asked for')
            e.prove(s, z3.Implies(ext, B(s.ghost['llen']) == un + n), 'with extension the file already covers the region')
            e.prove(s, z3.Implies(z3.And(ext, ULE(un, J), ULT(J, un + n)), bv(s.ghost['lc'].read(J), 8) == 0), 'a region reserved with extension reads as zeros')
            e.prove(s, z3.Implies(z3.Not(ext), z3.BoolVal(s.ghost['ev'] == ())), 'without extension the file is left alone')
            e.prove(s, z3.Implies(ULT(J, B(st.ghost['llen'])), bv(s.ghost['lc'].read(J), 8) == bv(st.ghost['lc'].read(J), 8)), 'no earlier byte changes')
        else:
            e.prove(s, zb(s.ghost['fault']), 'fails only if the disk failed')
            e.prove(s, ULE(un, new), 'allocated space is never taken back')
        for k, (w, v) in c0.items():
            if k != uo and not isinstance(v, Ptr):
                e.prove(s, bv(e.load(s, Ptr(im, k), I(8 * w)), 8 * w) == bv(v, 8 * w), 'other state of the file object is unchanged')


def writer(e, st, im):
    """a CompressedVectorWriterImpl on a node of that file"""
    w = Region('writer')
    c = st.mem[w] = {}
    for m in ('sectionHeaderLogicalStart_', 'sectionLogicalLength_', 'dataPhysicalOffset_', 'topIndexPhysicalOffset_', 'recordCount_', 'dataPacketsCount_', 'indexPacketsCount_'):
        c[e.off(CW, m)] = (8, z3.BitVec(m, 64))
    c[e.off(CW, 'isOpen_')] = (1, 1)
    cv = Region('cvnode')
    st.mem[cv] = {}
    lfile.weak(e, st, cv, e.off('e57::NodeImpl', 'destImageFile_'), im)
    lfile.weak(e, st, w, e.off(CW, 'cVector_'), cv)
    return w, cv


def packet(ctx, which):
    """packetWriteIndex/packetWriteZeroRecords: the packet is written exactly over the space it reserves, and changes no other byte; its recorded length is the space
    reserved, a multiple of 4; where it was put is remembered"""
    e = ctx.engine()
    e.short_loops = 4
    e.peel_limit = 2100     # the array of index entries is initialised element by element
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, True, 1)
    un = z3.BitVec('unusedLogicalStart', 64)
    st.assume(z3.And(ULE(B(48), un), ULT(un, B(1 << 59))))
    st.assume(ULE(B(st.ghost['llen']), un))
    w, cv = writer(e, st, im)
    dp = z3.BitVec('dataPhysicalOffset_', 64)
    cnt = z3.BitVec('dataPacketsCount_', 64)
    rec, ns = z3.BitVec('recordCount_', 64), z3.BitVec('streams', 64)
    if which == 'packetWriteZeroRecords':
        pk = e.new_bytes(st, 'packet', 65536)
        w.meta['subs'] = [(e.off(CW, 'dataPacket_'), e.off(CW, 'dataPacket_') + 65536, pk)]
        st.mem[pk] = Store(st.mem[pk], 0, 1, 1)
        st.assume(z3.And(ULT(B(0), ns), ULE(ns, B(32765))))
        vec = Region('streams')
        st.mem[vec] = {}
        vo = e.off(CW, 'bytestreams_')
        st.mem[w][vo] = (8, Ptr(vec, 0))
        st.mem[w][vo + 8] = (8, Ptr(vec, simp(ns * 16)))
    for o in e.call(st, ctx.fn(r'^e57::CompressedVectorWriterImpl::%s\(' % which), [Ptr(w)]):
        s = o.st
        new = B(e.load(s, Ptr(im, e.off(IM, 'unusedLogicalStart_')), I(64)))
        ld = lambda m: B(e.load(s, Ptr(w, e.off(CW, m)), I(64)))
        if o.kind == 'ret':
            e.cover(s, 'writes a packet')
            wr = [x for x in s.ghost['ev'] if x[0] == 'write']
            lc = s.ghost['lc']
            n = new - un
            e.prove(s, z3.BoolVal(len(wr) == 1), 'one write')
            e.prove(s, z3.And(B(wr[0][1]) == un, B(wr[0][2]) == n), 'the packet exactly fills the space it reserves')
            e.prove(s, z3.Implies(ULT(J, B(st.ghost['llen'])), bv(lc.read(J), 8) == bv(st.ghost['lc'].read(J), 8)), 'no earlier byte of the file changes')
            e.prove(s, z3.Concat(bv(lc.read(un + 3), 8), bv(lc.read(un + 2), 8)) == z3.Extract(15, 0, n - 1), 'the packet records its length')
            e.prove(s, z3.And(ULE(B(8), n), ULE(n, B(65536)), z3.URem(n, B(4)) == 0), 'the length is a multiple of 4')
            if which == 'packetWriteIndex':
                e.prove(s, bv(lc.read(un), 8) == 0, 'marked as an index packet')
                e.prove(s, z3.And(n == 32, z3.Concat(bv(lc.read(un + 5), 8), bv(lc.read(un + 4), 8)) == 1), 'one entry')
                e.prove(s, z3.And(*[bv(lc.read(un + k), 8) == 0 for k in [1] + list(range(6, 24))]), 'level 0, reserved bytes zero, first chunk starts at record 0')
                e.prove(s, z3.Concat(*[bv(lc.read(un + 24 + k), 8) for k in reversed(range(8))]) == dp, 'the entry points at the first data packet')
                e.prove(s, ld('topIndexPhysicalOffset_') == l2p(un), 'the index position is remembered')
            else:
                e.prove(s, bv(lc.read(un), 8) == 1, 'marked as a data packet')
                k = z3.If(rec == 0, B(0), ns)
                e.prove(s, z3.ZeroExt(48, z3.Concat(bv(lc.read(un + 5), 8), bv(lc.read(un + 4), 8))) == k, 'the streams are counted: all of them when there are records, none otherwise')
                e.prove(s, z3.And(ULE(6 + 2 * k, n), ULT(n, 10 + 2 * k)), 'room for the stream lengths and at most three bytes of padding')
                e.prove(s, z3.And(bv(lc.read(un + 1), 8) == 0, z3.Implies(z3.And(ULE(un + 6, J), ULT(J, new)), bv(lc.read(J), 8) == 0)), 'every stream is empty, flags and padding are zero')
                e.prove(s, ld('dataPhysicalOffset_') == z3.If(cnt == 0, l2p(un), dp), 'the position of the first data packet is remembered')
                e.prove(s, ld('dataPacketsCount_') == cnt + 1, 'the packet is counted')
        else:
            e.prove(s, zb(s.ghost['fault']), 'fails only if the disk failed')
            e.prove(s, ULE(un, new), 'allocated space is never taken back')


OWNERS = ('allocateSpace', 'construct2', 'ImageFileImpl::ImageFileImpl(')


def owners(ctx):
    """frame of the allocation mark: in the whole library only the constructor, construct2 and allocateSpace store to it or pass its address on, so every other
    function preserves it"""
    e = ctx.engine()
    mod = e.mod
    uo = e.off(IM, 'unusedLogicalStart_')
    ty = ('named', '%"class.e57::ImageFileImpl"')
    fld = next(i for i in range(len(mod.rtype(ty)[1])) if mod.field(ty, i)[0] == uo)
    rx = re.compile(r'^\s*(%%[\w.]+) = getelementptr inbounds %%"class\.e57::ImageFileImpl", ptr \S+, i32 0, i32 %d\b' % fld)
    n = 0
    for name, fn in mod.fns.items():
        at = [m.group(1) for m in map(rx.match, fn.body) if m]
        if not at:
            continue
        n += 1
        use = re.compile('(' + '|'.join(re.escape(a) for a in at) + r')\b(?!\.)')
        if any(use.search(ln) and not rx.match(ln) and ' = load ' not in ln and '#dbg' not in ln for ln in fn.body):
            d = mod.dem.get(name, name)
            e.obligation('proved' if any(o in d for o in OWNERS) else 'unknown', 'allocation mark stored to by %s' % d.split('(')[0])
    e.covers['functions that use the allocation mark were found'] = n >= 2
    e.obligation('proved' if n else 'unknown', 'every function using the allocation mark was scanned')


UNITS = [Unit('allocate', allocate), Unit('blob', c12.create), Unit('index packet', packet, arg='packetWriteIndex'), Unit('empty packet', packet, arg='packetWriteZeroRecords'),
         Unit('owners', owners)]
ASSUMPTIONS = ['CheckedFile seek/write/extend are used by contract; the C01, C02 and C03 units discharge those contracts',
               'sizes and positions below 2^60',
               'before each request the file ends at or before the first unallocated position: kept by every function above, each of which writes only inside space it reserved']

import z3
from ..sym import Ptr, State, ULT, ULE, bv
from ..unit import Unit
from ..filemodel import B, l2p, p2l
from .. import cf

NATIVE = 'c01'
NATIVE_MS = 5000
MAX = (1 << 64) // 1024 * 1020   # logical positions whose physical position exists


def pure(ctx, e, st, f, x):
    r = e.call(st, f, [x])
    assert len(r) == 1 and r[0].kind == 'ret'
    return bv(r[0].val, 64), r[0].st


def mapping(ctx):
    """logicalToPhysical/physicalToLogical: for every logical x below 2^64*1020/1024, l2p(x) is a payload byte (offset in page < 1020),
    page and offset are x/1020 and x%1020, p2l(l2p(x)) == x, l2p is strictly increasing; for every payload byte q, l2p(p2l(q)) == q;
    checksum bytes map to the start of the next page's payload"""
    e = ctx.engine(safety=())
    L = ctx.fn(r'^e57::CheckedFile::logicalToPhysical\(')
    Pf = ctx.fn(r'^e57::CheckedFile::physicalToLogical\(')
    x, y, q = z3.BitVecs('x y q', 64)
    st = State()
    st.assume(ULT(x, B(MAX)))
    st.assume(ULT(y, B(MAX)))
    st.assume(ULT(x, y))
    px, st = pure(ctx, e, st, L, x)
    py, st = pure(ctx, e, st, L, y)
    bx, st = pure(ctx, e, st, Pf, px)
    e.cover(st, 'mapping')
    e.prove(st, px == z3.UDiv(x, B(1020)) * 1024 + z3.URem(x, B(1020)), 'logical x is byte x%1020 of page x/1020')
    e.prove(st, ULT(px & 1023, B(1020)), 'the physical byte of a logical position is a payload byte')
    e.prove(st, bx == x, 'physicalToLogical inverts logicalToPhysical')
    e.prove(st, ULT(px, py), 'logicalToPhysical is strictly increasing')
    st = State()
    lq, st = pure(ctx, e, st, Pf, q)
    e.cover(st, 'inverse')
    e.prove(st, lq == z3.LShR(q, 10) * 1020 + z3.If(ULE(q & 1023, 1020), q & 1023, B(1020)), 'physicalToLogical of any byte')
    st.assume(ULT(q & 1023, B(1020)))
    bq, st = pure(ctx, e, st, L, lq)
    e.prove(st, bq == q, 'every payload byte is the image of its logical position')


def seek(ctx, arg):
    """seek(off, mode) leaves the file exactly at off (physical) or at the image of off (logical), or throws only if the disk call failed
    or the position is not representable; position(mode) afterwards returns off; nothing else changes"""
    view, mode = arg
    e = ctx.engine()
    st, this, ll = cf.setup(e, True, view=view)
    off = z3.BitVec('off', 64)
    st.assume(ULT(off, B(1 << 63)) if mode else ULT(off, B(MAX)))
    cells0 = dict(st.mem[this])
    f = ctx.fn(r'^e57::CheckedFile::seek\(')
    g = ctx.fn(r'^e57::CheckedFile::position\(')
    want = off if mode else l2p(off)
    for o in e.call(st, f, [Ptr(this), off, mode]):
        s = o.st
        def pos(s):
            return e.load(s, Ptr(*e.view_cursor), ('i', 64)) if view else s.ghost['fpos']
        if o.kind == 'ret':
            e.cover(s, 'seek returns')
            e.prove(s, B(pos(s)) == want, 'seek leaves the file at the mapped position')
            e.prove(s, z3.BoolVal(s.ghost['fc'] is st.ghost['fc']), 'seek does not change the file')
            for m in (0, 1):
                for p in e.call(s.fork(), g, [Ptr(this), m]):
                    if p.kind == 'ret':
                        e.cover(p.st, 'position returns')
                        e.prove(p.st, B(p.val) == (want if m else p2l(want)), 'position(%s) after seek' % ('physical' if m else 'logical'))
                        e.prove(p.st, B(pos(p.st)) == want, 'position does not move the file')
                        if not mode and not m:
                            e.prove(p.st, B(p.val) == off, 'position after logical seek returns the sought position')
                    else:
                        e.prove(p.st, p.st.ghost['fault'], 'position throws only if the disk call failed')
        elif view:
            e.prove(s, z3.UGT(want, st.ghost['flen']), 'seek in memory throws only past the end')
        else:
            e.prove(s, z3.Or(s.ghost['fault'], want < 0), 'seek throws only if the disk call failed')
        for k, v in cells0.items():
            n, w = s.mem[this][k]
            if not isinstance(v[1], Ptr):
                e.prove(s, bv(w, 8 * n) == bv(v[1], 8 * n), 'seek leaves the object unchanged')


def pageoff(ctx):
    """getCurrentPageAndOffset: page*1020+offset is the logical position and offset < 1020 (logical), and likewise physically"""
    e = ctx.engine()
    f = ctx.fn(r'^e57::CheckedFile::getCurrentPageAndOffset\(')
    for mode in (0, 1):
        st, this, ll = cf.setup(e, True)
        from ..sym import Region
        a, b = Region('page', size=8), Region('offset', size=8)
        st.mem[a] = {0: (8, 0)}
        st.mem[b] = {0: (8, 0)}
        p0 = st.ghost['fpos']
        for o in e.call(st, f, [Ptr(this), Ptr(a), Ptr(b), mode]):
            if o.kind == 'ret':
                e.cover(o.st, 'page and offset')
                pg, of = [B(e.load(o.st, Ptr(r), ('i', 64))) for r in (a, b)]
                size = 1024 if mode else 1020
                e.prove(o.st, pg * size + of == (p0 if mode else p2l(p0)), 'page*size+offset is the position')
                e.prove(o.st, ULT(of, B(size)), 'offset lies in the page')
                e.prove(o.st, o.st.ghost['fpos'] == p0, 'the file does not move')
            else:
                e.prove(o.st, o.st.ghost['fault'], 'throws only if the disk call failed')


UNITS = [Unit('mapping', mapping), Unit('seek logical file', seek, arg=(False, 0)), Unit('seek physical file', seek, arg=(False, 1)),
         Unit('seek logical memory', seek, arg=(True, 0)), Unit('seek physical memory', seek, arg=(True, 1)), Unit('page and offset', pageoff)]
ASSUMPTIONS = ['lseek(2) moves the file exactly to the position it returns']

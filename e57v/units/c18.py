import z3
from ..sym import Ptr, State, Region, ULT, ULE, bv, simp, zb, isc
from ..ir import I, PTR
from ..unit import Unit
from ..models import RET
from ..filemodel import B
from .. import lfile, models
from .c16 import opening

NATIVE = 'c18'
NATIVE_MS = 12000
J = z3.BitVec('J', 64)
CL, SRC = None, None


def cls(e):
    """the stream class, by name in any namespace"""
    for c in ('e57::E57FileInputStream', 'E57FileInputStream'):
        try:
            e.off(c, 'logicalStart_')
            return c
        except Exception:
            pass
    return 'E57FileInputStream'


def setup(e):
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    this = Region('stream')
    C = cls(e)
    start, ln, pos = z3.BitVecs('start length position', 64)
    c = st.mem[this] = {}
    c[e.off(C, 'cf_')] = (8, Ptr(f))
    for m, v in (('logicalStart_', start), ('logicalLength_', ln), ('logicalPosition_', pos)):
        c[e.off(C, m)] = (8, v)
    return st, f, this, C, start, ln, pos


def read(ctx):
    """E57FileInputStream::readBytes at any position in the section, for any request: delivers the next min(request, rest) bytes of the section, nothing else, and moves on by
    as many; nothing is delivered exactly at the end (or if nothing is asked for)"""
    e = ctx.engine()
    st, f, this, C, start, ln, pos = setup(e)
    w = lambda x: z3.ZeroExt(8, x)
    # the section may claim any length; where it starts is in the file, and the position is in the section
    st.assume(z3.And(ULT(start, B(1 << 62)), ULE(start, pos), ULE(pos - start, ln)))
    n, size = z3.BitVecs('asked size', 64)
    st.assume(z3.And(ULE(n, size), ULT(size, B(1 << 62))))
    buf = e.new_bytes(st, 'tofill', size)
    b0 = st.mem[buf]
    real = z3.And(ULT(ln, B(1 << 62)))         # a length a file can have
    rest = ln - (pos - start)
    want = z3.If(ULT(n, rest), n, rest)
    for o in e.call(st, ctx.fn(r'E57FileInputStream::readBytes\('), [Ptr(this), Ptr(buf), n]):
        s = o.st
        now = e.to_bytes(s, buf)
        p2 = B(e.load(s, Ptr(this, e.off(C, 'logicalPosition_')), I(64)))
        if o.kind == 'ret':
            e.cover(s, 'delivers')
            k = B(o.val)
            e.prove(s, z3.And(ULE(k, want)), 'never more than asked for or than the section holds')
            e.prove(s, z3.Implies(real, k == want), 'all that is asked for or left')
            e.prove(s, z3.Implies(ULT(J, k), bv(now.read(J), 8) == bv(st.ghost['lc'].read(pos + J), 8)), 'byte j is the section\'s next byte j')
            e.prove(s, z3.Implies(ULE(k, J), bv(now.read(J), 8) == bv(b0.read(J), 8)), 'no other byte is touched')
            e.prove(s, p2 == pos + k, 'the position moves on by the bytes delivered')
        else:
            e.cover(s, 'fails')
            e.prove(s, z3.Or(zb(s.ghost['fault']), zb(s.ghost.get('past', False))), 'fails only if the file ends early or the disk failed')
            e.prove(s, p2 == pos, 'then the position stays')
            e.prove(s, z3.Implies(ULE(want, J), bv(now.read(J), 8) == bv(b0.read(J), 8)), 'no byte beyond is touched')
        e.prove(s, z3.BoolVal(s.ghost['lc'] is st.ghost['lc']), 'reading does not change the file')
        for m, v in (('logicalStart_', start), ('logicalLength_', ln)):
            e.prove(s, B(e.load(s, Ptr(this, e.off(C, m)), I(64))) == v, 'the section stays the same')


def position(ctx):
    """E57FileInputStream::curPos: the position"""
    e = ctx.engine()
    st, f, this, C, start, ln, pos = setup(e)
    for o in e.call(st, ctx.fn(r'E57FileInputStream::curPos\('), [Ptr(this)]):
        e.cover(o.st, 'returns')
        e.prove(o.st, z3.And(z3.BoolVal(o.kind == 'ret'), B(o.val) == pos), 'the position is reported')


def made(ctx):
    """E57XmlFileInputSource::makeStream: a stream over the section the source was made for, at its start"""
    e = ctx.engine()
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    S = 'e57::E57XmlFileInputSource'
    src = Region('source')
    st.mem[src] = {}
    start, ln = z3.BitVecs('start length', 64)
    e.model(r'InputSource::InputSource\(', models.nop)
    new = []

    def alloc(eng, s, a, x):
        r = Region('newstream', isnull=False)
        s.mem[r] = {}
        new.append(r)
        return RET(s, Ptr(r, 0))
    e.model(r'XMemory::operator new|^operator new', alloc)
    e.model(r'BinInputStream::BinInputStream\(', models.nop)
    C = cls(e)
    for o in e.call(st, ctx.fn(r'^e57::E57XmlFileInputSource::E57XmlFileInputSource\(e57::CheckedFile'), [Ptr(src), Ptr(f), start, ln]):
        e.prove(o.st, z3.BoolVal(o.kind == 'ret'), 'the source is made')
        for q in e.call(o.st, ctx.fn(r'^e57::E57XmlFileInputSource::makeStream\('), [Ptr(src)]):
            s = q.st
            e.cover(s, 'made')
            e.prove(s, z3.BoolVal(q.kind == 'ret'), 'the stream is made')
            if q.kind != 'ret':
                continue
            r = q.val.reg
            at = lambda m, t: e.load(s, Ptr(r, e.off(C, m)), t)
            e.prove(s, z3.BoolVal(at('cf_', PTR).reg is f), 'over the same file')
            e.prove(s, z3.And(B(at('logicalStart_', I(64))) == start, B(at('logicalLength_', I(64))) == ln, B(at('logicalPosition_', I(64))) == start), 'over the same section, at its start')


UNITS = [Unit('read', read), Unit('position', position), Unit('made', made), Unit('open file', opening, arg='file'), Unit('open memory', opening, arg='memory')]
ASSUMPTIONS = ['CheckedFile as contracted (C02, C03); the XML parser (Xerces) calls the stream as its interface says',
               'the XML section starts at a logical offset below 2^62 (the header is checked against the file\'s length when opening: unit open)']

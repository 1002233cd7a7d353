import z3
from ..sym import Ptr, NULL, State, Region, Outcome, ULT, ULE, bv, simp, zb, isc
from ..ir import I, PTR
from ..unit import Unit
from ..filemodel import B, p2l, l2p
from ..models import RET, str_new
from .. import lfile
from .. import models

NATIVE = 'c16'
NATIVE_MS = 8000
IM = 'e57::ImageFileImpl'
J = z3.BitVec('J', 64)
SIG = b'ASTM-E57'


def le(lay, off, n):
    return z3.Concat(*[bv(lay.read(simp(B(off) + k)), 8) for k in reversed(range(n))])


def fields(lay, off=0):
    """the header as the standard lays it out: signature 0, major 8, minor 12, file length 16, xml offset 24, xml length 32, page size 40"""
    return {'sig': z3.And(*[bv(lay.read(simp(B(off) + k)), 8) == SIG[k] for k in range(8)]), 'major': le(lay, B(off) + 8, 4), 'minor': le(lay, B(off) + 12, 4),
            'length': le(lay, B(off) + 16, 8), 'xmloff': le(lay, B(off) + 24, 8), 'xmllen': le(lay, B(off) + 32, 8), 'page': le(lay, B(off) + 40, 8)}


def good(h, plen):
    ver = z3.And(ULE(h['major'], 1), z3.Or(h['major'] != 1, ULE(h['minor'], 0)))
    return z3.And(h['sig'], ver, h['length'] == B(plen), z3.Or(h['major'] == 0, h['page'] == B(1024)))


def header(ctx):
    """readFileHeader: returns exactly when the 48 bytes at the position are inside the file, start with ASTM-E57, carry a known version, the file's true physical
    length and page size 1024 (prototype version 0 files: any page size), and then delivers those 48 bytes"""
    e = ctx.engine()
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    hd = e.new_bytes(st, 'header', 48)
    fn = ctx.fn(r'^e57::ImageFileImpl::readFileHeader\(')
    pos, lc = st.ghost['lpos'], st.ghost['lc']
    ok = good(fields(lc, pos), st.ghost['plen'])
    for o in e.call(st, fn, [Ptr(f), Ptr(hd)]):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'accepts')
            e.prove(s, ok, 'only a consistent header is accepted')
            e.prove(s, ULE(B(pos) + 48, B(st.ghost['llen'])), 'only a header inside the file is accepted')
            now = e.to_bytes(s, hd)
            e.prove(s, z3.Implies(ULT(J, B(48)), bv(now.read(J), 8) == bv(lc.read(B(pos) + J), 8)), 'the header handed on is the stored one')
        else:
            e.cover(s, 'rejects')
            if s.ghost.get('past'):
                e.prove(s, ULT(B(st.ghost['llen']), B(pos) + 48), 'rejected as too short only if it is')
            else:
                e.prove(s, z3.Or(zb(s.ghost['fault']), z3.Not(ok)), 'a consistent header is accepted')
                if not s.ghost['fault']:
                    h = fields(lc, pos)
                    c = bv(o.val.code, 32)
                    e.prove(s, z3.Implies(z3.Not(h['sig']), c == 27), 'a wrong signature is reported as such')
                    e.prove(s, z3.Implies(c == 27, z3.Not(h['sig'])), 'the signature error is raised only for a wrong signature')
        e.prove(s, z3.BoolVal(s.ghost['lc'] is lc), 'the file is not changed')


def close(ctx):
    """close of a written file: the XML section starts at the first unallocated position, its length is padded to a multiple of 4 with the text ending inside the
    file, and the 48 bytes at position 0 become a header with signature, version 1.0, the true physical length, the XML section's physical position and logical
    length and page size 1024, which readFileHeader accepts; everything between the header and the XML section stays as it was; the file is then closed once"""
    e = ctx.engine()
    lfile.install(e)
    e.div_like = True
    st = State()
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, True, 1)
    un = z3.BitVec('unusedLogicalStart', 64)
    st.assume(ULE(B(48), un))
    st.assume(ULT(un, B(1 << 50)))
    st.assume(ULE(B(st.ghost['llen']), B(1 << 50)))
    st.assume(B(st.ghost['plen']) == z3.UDiv(B(st.ghost['llen']) + 1019, B(1020)) * 1024)
    st.ghost['closes'] = 0
    st.ghost['ev'] = None

    def wx(eng, s, a, x):
        out = lfile.m_stream(eng, s, [None], '')
        for o in out:
            if o.kind == 'ret':
                o.st.set('xmlend', o.st.ghost['lpos'])
        return out

    def inv(eng, L, ev):
        yield '!text ends at the position', lambda v: B(v.ghost('xmlend')) == B(v.ghost('lpos'))
        yield '!position after the start', lambda v: z3.And(ULT(un, B(v.ghost('lpos'))))
        e0 = B(ev.ghost('lpos'))
        yield '!at most three bytes of padding', lambda v: ULE(B(v.ghost('lpos')) - un, z3.UDiv(e0 - un + 3, B(4)) * 4)
        yield '!text inside the file', lambda v: z3.And(ULE(B(v.ghost('lpos')), B(v.ghost('llen'))), ULT(B(v.ghost('llen')), B(1 << 60)))
        yield '!file covers the header page', lambda v: z3.And(ULE(B(1024), B(v.ghost('plen'))))

    def layers(eng, L, ev, t):
        if t == ('ghost', 'lc'):
            l0, n0 = st.ghost['lc'], B(st.ghost['llen'])
            yield 'file below the XML section is unchanged', lambda v: (lambda q: z3.And(ULT(B(q), un), ULT(B(q), n0)), lambda q: bv(l0.read(B(q)), 8))
    e.templates.append(inv)
    e.layer_templates.append(layers)
    root = lfile.vobject(e, st, 'root', lambda slot: wx)
    lfile.weak(e, st, im, e.off(IM, 'root_'), root)
    lfile.weak(e, st, im, 0, im)    # enable_shared_from_this

    def w(eng, s, a, name):
        # the position of the last write that is not the header
        out = lfile.m_write(eng, s, a, name)
        for o in out:
            if o.kind == 'ret' and not (isc(a[2]) and a[2] == 48):
                o.st.set('xmlend', o.st.ghost['lpos'])
        return out
    st.ghost['xmlend'] = z3.BitVecVal(0, 64)
    e.model(r'^e57::CheckedFile::write\(', w)

    def m_close(eng, s, a, name):
        s.set('closes', s.ghost['closes'] + 1)
        return RET(s)
    e.model(r'^e57::CheckedFile::close\(', m_close)
    e.model(r'^e57::CheckedFile::~CheckedFile\(', models.nop)
    e.model(r'enable_shared_from_this<e57::ImageFileImpl>::shared_from_this\(', lambda eng, s, a, n: models.sp_copy(eng, s, [a[0], Ptr(im)], n))
    fn = ctx.fn(r'^e57::ImageFileImpl::close\(')
    rd = ctx.fn(r'^e57::ImageFileImpl::readFileHeader\(')
    for o in e.call(st, fn, [Ptr(im)]):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'closes')
            lc = s.ghost['lc']
            h = fields(lc, 0)
            e.prove(s, h['sig'], 'the signature is written')
            e.prove(s, z3.And(h['major'] == 1, h['minor'] == 0), 'the version is written')
            e.prove(s, h['length'] == B(s.ghost['plen']), 'the recorded length is the true file length')
            e.prove(s, h['page'] == 1024, 'the page size is written')
            e.prove(s, h['xmloff'] == l2p(un), 'the recorded XML position is the first unallocated position')
            e.prove(s, z3.URem(h['xmllen'], B(4)) == 0, 'the XML length is a multiple of 4')
            e.prove(s, z3.And(h['xmllen'] > 0, ULE(un + h['xmllen'], B(s.ghost['llen']))), 'the XML section lies in the file')
            e.prove(s, un + h['xmllen'] == B(s.ghost['xmlend']), 'the XML section ends where the text ends')
            e.prove(s, z3.Implies(z3.And(ULE(B(48), J), ULT(J, un), ULT(J, B(st.ghost['llen']))), bv(lc.read(J), 8) == bv(st.ghost['lc'].read(J), 8)), 'allocated sections are left alone')
            e.prove(s, z3.BoolVal(e.load(s, Ptr(im, e.off(IM, 'file_')), PTR).reg is None), 'the file is no longer open')
            e.prove(s, z3.BoolVal(s.ghost['closes'] == 1), 'the disk file is closed once')
            # round trip through the reader
            s2 = s.fork()
            s2.set('lpos', 0)
            hd = e.new_bytes(s2, 'header2', 48)
            for r in e.call(s2, rd, [Ptr(f), Ptr(hd)]):
                if r.kind == 'ret':
                    e.cover(r.st, 'reads back')
                elif not r.st.ghost['fault']:
                    e.prove(r.st, z3.BoolVal(False), 'a written header is accepted when read back')
        else:
            e.prove(s, zb(s.ghost['fault']), 'fails only if the disk failed')


def reclose(ctx):
    """close of an already closed file does nothing"""
    e = ctx.engine()
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, False)
    fn = ctx.fn(r'^e57::ImageFileImpl::close\(')
    for o in e.call(st, fn, [Ptr(im)]):
        e.cover(o.st, 'does nothing')
        e.prove(o.st, z3.BoolVal(o.kind == 'ret' and o.st.ghost['ev'] == ()), 'nothing is written')


def opening(ctx, arg):
    """construct2 for reading: the header is read from position 0 of the file just opened, checked, and the XML section handed to the parser is the one it records
    (physical position converted to logical); when anything fails the file is closed and the error passed on; allocation starts right after the header"""
    e = ctx.engine()
    lfile.install(e)
    st = State()
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, False)
    st.assume(st.ghost['lpos'] == 0)
    st.ghost['opened'] = 0
    st.ghost['gone'] = 0
    st.ghost['xml'] = ()

    def m_new(eng, s, a, name):
        bad = s.fork()
        out = eng.throw_e57(bad, 17)
        bad.set('fault', True)
        s.set('opened', s.ghost['opened'] + 1)
        s.set('cf', a[0].reg)
        s.set('how', tuple(a[1:]))
        return out + RET(s)

    def m_gone(eng, s, a, name):
        s.set('gone', s.ghost['gone'] + 1)
        return RET(s)

    def may(eng, s, a, name):
        bad = s.fork()
        bad.set('fault', True)
        return eng.throw_e57(bad, 12) + RET(s, a[0])

    def m_src(eng, s, a, name):
        s.set('xml', s.ghost['xml'] + ((a[1], a[2], a[3]),))
        return may(eng, s, a, name)
    e.model(r'^e57::CheckedFile::CheckedFile\(', m_new)
    e.model(r'^e57::CheckedFile::~CheckedFile\(', m_gone)
    e.model(r'enable_shared_from_this<e57::ImageFileImpl>::shared_from_this\(', lambda eng, s, a, n: models.sp_copy(eng, s, [a[0], Ptr(sp)], n))
    e.model(r'^e57::StructureNodeImpl::StructureNodeImpl\(', models.nop)
    e.model(r'^e57::(StructureNodeImpl|NodeImpl)::setAttachedRecursive\(', models.nop)
    e.model(r'shared_ptr<e57::StructureNodeImpl.*>::(__)?shared_ptr<e57::StructureNodeImpl, void>\(e57::StructureNodeImpl\*\)', lambda eng, s, a, n: (eng.write_cell(s, a[0].reg, a[0].off, 8, Ptr(root)), eng.write_cell(s, a[0].reg, eng._addoff(a[0].off, 8, 64, 1), 8, Ptr(Region('ctl'))), RET(s))[2])
    e.model(r'^e57::E57XmlParser::(E57XmlParser|init|parse)\(', may)
    e.model(r'^e57::E57XmlParser::~E57XmlParser\(', models.nop)
    e.model(r'^e57::E57XmlFileInputSource::E57XmlFileInputSource\(', m_src)
    e.model(r'E57XmlFileInputSource::~E57XmlFileInputSource\(|InputSource::~InputSource\(', models.nop)
    sp = Region('selfptr')
    st.mem[sp] = {}
    lfile.weak(e, st, sp, 0, im)
    root = lfile.vobject(e, st, 'root', lambda slot: (lambda eng, s, a, x: RET(s)))
    st.mem[im][e.off(IM, 'root_')] = (8, NULL)
    st.mem[im][e.off(IM, 'root_') + 8] = (8, NULL)
    policy = z3.BitVec('policy', 32)
    st.mem[im][e.off(IM, 'checksumPolicy')] = (4, policy)
    ok = good(fields(st.ghost['lc'], 0), st.ghost['plen'])
    if arg == 'memory':
        fn = ctx.fn(r'^e57::ImageFileImpl::construct2\(char const\*, unsigned long\)')
        buf = e.new_bytes(st, 'image', z3.BitVec('image.size', 64))
        args = [Ptr(im), Ptr(buf), z3.BitVec('image.size', 64)]
    else:
        fn = ctx.fn(r'^e57::ImageFileImpl::construct2\(std::')
        strs = [Region('name'), Region('mode')]
        for r in strs:
            st.mem[r] = {}
            models.havoc_string(e, st, Ptr(r))
        args = [Ptr(im)] + [Ptr(r) for r in strs]
        wmode = z3.Bool('mode is w')
        rmode = z3.Bool('mode is r')

        def m_eq(eng, s, a, name):
            from ..sym import ConstBytes
            lit = a[1]
            lay = eng.mem_state(s, lit.reg)
            c = chr(lay.b[lit.off]) if isinstance(lay, ConstBytes) and isc(lit.off) and lay.b[lit.off + 1] == 0 else None
            v = {'w': wmode, 'r': rmode}.get(c)
            if v is None:
                v = eng.fresh('strcmp', 1)
            return RET(s, z3.Not(v) if 'operator!=' in eng.mod.dem.get(name, name) else v)
        e.model(r'^bool std::operator(==|!=)<char.*\(std::.*, char const\*\)', m_eq)
        st.assume(z3.Not(z3.And(wmode, rmode)))
    for o in e.call(st, fn, args):
        s = o.st
        fl = e.load(s, Ptr(im, e.off(IM, 'file_')), PTR)
        if o.kind == 'ret':
            un = B(e.load(s, Ptr(im, e.off(IM, 'unusedLogicalStart_')), I(64)))
            e.prove(s, un == 48, 'allocation starts right after the header')
            e.prove(s, z3.BoolVal(isinstance(fl, Ptr) and fl.reg is s.ghost.get('cf') and s.ghost['opened'] == 1 and s.ghost['gone'] == 0), 'the file is open')
            wr = zb(simp(bv(e.load(s, Ptr(im, e.off(IM, 'isWriter_')), I(8)), 8) != 0))
            if s.ghost['xml'] == ():
                e.cover(s, 'opens for writing')
                e.prove(s, z3.BoolVal(False) if arg == 'memory' else wmode, 'parsing is skipped only for mode w')
                e.prove(s, wr, 'opened for writing')
            else:
                e.cover(s, 'opens for reading')
                if arg != 'memory':
                    e.prove(s, rmode, 'opened for reading only with mode r')
                e.prove(s, z3.Not(wr), 'a file opened for reading is not writable')
                e.prove(s, ok, 'only a file with a consistent header opens')
                e.prove(s, ULE(B(48), B(st.ghost['llen'])), 'only a file holding a whole header opens')
                (cf, off, ln), = s.ghost['xml'][-1:]
                h = fields(st.ghost['lc'], 0)
                e.prove(s, z3.BoolVal(cf.reg is s.ghost['cf']), 'the XML is read from this file')
                e.prove(s, B(off) == p2l(h['xmloff']), 'the XML section is where the header says')
                e.prove(s, B(ln) == h['xmllen'], 'the XML section is as long as the header says')
            p = s.ghost['how'][2 if True else 1]
            e.prove(s, bv(p, 32) == policy, 'the checksum policy is passed on')
        else:
            e.cover(s, 'fails')
            if s.ghost['opened']:
                e.prove(s, z3.BoolVal(s.ghost['gone'] >= 1 and fl.reg is None), 'a failed open leaves the file closed')
            if not s.ghost['fault'] and not s.ghost.get('past'):
                e.prove(s, z3.Not(ok) if arg == 'memory' else z3.Or(z3.Not(ok), z3.And(z3.Not(wmode), z3.Not(rmode))), 'a consistent file opens')


UNITS = [Unit('read header', header), Unit('write header', close), Unit('close twice', reclose), Unit('open file', opening, arg='file'), Unit('open memory', opening, arg='memory')]
ASSUMPTIONS = ['CheckedFile is used by contract (C01, C02, C03 units); its constructor opens the file at position 0',
               'writeXml of the tree only appends text at the current position (fewer than 2^40 bytes)',
               'Xerces-C++ parser construction and parsing either return or throw; nodes built while parsing do not touch the fields of the file object used here']

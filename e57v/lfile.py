"""Contracts of CheckedFile as its callers see it: a logical byte string with a position.

They are what the C01, C02 and C03 units discharge against the real CheckedFile code.
ghost state:  lc  logical content    llen  logical length    lpos  logical position    fault  a disk call failed
              ev  events in order: ('seek', pos) ('read', pos, n) ('write', pos, n, bytes, off) ('extend', len)
"""
import z3
from .sym import Ptr, NULL, Region, Outcome, Base, Copy, Func, isc, bv, zb, simp, ULT, ULE, ite
from .ir import I, PTR
from .models import RET, str_new, string_len
from .filemodel import B, l2p, p2l

LIM = 1 << 60


def init(eng, st, name='lfile', fd=None):
    st.ghost['lc'] = Base(name)
    st.ghost['llen'] = z3.BitVec(name + '.length', 64)
    st.ghost['lpos'] = z3.BitVec(name + '.pos', 64)
    st.ghost['plen'] = z3.BitVec(name + '.physical', 64)
    st.ghost['fault'] = False
    st.ghost['ev'] = ()
    st.assume(ULT(st.ghost['llen'], B(LIM)))
    st.assume(ULT(st.ghost['lpos'], B(LIM)))
    f = Region('checkedfile')
    st.mem[f] = {}
    return f


def grow(st, e):
    """the file now reaches logical position e"""
    ln, pl = B(st.ghost['llen']), B(st.ghost['plen'])
    need = z3.UDiv(B(e) + 1019, B(1020)) * 1024
    st.set('plen', simp(z3.If(ULT(pl, need), need, pl)))
    st.set('llen', simp(z3.If(ULT(ln, B(e)), B(e), ln)))


def ev(st, *e):
    if st.ghost['ev'] is None:
        return
    st.set('ev', st.ghost['ev'] + (e,))


def fail(eng, st, code):
    f = st.fork()
    f.set('fault', True)
    return eng.throw_e57(f, code)


def logical(off, mode):
    m = mode if isc(mode) else simp(mode)
    if isc(m):
        return B(off) if m == 0 else p2l(off)
    return z3.If(bv(m, 32) == 0, B(off), p2l(off))


def m_seek(eng, st, a, name):
    out = fail(eng, st, 21)
    pos = simp(logical(a[1], a[2]))
    st.set('lpos', pos)
    ev(st, 'seek', pos)
    return out + RET(st)


def m_position(eng, st, a, name):
    out = fail(eng, st, 21)
    p = B(st.ghost['lpos'])
    return out + RET(st, simp(p if a[1] == 0 else l2p(p)))


def m_length(eng, st, a, name):
    if a[1] == 0:
        return RET(st, simp(B(st.ghost['llen'])))
    return fail(eng, st, 21) + RET(st, simp(B(st.ghost['plen'])))


def m_read(eng, st, a, name):
    this, buf, n = a[0], a[1], a[2]
    pos, ln = B(st.ghost['lpos']), B(st.ghost['llen'])
    out = []
    fits = z3.And(ULE(pos, ln), ULE(B(n), ln - pos))
    eng.bounds(st, buf.reg, buf.off, n, 'checked read target')
    ok = st.fork()
    ok.assume(fits)
    ev(ok, 'read', pos, n)
    if eng.feasible(ok):
        eng.to_bytes(ok, buf.reg)
        lay = eng.to_bytes(ok, buf.reg)
        if ok.log is not None:
            ok.log.add(('mem', buf.reg, 'bytes', 0))
        ok.mem[buf.reg] = Copy(lay, buf.off, n, st.ghost['lc'], pos)
        ok.set('lpos', simp(pos + B(n)))
        out.append(Outcome(ok, 'ret', None))
    bad = st.fork()
    bad.assume(z3.Not(fits))
    ev(bad, 'readpast', pos, n)
    if eng.feasible(bad):
        bad.set('past', True)
        out += eng.throw_e57(bad, 11)
    # disk failure or bad checksum: some of the target bytes may have been delivered
    f = st.fork()
    f.set('fault', True)
    ev(f, 'read', pos, n)
    lay = eng.to_bytes(f, buf.reg)
    if f.log is not None:
        f.log.add(('mem', buf.reg, 'bytes', 0))
    f.mem[buf.reg] = Copy(lay, buf.off, n, Base('partial%d' % Region.count), 0)
    f.set('lpos', eng.fresh('lpos', 64))
    code = eng.fresh('readerror', 32)
    out += eng.throw_e57(f, code)
    return out


def m_write(eng, st, a, name):
    this, buf, n = a[0], a[1], a[2]
    pos, ln = B(st.ghost['lpos']), B(st.ghost['llen'])
    out = []
    eng.bounds(st, buf.reg, buf.off, n, 'checked write source')
    lay = eng.to_bytes(st, buf.reg)
    f = st.fork()
    f.set('fault', True)
    ev(f, 'write', pos, n, lay, buf.off)
    f.set('lc', Base('damaged%d' % Region.count))
    out += eng.throw_e57(f, eng.fresh('writeerror', 32))
    old = st.ghost['lc']
    grown = Func(lambda j: ite(simp(ULT(B(j), ln)), old.read(j), 0, 8))
    ev(st, 'write', pos, n, lay, buf.off)
    st.set('lc', Copy(grown, pos, n, lay, buf.off))
    e = simp(pos + B(n))
    grow(st, e)
    st.set('lpos', e)
    out.append(Outcome(st, 'ret', None))
    return out


def m_extend(eng, st, a, name):
    ln = B(st.ghost['llen'])
    want = simp(logical(a[1], a[2]))
    out = fail(eng, st, 20)
    bad = st.fork()
    bad.assume(ULT(B(want), ln))
    if eng.feasible(bad):
        bad.set('shrink', True)
        out += eng.throw_e57(bad, 11)
    ok = st.fork()
    ok.assume(ULE(ln, B(want)))
    if eng.feasible(ok):
        old = st.ghost['lc']
        ev(ok, 'extend', want)
        ok.set('lc', Func(lambda j: ite(simp(ULT(B(j), ln)), old.read(j), 0, 8)))
        grow(ok, want)
        ok.set('llen', want)
        ok.set('lpos', simp(B(want)))
        out.append(Outcome(ok, 'ret', None))
    return out


def m_stream(eng, st, a, name):
    """operator<<: appends an arbitrary number of bytes at the position"""
    out = fail(eng, st, 20)
    n = eng.fresh('textlen', 64)
    st.assume(ULT(n, B(1 << 40)))
    pos, ln = B(st.ghost['lpos']), B(st.ghost['llen'])
    old = st.ghost['lc']
    txt = Base('text%d' % Region.count)
    Region.count += 1
    st.set('lc', Copy(Func(lambda j: ite(simp(ULT(B(j), ln)), old.read(j), 0, 8)), pos, n, txt, 0))
    e = simp(pos + n)
    grow(st, e)
    st.set('lpos', e)
    ev(st, 'text', pos, n)
    out += RET(st, a[0])
    return out


def install(eng):
    eng.model(r'^e57::CheckedFile::seek\(', m_seek)
    eng.model(r'^e57::CheckedFile::position\(', m_position)
    eng.model(r'^e57::CheckedFile::length\(', m_length)
    eng.model(r'^e57::CheckedFile::read\(', m_read)
    eng.model(r'^e57::CheckedFile::write\(', m_write)
    eng.model(r'^e57::CheckedFile::extend\(', m_extend)
    eng.model(r'^e57::CheckedFile::logicalToPhysical\(', lambda e, s, a, n: RET(s, simp(l2p(B(a[0])))))
    eng.model(r'^e57::CheckedFile::physicalToLogical\(', lambda e, s, a, n: RET(s, simp(p2l(B(a[0])))))
    eng.model(r'^e57::CheckedFile::operator<<\((long|unsigned long|float|double)\)', m_stream)
    eng.model(r'::c_str\(\) const$', lambda e, s, a, n: RET(s, e.load(s, a[0], PTR)))
    eng.model(r'basic_string<char.*>::(length|size)\(\) const$', lambda e, s, a, n: RET(s, string_len(e, s, a[0])))
    names(eng)


def names(eng):
    """names only used in error messages"""
    eng.model(r'^e57::NodeImpl::(pathName|elementName|imageFileName|relativePathName)(\[abi:cxx11\])?\(', str_new)
    eng.model(r'^e57::(ImageFileImpl|CheckedFile)::fileName(\[abi:cxx11\])?\(', str_new)


def imagefile(eng, st, f, open_=True, writer=None, unused=None):
    """an ImageFileImpl object"""
    IM = 'e57::ImageFileImpl'
    r = Region('imagefile')
    c = st.mem[r] = {}
    W = lambda m, n, v: c.__setitem__(eng.off(IM, m), (n, v))
    W('file_', 8, Ptr(f, 0) if open_ else NULL)
    W('isWriter_', 1, writer if writer is not None else z3.If(z3.Bool('isWriter'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    W('unusedLogicalStart_', 8, unused if unused is not None else z3.BitVec('unusedLogicalStart', 64))
    W('writerCount_', 4, z3.BitVec('writerCount', 32))
    W('readerCount_', 4, z3.BitVec('readerCount', 32))
    W('xmlLogicalOffset_', 8, z3.BitVec('xmlLogicalOffset', 64))
    W('xmlLogicalLength_', 8, z3.BitVec('xmlLogicalLength', 64))
    eng.bool_bytes = True
    return r


def weak(eng, st, reg, off, target):
    """a live weak/shared pointer to target stored at reg+off"""
    st.mem[reg][off] = (8, Ptr(target, 0))
    st.mem[reg][off + 8] = (8, Ptr(Region('ctl'), 0))


def vobject(eng, st, name, handlers, cells=None):
    """an object whose virtual functions are used by contract: handlers[slot](eng, st, args) -> outcomes"""
    r = Region(name)
    vt = Region(name + '.vtable')

    def hook(e, s, reg, off):
        h = handlers(off // 8)
        f = Region('%s.v%d' % (name, off // 8), size=0)
        f.meta['vslot'] = h
        return Ptr(f, 0)
    vt.ptrhook = hook
    st.mem[vt] = {}
    st.mem[r] = dict(cells or {})
    st.mem[r][0] = (8, Ptr(vt, 0))
    return r

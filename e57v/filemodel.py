"""Ghost model of the operating-system file behind CheckedFile and of the CRC routine.

ghost state:  fc   file content (byte map)      flen  file length       fpos  file offset
              fault   true once a disk call failed or was cut short
Contracts are the POSIX ones; every call may fail, every read/write may be short.
"""
import z3
from .sym import (Ptr, NULL, Region, Outcome, Base, Layer, Copy, Func, isc, bv, zb, simp, ULT, ULE, ite, Store)
from .ir import I
from .models import RET

B = lambda v: bv(v, 64)


def l2p(x):
    x = B(x)
    return z3.UDiv(x, B(1020)) * 1024 + z3.URem(x, B(1020))


def p2l(x):
    x = B(x)
    r = x & 1023
    return z3.LShR(x, 10) * 1020 + z3.If(ULE(r, 1020), r, B(1020))


def swap32(c):
    return z3.Concat(z3.Extract(7, 0, c), z3.Extract(15, 8, c), z3.Extract(23, 16, c), z3.Extract(31, 24, c))


CRCF = z3.Function('crc_of_file_page', z3.BitVecSort(64), z3.BitVecSort(32))


OKP = z3.Function('page_checksum_ok', z3.BitVecSort(64), z3.BitVecSort(1))


def stored(fc, q):
    return z3.Concat(*[bv(fc.read(q + k), 8) for k in (1023, 1022, 1021, 1020)])


def init(eng, st, name='file'):
    st.ghost['fc'] = Base(name)
    st.ghost['flen'] = z3.BitVec(name + '.length', 64)
    st.ghost['fpos'] = z3.BitVec(name + '.pos', 64)
    st.ghost['fault'] = False
    st.ghost['lastread'] = z3.BitVecVal((1 << 63), 64)
    st.assume(ULT(st.ghost['flen'], B(1 << 60)))
    st.assume(ULT(st.ghost['fpos'], B(1 << 61)))
    eng.div_like = True


def m_lseek(eng, st, a, name):
    fd, off, wh = a
    out = []
    f = st.fork()
    f.set('fault', True)
    out.append(Outcome(f, 'ret', (1 << 64) - 1))
    if not isc(wh):
        raise Exception('whence')
    base = {0: B(0), 1: B(st.ghost['fpos']), 2: B(st.ghost['flen'])}[wh]
    pos = simp(base + B(off))
    neg = st.fork()
    neg.assume(B(pos) < 0)
    if eng.feasible(neg):
        neg.set('fault', True)
        neg.set('badseek', True)
        out.append(Outcome(neg, 'ret', (1 << 64) - 1))
    ok = st.fork()
    ok.assume(B(pos) >= 0)
    if eng.feasible(ok):
        if not (wh == 1 and isc(off) and off == 0):
            ok.set('fpos', pos)
        h = eng.seek_hook
        if h:
            h(eng, ok, pos, wh)
        out.append(Outcome(ok, 'ret', pos))
    return out


def m_read(eng, st, a, name):
    fd, buf, n = a
    out = []
    f = st.fork()
    f.set('fault', True)
    out.append(Outcome(f, 'ret', (1 << 64) - 1))
    pos, ln, fc = B(st.ghost['fpos']), B(st.ghost['flen']), st.ghost['fc']
    avail = z3.If(ULT(pos, ln), ln - pos, B(0))
    # complete read
    ok = st.fork()
    ok.assume(ULE(B(n), avail))
    if eng.feasible(ok):
        filecopy(eng, ok, buf, n, pos)
        ok.set('fpos', simp(pos + B(n)))
        ok.set('lastread', pos)
        out.append(Outcome(ok, 'ret', n))
    # short read
    sh = st.fork()
    r = eng.fresh('shortread', 64)
    sh.assume(ULT(r, B(n)))
    sh.assume(ULE(r, avail))
    filecopy(eng, sh, buf, r, pos)
    sh.set('fpos', simp(pos + r))
    sh.set('fault', True)
    out.append(Outcome(sh, 'ret', r))
    return out


def filecopy(eng, st, buf, n, pos):
    eng.bounds(st, buf.reg, buf.off, n, 'read(2) target')
    lay = eng.to_bytes(st, buf.reg)
    if st.log is not None:
        st.log.add(('mem', buf.reg, 'bytes', 0))
    st.mem[buf.reg] = Copy(lay, buf.off, n, st.ghost['fc'], pos)


def m_write(eng, st, a, name):
    fd, buf, n = a
    out = []
    f = st.fork()
    f.set('fault', True)
    f.set('wfault', True)
    out.append(Outcome(f, 'ret', (1 << 64) - 1))
    if eng.write_hook:
        eng.write_hook(eng, st, buf, n)
    pos, ln = B(st.ghost['fpos']), B(st.ghost['flen'])
    lay = eng.to_bytes(st, buf.reg)
    eng.bounds(st, buf.reg, buf.off, n, 'write(2) source')
    ok = st.fork()
    ok.set('fc', Copy(holes(st), pos, n, lay, buf.off))
    e = simp(pos + B(n))
    ok.set('flen', simp(z3.If(ULT(ln, B(e)), B(e), ln)))
    ok.set('fpos', e)
    out.append(Outcome(ok, 'ret', n))
    sh = st.fork()
    r = eng.fresh('shortwrite', 64)
    sh.assume(ULT(r, B(n)))
    sh.set('fc', Copy(holes(st), pos, r, lay, buf.off))
    e = simp(pos + r)
    sh.set('flen', simp(z3.If(ULT(ln, B(e)), B(e), ln)))
    sh.set('fpos', e)
    sh.set('fault', True)
    sh.set('wfault', True)
    out.append(Outcome(sh, 'ret', r))
    return out


def holes(st):
    """bytes past the old end read as zero once the file grows"""
    fc, ln = st.ghost['fc'], B(st.ghost['flen'])
    return Func(lambda j: ite(simp(ULT(B(j), ln)), fc.read(j), 0, 8))


def m_crc(eng, st, a, name):
    """CRC::Calculate(data, size, table): a function of the size bytes at data.
    When those bytes are provably the file bytes at the last read position, the result is named by that position."""
    buf, size = a[0], a[1]
    lay = eng.to_bytes(st, buf.reg)
    eng.bounds(st, buf.reg, buf.off, size, 'checksummed bytes')
    c = eng.fresh('crc', 32)
    q = B(st.ghost['lastread'])
    J = z3.BitVec('Jcrc', 64)
    fc = st.ghost['fc']
    r, _, _ = eng.entails(st.pc, z3.Implies(ULT(J, B(size)), bv(lay.read(B(buf.off) + J), 8) == bv(fc.read(q + J), 8)), (3000,))
    if r == 'proved' and isc(size) and size == 1020 and st.ghost.get('fcver') is None:
        c = CRCF(q)
        # definition of page_checksum_ok at q, in the initial file
        st.assume((OKP(q) == 1) == (stored(fc, q) == swap32(c)))
    st.ghost['crcs'] = (st.ghost.get('crcs') or ()) + ((lay, buf.off, size, c),)
    return RET(st, c)


def install(eng):
    eng.seek_hook = None
    eng.write_hook = None
    eng.model(r'^lseek64$', m_lseek)
    eng.model(r'^read$', m_read)
    eng.model(r'^write$', m_write)
    eng.model(r'CRC::Calculate<', m_crc)
    eng.model(r'^open$', lambda e, s, a, n: RET(s, e.fresh('fd', 32)))
    eng.model(r'^close$', lambda e, s, a, n: RET(s, e.fresh('closeresult', 32)))
    eng.model(r'^__errno_location$', lambda e, s, a, n: RET(s, Ptr(Region('errno'), 0)))
    eng.model(r'^strerror$', lambda e, s, a, n: RET(s, Ptr(Region('strerror', kind='bytes'), 0)))

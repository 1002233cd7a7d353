"""Shared specification pieces for the checked file: its object invariant, templates for invariants, samples."""
import random
import z3
from .sym import Ptr, NULL, Region, State, ULT, ULE, bv, zb, simp, Outcome, Layer, Copy, isc
from .ir import I, Unsupported
from . import filemodel as F
from .filemodel import B, l2p, p2l, swap32
from .models import RET

CF = 'e57::CheckedFile'
V = lambda x, w=64: z3.BitVecVal(x, w)


def setup(eng, ro, policy=100, view=False):
    """a CheckedFile object satisfying its invariant -> (state, this region, logical length)"""
    F.install(eng)
    st = State()
    F.init(eng, st)
    this = Region('this')
    cells = st.mem.setdefault(this, {})

    def W(m, n, v):
        cells[eng.off(CF, m)] = (n, v)
    ll = z3.BitVec('logicalLength', 64)
    W('logicalLength_', 8, ll)
    W('physicalLength_', 8, st.ghost['flen'] if ro else 0)
    W('readOnly_', 1, 1 if ro else 0)
    W('checkSumPolicy_', 4, policy)
    if view:
        W('fd_', 4, (1 << 32) - 1)
        bvr = Region('bufferview')
        stream = eng.new_bytes(st, 'stream', st.ghost['flen'])
        st.ghost['fc'] = st.mem[stream]
        BV = 'e57::BufferView'
        st.mem[bvr] = {eng.off(BV, 'streamSize_'): (8, st.ghost['flen']), eng.off(BV, 'cursorStream_'): (8, st.ghost['fpos']),
                       eng.off(BV, 'stream_'): (8, Ptr(stream, 0))}
        W('bufView_', 8, Ptr(bvr, 0))
        st.assume(ULE(st.ghost['fpos'], st.ghost['flen']))
        eng.view_cursor = (bvr, eng.off(BV, 'cursorStream_'))
    else:
        fd = z3.BitVec('fd', 32)
        st.assume(fd >= 0)
        W('fd_', 4, fd)
        W('bufView_', 8, NULL)
    st.assume(st.ghost['flen'] & 1023 == 0)
    cap = z3.LShR(st.ghost['flen'], 10) * 1020
    st.assume(ll == cap if ro else ULE(ll, cap))
    return st, this, ll


def good(fc, q):
    """page at physical offset q carries the checksum of its payload (named predicate, defined where a checksum is computed)"""
    return F.OKP(q) == 1


def keys64(L):
    return [k for k in L.keys if k[-1] == 64]


def page_templates(eng, L, ev):
    """relations between 64-bit loop variables typical of page-wise transfer"""
    ks = keys64(L)
    for a in ks:
        for b in ks:
            if b is not a:
                yield '!%s==0 or %s unchanged' % (a, b), lambda v, a=a, b=b: z3.Or(v.num(a) == 0, v.num(b) == ev.num(b))
        yield '%s<2^61' % (a,), lambda v, a=a: ULT(v.num(a), B(1 << 61))
        yield '%s<2^53' % (a,), lambda v, a=a: ULT(v.num(a), B(1 << 53))
        for c in (1020, 1024):
            yield '%s<=%d' % (a, c), lambda v, a=a, c=c: ULE(v.num(a), B(c))
        for b in ks:
            if a is b or repr(a) > repr(b):
                continue
            for c in (1020, 1024):
                yield '%s+%s<=%d' % (a, b, c), lambda v, a=a, b=b, c=c: z3.And(ULE(v.num(b), B(c)), ULE(v.num(a), B(c) - v.num(b)))
                for d in ks:
                    if d in (a, b):
                        continue
                    yield '%s+%s==%d or %s==%s' % (a, b, c, d, a), lambda v, a=a, b=b, c=c, d=d: z3.Or(v.num(a) + v.num(b) == B(c), v.num(d) == v.num(a))
                    yield '%s+%s==%d or %s==%s' % (a, b, c, d, b), lambda v, a=a, b=b, c=c, d=d: z3.Or(v.num(a) + v.num(b) == B(c), v.num(d) == v.num(b))


def progress(eng, L, ev, total):
    """(key, sign) whose movement since entry plausibly counts the bytes done"""
    out = []
    from .loops import guard
    for k in keys64(L):
        for s in (1, -1):
            ok = True
            moved = False
            for v, subs, e0 in L.rows:
                a, b = v.num(k), e0.num(k)
                if a is None or b is None:
                    ok = False
                    break
                d = simp((a - b) * s)
                n = simp(z3.substitute(B(total), *subs))
                if not isc(d) or not isc(n) or d > n:
                    ok = False
                    break
                g = guard(eng, L, v)
                if g is not None and simp(z3.substitute(zb(g), *subs)) is False and d != n:
                    ok = False
                    break
                moved |= d != 0
            if ok and (moved or not L.rows):
                out.append((k, s))
    return out


def samples(eng, n, ll, ro=True, count=400, extra=None, seed=1):
    rnd = random.Random(seed)
    for _ in range(count):
        pg = rnd.choice([rnd.randrange(1, 12), rnd.randrange(1, 5000)])
        pos = rnd.randrange(0, pg * 1024)
        if rnd.random() < .3:
            pos = (pos | 1023) - rnd.randrange(0, 4)
        lp = (pos >> 10) * 1020 + min(pos & 1023, 1020)
        lim = pg * 1020
        nn = rnd.randrange(0, lim - lp + 1)
        if rnd.random() < .3:
            nn = min(nn, rnd.randrange(0, 1020))
        if rnd.random() < .6:
            nn = min(nn, rnd.randrange(0, 4000))
        lo = lim if ro else rnd.choice([lim, rnd.randrange(0, lim + 1)])
        if not ro:
            nn = rnd.choice([nn, nn + rnd.randrange(0, 5000)])
        s = [(z3.BitVec('file.length', 64), V(pg * 1024)), (z3.BitVec('file.pos', 64), V(pos)), (ll, V(lo)), (n, V(nn)), (z3.BitVec('fd', 32), V(3, 32))]
        if extra is not None:
            s += extra(rnd, nn, lp)
        eng.samples.append(s)


def bufview_contract(eng):
    """BufferView::read, proved by its own unit; used here by contract"""
    def m(eng, st, a, name):
        this, buf, n = a
        d = eng.mod.di
        BV = 'e57::BufferView'
        ld = lambda f, ty: eng.load(st, Ptr(this.reg, eng.off(BV, f)), ty)
        size, cur, stream = ld('streamSize_', I(64)), ld('cursorStream_', I(64)), ld('stream_', ('ptr',))
        out = []
        ok = st.fork()
        ok.assume(ULE(B(cur), B(size)))
        ok.assume(ULE(B(n), B(size) - B(cur)))
        if eng.feasible(ok):
            eng.bounds(ok, buf.reg, buf.off, n, 'in-memory read target')
            lay = eng.to_bytes(ok, buf.reg)
            if ok.log is not None:
                ok.log.add(('mem', buf.reg, 'bytes', 0))
            src = eng.to_bytes(ok, stream.reg)
            ok.mem[buf.reg] = Copy(lay, buf.off, n, src, simp(B(stream.off) + B(cur)))
            eng.write_cell(ok, this.reg, eng.off(BV, 'cursorStream_'), 8, simp(B(cur) + B(n)))
            ok.set('lastread', B(cur))
            out.append(Outcome(ok, 'ret', None))
        bad = st.fork()
        bad.assume(z3.Not(z3.And(ULE(B(cur), B(size)), ULE(B(n), B(size) - B(cur)))))
        if eng.feasible(bad):
            bad.set('fault', True)
            out += eng.throw_e57(bad, 21)
        return out
    eng.model(r'BufferView::read\(char\*, unsigned long\)', m)

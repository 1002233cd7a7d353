"""std::string up to equality: the object's first word names its contents. Literals have a fixed name each, concatenation and decimal conversion are uninterpreted functions of
the names (so equal arguments give equal strings; that different texts have different names is never assumed)."""
import hashlib
import re
import z3
from .sym import Ptr, Region, Unsupported, bv, isc, simp
from .ir import I, PTR
from .models import RET
from .filemodel import B

S = r'basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
CAT = z3.Function('cat', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
DEC = z3.Function('decimal', z3.BitVecSort(64), z3.BitVecSort(64))


def lit(text):
    return B(int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'little'))


def get(eng, st, p):
    m = st.mem.get(p.reg)
    if isinstance(m, dict) and isc(p.off) and p.off not in m and 'record' not in p.reg.meta:
        eng.write_cell(st, p.reg, p.off, 8, eng.fresh('text', 64))
    return B(eng.load(st, p, I(64)))


def put(eng, st, p, v):
    eng.write_cell(st, p.reg, p.off, 8, simp(B(v)))


def chars(eng, st, p):
    t = ''
    for k in range(4096):
        b = simp(eng.load(st, Ptr(p.reg, eng._addoff(p.off, k, 64, 1)), I(8)))
        if not isc(b):
            raise Unsupported('text that is not a literal')
        b = b if isinstance(b, int) else b.as_long()
        if b == 0:
            return t
        t += chr(b)
    raise Unsupported('long literal')


def params(dem):
    """top-level parameters of a demangled signature"""
    depth, start, out, i = 0, None, [], len(dem) - 1
    # the last parenthesis group
    while dem[i] != ')':
        i -= 1
    j, d = i, 0
    while True:
        d += (dem[j] == ')') - (dem[j] == '(')
        if d == 0:
            break
        j -= 1
    cur = ''
    for ch in dem[j + 1:i]:
        depth += (ch in '<(') - (ch in '>)')
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def value(eng, st, a, ty):
    if ty.startswith('char const*'):
        return lit(chars(eng, st, a))
    if ty == 'char':
        return lit(chr(a)) if isc(a) else CAT(B(0), z3.ZeroExt(56, bv(a, 8)))
    return get(eng, st, a)


def streams(e):
    """string streams: each keeps the text written so far; numbers come out in plain decimal only once the stream has been given the classic locale"""
    vt = {}

    def made(eng, st, a, name):
        kind = re.search(r'basic_(o|i)?stringstream<', eng.mod.dem.get(name, name)).group(1)
        key = {None: 128, 'o': 112, 'i': 120}[kind]
        if key not in vt:
            vt[key] = Region('stream.vtable')
            vt[key].ptrhook = None
        st.mem.setdefault(vt[key], {0: (8, key)})
        eng.write_cell(st, a[0].reg, a[0].off, 8, Ptr(vt[key], 24))
        st.set('locale of %d' % a[0].reg.id, False)
        return RET(st)

    def imbue(eng, st, a, name):
        loc = a[2] if len(a) > 2 else a[1]
        here = a[1] if len(a) > 2 else a[0]
        st.set('locale of %d' % here.reg.id, bool(loc.reg.meta.get('classic')))
        return RET(st)

    def classic(eng, st, a, name):
        r = Region('classic locale')
        r.meta['classic'] = True
        st.mem[r] = {}
        return RET(st, Ptr(r, 0))

    def write(st, p, text, plain):
        k = 'text of %d' % p.reg.id
        if not plain and not st.ghost.get('locale of %d' % p.reg.id):
            text = e.fresh('grouped', 64)
        st.set(k, CAT(st.ghost[k], text) if k in st.ghost else text)
    e.write_stream = write
    A = e.model
    A(r'std::(__cxx11::)?basic_(o|i)?stringstream<.*>::basic_\w+\(', made)
    A(r'^std::(basic_ios<.*>|ios_base)::imbue', imbue)
    A(r'^std::locale::classic\(\)', classic)
    A(r'^std::locale::~locale\(\)', lambda eng, st, a, name: RET(st))


def install(e):
    def ty(eng, name):
        return params(eng.mod.dem.get(name, name))

    def equal(eng, st, a, name):
        t = ty(eng, name)
        return RET(st, value(eng, st, a[0], t[0]) == value(eng, st, a[1], t[1]))

    def differ(eng, st, a, name):
        t = ty(eng, name)
        return RET(st, value(eng, st, a[0], t[0]) != value(eng, st, a[1], t[1]))

    def plus(eng, st, a, name):
        t = ty(eng, name)
        put(eng, st, a[0], CAT(value(eng, st, a[1], t[0]), value(eng, st, a[2], t[1])))
        return RET(st, a[0])

    def append(eng, st, a, name):
        t = ty(eng, name)
        put(eng, st, a[0], CAT(get(eng, st, a[0]), value(eng, st, a[1], t[0])))
        return RET(st, a[0])

    def copy(eng, st, a, name):
        put(eng, st, a[0], value(eng, st, a[1], ty(eng, name)[0]))
        return RET(st, a[0])

    def new(eng, st, a, name):
        put(eng, st, a[0], lit(''))
        return RET(st)

    def dec(eng, st, a, name):
        v = a[1]
        w = 64 if isc(v) else v.size()
        put(eng, st, a[0], DEC(B(v) if w == 64 else z3.ZeroExt(64 - w, v)))
        return RET(st)

    def stream(eng, st, a, name):
        v = a[1]
        w = 64 if isc(v) else v.size()
        v = B(v) if w == 64 else z3.ZeroExt(64 - w, v)
        eng.write_stream(st, a[0], DEC(v), plain=False)
        return RET(st, a[0])

    def words(eng, st, a, name):
        eng.write_stream(st, a[0], value(eng, st, a[1], ty(eng, name)[1]), plain=True)
        return RET(st, a[0])

    def text(eng, st, a, name):
        put(eng, st, a[0], st.ghost.get('text of %d' % a[1].reg.id, lit('')))
        return RET(st)
    A = e.model
    def count(eng, st, a, name):
        b, q = [eng.load(st, Ptr(a[0].reg, eng._addoff(a[0].off, k, 64, 1)), PTR) for k in (0, 8)]
        return RET(st, simp(z3.UDiv(B(q.off) - B(b.off), B(32))))
    A(r'^std::vector<std::__cxx11::' + S + r', .*>::size\(\) const', count)
    A(r'^bool std::operator==<char', equal)
    A(r'^bool std::operator!=<char', differ)
    A(r' std::operator\+<char', plus)
    A(S + r'::(operator\+=|append|push_back)\((std::__cxx11::' + S + r' const&|char const\*|char)\)', append)
    A(S + r'::operator=\((std::__cxx11::' + S + r' ?(const)?&&?|char const\*)\)', copy)
    A(S + r'::basic_string\(std::__cxx11::' + S + r' ?(const)?&&?\)', copy)
    A(S + r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', copy)
    A(S + r'::basic_string\(\)', new)
    A(S + r'::empty\(\) const', lambda eng, st, a, name: RET(st, get(eng, st, a[0]) == lit('')))
    A(r'> e57::toString<|e57::toString\(', dec)
    A(r'^std::(__cxx11::)?to_string\(', dec)
    A(r'std::(basic_)?ostream(<.*>)?::operator<<\((unsigned )?(int|long)\)', stream)
    A(r'basic_(o|i)?stringstream<.*>::str\(\) const', text)
    streams(e)

"""std::string as a list of pieces: literal text, a range (start, length) of a byte sequence, or a symbol (a value written as text). The object's words hold the region that carries
the pieces (or the sequence itself for a single range), the start and the length, so that a loop can shorten a range. Every operation has the standard library's meaning on that
representation; one that the representation cannot express is out of reach (Unsupported), never guessed."""
import z3
from .sym import Ptr, Region, Unsupported, UNDEF, bv, isc, simp, ULE, ULT, Base
from .ir import I, PTR
from .models import RET, throw_std
from .filemodel import B
from .idstr import params, chars

S = r'basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
STR = r'std::__cxx11::' + S
NPOS = (1 << 64) - 1
LEN = {}


def word(eng, p, k):
    return Ptr(p.reg, eng._addoff(p.off, 8 * k, 64, 1))


def size(pc):
    if pc[0] == 'lit':
        return B(len(pc[1].encode()))
    if pc[0] == 'range':
        return pc[3]
    return LEN.setdefault(str(pc), z3.BitVec('length of %s' % (pc,), 64))


def norm(ps):
    out = []
    for p in ps:
        if p[0] == 'lit':
            if not p[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
                continue
        if p[0] == 'range':
            n = simp(p[3])
            if isc(n) and n == 0:
                continue
        out.append(p)
    return tuple(out)


def put(eng, st, p, ps):
    ps = norm(ps)
    if len(ps) == 1 and ps[0][0] == 'range':
        r, s, n = ps[0][1:]
    else:
        r, s = Region('text'), 0
        r.meta['pieces'] = ps
        st.mem[r] = {}
        n = B(0)
        for x in ps:
            n = n + size(x)
    eng.write_cell(st, p.reg, word(eng, p, 0).off, 8, Ptr(r, 0))
    eng.write_cell(st, p.reg, word(eng, p, 1).off, 8, simp(B(s)))
    eng.write_cell(st, p.reg, word(eng, p, 2).off, 8, simp(B(n)))


def get(eng, st, p):
    m = st.mem.get(p.reg)
    if isinstance(m, dict) and p.off not in m:
        put(eng, st, p, [('sym', '%s+%s' % (p.reg.name, p.off))])
    q = eng.load(st, p, PTR)
    if not isinstance(q, Ptr) or q.reg is None:
        raise Unsupported('string of unknown contents')
    if 'pieces' in q.reg.meta:
        return q.reg.meta['pieces']
    return norm([('range', q.reg, B(eng.load(st, word(eng, p, 1), I(64))), B(eng.load(st, word(eng, p, 2), I(64))))])


def total(ps):
    n = B(0)
    for x in ps:
        n = n + size(x)
    return simp(n)


def of_ptr(eng, st, p):
    """text a char const* points to"""
    if p.reg.meta.get('pieces') is not None:
        return p.reg.meta['pieces']
    return (('lit', chars(eng, st, p)),)


def value(eng, st, a, ty):
    if ty.startswith('char const*'):
        return of_ptr(eng, st, a)
    if ty == 'char':
        c = simp(a)
        if not isc(c):
            raise Unsupported('one character')
        return (('lit', chr(c & 255)),)
    return get(eng, st, a)


def byte(eng, st, r, at):
    return bv(eng.to_bytes(st, r).read(simp(at)), 8)


def same(eng, st, x, y):
    """are two texts equal: a formula"""
    if norm(x) == norm(y):
        return z3.BoolVal(True)
    for a, b in ((x, y), (y, x)):
        if all(p[0] == 'lit' for p in b):
            t = ''.join(p[1] for p in b)
            if all(p[0] == 'lit' for p in a):
                return z3.BoolVal(''.join(p[1] for p in a) == t)
            if len(a) == 1 and a[0][0] == 'range':
                _, r, s, n = a[0]
                return z3.And(n == len(t), *[byte(eng, st, r, s + k) == ord(c) for k, c in enumerate(t)])
            if len(a) == 1:
                if not t:
                    return size(a[0]) == 0
                return z3.Bool('%s is "%s"' % (a[0], t))
    return eng.fresh('same text', 1)


def one(ps):
    if len(ps) == 1 and ps[0][0] == 'range':
        return ps[0]
    raise Unsupported('position in a composed text')


def install(e, where=lambda st: ()):
    """where(st): positions (in the sequence) at which "not found" is needed"""
    def ty(eng, name):
        return params(eng.mod.dem.get(name, name))

    def equal(neg):
        def f(eng, st, a, name):
            t = ty(eng, name)
            x = same(eng, st, value(eng, st, a[0], t[0]), value(eng, st, a[1], t[1]))
            return RET(st, simp(z3.Not(x) if neg else x))
        return f

    def plus(eng, st, a, name):
        t = ty(eng, name)
        put(eng, st, a[0], value(eng, st, a[1], t[0]) + value(eng, st, a[2], t[1]))
        return RET(st, a[0])

    def append(eng, st, a, name):
        t = ty(eng, name)
        put(eng, st, a[0], get(eng, st, a[0]) + value(eng, st, a[1], t[0]))
        return RET(st, a[0])

    def copy(eng, st, a, name):
        put(eng, st, a[0], value(eng, st, a[1], ty(eng, name)[0]))
        return RET(st, a[0])

    def new(eng, st, a, name):
        put(eng, st, a[0], ())
        return RET(st, a[0])

    def length(eng, st, a, name):
        return RET(st, total(get(eng, st, a[0])))

    def empty(eng, st, a, name):
        return RET(st, simp(total(get(eng, st, a[0])) == 0))

    def data(eng, st, a, name):
        ps = get(eng, st, a[0])
        if len(ps) == 1 and ps[0][0] == 'range':
            return RET(st, Ptr(ps[0][1], ps[0][2]))
        r = Region('characters')
        r.meta['pieces'] = ps
        st.mem[r] = {}
        return RET(st, Ptr(r, 0))

    def spot(eng, st, ps, k):
        if ps and all(p[0] == 'lit' for p in ps):
            t = ''.join(p[1] for p in ps).encode()
            k = simp(k)
            if isc(k) and 0 <= k <= len(t):
                r = Region('character')
                st.mem[r] = {0: (1, (t + b'\0')[k])}
                return Ptr(r, 0)
        _, r, s, n = one(ps)
        return Ptr(r, simp(s + B(k)))

    def at(eng, st, a, name):
        ps = get(eng, st, a[0])
        eng.prove(st, ULE(B(a[1]), total(ps)), 'string index within the string')
        return RET(st, spot(eng, st, ps, a[1]))

    def back(eng, st, a, name):
        ps = get(eng, st, a[0])
        n = total(ps)
        eng.prove(st, n != 0, 'the string whose last character is looked at is not empty')
        return RET(st, spot(eng, st, ps, simp(n - 1)))

    def pop(eng, st, a, name):
        _, r, s, n = one(get(eng, st, a[0]))
        eng.prove(st, n != 0, 'the string whose last character is dropped is not empty')
        eng.write_cell(st, a[0].reg, word(eng, a[0], 2).off, 8, simp(n - 1))
        return RET(st)

    def substr(eng, st, a, name):
        _, r, s, n = one(get(eng, st, a[1]))
        p, m = B(a[2]), B(a[3])
        out = []
        bad = st.fork()
        if eng.feasible(bad, z3.Not(ULE(p, n))):
            bad.assume(z3.Not(ULE(p, n)))
            out = throw_std('St12out_of_range')(eng, bad, a, name)
        st.assume(ULE(p, n))
        put(eng, st, a[0], [('range', r, simp(s + p), simp(z3.If(ULE(m, n - p), m, n - p)))])
        return out + RET(st, a[0])

    def erase(eng, st, a, name):
        _, r, s, n = one(get(eng, st, a[0]))
        p, m = B(a[1]), B(a[2]) if len(a) > 2 else B(NPOS)
        rest = z3.Or(m == NPOS, UGE_(m, n - p))
        soft, eng.soft = eng.soft, True
        eng.prove(st, z3.And(ULE(p, n), rest), 'the end of the string is cut off')
        eng.soft = soft
        eng.write_cell(st, a[0].reg, word(eng, a[0], 2).off, 8, simp(p))
        return RET(st, a[0])

    def resize(eng, st, a, name):
        _, r, s, n = one(get(eng, st, a[0]))
        soft, eng.soft = eng.soft, True
        eng.prove(st, ULE(B(a[1]), n), 'the string is made shorter')
        eng.soft = soft
        eng.write_cell(st, a[0].reg, word(eng, a[0], 2).off, 8, simp(B(a[1])))
        return RET(st)

    def needle(eng, st, a, name):
        t = ty(eng, name)[0]
        v = value(eng, st, a[1], t)
        if not all(p[0] == 'lit' for p in v):
            raise Unsupported('searching for a text that is not a literal')
        return ''.join(p[1] for p in v)

    def search(match, width, back):
        """first (last if back) position from a[2] on (up to a[2]) where match holds"""
        def f(eng, st, a, name):
            w = needle(eng, st, a, name)
            ps = get(eng, st, a[0])
            _, r, s, n = one(ps)
            k = width(w)
            p = B(a[2])
            hit = lambda j: match(eng, st, r, s + j, w)
            room = lambda j: z3.And(ULE(B(k), n), ULE(j, n - B(k)))
            lo = (lambda j: ULE(j, p)) if back else (lambda j: ULE(p, j))
            no = st.fork()
            f = eng.fresh('found', 64)
            st.assume(z3.And(lo(f), room(f), hit(f)))
            for q in where(st):
                j = simp(q - s)
                no.assume(z3.Implies(z3.And(lo(j), room(j)), z3.Not(hit(j))))
                st.assume(z3.Implies(z3.And(lo(j), room(j), ULT(f, j) if back else ULT(j, f)), z3.Not(hit(j))))
            return RET(st, f) + RET(no, B(NPOS))
        return f
    text = lambda eng, st, r, at, w: z3.And(*[byte(eng, st, r, at + k) == ord(c) for k, c in enumerate(w)])
    anyof = lambda eng, st, r, at, w: z3.Or(*[byte(eng, st, r, at) == ord(c) for c in w])
    noneof = lambda eng, st, r, at, w: z3.And(*[byte(eng, st, r, at) != ord(c) for c in w])
    A = e.model
    ARG = r'\((' + STR + r' const&|char const\*|char), unsigned long\) const'
    A(S + r'::find' + ARG, search(text, len, False))
    A(S + r'::rfind' + ARG, search(text, len, True))
    A(S + r'::find_first_of' + ARG, search(anyof, lambda w: 1, False))
    A(S + r'::find_last_of' + ARG, search(anyof, lambda w: 1, True))
    A(S + r'::find_first_not_of' + ARG, search(noneof, lambda w: 1, False))
    A(S + r'::find_last_not_of' + ARG, search(noneof, lambda w: 1, True))
    A(r'^bool std::operator==<char', equal(False))
    A(r'^bool std::operator!=<char', equal(True))
    A(r' std::operator\+<char', plus)
    A(S + r'::(operator\+=|append|push_back)\((' + STR + r' const&|char const\*|char)\)', append)
    A(S + r'::operator=\((' + STR + r' ?(const)?&&?|char const\*)\)', copy)
    A(S + r'::assign\((' + STR + r' ?(const)?&&?|char const\*)\)', copy)
    A(S + r'::basic_string\(' + STR + r' ?(const)?&&?\)', copy)
    A(S + r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', copy)
    A(S + r'::basic_string\(\)', new)
    A(S + r'::clear\(\)', new)
    A(S + r'::(length|size)\(\) const', length)
    A(S + r'::empty\(\) const', empty)
    A(S + r'::(data|c_str)\(\)', data)
    A(S + r'::(operator\[\]|at)\(unsigned long\)', at)
    A(S + r'::back\(\)', back)
    A(S + r'::front\(\)', lambda eng, st, a, name: RET(st, spot(eng, st, get(eng, st, a[0]), 0)))
    A(S + r'::pop_back\(\)', pop)
    A(S + r'::substr\(unsigned long, unsigned long\) const', substr)
    A(S + r'::erase\(unsigned long, unsigned long\)', erase)
    A(S + r'::resize\(unsigned long\)', resize)


def UGE_(a, b):
    return ULE(b, a)

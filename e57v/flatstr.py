"""std::string as a contiguous piece of one flat byte sequence: (start, length) kept in the object's first two words. Used where a function moves pieces of a byte stream through
strings; every operation below has the standard library's meaning on that representation, and an append of bytes that do not follow is an obligation (soft: the representation
cannot express it)."""
import z3
from .sym import Ptr, Unsupported, Func, bv, isc, ite, simp, ULE, ULT
from .ir import I
from .models import RET, throw_std
from .filemodel import B

S = r'basic_string<char, std::char_traits<char>, std::allocator<char> ?>'


def get(eng, st, p):
    f = lambda o: B(eng.load(st, Ptr(p.reg, eng._addoff(p.off, o, 64, 1)), I(64)))
    return f(0), f(8)


def put(eng, st, p, start, n):
    eng.write_cell(st, p.reg, p.off, 8, simp(B(start)))
    eng.write_cell(st, p.reg, eng._addoff(p.off, 8, 64, 1), 8, simp(B(n)))


def install(e, chars, where):
    """chars: region whose offset p is byte p of the flat sequence; where(ptr) -> its position there (None if it points elsewhere)"""
    def pos(p):
        r = where(p)
        if r is None:
            raise Unsupported('string made from bytes outside the stream')
        return B(r)

    def literal(eng, st, p):
        if isinstance(p, Ptr) and p.reg is not None and p.reg.name.startswith('@'):
            b = simp(eng.load(st, p, I(8)))
            if isc(b) and b == 0:
                return
        raise Unsupported('string literal')

    def length(eng, st, a, name):
        return RET(st, get(eng, st, a[0])[1])

    def at(eng, st, a, name):
        s, n = get(eng, st, a[0])
        eng.prove(st, ULE(B(a[1]), n), 'string index within the string')
        return RET(st, Ptr(chars, simp(s + B(a[1]))))

    def data(eng, st, a, name):
        return RET(st, Ptr(chars, get(eng, st, a[0])[0]))

    def copy(eng, st, a, name):
        put(eng, st, a[0], *get(eng, st, a[1]))
        return RET(st, a[0])

    def made(eng, st, a, name):
        put(eng, st, a[0], pos(a[1]), a[2])
        return RET(st, a[0])

    def clear(eng, st, a, name):
        if len(a) > 1:
            literal(eng, st, a[1])
        put(eng, st, a[0], 0, 0)
        return RET(st, a[0])

    def join(eng, st, d, s2, n2):
        s1, n1 = get(eng, st, d)
        soft, eng.soft = eng.soft, True
        eng.prove(st, z3.Or(n1 == 0, n2 == 0, s2 == s1 + n1), 'bytes appended follow those already there')
        eng.soft = soft
        put(eng, st, d, z3.If(n1 == 0, s2, s1), n1 + n2)

    def append(eng, st, a, name):
        join(eng, st, a[0], *get(eng, st, a[1]))
        return RET(st, a[0])

    def append_bytes(eng, st, a, name):
        join(eng, st, a[0], pos(a[1]), B(a[2]))
        return RET(st, a[0])

    A = e.model
    A(S + r'::(length|size)\(\) const', length)
    A(S + r'::empty\(\) const', lambda eng, st, a, name: RET(st, z3.If(get(eng, st, a[0])[1] == 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))))
    A(S + r'::(operator\[\]|at)\(unsigned long\)', at)
    A(S + r'::(data|c_str)\(\)', data)
    A(S + r'::operator=\(std::__cxx11::' + S, copy)
    A(S + r'::operator=\(char const\*\)', clear)
    A(S + r'::clear\(\)', clear)
    A(S + r'::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)', made)
    A(S + r'::assign\(char const\*, unsigned long\)', made)
    A(S + r'::(operator\+=|append)\(std::__cxx11::' + S + r' const&\)', append)
    A(S + r'::append\(char const\*, unsigned long\)', append_bytes)


def finding(e, chars, where):
    """searching and cutting: substr, find_first_of. `where` lists the positions at which "not found before" is needed"""
    def substr(eng, st, a, name):
        s, n = get(eng, st, a[1])
        p, m = B(a[2]), B(a[3])
        bad = st.fork()
        out = []
        if eng.feasible(bad, z3.Not(ULE(p, n))):
            bad.assume(z3.Not(ULE(p, n)))
            out = throw_std('St12out_of_range')(eng, bad, a, name)
        st.assume(ULE(p, n))
        put(eng, st, a[0], s + p, z3.If(ULE(m, n - p), m, n - p))
        return out + RET(st, a[0])

    def find(eng, st, a, name):
        s, n = get(eng, st, a[0])
        c, p = z3.Extract(7, 0, bv(a[1], 8)), B(a[2])
        at = lambda j: bv(st.mem[chars].read(simp(s + j)), 8)
        no = st.fork()
        r = eng.fresh('found', 64)
        free = lambda j, to: z3.Implies(z3.And(ULE(p, j), ULT(j, to)), at(j) != c)
        for w in where(st):
            no.assume(free(simp(w - s), n))
            st.assume(free(simp(w - s), r))
        st.assume(z3.And(ULE(p, r), ULT(r, n), at(r) == c))
        return RET(st, r) + RET(no, B((1 << 64) - 1))
    e.model(S + r'::substr\(unsigned long, unsigned long\) const', substr)
    e.model(S + r'::find(_first_of)?\(char, unsigned long\) const', find)
    e.model(S + r'::basic_string\(std::__cxx11::' + S + r' ?(const)?&&?\)', lambda eng, st, a, name: (put(eng, st, a[0], *get(eng, st, a[1])), RET(st))[1])
    e.model(S + r'::basic_string\(\)', lambda eng, st, a, name: (put(eng, st, a[0], 0, 0), RET(st))[1])

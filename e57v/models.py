"""Contracts for code outside libE57Format (C/C++ runtime, libstdc++), matched on demangled names."""
import z3
from .ir import Unsupported, I, PTR
from .sym import (Ptr, PtrInt, NULL, UNDEF, Region, Outcome, Exc, Base, Zero, Layer, Limit, Func, isc, bv, zb, simp,
                  ULT, ULE, mask, ite)

RET = lambda st, v=None: [Outcome(st, 'ret', v)]
E57EXC = '_ZTIN3e5712E57ExceptionE'


def nop(eng, st, a, name):
    return RET(st)


def ret0(eng, st, a, name):
    return RET(st, a[0])


def new_heap(eng, st, name, size, kind='cells', init='undef'):
    r = Region(name, size=size, kind=kind, init=init)
    r.meta['heap'] = True
    return r


def op_new(eng, st, a, name):
    r = new_heap(eng, st, 'heap%d' % Region.count, a[0] if a[0] is not UNDEF else None)
    return RET(st, Ptr(r, 0))


def op_new_arr(eng, st, a, name):
    r = new_heap(eng, st, 'heap%d' % Region.count, a[0], 'bytes')
    return RET(st, Ptr(r, 0))


def cxa_alloc(eng, st, a, name):
    r = new_heap(eng, st, 'exc%d' % Region.count, None)
    return RET(st, Ptr(r, 0))


def cxa_throw(eng, st, a, name):
    ti = a[1].reg.name[1:] if isinstance(a[1], Ptr) and a[1].reg is not None else '?'
    code = None
    reg = a[0].reg
    if ti == E57EXC:
        code = eng.load(st, Ptr(reg, eng.off('e57::E57Exception', 'errorCode_')), I(32))
    return [Outcome(st, 'throw', Exc(ti, code, reg))]


def begin_catch(eng, st, a, name):
    st.set('$caught', (st.ghost.get('$caught') or ()) + (a[0],)) if st.log is None else st.ghost.__setitem__(
        '$caught', (st.ghost.get('$caught') or ()) + (a[0],))
    e = a[0]
    if isinstance(e, Exc):
        if e.reg is None:
            e.reg = Region('exc')
        return RET(st, Ptr(e.reg, 0))
    return RET(st, a[0])


def end_catch(eng, st, a, name):
    st.ghost['$caught'] = (st.ghost.get('$caught') or ())[:-1]
    return RET(st)


def rethrow(eng, st, a, name):
    c = st.ghost.get('$caught') or ()
    return [Outcome(st, 'throw', c[-1] if c else Exc('?'))]


def dead(eng, st, a, name):
    return []


def e57exc_ctor(eng, st, a, name):
    this, code = a[0], a[1]
    eng.store(st, Ptr(this.reg, eng._addoff(this.off, eng.off('e57::E57Exception', 'errorCode_'), 64, 1)), I(32), code)
    return RET(st)


def e57exc_copy(eng, st, a, name):
    at = eng.off('e57::E57Exception', 'errorCode_')
    eng.store(st, Ptr(a[0].reg, eng._addoff(a[0].off, at, 64, 1)), I(32), eng.load(st, Ptr(a[1].reg, eng._addoff(a[1].off, at, 64, 1)), I(32)))
    return RET(st)


def throw_std(kind):
    def f(eng, st, a, name):
        return [Outcome(st, 'throw', Exc(kind))]
    return f


def havoc_string(eng, st, p):
    """an arbitrary std::string value"""
    n = eng.fresh('strlen', 64)
    st.assume(ULE(n, z3.BitVecVal(1 << 32, 64)))
    r = Region('str%d' % Region.count, size=eng_size(n), kind='bytes')
    r.meta['heap'] = True
    st.mem[r] = Base('str')
    put_string(eng, st, p, Ptr(r, 0), n)
    return n, r


def eng_size(n):
    return n + 1


def put_string(eng, st, p, data, n):
    eng.write_cell(st, p.reg, p.off, 8, data)
    eng.write_cell(st, p.reg, eng._addoff(p.off, 8, 64, 1), 8, n)


def string_len(eng, st, p):
    return eng.load(st, Ptr(p.reg, eng._addoff(p.off, 8, 64, 1)), I(64))


def string_data(eng, st, p):
    return eng.load(st, Ptr(p.reg, p.off), PTR)


def str_new(eng, st, a, name):
    if isinstance(a[0], Ptr) and a[0].reg is not None:
        havoc_string(eng, st, a[0])
    return RET(st)


def str_new_ret(eng, st, a, name):
    havoc_string(eng, st, a[0])
    return RET(st, a[0])


def str_copy(eng, st, a, name):
    """copy/move construction or assignment: same length and bytes"""
    d, s = a[0], a[1]
    n = string_len(eng, st, s)
    p = string_data(eng, st, s)
    if isinstance(p, Ptr) and p.reg is not None:
        put_string(eng, st, d, p, n)      # immutable sharing: strings are only mutated by re-assignment here
    else:
        havoc_string(eng, st, d)
    return RET(st, d)


def str_literal(eng, st, a, name):
    """basic_string(const char*, alloc): literal when it points at constant bytes"""
    d, s = a[0], a[1]
    if isinstance(s, Ptr) and s.reg is not None and s.reg.name.startswith('@'):
        lay = eng.mem_state(st, s.reg)
        from .sym import ConstBytes
        if isinstance(lay, ConstBytes) and isc(s.off):
            b = lay.b[s.off:]
            n = b.index(0) if 0 in b else len(b)
            put_string(eng, st, d, s, n)
            return RET(st, d)
    havoc_string(eng, st, d)
    return RET(st, d)


def fresh_i(w):
    def f(eng, st, a, name):
        return RET(st, eng.fresh('ext', w))
    return f


def sp_copy(eng, st, a, name):
    """shared_ptr / weak_ptr copy, move or conversion: same pointee (reference counts are not modelled)"""
    d, s = a[0], a[1]
    for o in (0, 8):
        v = eng.load(st, Ptr(s.reg, eng._addoff(s.off, o, 64, 1)), PTR)
        eng.write_cell(st, d.reg, eng._addoff(d.off, o, 64, 1), 8, v)
    return RET(st, d)


def sp_default(eng, st, a, name):
    d = a[0]
    for o in (0, 8):
        eng.write_cell(st, d.reg, eng._addoff(d.off, o, 64, 1), 8, NULL)
    return RET(st)


def sp_dtor(eng, st, a, name):
    return RET(st)


def vec_ctor_n(es):
    def f(eng, st, a, name):
        this, n = a[0], a[1]
        sz = n * es if isc(n) else simp(bv(n, 64) * es)
        r = Region('vec%d' % Region.count, size=sz, kind='bytes', init='zero')
        r.meta['heap'] = True
        st.mem[r] = Zero()
        set_vec(eng, st, this, r, sz)
        return RET(st)
    return f


def set_vec(eng, st, this, r, sz):
    eng.write_cell(st, this.reg, this.off, 8, Ptr(r, 0))
    eng.write_cell(st, this.reg, eng._addoff(this.off, 8, 64, 1), 8, Ptr(r, sz))
    eng.write_cell(st, this.reg, eng._addoff(this.off, 16, 64, 1), 8, Ptr(r, sz))


def memcpy(eng, st, a, name):
    eng.memcpy(st, a[0], a[1], a[2])
    return RET(st, a[0])


def memset(eng, st, a, name):
    v = a[1]
    if not isc(v) and v.size() > 8:
        v = simp(z3.Extract(7, 0, v))
    elif isc(v):
        v &= 255
    eng.memset(st, a[0], v, a[2])
    return RET(st, a[0])


def minmax(op):
    def f(eng, st, a, name):
        w = int(name.rsplit('.i', 1)[1])
        x, y = a
        c = eng.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op], x, y, I(w))
        return RET(st, eng.select(st, c, x, y, I(w)))
    return f


TYW = {'unsigned long': ('u', 64), 'long': ('s', 64), 'unsigned int': ('u', 32), 'int': ('s', 32), 'unsigned short': ('u', 16),
       'short': ('s', 16), 'unsigned char': ('u', 8), 'char': ('s', 8), 'unsigned long long': ('u', 64), 'long long': ('s', 64)}


def std_minmax(eng, st, a, name):
    import re
    d = eng.mod.dem.get(name, name)
    m = re.match(r'^(.*) const& std::(min|max)<', d)
    if not m or m.group(1) not in TYW:
        return None
    sg, w = TYW[m.group(1)]
    x, y = eng.load(st, a[0], I(w)), eng.load(st, a[1], I(w))
    # min: (y < x) ? y : x
    c = eng.icmp(('u' if sg == 'u' else 's') + 'lt', y if m.group(2) == 'min' else x, x if m.group(2) == 'min' else y, I(w))
    r = Region('min%d' % Region.count, size=w // 8)
    r.stack = True
    st.mem[r] = {0: (w // 8, eng.select(st, c, y, x, I(w)))}
    return RET(st, Ptr(r, 0))


def fp1(nm):
    def f(eng, st, a, name):
        w = 32 if name.endswith('f32') or name in ('floorf', 'nearbyintf', 'rintf', 'roundf') else 64
        return RET(st, eng.funary(nm, a[0], w))
    return f


def typeid_for(eng, st, a, name):
    return RET(st, eng.typeid(a[0].reg.name[1:] if a[0].reg is not None else 'null'))


def assume(eng, st, a, name):
    return RET(st)


def with_overflow(op, signed):
    def f(eng, st, a, name):
        w = int(name.rsplit('.i', 1)[1])
        x, y = bv(a[0], w), bv(a[1], w)
        ex = (lambda t: z3.SignExt(w, t)) if signed else (lambda t: z3.ZeroExt(w, t))
        r = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q}[op](ex(x), ex(y))
        lo = z3.Extract(w - 1, 0, r)
        return RET(st, (simp(lo), simp(r != ex(lo))))
    return f


def strlen(eng, st, a, name):
    p = a[0]
    if p.reg is not None:
        lay = eng.mem_state(st, p.reg)
        from .sym import ConstBytes
        if isinstance(lay, ConstBytes) and isc(p.off):
            b = lay.b[p.off:]
            return RET(st, b.index(0) if 0 in b else len(b))
    n = eng.fresh('strlen', 64)
    st.assume(ULE(n, z3.BitVecVal(1 << 32, 64)))
    return RET(st, n)


def strncmp(eng, st, a, name):
    """sign is only meaningful against zero: equal over the first n bytes, no NUL before them in the constant"""
    p, q, n = a
    from .sym import ConstBytes
    for x, y in ((p, q), (q, p)):
        lay = eng.mem_state(st, y.reg)
        if isinstance(lay, ConstBytes) and isc(y.off) and isc(n):
            lit = lay.b[y.off:y.off + n]
            if len(lit) >= n and 0 not in lit[:n]:
                m = eng.to_bytes(st, x.reg)
                eng.bounds(st, x.reg, x.off, n, 'strncmp')
                eq = z3.And(*[bv(m.read(eng._addoff(x.off, k, 64, 1)), 8) == lit[k] for k in range(n)])
                r = eng.fresh('strncmp', 32)
                st.assume((r == 0) == eq)
                return RET(st, r)
    return RET(st, eng.fresh('strncmp', 32))


def install(eng):
    eng.ghost_width = getattr(eng, 'ghost_width', {})
    M = []
    S = r'basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
    A = lambda pat, f: M.append((pat, f))
    # runtime
    A(r'^operator new\(unsigned long\)', op_new)
    A(r'^operator new\[\]\(unsigned long\)', op_new_arr)
    A(r'^operator delete', nop)
    A(r'^__cxa_allocate_exception$', cxa_alloc)
    A(r'^__cxa_free_exception$', nop)
    A(r'^__cxa_throw$', cxa_throw)
    A(r'^__cxa_begin_catch$', begin_catch)
    A(r'^__cxa_end_catch$', end_catch)
    A(r'^__cxa_rethrow$', rethrow)
    A(r'^__clang_call_terminate$', dead)
    A(r'^std::terminate\(', dead)
    A(r'^abort$', dead)
    A(r'^__cxa_guard_acquire$', lambda e, s, a, n: RET(s, 0))
    A(r'^__cxa_guard_release$', nop)
    A(r'^__cxa_atexit$', lambda e, s, a, n: RET(s, 0))
    A(r'^std::__throw_(out_of_range|out_of_range_fmt)\b', throw_std('_ZTISt12out_of_range'))
    A(r'^std::__throw_length_error', throw_std('_ZTISt12length_error'))
    A(r'^std::__throw_logic_error', throw_std('_ZTISt11logic_error'))
    A(r'^std::__throw_bad_alloc|^std::__throw_bad_array_new_length', throw_std('_ZTISt9bad_alloc'))
    A(r'^std::__throw_bad_weak_ptr', throw_std('_ZTISt12bad_weak_ptr'))
    A(r'^llvm\.memcpy|^llvm\.memmove|^memcpy$|^memmove$', memcpy)
    A(r'^llvm\.memset|^memset$', memset)
    for op in ('umin', 'umax', 'smin', 'smax'):
        A(r'^llvm\.%s\.' % op, minmax(op))
    A(r' const& std::(min|max)<', std_minmax)
    A(r'^llvm\.floor\.f|^floor(f|l)?$', fp1('floor'))
    A(r'^llvm\.nearbyint\.f|^nearbyintf?$|^llvm\.rint\.f|^rintf?$', fp1('rint'))
    A(r'^llvm\.round\.f', fp1('round'))
    A(r'^llvm\.fabs\.f|^fabsf?$', fp1('fabs'))
    A(r'^sqrt$|^sin$|^cos$', lambda e, s, a, n: RET(s, e.funary(n, a[0], 64)))
    A(r'^llvm\.eh\.typeid\.for', typeid_for)
    A(r'^llvm\.(assume|lifetime|dbg|experimental|invariant|stackrestore|donothing|prefetch)', assume)
    A(r'^llvm\.expect', ret0)
    A(r'^llvm\.trap', dead)
    for op in ('add', 'sub', 'mul'):
        A(r'^llvm\.u%s\.with\.overflow' % op, with_overflow(op, False))
        A(r'^llvm\.s%s\.with\.overflow' % op, with_overflow(op, True))
    A(r'^strlen$', strlen)
    A(r'^strncmp$|^memcmp$|^bcmp$', strncmp)
    A(r'^(std::)?char_traits<char>::length\(', strlen)
    A(r'^std::char_traits<char>::length\(', strlen)
    # exception object
    A(r'^e57::E57Exception::E57Exception\(e57::ErrorCode', e57exc_ctor)
    A(r'^e57::E57Exception::E57Exception\(e57::E57Exception', e57exc_copy)
    A(r'^e57::E57Exception::(~E57Exception|E57Exception)\(', nop)
    # strings: opaque values (only used for messages unless a unit says otherwise)
    A(S + r'::basic_string\(std::__cxx11::' + S + r' (const)?&&?\)', str_copy)
    A(S + r'::operator=\(std::__cxx11::' + S + r' (const)?&&?\)', str_copy)
    A(S + r'::basic_string<.*>\(char const\*, std::allocator<char> const&\)', str_literal)
    A(S + r'::basic_string\(char const\*, std::allocator<char> const&\)', str_literal)
    A(S + r'::basic_string\(\)', str_empty)
    A(S + r'::(basic_string|assign|append|operator\+=|insert|replace|push_back|resize|reserve|clear|erase|_M_\w+)\b', str_mut)
    A(S + r'::~basic_string\(', nop)
    A(S + r'::(substr)\(', str_new)
    A(S + r'::(find|rfind|compare|find_first_of|find_first_not_of|find_last_of)\b', fresh_i(64))
    A(r'^(std::__cxx11::)?' + S + r' std::operator\+<', str_new)
    A(r'^std::__cxx11::' + S + r' std::operator\+', str_new)
    A(r'^bool std::operator(==|!=|<)<char', lambda e, s, a, n: RET(s, e.fresh('strcmp', 1)))
    A(r'^std::__cxx11::to_string\(', str_new)
    A(r'> e57::toString<|e57::toString\(|e57::hexString\(|e57::space\(|e57::binaryString\(|> e57::hexString<|> e57::binaryString<', str_new)
    A(r'^e57::hexString|^e57::binaryString|^e57::space', str_new)
    A(r'> e57::E57_EXCEPTION|e57::Utilities::errorCodeToString', str_new)
    A(r'^std::allocator<.*>::(~?allocator)\(|^std::__new_allocator<.*>::(~?__new_allocator)\(', nop)
    A(r'std::(__cxx11::)?basic_(ostream|istream|stringstream|ostringstream|istringstream|ios|iostream|stringbuf)<.*>::operator(<<|>>)', ret0)
    A(r'std::basic_ostream<char, std::char_traits<char> ?>& std::operator<<', ret0)
    A(r'std::(__cxx11::)?basic_(stringstream|ostringstream|istringstream)<.*>::(basic_\w+|~basic_\w+)\(', nop)
    A(r'std::(__cxx11::)?basic_(stringstream|ostringstream|istringstream)<.*>::str\(\)', str_new)
    A(r'^std::(endl|hex|dec|setw|setfill|setprecision|scientific|fixed)\b', ret0)
    A(r'std::ios_base::', fresh_i(64))
    # smart pointers
    SP = r'std::(__)?(shared_ptr|weak_ptr)(_access)?<'
    A(r'std::(__)?shared_ptr<e57::[^()]*>::(__)?shared_ptr\(\)', sp_default)
    A(r'std::(__)?shared_ptr<e57::[^()]*>::(__)?shared_ptr\(decltype\(nullptr\)\)', sp_default)
    A(r'std::(__)?(shared_ptr|weak_ptr)<e57::[^()]*>::(__)?(shared_ptr|weak_ptr)(<.*>)?\(std::(__)?(shared_ptr|weak_ptr)<', sp_copy)
    A(r'std::(__)?(shared_ptr|weak_ptr)<e57::[^()]*>::operator=(<.*>)?\(std::(__)?(shared_ptr|weak_ptr)<', sp_copy)
    A(r'std::(__)?(shared_ptr|weak_ptr)<e57::[^()]*>& std::(__)?(shared_ptr|weak_ptr)<e57::[^()]*>::operator=', sp_copy)
    A(r'std::(__)?(shared_ptr|weak_ptr)<.*>::~(__)?(shared_ptr|weak_ptr)\(', sp_dtor)
    A(r'std::weak_ptr<.*>::lock\(\) const', lambda e, s, a, n: sp_copy(e, s, [a[0], a[1]], n))
    A(r'std::__weak_ptr<.*>::expired\(\) const', lambda e, s, a, n: RET(s, False))
    for t, es in (('char', 1), ('unsigned char', 1), ('unsigned short', 2), ('unsigned int', 4), ('double', 8), ('float', 4),
                  ('unsigned long', 8), ('long', 8), ('int', 4)):
        A(r'std::vector<%s, std::allocator<%s> ?>::vector\(unsigned long, std::allocator' % (t, t), vec_ctor_n(es))
    A(r'std::vector<.*>::~vector\(', nop)
    for p, f in reversed(M):
        eng.model(p, f)


def str_empty(eng, st, a, name):
    r = Region('empty', size=1, kind='bytes', init='zero')
    r.meta['heap'] = True
    st.mem[r] = Zero()
    put_string(eng, st, a[0], Ptr(r, 0), 0)
    return RET(st)


def str_mut(eng, st, a, name):
    havoc_string(eng, st, a[0])
    return RET(st, a[0])

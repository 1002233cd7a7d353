import z3
from ..sym import Ptr, State, Region, Func, ULT, ULE, bv, simp, ite
from ..ir import I, PTR
from ..unit import Unit
from ..models import RET, str_new
from ..filemodel import B
from .. import flatstr, lfile

NATIVE = 'c13'
NATIVE_MS = 6000
IM = 'e57::ImageFileImpl'
EMPTY, MALFORMED, UNREGISTERED = 54, 55, 56
NPOS = B((1 << 64) - 1)
c8 = lambda ch: z3.BitVecVal(ord(ch), 8)
rng = lambda c, a, b: z3.And(z3.UGE(c, c8(a)), ULE(c, c8(b)))
digit = lambda c: rng(c, '0', '9')
first = lambda c: z3.Or(z3.UGE(c, 128), rng(c, 'a', 'z'), rng(c, 'A', 'Z'), c == c8('_'))          # may begin a name
later = lambda c: z3.Or(first(c), digit(c), c == c8('-'), c == c8('.'))                             # may follow
J, LEN = z3.BitVec('anyindex', 64), z3.BitVec('length', 64)
U = z3.Function('byte', z3.BitVecSort(64), z3.BitVecSort(8))
COLON = z3.BitVec('colon', 64)
SHAPES = {
    'any': lambda j: U(j),
    'number': lambda j: z3.If(digit(U(j)), U(j), c8('7')),
    'plain': lambda j: z3.If(j == 0, z3.If(first(U(j)), U(j), c8('a')), z3.If(later(U(j)), U(j), c8('a'))),
    'prefixed': lambda j: z3.If(j == COLON, c8(':'), z3.If(z3.Or(j == 0, j == COLON + 1), z3.If(first(U(j)), U(j), c8('a')), z3.If(later(U(j)), U(j), c8('a')))),
}


def text(e, st, shape):
    """any byte string of that shape; every string of the shape is one of these"""
    t = SHAPES[shape]
    chars = e.new_bytes(st, 'text', simp(LEN + 1), Func(lambda j: z3.If(B(j) == LEN, z3.BitVecVal(0, 8), t(B(j)))))
    st.assume(ULT(LEN, B(1 << 40)))
    if shape != 'any':
        st.assume(ULT(0, LEN))
    if shape == 'prefixed':
        st.assume(z3.And(ULT(0, COLON), ULT(COLON, LEN), ULT(COLON + 1, LEN)))
    flatstr.install(e, chars, lambda p: p.off if p.reg is chars else None)
    flatstr.finding(e, chars, lambda s: [J, COLON, simp(LEN - 1)])
    name = string(e, st, 'name', 0, LEN)
    return name, lambda j: bv(st.mem[chars].read(simp(B(j))), 8)


def string(e, st, name, s=0, n=0):
    r = Region(name)
    st.mem[r] = {}
    flatstr.put(e, st, Ptr(r), s, n)
    return r


def templates(e, T):
    def f(eng, L, ev):
        for k in L.keys:
            if k[-1] == 64 and k[0] in ('phi', 'cell'):
                yield '!%s within' % (k[1],), lambda v, k=k: ULE(v.num(k), LEN)
                yield '!%s not at the start' % (k[1],), lambda v, k=k: ULT(0, v.num(k))
                yield '!digits before %s' % (k[1],), lambda v, k=k: z3.Implies(z3.And(ULT(J, v.num(k))), digit(T(J)))
                yield '!name characters before %s' % (k[1],), lambda v, k=k: z3.Implies(z3.And(ULT(0, J), ULT(J, v.num(k))), z3.Or(later(T(J)), T(J) == c8(':')))
    e.templates.append(f)


def element(ctx, arg):
    """elementNameParse, checkElementNameLegal, isElementNameExtended on every byte string: 'any': whatever is accepted is of a legal shape (at an arbitrary position J of the
    name) and what is refused gives a path error; the other shapes: every legal name is accepted and split at its colon"""
    what, shape, number = arg
    e = ctx.engine()
    st = State()
    lfile.names(e)
    n, T = text(e, st, shape)
    templates(e, T)
    pre, loc = string(e, st, 'prefix'), string(e, st, 'localPart')
    im = Region('imagefile')
    st.mem[im] = {}
    st.assume(ULT(J, LEN))
    reg = z3.Bool('registered')
    got = {}

    def lookup(eng, s, a, nm):
        eng.prove(s, z3.And(flatstr.get(eng, s, a[1])[1] != 0), 'only a prefix is looked up')
        s.set('prefix', flatstr.get(eng, s, a[1]))
        return RET(s, reg)
    st.ghost['prefix'] = None
    e.model(r'^e57::ImageFileImpl::extensionsLookupPrefix\(', lookup)
    if what == 'parse':
        call = (r'^e57::ImageFileImpl::elementNameParse\(', [Ptr(n), Ptr(pre), Ptr(loc), z3.BoolVal(number)])
    elif what == 'check':
        call = (r'^e57::ImageFileImpl::checkElementNameLegal\(', [Ptr(im), Ptr(n)])
    else:
        call = (r'^e57::ImageFileImpl::isElementNameExtended\(', [Ptr(im), Ptr(n)])
    num = z3.And(digit(T(0)), digit(T(J)))
    for o in e.call(st, ctx.fn(call[0]), call[1]):
        s = o.st
        if what == 'extended':
            e.prove(s, z3.BoolVal(o.kind == 'ret'), 'never fails')
            if o.kind != 'ret':
                continue
            r = bv(o.val, 1) == 1 if not z3.is_bool(o.val) else o.val
            if shape == 'any':
                e.cover(s, 'answers')
                e.prove(s, z3.Implies(r, z3.And(LEN != 0, first(T(0)), z3.Or(later(T(J)), T(J) == c8(':')))), 'true only for a name')
            elif shape == 'prefixed':
                e.cover(s, 'prefixed name')
                e.prove(s, r, 'true for a prefixed name')
            else:
                e.cover(s, 'other name')
                e.prove(s, z3.Not(r), 'false for a name without prefix')
            continue
        if o.kind != 'ret':
            k = bv(o.val.code, 32)
            e.cover(s, 'refuses')
            if what == 'check' and s.ghost['prefix'] is not None:
                p, m = s.ghost['prefix']
                e.prove(s, z3.And(k == UNREGISTERED, z3.Not(reg)), 'refused because its prefix is not registered')
                if shape == 'prefixed':
                    e.prove(s, z3.And(p == 0, m == COLON), 'the prefix looked up is the one before the colon')
                continue
            e.prove(s, z3.BoolVal(shape == 'any' or (shape == 'number' and not number)), 'a legal name is not refused')
            e.prove(s, z3.If(LEN == 0, k == EMPTY, k == MALFORMED), 'refused as a bad path')
            continue
        e.cover(s, 'accepts')
        e.prove(s, LEN != 0, 'an empty name is never accepted')
        if what == 'check':
            if s.ghost['prefix'] is not None:
                e.prove(s, reg, 'accepted only if its prefix is registered')
            e.prove(s, z3.Or(num, z3.And(first(T(0)), z3.Or(J == 0, later(T(J)), T(J) == c8(':')))), 'only a number or a name is accepted')
            if s.ghost['prefix'] is None:
                e.prove(s, T(J) != c8(':'), 'a colon means there is a prefix')
            e.prove(s, z3.BoolVal((s.ghost['prefix'] is not None) == (shape == 'prefixed') or shape == 'any'), 'only a prefix is looked up in the extensions')
            continue
        (p, m), (q, l) = flatstr.get(e, s, Ptr(pre)), flatstr.get(e, s, Ptr(loc))
        if shape == 'any':
            one = z3.And(m != 0, l != 0, m + 1 + l == LEN, T(m) == c8(':'), first(T(simp(m + 1))), z3.Implies(J != m, T(J) != c8(':')), p == 0, q == m + 1)
            plain = z3.And(m == 0, T(J) != c8(':'), z3.Or(z3.And(q == 0, l == LEN), z3.And(num, l == 0, z3.BoolVal(number))))
            e.prove(s, z3.Or(num if number else z3.BoolVal(False), z3.And(first(T(0)), z3.Or(J == 0, later(T(J)), T(J) == c8(':')))), 'only a number or a name is accepted')
            e.prove(s, z3.Or(plain, one), 'split at its only colon, both parts names')
        elif shape == 'prefixed':
            e.prove(s, z3.And(p == 0, m == COLON, q == COLON + 1, l == LEN - COLON - 1), 'prefix and local part are what is before and after the colon')
        elif shape == 'plain':
            e.prove(s, z3.And(m == 0, q == 0, l == LEN), 'no prefix: the local part is the whole name')


def path(ctx):
    """pathNameParse on every byte string: the fields are the pieces between the slashes, each one checked, in order, the whole path used up; relative exactly when it does not
    begin with a slash; refused only if a piece is refused, or it ends in a slash (and is not just "/"), or it is empty"""
    e = ctx.engine()
    e.bool_bytes = True
    st = State()
    lfile.names(e)
    n, T = text(e, st, 'any')
    im, rel = Region('imagefile'), Region('isRelative')
    fields = Region('fields')
    st.mem[im], st.mem[rel] = {}, {0: (1, 0)}
    absolute = z3.And(LEN != 0, T(0) == c8('/'))
    tab = Region('table')
    cnt = lambda s: B(s.ghost['count'])
    st.ghost.update(next=ite(absolute, B(1), B(0), 64), count=B(0), checked=False, piece=False)
    st.mem[tab] = {}
    st.mem[fields] = {0: (8, Ptr(tab, 0)), 8: (8, Ptr(tab, 0)), 16: (8, Ptr(tab, 0))}

    def is_piece(eng, s, a, b):
        x = B(s.ghost['next'])
        eng.prove(s, z3.And(a == x, ULE(a + b, LEN), ULE(a, LEN)), 'the next piece of the path')
        eng.prove(s, z3.Implies(z3.And(ULE(a, J), ULT(J, a + b)), T(J) != c8('/')), 'no slash within a piece')
        eng.prove(s, z3.Or(a + b == LEN, T(simp(a + b)) == c8('/')), 'a piece ends at a slash or at the end')

    def check(eng, s, a, nm):
        x, y = flatstr.get(eng, s, a[1])
        is_piece(eng, s, x, y)
        eng.cover(s, 'checks a piece')
        bad = s.fork()
        bad.set('piece', True)
        s.set('checked', True)
        s.assume(y != 0)                              # element: an empty name is never accepted
        return eng.throw_e57(bad, eng.fresh('nameerror', 32)) + RET(s)

    def push(eng, s, a, nm):
        x, y = flatstr.get(eng, s, a[1])
        is_piece(eng, s, x, y)
        eng.prove(s, z3.BoolVal(s.ghost['checked'] is True), 'a piece is checked before it is taken')
        s.set('checked', False)
        s.set('count', simp(cnt(s) + 1))
        s.set('next', simp(x + y + 1))
        return RET(s)

    def empty(eng, s, a, nm):
        return RET(s, cnt(s) == 0)
    e.model(r'^e57::ImageFileImpl::checkElementNameLegal\(', check)
    V = r'std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>.*'
    e.model(V + r'::push_back\(', push)
    e.model(V + r'::emplace_back', push)
    e.model(V + r'::empty\(\) const', empty)
    e.model(V + r'::clear\(\)', lambda eng, s, a, nm: (s.set('count', B(0)), RET(s))[1])

    def tmpl(eng, L, ev):
        yield '!next within', lambda v: ULE(B(v.ghost('next')), LEN + 1)
        yield '!pieces', lambda v: ULE(cnt(v.st), B(v.ghost('next')))
        yield '!at the first piece', lambda v: z3.Implies(cnt(v.st) == 0, B(v.ghost('next')) == ite(absolute, B(1), B(0), 64))
        for k in L.keys:
            if k[-1] == 64 and k[0] in ('phi', 'cell'):
                yield '!%s next' % (k[1],), lambda v, k=k: v.num(k) == B(v.ghost('next'))
                yield '!%s within' % (k[1],), lambda v, k=k: ULE(v.num(k), LEN)
                yield '!%s more to come' % (k[1],), lambda v, k=k: z3.Or(cnt(v.st) == 0, ULT(v.num(k), LEN))
    e.templates.append(tmpl)
    for o in e.call(st, ctx.fn(r'^e57::ImageFileImpl::pathNameParse\('), [Ptr(im), Ptr(n), Ptr(rel), Ptr(fields)]):
        s = o.st
        if o.kind == 'ret':
            e.cover(s, 'accepts')
            r = bv(e.load(s, Ptr(rel), I(8)), 8)
            e.prove(s, z3.And(z3.Or(r == 0, r == 1), (r == 0) == absolute), 'relative exactly when it does not begin with a slash')
            e.prove(s, z3.Or(B(s.ghost['next']) == LEN + 1, z3.And(absolute, LEN == 1, cnt(s) == 0)), 'the whole path was split')
            e.prove(s, z3.Or(cnt(s) != 0, z3.And(absolute, LEN == 1)), 'only "/" has no pieces')
        elif s.ghost['piece'] is True:
            e.cover(s, 'a piece is refused')
        else:
            e.cover(s, 'refuses')
            k = bv(o.val.code, 32)
            e.prove(s, z3.Or(z3.And(LEN == 0, k == EMPTY), z3.And(ULT(1, LEN), T(simp(LEN - 1)) == c8('/'), k == MALFORMED)), 'refused only if empty or ending in a slash')


def unparse(ctx):
    """pathNameUnparse: a slash first exactly for an absolute path, then the fields in order with one slash between them, nothing else: the inverse of splitting"""
    e = ctx.engine()
    st = State()
    lfile.names(e)
    n = z3.BitVec('fields', 64)
    st.assume(ULT(n, B(1 << 31)))
    rel = z3.Bool('isRelative')
    tab, vec, res = Region('table', size=simp(n * 32)), Region('fields'), Region('result')
    st.mem[tab], st.mem[res] = {}, {}
    st.mem[vec] = {0: (8, Ptr(tab, 0)), 8: (8, Ptr(tab, simp(n * 32))), 16: (8, Ptr(tab, simp(n * 32)))}
    st.ghost.update(count=B(0), slash=B(0), begun=False)            # slash: separators written since the last field
    G = lambda s, k: B(s.ghost[k])
    S = flatstr.S

    def append(eng, s, a, nm):
        if not (isinstance(a[0], Ptr) and a[0].reg is res):
            return str_new(eng, s, a, nm)
        eng.cover(s, 'appends a field')
        k = G(s, 'count')
        ok = isinstance(a[1], Ptr) and a[1].reg is tab
        eng.prove(s, z3.And(z3.BoolVal(ok), B(a[1].off) == k * 32 if ok else z3.BoolVal(False)), 'the next field')
        eng.prove(s, G(s, 'slash') == z3.If(k == 0, z3.If(rel, B(0), B(1)), B(1)), 'one slash before every field but the first of a relative path')
        s.set('count', simp(k + 1))
        s.set('slash', B(0))
        return RET(s, a[0])

    def push(eng, s, a, nm):
        eng.prove(s, bv(a[1], 8) == c8('/'), 'only slashes between fields')
        s.set('slash', simp(G(s, 'slash') + 1))
        return RET(s)
    e.model(S + r'::append\(std::__cxx11::' + S + r' const&\)', append)
    e.model(S + r'::operator\+=\(std::__cxx11::' + S + r' const&\)', append)
    e.model(S + r'::push_back\(char\)', push)
    e.model(S + r'::operator\+=\(char\)', lambda eng, s, a, nm: (push(eng, s, a, nm), RET(s, a[0]))[1])

    def tmpl(eng, L, ev):
        for k in L.keys:
            if k[0] in ('phi', 'cell') and k[-1] in (32, 64):
                z = lambda v, k=k: v.num(k) if k[-1] == 64 else z3.ZeroExt(32, v.num(k))
                yield '!%s counts' % (k[1],), lambda v, z=z: z(v) == B(v.ghost('count'))
        yield '!within', lambda v: ULE(B(v.ghost('count')), n)
        yield '!slash', lambda v: B(v.ghost('slash')) == z3.If(B(v.ghost('count')) == 0, z3.If(rel, B(0), B(1)), z3.If(B(v.ghost('count')) == n, B(0), B(1)))
    e.templates.append(tmpl)
    for o in e.call(st, ctx.fn(r'^e57::ImageFileImpl::pathNameUnparse'), [Ptr(res), rel, Ptr(vec)]):
        s = o.st
        e.prove(s, z3.BoolVal(o.kind == 'ret'), 'never fails')
        e.cover(s, 'returns')
        e.prove(s, z3.And(G(s, 'count') == n, G(s, 'slash') == z3.If(z3.Or(n != 0, rel), B(0), B(1))), 'every field, and nothing after the last')


def legal(ctx):
    """isPathNameLegal: true exactly when the path can be split (and the file is open); never fails"""
    for open_ in (True, False):
        e = ctx.engine()
        st = State()
        lfile.install(e)
        lfile.names(e)
        im = lfile.imagefile(e, st, lfile.init(e, st), open_)
        n = Region('path')
        st.mem[n] = {}
        e.model(r'^e57::ImageFileImpl::pathNameParse\(', lambda eng, s, a, nm: (lambda bad: (bad.set('bad', True), eng.throw_e57(bad, eng.fresh('code', 32)) + RET(s))[1])(s.fork()))
        st.ghost['bad'] = False
        for o in e.call(st, ctx.fn(r'^e57::ImageFileImpl::isPathNameLegal\('), [Ptr(im), Ptr(n)]):
            e.cover(o.st, 'answers')
            e.prove(o.st, z3.BoolVal(o.kind == 'ret'), 'never fails')
            if o.kind == 'ret':
                r = o.val if z3.is_bool(o.val) else z3.BoolVal(bool(o.val)) if isinstance(o.val, (int, bool)) else bv(o.val, 1) == 1
                e.prove(o.st, r == z3.BoolVal(open_ and o.st.ghost['bad'] is not True), 'true exactly if the path can be split')


UNITS = [Unit('element %s %s%s' % (w, s, '' if num else ' no numbers'), element, arg=(w, s, num)) for w, s, num in
         [('parse', s, num) for s in SHAPES for num in (True, False)] + [('check', s, True) for s in SHAPES] + [('extended', s, True) for s in SHAPES]] + \
        [Unit('path', path), Unit('unparse', unparse), Unit('legal', legal)]
ASSUMPTIONS = ['std::string: find_first_of, substr, comparison, assignment and append have the standard library\'s meaning (contracts in flatstr.py)',
               'names shorter than 2^40 bytes, fewer than 2^31 fields in a path',
               'bytes of 128 and above are accepted anywhere in a name, as the standard\'s UTF-8 names need; that they form valid UTF-8 is not checked by the library and not claimed',
               'the registered extensions: any (lookup answers arbitrarily)']

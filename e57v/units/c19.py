"""C19: what is written as text in the XML section reads back as the same value.
Writer: the text an element writes, read as XML by the rules the parser applies (attribute or default, element text or default), gives the element's own state. Reader: the parser
functions apply exactly those rules. Numbers: the text of a number carries enough digits, in a form that does not depend on the locale."""
import z3
from ..sym import Ptr, State, Region, Func, Base, Unsupported, ULT, ULE, bv, simp, zb, isc, NULL
from ..ir import I, PTR
from ..unit import Unit
from ..models import RET
from ..filemodel import B
from .. import lfile, models, idstr, piecestr as ps
from .c20 import aligned, iterators
from .c14 import base, children, node, within

NATIVE = 'c19'
NATIVE_MS = 12000
NI, SN = 'e57::NodeImpl', 'e57::StructureNodeImpl'
J = z3.BitVec('J', 64)
F64, F32 = z3.Float64(), z3.Float32()
DMAX = z3.fpBVToFP(z3.BitVecVal(0x7FEFFFFFFFFFFFFF, 64), F64)
FMAX = z3.fpBVToFP(z3.BitVecVal(0x47EFFFFFE0000000, 64), F64)
OUT = r'^e57::CheckedFile::operator<<\('


# ------------------------------------------------------------------------------------------------ text written
class Bad(Exception):
    pass


def flat(pieces):
    out = []
    for p in ps.norm(pieces):
        if p[0] == 'lit':
            out += list(p[1])
        elif p[1] == 'space':
            out.append(' ')
        else:
            out.append(p)
    return out


class Xml:
    """just enough XML to read one element back"""

    def __init__(self, pieces):
        self.s, self.i = flat(pieces), 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def ws(self):
        while isinstance(self.peek(), str) and self.peek() in ' \t\r\n':
            self.i += 1

    def take(self, c):
        if self.peek() != c:
            raise Bad('%r where %r belongs' % (self.peek(), c))
        self.i += 1

    def until(self, stop):
        out = []
        while self.peek() is not None and not (isinstance(self.peek(), str) and self.peek() in stop):
            out.append(self.peek())
            self.i += 1
        return out

    def open(self):
        """-> name, attributes, empty?"""
        self.ws()
        self.take('<')
        name = self.until(' \t\r\n/>')
        att = {}
        while True:
            self.ws()
            c = self.peek()
            if c == '>':
                self.i += 1
                return name, att, False
            if c == '/':
                self.i += 1
                self.take('>')
                return name, att, True
            if c is None:
                raise Bad('the tag does not end')
            k = self.until('= \t\r\n>')
            self.ws()
            self.take('=')
            self.ws()
            q = self.peek()
            if q not in ('"', "'"):
                raise Bad('attribute value not quoted')
            self.i += 1
            v = self.until(q + '<')
            self.take(q)
            k = ''.join(x if isinstance(x, str) else '?' for x in k)
            if k in att:
                raise Bad('attribute twice')
            att[k] = v

    def close(self, name):
        self.take('<')
        self.take('/')
        if self.until(' >') != name:
            raise Bad('closing tag of another name')
        self.ws()
        self.take('>')

    def end(self):
        self.ws()
        if self.peek() is not None:
            raise Bad('text after the element')


def word(v):
    return ''.join(v) if all(isinstance(x, str) for x in v) else None


def integer(v, default):
    """the number an attribute (or the element's text) is read as"""
    if v is None:
        return B(default & (1 << 64) - 1)
    if len(v) == 1 and not isinstance(v[0], str) and v[0][1][0] == 'int':
        return v[0][1][1]
    w = word(v)
    if w:
        try:
            return B(int(w) & (1 << 64) - 1)
        except ValueError:
            pass
    raise Bad('not the text of an integer')


def real(v, default):
    if v is None:
        return default
    if len(v) == 1 and not isinstance(v[0], str) and v[0][1][0] in ('double', 'float', 'int'):
        k, t = v[0][1]
        if k == 'double':
            return z3.fpBVToFP(t, F64)
        if k == 'float':
            return z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(t, F32), F64)
        return z3.fpSignedToFP(z3.RNE(), t, F64)
    w = word(v)
    if w:
        try:
            return z3.FPVal(float(w), F64)
        except ValueError:
            pass
    raise Bad('not the text of a number')


def sink(e, emit):
    """text goes to emit(state, pieces)"""
    num = lambda kind, w: lambda eng, s, a, x: (emit(s, [('sym', (kind, bv(a[1], w)))]), RET(s, a[0]))[1]
    e.model(OUT + ps.STR, lambda eng, s, a, x: (emit(s, ps.get(eng, s, a[1])), RET(s, a[0]))[1])
    e.model(OUT + r'(unsigned )?long\)', num('int', 64))
    e.model(OUT + r'double\)', num('double', 64))
    e.model(OUT + r'float\)', num('float', 32))
    e.model(r'^e57::space', lambda eng, s, a, x: (ps.put(eng, s, a[0], [('sym', 'space')]), RET(s))[1])


def field(e, st, n, forced):
    """the element's own name, or the one it is told to use"""
    ps.put(e, st, Ptr(n, e.off(NI, 'elementName_')), [('sym', 'name')])
    if not forced:
        return NULL, [('sym', 'name')]
    r = Region('forced')
    r.meta['pieces'] = (('sym', 'forced'),)
    st.mem[r] = {}
    return Ptr(r, 0), [('sym', 'forced')]


def start(ctx, where=lambda st: (), **kw):
    e = ctx.engine(**kw)
    st = State()
    im = base(e, st)
    ps.install(e, where)
    e.models = [m for m in e.models if 'operator<<' not in m[0].pattern or 'CheckedFile' not in m[0].pattern]
    e.model(r'^__assert_fail', lambda eng, s, a, x: (eng.prove(s, z3.BoolVal(False), 'the assertion in the code holds'), [])[1])
    e.model(r'^e57::NodeImpl::pathName|^e57::(ImageFileImpl|CheckedFile)::fileName', lambda eng, s, a, x: (ps.put(eng, s, a[0], [('sym', 'path')]), RET(s))[1])
    e.model(r'> e57::toString<|e57::toString\(|> e57::E57_EXCEPTION', lambda eng, s, a, x: (ps.put(eng, s, a[0], [('sym', 'message')]), RET(s))[1])
    return e, st, im


def shared(e, st, name, target):
    r = Region(name)
    st.mem[r] = {0: (8, Ptr(target)), 8: (8, Ptr(Region('ctl')))}
    return Ptr(r, 0)


# ------------------------------------------------------------------------------------------------ strings
def string(ctx, forced):
    """StringNodeImpl::writeXml, any text of any length: the bytes between the section marks are the value's, in order and complete, and no section ends early"""
    e, st, im = start(ctx, lambda s: [J])
    e.bool_bytes = True
    C = 'e57::StringNodeImpl'
    n = node(e, st, 'string', im)
    LN = z3.BitVec('LN', 64)
    st.assume(z3.And(ULT(LN, B(1 << 62)), ULT(J, B(1 << 62))))
    val = e.new_bytes(st, 'value', LN, Base('value'))
    ps.put(e, st, Ptr(n, e.off(C, 'value_')), [('range', val, B(0), LN)])
    at = lambda s, j: bv(s.mem[val].read(simp(j)), 8)
    force, name = field(e, st, n, forced)
    TAG, CDATA, CLOSED, NONE = 'tag', 'in the section', 'after the section', ()
    st.ghost.update(mode=TAG, head=(), tail=NONE, done=B(0), seg=B(0))

    def shut(s):
        sg, d = B(s.ghost['seg']), B(s.ghost['done'])
        here = z3.And(*[at(s, J + k) == ord(c) for k, c in enumerate(']]>')])
        e.prove(s, z3.Implies(z3.And(ULE(sg, J), ULE(J + 3, d)), z3.Not(here)), 'no section ends before the writer ends it')

    def emit(s, pieces):
        for p in ps.norm(pieces):
            m = s.ghost['mode']
            if m is CDATA:
                if p[0] == 'range' and p[1] is val:
                    e.prove(s, p[2] == B(s.ghost['done']), 'the value\'s bytes are written in order, none left out')
                    s.set('done', simp(p[2] + p[3]))
                    continue
                if p[0] != 'lit':
                    e.prove(s, z3.BoolVal(False), 'only the value is written inside the section')
                    continue
                t, mark, rest = p[1].partition(']]>')
                for k, c in enumerate(t):
                    e.prove(s, z3.And(ULT(B(s.ghost['done']) + k, LN), at(s, B(s.ghost['done']) + k) == ord(c)), 'only the value is written inside the section')
                if t:
                    s.set('done', simp(B(s.ghost['done']) + len(t)))
                if mark:
                    shut(s)
                    s.set('mode', CLOSED)
                    if rest:
                        emit(s, [('lit', rest)])
                continue
            key = 'head' if m is TAG else 'tail'
            txt = ps.norm(s.ghost[key] + (p,))
            last = txt[-1][1] if txt and txt[-1][0] == 'lit' else ''
            if '<![CDATA[' in last:
                before, _, rest = last.partition('<![CDATA[')
                if m is TAG:
                    s.set('head', ps.norm(txt[:-1] + (('lit', before),)))
                else:
                    e.prove(s, z3.BoolVal(len(txt) == 1 and before == ''), 'nothing is written between two sections')
                    s.set('tail', NONE)
                s.set('mode', CDATA)
                s.set('seg', B(s.ghost['done']))
                if rest:
                    emit(s, [('lit', rest)])
            else:
                s.set(key, txt)
    sink(e, emit)

    def tmpl(eng, L, ev):
        yield '!section starts here', lambda v: B(v.ghost('seg')) == B(v.ghost('done'))
        yield '!within', lambda v: ULE(B(v.ghost('done')), LN)
        for k in L.keys:
            if k[-1] == 64:
                yield '!done %s' % (k[1:],), lambda v, k=k: B(v.ghost('done')) == bv(v.num(k), 64)
    e.templates.append(tmpl)
    cf = shared(e, st, 'imf', im)
    for o in e.call(st, ctx.fn('^' + C + r'::writeXml\('), [Ptr(n), cf, Ptr(Region('cf')), z3.BitVec('indent', 32), force]):
        s = o.st
        if o.kind != 'ret':
            e.prove(s, z3.BoolVal(False), 'the text is written')
            continue
        m = s.ghost['mode']
        try:
            x = Xml(s.ghost['head'])
            nm, att, empty = x.open()
            e.prove(s, z3.BoolVal(nm == name and word(att.get('type', [])) == 'String' and set(att) == {'type'}), 'an element of the right name and type')
            if m is TAG:
                e.cover(s, 'nothing')
                if not empty:
                    x.close(nm)
                x.end()
                e.prove(s, LN == 0, 'only an empty string is left out')
            else:
                e.cover(s, 'text')
                e.prove(s, z3.BoolVal(m is CLOSED and not empty and x.peek() is None), 'the section is closed and nothing comes before it')
                e.prove(s, B(s.ghost['done']) == LN, 'the whole value is written')
                y = Xml(s.ghost['tail'])
                y.close(nm)
                y.end()
        except Bad as b:
            e.prove(s, z3.BoolVal(False), 'well-formed text: %s' % b)


# ------------------------------------------------------------------------------------------------ numbers, blobs
def leaf(ctx, kind, forced=False):
    """the text of an element, read by the parser's rules, gives back type, value and limits"""
    e, st, im = start(ctx, fpmode='exact')
    C = 'e57::%sNodeImpl' % kind
    n = node(e, st, 'element', im)
    V = lambda m, w=64: st.mem[n].setdefault(e.off(C, m), (w // 8, z3.BitVec(m, w)))[1]
    force, name = field(e, st, n, forced)
    fp = lambda b: z3.fpBVToFP(b, F64)
    finite = lambda b: z3.Not(z3.Or(z3.fpIsNaN(fp(b)), z3.fpIsInf(fp(b))))
    st.ghost['out'] = ()
    sink(e, lambda s, p: s.set('out', s.ghost['out'] + tuple(p)))
    L2P = z3.Function('logicalToPhysical', z3.BitVecSort(64), z3.BitVecSort(64))
    e.model(r'^e57::CheckedFile::logicalToPhysical', lambda eng, s, a, x: RET(s, L2P(B(a[-1]))))
    f = {}
    if kind in ('Integer', 'ScaledInteger'):
        f = dict(value=V('value_'), minimum=V('minimum_'), maximum=V('maximum_'))
        if kind == 'ScaledInteger':
            f.update(scale=V('scale_'), offset=V('offset_'))
            st.assume(z3.And(finite(f['scale']), finite(f['offset'])))
    elif kind == 'Float':
        f = dict(value=V('value_'), minimum=V('minimum_'), maximum=V('maximum_'), precision=V('precision_', 32))
        st.assume(z3.Or(f['precision'] == 1, f['precision'] == 2))
        st.assume(z3.And(*[finite(f[k]) for k in ('value', 'minimum', 'maximum')]))
        # as constructed (C08): the limits of a single-precision element lie in its range, and the value within the limits
        st.assume(z3.Implies(f['precision'] == 1, z3.And(z3.fpGEQ(fp(f['minimum']), z3.fpNeg(FMAX)), z3.fpLEQ(fp(f['maximum']), FMAX))))
        st.assume(z3.And(z3.fpLEQ(fp(f['minimum']), fp(f['value'])), z3.fpLEQ(fp(f['value']), fp(f['maximum']))))
    elif kind == 'Blob':
        f = dict(start=V('binarySectionLogicalStart_'), length=V('blobLogicalLength_'))
    cf = shared(e, st, 'imf', im)
    allowed = {'Integer': 'minimum maximum', 'ScaledInteger': 'minimum maximum scale offset', 'Float': 'precision minimum maximum', 'Blob': 'fileOffset length'}[kind].split()
    for o in e.call(st, ctx.fn('^' + C + r'::writeXml\('), [Ptr(n), cf, Ptr(Region('cf')), z3.BitVec('indent', 32), force]):
        s = o.st
        if o.kind != 'ret':
            e.prove(s, z3.BoolVal(False), 'the text is written')
            continue
        e.cover(s, 'written')
        try:
            x = Xml(s.ghost['out'])
            nm, att, empty = x.open()
            text = None
            if not empty:
                text = x.until('<') or None
                x.close(nm)
            x.end()
            e.prove(s, z3.BoolVal(nm == name and word(att.pop('type', [])) == kind and set(att) <= set(allowed)), 'an element of the right name and type')
            g = att.get
            if kind in ('Integer', 'ScaledInteger'):
                e.prove(s, integer(text, 0) == f['value'], 'the value reads back')
                e.prove(s, integer(g('minimum'), -1 << 63) == f['minimum'], 'the minimum reads back')
                e.prove(s, integer(g('maximum'), (1 << 63) - 1) == f['maximum'], 'the maximum reads back')
            if kind == 'ScaledInteger':
                e.prove(s, z3.fpEQ(real(g('scale'), z3.FPVal(1.0, F64)), fp(f['scale'])), 'the scale reads back')
                e.prove(s, z3.fpEQ(real(g('offset'), z3.FPVal(0.0, F64)), fp(f['offset'])), 'the offset reads back')
            if kind == 'Float':
                w = word(g('precision')) if g('precision') is not None else 'double'
                e.prove(s, {'single': f['precision'] == 1, 'double': f['precision'] == 2}.get(w, z3.BoolVal(False)), 'the precision reads back')
                single = w == 'single'
                top = FMAX if single else DMAX
                # what the reader makes of it, against what was stored, both at the declared precision
                def own(t):
                    if not single:
                        return t
                    if t.decl().kind() == z3.Z3_OP_FPA_TO_FP and t.num_args() == 2 and z3.is_fp(t.arg(1)) and t.arg(1).sort() == F32:
                        return t.arg(1)
                    return z3.fpFPToFP(z3.RNE(), t, F32)
                e.prove(s, z3.fpEQ(own(real(text, z3.FPVal(0.0, F64))), own(fp(f['value']))), 'the value reads back')
                e.prove(s, z3.fpEQ(own(real(g('minimum'), z3.fpNeg(top))), own(fp(f['minimum']))), 'the minimum reads back')
                e.prove(s, z3.fpEQ(own(real(g('maximum'), top)), own(fp(f['maximum']))), 'the maximum reads back')
            if kind == 'Blob':
                e.prove(s, z3.BoolVal(text is None and {'fileOffset', 'length'} <= set(att)), 'offset and length are given, and no text')
                e.prove(s, integer(g('fileOffset'), 0) == L2P(f['start']), 'the offset is that of the section')
                e.prove(s, integer(g('length'), 0) == f['length'], 'the length reads back')
        except Bad as b:
            e.prove(s, z3.BoolVal(False), 'well-formed text: %s' % b)


# ------------------------------------------------------------------------------------------------ numbers as text
def streams(e):
    """string streams by what was put into them"""
    idstr.streams(e)

    def write(st, p, piece, plain):
        k = 'text of %d' % p.reg.id
        if not plain and not st.ghost.get('locale of %d' % p.reg.id):
            piece = ('sym', ('grouped', piece[1]))
        st.set(k, st.ghost.get(k, ()) + (piece,))
    e.write_stream = write

    def num(kind, w):
        def f(eng, s, a, x):
            eng.write_stream(s, a[0], ('sym', (kind, bv(a[1], w) if w else bv(a[1], 64))), plain=False)
            return RET(s, a[0])
        return f
    A = e.model
    A(r'std::(basic_)?ostream(<.*>)?::operator<<\((unsigned )?long\)', num('int', 64))
    A(r'std::(basic_)?ostream(<.*>)?::operator<<\(double\)', num('double', 64))
    A(r'std::(basic_)?ostream(<.*>)?::operator<<\(float\)', num('float', 32))
    A(r'basic_(o|i)?stringstream<.*>::str\(\) const', lambda eng, s, a, x: (ps.put(eng, s, a[0], s.ghost.get('text of %d' % a[1].reg.id, ())), RET(s))[1])


def integer_text(ctx, sign):
    """CheckedFile << integer: plain decimal, whatever the global locale"""
    e, st, im = start(ctx)
    streams(e)
    e.model(r'^std::(__cxx11::)?to_string\((unsigned )?long\)', lambda eng, s, a, x: (ps.put(eng, s, a[0], [('sym', ('int', bv(a[1], 64)))]), RET(s))[1])
    st.ghost['out'] = ()
    cf = Region('cf')
    st.mem[cf] = {}
    e.model(OUT + ps.STR, lambda eng, s, a, x: (s.set('out', s.ghost['out'] + tuple(ps.get(eng, s, a[1]))), RET(s, a[0]))[1])
    v = z3.BitVec('v', 64)
    for o in e.call(st, ctx.fn(OUT + sign + r'long\)$'), [Ptr(cf), v]):
        s = o.st
        e.cover(s, 'written')
        e.prove(s, z3.BoolVal(o.kind == 'ret'), 'the number is written')
        p = ps.norm(s.ghost['out'])
        e.prove(s, p[0][1][1] == v if len(p) == 1 and p[0][1][0] == 'int' else z3.BoolVal(False), 'as its decimal digits and nothing else')


def real_text(ctx, kind):
    """CheckedFile << float/double: exactly the text of that number with at least as many digits as tell all numbers of the type apart (9 and 17 significant)"""
    e, st, im = start(ctx)
    st.ghost['out'] = ()
    cf = Region('cf')
    st.mem[cf] = {}

    def fmt(k, w):
        def f(eng, s, a, x):
            d = bv(a[2], 32)
            need = 16 if k == 'double' else 8
            eng.prove(s, z3.And(d >= need, d < 1000), 'enough digits to tell all numbers of the type apart')
            ps.put(eng, s, a[0], [('sym', (k, bv(a[1], w)))])
            return RET(s)
        return f
    e.model(r'floatingPointToStr<double>', fmt('double', 64))
    e.model(r'floatingPointToStr<float>', fmt('float', 32))
    e.model(OUT + ps.STR, lambda eng, s, a, x: (s.set('out', s.ghost['out'] + tuple(ps.get(eng, s, a[1]))), RET(s, a[0]))[1])
    w = 64 if kind == 'double' else 32
    v = z3.BitVec('v', w)
    F = F64 if w == 64 else F32
    st.assume(z3.Not(z3.fpIsNaN(z3.fpBVToFP(v, F))))
    for o in e.call(st, ctx.fn(OUT + kind + r'\)$'), [Ptr(cf), v]):
        s = o.st
        e.cover(s, 'written')
        e.prove(s, z3.BoolVal(o.kind == 'ret'), 'the number is written')
        p = flat(s.ghost['out'])
        try:
            x = real(p, None)
            e.prove(s, z3.fpEQ(x, z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(v, F), F64) if w == 32 else z3.fpBVToFP(v, F)), 'as the text of that number and nothing else')
        except Bad as b:
            e.prove(s, z3.BoolVal(False), 'as the text of that number and nothing else')


def format_real(ctx, kind):
    """floatingPointToStr: the number in scientific notation in the classic locale with the digits asked for, of which only zeros after the decimal point, a bare decimal point and
    a zero exponent are dropped"""
    E = z3.BitVec('E', 64)
    e, st, im = start(ctx, lambda s: [J, E])
    streams(e)
    w = 64 if kind == 'double' else 32
    v, prec = z3.BitVec('v', w), z3.BitVec('precision', 32)
    F = F64 if w == 64 else F32
    st.assume(z3.And(prec >= 1, prec <= 1000))
    st.assume(z3.Not(z3.Or(z3.fpIsNaN(z3.fpBVToFP(v, F)), z3.fpIsInf(z3.fpBVToFP(v, F)))))
    st.assume(ULT(J, B(1 << 62)))
    # what the standard library writes: [-]d.ddd…e±dd(d)
    neg, sx, xd = z3.Bool('negative'), z3.Bool('small'), z3.Bool('three digits')
    dot = simp(z3.If(neg, B(2), B(1)))
    LN = z3.BitVec('LN', 64)
    st.assume(z3.And(E == dot + 1 + z3.SignExt(32, prec), LN == E + z3.If(xd, B(5), B(4))))
    D = z3.Function('digit', z3.BitVecSort(64), z3.BitVecSort(8))
    dig = lambda j: 48 + z3.If(ULT(D(j) & 15, z3.BitVecVal(10, 8)), D(j) & 15, z3.BitVecVal(9, 8))
    c8 = lambda c: z3.BitVecVal(ord(c), 8)
    text = lambda j: z3.If(B(j) == dot, c8('.'), z3.If(B(j) == E, c8('e'), z3.If(B(j) == E + 1, z3.If(sx, c8('-'), c8('+')), z3.If(z3.And(neg, B(j) == 0), c8('-'), dig(B(j))))))
    fmt = e.new_bytes(st, 'formatted', LN, Func(lambda j: text(j)))

    def flags(eng, s, a, x):
        f = a[1]
        nm = f.reg.name if isinstance(f, Ptr) and f.reg is not None else '?'
        s.set('flags of %d' % a[0].reg.id, s.ghost.get('flags of %d' % a[0].reg.id, ()) + (nm,))
        return RET(s, a[0])
    e.model(r'ostream<.*>::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)', flags)
    e.model(r'^std::scientific\(std::ios_base&\)', lambda eng, s, a, x: (s.set('flags of %d' % a[0].reg.id, s.ghost.get('flags of %d' % a[0].reg.id, ()) + ('scientific',)), RET(s, a[0]))[1])
    e.model(r'^std::setprecision\(', lambda eng, s, a, x: RET(s, bv(a[0], 32)))
    e.model(r'operator<< <char, std::char_traits<char> ?>\(std::basic_ostream<char, std::char_traits<char> ?>&, std::_Setprecision\)', lambda eng, s, a, x: (s.set('precision of %d' % a[0].reg.id, bv(a[1], 32)), RET(s, a[0]))[1])
    e.model(r'^std::ios_base::precision\(long\)', lambda eng, s, a, x: (s.set('precision of %d' % a[0].reg.id, z3.Extract(31, 0, bv(a[1], 64))), RET(s, eng.fresh('old', 64)))[1])

    def text_of(eng, s, a, x):
        i = a[1].reg.id
        t = s.ghost.get('text of %d' % i, ())
        if len(t) != 1:
            raise Unsupported('formatting with more than the number')
        k, val = t[0][1]
        eng.prove(s, z3.BoolVal(k != 'grouped'), 'the classic locale is used')
        fl = s.ghost.get('flags of %d' % i, ())
        if not any('scientific' in n for n in fl) or any('fixed' in n for n in fl):
            raise Unsupported('another notation')
        if k == 'grouped':
            val = val[1]
        p = s.ghost.get('precision of %d' % i)
        eng.prove(s, z3.BoolVal(False) if p is None else p == prec, 'the digits asked for')
        if val.size() == w:
            eng.prove(s, val == v, 'the number given')
        else:
            raise Unsupported('converted before formatting')
        ps.put(eng, s, a[0], [('range', fmt, B(0), LN)])
        return RET(s)
    e.model(r'basic_(o|i)?stringstream<.*>::str\(\) const', text_of)
    at = lambda j: text(simp(j))

    def tmpl(eng, L, ev):
        for k in L.keys:
            n = lambda v, k=k: bv(v.num(k), 64)
            yield '!upto %s' % (k[1:],), lambda v, n=n: ULE(n(v), E)
            yield '!beyond the point %s' % (k[1:],), lambda v, n=n: ULT(dot, n(v))
            yield '!zeros %s' % (k[1:],), lambda v, n=n: z3.Implies(z3.And(ULE(n(v), J), ULT(J, E)), at(J) == 48)
    e.templates.append(tmpl)
    out = Region('result')
    st.mem[out] = {}
    for o in e.call(st, ctx.fn(r'floatingPointToStr<%s>\(' % kind), [Ptr(out), v, prec]):
        s = o.st
        if o.kind != 'ret':
            e.prove(s, z3.BoolVal(False), 'never fails')
            continue
        e.cover(s, 'formatted')
        r = ps.get(e, s, Ptr(out))
        if not r or any(p[0] != 'range' or p[1] is not fmt for p in r) or len(r) > 2:
            e.prove(s, z3.BoolVal(False), 'made of the formatted number')
            continue
        _, _, a0, n0 = r[0]
        e.prove(s, z3.And(a0 == 0, ULE(n0, LN)), 'the digits from the first on')
        if len(r) == 1:
            whole = n0 == LN
            e.prove(s, z3.Or(whole, z3.And(at(E + 2) == 48, at(E + 3) == 48, z3.Or(z3.Not(xd), at(E + 4) == 48), ULE(n0, E))), 'only a zero exponent is dropped')
            gone = z3.And(z3.Not(whole), ULE(n0, J), ULT(J, E))
        else:
            _, _, a1, n1 = r[1]
            e.prove(s, z3.And(a1 == E, n1 == LN - E, ULE(n0, E)), 'the exponent follows, complete')
            gone = z3.And(ULE(n0, J), ULT(J, E))
        e.prove(s, z3.Implies(gone, z3.Or(z3.And(ULT(dot, J), at(J) == 48), J == dot)), 'only zeros after the decimal point are dropped')


def parse_real(ctx):
    """strToDouble: the number is read in the classic locale"""
    e, st, im = start(ctx)
    streams(e)
    R = z3.BitVec('number', 64)
    src = Region('text')
    st.mem[src] = {}
    ps.put(e, st, Ptr(src), [('sym', 'digits')])

    def made(eng, s, a, x):
        # the virtual base's place, then the text
        s.set('source of %d' % a[0].reg.id, tuple(ps.get(eng, s, a[1])))
        return first(eng, s, a, 'std::__cxx11::basic_istringstream<')
    first = [m for m in e.models if 'stringstream<.*>::basic_' in m[0].pattern][-1][1]
    e.model(r'basic_istringstream<.*>::basic_istringstream\(' + ps.STR, made)

    def read(eng, s, a, x):
        i = a[0].reg.id
        eng.prove(s, z3.BoolVal(s.ghost.get('source of %d' % i) == (('sym', 'digits'),)), 'the text given is read')
        eng.prove(s, z3.BoolVal(bool(s.ghost.get('locale of %d' % i))), 'the classic locale is used')
        eng.store(s, a[1], ('fp', 64), R)
        return RET(s, a[0])
    e.model(r'basic_istream<.*>::operator>>\(double&\)|std::istream::operator>>\(double&\)', read)
    for o in e.call(st, ctx.fn(r'^e57::strToDouble\('), [Ptr(src)]):
        e.cover(o.st, 'read')
        e.prove(o.st, z3.And(z3.BoolVal(o.kind == 'ret'), bv(o.val, 64) == R), 'the number read is returned')


# ------------------------------------------------------------------------------------------------ containers
def container(ctx, arg):
    """the text of a container: its own tag with its attributes, every child once and in order inside it, under the name it reads back with"""
    kind, forced = arg
    e, st, im = start(ctx)
    e.bool_bytes = True
    C = 'e57::%sNodeImpl' % kind
    n = node(e, st, 'element', im)
    force, name = field(e, st, n, forced)
    other = Region('root')
    st.mem[im][e.off('e57::ImageFileImpl', 'root_')] = (8, Ptr(other))
    st.mem[im][e.off('e57::ImageFileImpl', 'root_') + 8] = (8, Ptr(Region('ctl')))
    e.model(r'^e57::NodeImpl::isRoot\(', lambda eng, s, a, x: RET(s, z3.Bool('top of its tree')))

    def rooted(eng, s, a, x):
        eng.write_cell(s, a[0].reg, a[0].off, 8, Ptr(other))
        eng.write_cell(s, a[0].reg, eng._addoff(a[0].off, 8, 64, 1), 8, Ptr(Region('ctl')))
        return RET(s)
    e.model(r'^e57::ImageFileImpl::root\(', rooted)
    st.ghost.update(out=(), told=B(0), kids=())
    sink(e, lambda s, p: s.set('out', s.ghost['out'] + tuple(p)))
    L2P = z3.Function('logicalToPhysical', z3.BitVecSort(64), z3.BitVecSort(64))
    e.model(r'^e57::CheckedFile::logicalToPhysical', lambda eng, s, a, x: RET(s, L2P(B(a[-1]))))
    cf = Region('cf')

    def inside(eng, s, a):
        ok = a[2].reg is cf
        try:
            x = Xml(s.ghost['out'])
            _, _, empty = x.open()
            x.end()
            ok = ok and not empty
        except Bad:
            ok = False
        eng.prove(s, z3.BoolVal(ok), 'children are written inside the element')
        return ps.of_ptr(eng, s, a[4]) if a[4] is not NULL and isinstance(a[4], Ptr) and a[4].reg is not None else None
    N = None
    if kind == 'CompressedVector':
        has = {}
        for m in ('prototype', 'codecs'):
            def told(eng, s, a, x, m=m):
                nm = inside(eng, s, a)
                eng.prove(s, z3.BoolVal(nm is not None and ps.norm(nm) == (('lit', m),) and m not in s.ghost['kids']), 'under the name it is read back by, once')
                s.set('kids', s.ghost['kids'] + (m,))
                return RET(s)
            x = lfile.vobject(e, st, m, lambda slot, t=told: t if slot == 8 else None)
            st.mem[n][e.off(C, m + '_')] = (8, Ptr(x))
            st.mem[n][e.off(C, m + '_') + 8] = (8, Ptr(Region('ctl')))
        start_, count = [st.mem[n].setdefault(e.off(C, m), (8, z3.BitVec(m, 64)))[1] for m in ('binarySectionLogicalStart_', 'recordCount_')]
    else:
        def told(eng, s, a, x):
            eng.prove(s, B(a[0].off) == B(s.ghost['told']) * 16, 'each child in turn')
            nm = inside(eng, s, a)
            eng.prove(s, z3.BoolVal(nm is None if kind == 'Structure' else True), 'under its own name')
            s.set('told', simp(B(s.ghost['told']) + 1))
            return RET(s)
        N, kid, tab = children(e, st, n, {8: told})
        hetero = z3.Bool('heterogeneous')
        if kind == 'Vector':
            st.mem[n][e.off(C, 'allowHeteroChildren_')] = (1, z3.If(hetero, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))

        def tmpl(eng, L, ev):
            yield from aligned(L, tab, 16, N)
            yield '!told', lambda v: ULE(B(v.ghost('told')), N)
            for k, at in iterators(L, tab, 16):
                yield '!told before %s' % (k[1],), lambda v, at=at: B(v.ghost('told')) * 16 == at(v)
        e.templates.append(tmpl)
    for o in e.call(st, ctx.fn('^' + C + r'::writeXml\('), [Ptr(n), shared(e, st, 'imf', im), Ptr(cf), z3.BitVec('indent', 32), force]):
        s = o.st
        if o.kind != 'ret':
            e.prove(s, z3.BoolVal(False), 'the text is written')
            continue
        e.cover(s, 'written')
        try:
            x = Xml(s.ghost['out'])
            nm, att, empty = x.open()
            if not empty:
                x.ws()
                x.close(nm)
            x.end()
            e.prove(s, z3.BoolVal(nm == name and word(att.pop('type', [])) == kind), 'an element of the right name and type')
            if kind == 'CompressedVector':
                e.prove(s, z3.BoolVal(s.ghost['kids'] == ('prototype', 'codecs') and set(att) == {'fileOffset', 'recordCount'}), 'prototype and codecs inside it')
                e.prove(s, z3.And(integer(att.get('fileOffset'), 0) == L2P(start_), integer(att.get('recordCount'), 0) == count), 'with the place of its records and their count')
            else:
                e.prove(s, B(s.ghost['told']) == N, 'every child, once')
                if kind == 'Vector':
                    e.prove(s, z3.And(z3.BoolVal(set(att) <= {'allowHeterogeneousChildren'}), (integer(att.get('allowHeterogeneousChildren'), 0) == 1) == hetero, ULE(integer(att.get('allowHeterogeneousChildren'), 0), B(1))), 'saying whether different children are allowed')
                else:
                    e.prove(s, z3.BoolVal(not att), 'without attributes of its own')
        except Bad as b:
            e.prove(s, z3.BoolVal(False), 'well-formed text: %s' % b)


# ------------------------------------------------------------------------------------------------ reading
XP, PI = 'e57::E57XmlParser', 'ParseInfo'
INT = lambda k: z3.BitVec('integer %s' % k, 64)
REAL = lambda k: z3.BitVec('real %s' % k, 64)
P2L = z3.Function('physicalToLogical', z3.BitVecSort(64), z3.BitVecSort(64))
TYPES = {'Structure': 1, 'Vector': 2, 'CompressedVector': 3, 'Integer': 4, 'ScaledInteger': 5, 'Float': 6, 'String': 7, 'Blob': 8}


def parser(ctx, **kw):
    e, st, im = start(ctx, **kw)
    e.bool_bytes = True
    this = Region('parser')
    c = st.mem[this] = {}
    o = e.off(XP, 'imf_')
    c[o], c[o + 8] = (8, Ptr(im)), (8, Ptr(Region('ctl')))

    def text(eng, s, a, x):
        p = a[1]
        t = p.reg.meta.get('text') if isinstance(p, Ptr) and p.reg is not None else None
        ps.put(eng, s, a[0], t if t is not None else [('sym', 'text of ' + (p.reg.name if p.reg is not None else '?'))])
        return RET(s)
    e.model(r'toUString', text)

    def number(eng, s, a, x):
        eng.prove(s, bv(a[2], 32) == 10, 'integers are decimal')
        t = ps.of_ptr(eng, s, a[0])
        return RET(s, INT(t[0][1]) if len(t) == 1 and t[0][0] == 'sym' else eng.fresh('number', 64))
    e.model(r'^strtoll$|^strtoll\(|^__isoc23_strtoll', number)
    e.model(r'^e57::strToDouble\(', lambda eng, s, a, x: RET(s, (lambda t: REAL(t[0][1]) if len(t) == 1 and t[0][0] == 'sym' else eng.fresh('number', 64))(ps.get(eng, s, a[0]))))
    e.model(r'^e57::CheckedFile::physicalToLogical', lambda eng, s, a, x: RET(s, P2L(B(a[-1]))))
    e.model(r'E57XmlParser::ParseInfo::~ParseInfo', models.nop)
    e.model(r'^std::(__)?shared_ptr<e57::\w+NodeImpl.*>::(__)?shared_ptr<e57::\w+NodeImpl, void>\(e57::\w+NodeImpl\*\)', lambda eng, s, a, x: (eng.write_cell(s, a[0].reg, a[0].off, 8, a[1]), eng.write_cell(s, a[0].reg, eng._addoff(a[0].off, 8, 64, 1), 8, Ptr(Region('ctl'))), RET(s))[2])
    return e, st, im, this


def xmlstr(st, name, text):
    r = Region(name)
    r.meta['text'] = text
    st.mem[r] = {}
    return Ptr(r, 0)


def wide(eng, st, p):
    """the name a constant of 16-bit characters spells"""
    t = ''
    for k in range(64):
        c = simp(eng.load(st, Ptr(p.reg, eng._addoff(p.off, 2 * k, 64, 1)), I(16)))
        if not isc(c):
            raise Unsupported('attribute name')
        if c == 0:
            return t
        t += chr(c)
    raise Unsupported('attribute name')


def reading(ctx, arg):
    """E57XmlParser::startElement: type and limits of the new element are those the attributes give, or the defaults where an attribute is absent; a required attribute that is absent and
    an unknown type or precision are refused"""
    kind, prec = arg if isinstance(arg, tuple) else (arg, None)
    e, st, im, this = parser(ctx, fpmode='exact')
    given = lambda k: z3.Bool('has ' + k)
    fixed = {'type': kind}
    if prec is not None and prec != 'absent':
        fixed['precision'] = prec
    NAMES = ['type', 'minimum', 'maximum', 'scale', 'offset', 'precision', 'fileOffset', 'length', 'recordCount', 'allowHeterogeneousChildren']

    def has(k):
        if k in fixed:
            return z3.BoolVal(True)
        if k == 'precision' or (kind is None and k == 'type'):
            return z3.BoolVal(False)
        return given(k)

    def lookup(eng, s, a, x):
        k = wide(eng, s, a[1])
        if k not in NAMES:
            NAMES.append(k)
        out = []
        for yes in (True, False):
            t = s.fork()
            c = has(k) if yes else z3.Not(has(k))
            if not eng.feasible(t, c):
                continue
            t.assume(c)
            if yes:
                eng.store(t, a[2], I(64), NAMES.index(k))
            out += RET(t, yes)
        return out

    def get(eng, s, a, x):
        i = simp(a[1])
        if not isc(i) or i >= len(NAMES):
            raise Unsupported('attribute by number')
        k = NAMES[i]
        return RET(s, xmlstr(s, 'attribute ' + k, [('lit', fixed[k])] if k in fixed else [('sym', k)]))

    def handlers(slot):
        return {7: get, 10: lookup}.get(slot)
    att = lfile.vobject(e, st, 'attributes', handlers)
    made = {}

    def ctor(eng, s, a, x):
        made['class'] = eng.mod.dem.get(x, x).split('::')[1]
        made['at'] = a[0]
        made['arg'] = a[2:]
        s.set('made', (made['class'], a[0].reg, tuple(a[2:])))
        return RET(s)
    e.model(r'^e57::(Structure|Vector|CompressedVector)NodeImpl::\w+NodeImpl\(', ctor)
    st.ghost.update(made=None, pushed=None, count=None, where=None)
    e.model(r'^e57::CompressedVectorNodeImpl::setRecordCount', lambda eng, s, a, x: (s.set('count', (a[0].reg, bv(a[1], 64))), RET(s))[1])
    e.model(r'^e57::CompressedVectorNodeImpl::setBinarySectionLogicalStart', lambda eng, s, a, x: (s.set('where', (a[0].reg, bv(a[1], 64))), RET(s))[1])

    def push(eng, s, a, x):
        eng.prove(s, z3.BoolVal(s.ghost['pushed'] is None), 'one element is begun')
        f = lambda m, w: bv(eng.load(s, Ptr(a[1].reg, eng._addoff(a[1].off, eng.off(PI, m), 64, 1)), I(w)), w)
        q = eng.load(s, Ptr(a[1].reg, eng._addoff(a[1].off, eng.off(PI, 'container_ni'), 64, 1)), PTR)
        d = {m: f(m, w) for m, w in (('nodeType', 32), ('minimum', 64), ('maximum', 64), ('scale', 64), ('offset', 64), ('precision', 32), ('floatMinimum', 64), ('floatMaximum', 64), ('fileOffset', 64), ('length', 64))}
        d['container'] = q
        d['text'] = ps.get(eng, s, Ptr(a[1].reg, eng._addoff(a[1].off, eng.off(PI, 'childText'), 64, 1)))
        s.set('pushed', d)
        return RET(s)
    e.model(r'^std::stack<e57::E57XmlParser::ParseInfo, .*>::(push|emplace)', push)
    local = xmlstr(st, 'localName', [('lit', 'element')])
    required = {'Blob': ['fileOffset', 'length'], 'CompressedVector': ['fileOffset', 'recordCount']}.get(kind, [])
    fp = lambda b: z3.fpBVToFP(b, F64)
    for o in e.call(st, ctx.fn('^' + XP + r'::startElement\('), [Ptr(this), xmlstr(st, 'uri', [('sym', 'uri')]), local, xmlstr(st, 'qName', [('sym', 'qName')]), Ptr(att)]):
        s = o.st
        d = s.ghost['pushed']
        if o.kind != 'ret':
            e.cover(s, 'refused')
            bad = [z3.Not(has(k)) for k in required]
            if kind not in TYPES or prec == 'other':
                bad.append(z3.BoolVal(True))
            if kind == 'Vector':
                h = INT('allowHeterogeneousChildren')
                bad.append(z3.And(has('allowHeterogeneousChildren'), h != 0, h != 1))
            e.prove(s, z3.Or(*bad) if bad else z3.BoolVal(False), 'only a missing or unknown attribute is refused')
            e.prove(s, z3.And(bv(o.val.code, 32) == 12, z3.BoolVal(d is None)), 'as badly formatted')
            continue
        e.cover(s, 'begun')
        if d is None or kind not in TYPES or prec == 'other':
            e.prove(s, z3.BoolVal(False), 'an element of a known type is begun')
            continue
        e.prove(s, d['nodeType'] == TYPES[kind], 'the type is the one named')
        e.prove(s, z3.And(*[has(k) for k in required]) if required else z3.BoolVal(True), 'required attributes are there')
        e.prove(s, z3.BoolVal(not d['text']), 'no text yet')
        sel = lambda k, read, default: z3.If(has(k), read(k), default)
        if kind in ('Integer', 'ScaledInteger'):
            e.prove(s, d['minimum'] == sel('minimum', INT, B(1 << 63)), 'minimum as given, or the default')
            e.prove(s, d['maximum'] == sel('maximum', INT, B((1 << 63) - 1)), 'maximum as given, or the default')
        if kind == 'ScaledInteger':
            one, zero = z3.fpToIEEEBV(z3.FPVal(1.0, F64)), B(0)
            e.prove(s, d['scale'] == sel('scale', REAL, one), 'scale as given, or the default')
            e.prove(s, d['offset'] == sel('offset', REAL, zero), 'offset as given, or the default')
        if kind == 'Float':
            single = prec == 'single'
            e.prove(s, d['precision'] == (1 if single else 2), 'precision as given, or double')
            top = FMAX if single else DMAX
            nan = lambda t: z3.fpIsNaN(t)
            own = (lambda t: z3.fpFPToFP(z3.RNE(), t, F32)) if single else (lambda t: t)
            for k, m, dflt in (('minimum', 'floatMinimum', z3.fpNeg(top)), ('maximum', 'floatMaximum', top)):
                want = z3.If(has(k), fp(REAL(k)), dflt)
                back = z3.fpFPToFP(z3.RNE(), own(want), F64) if single else want
                e.prove(s, z3.Or(nan(want), z3.fpEQ(fp(d[m]), back)), k + ' as given, or the default')
        if kind == 'Blob':
            e.prove(s, z3.And(d['fileOffset'] == INT('fileOffset'), d['length'] == INT('length')), 'offset and length as given')
        if kind in ('Structure', 'Vector', 'CompressedVector'):
            mk = s.ghost['made']
            e.prove(s, z3.BoolVal(mk is not None and mk[0] == kind + 'NodeImpl' and isinstance(d['container'], Ptr) and d['container'].reg is mk[1]), 'a container of that type takes the children')
            if mk is not None and kind == 'Vector':
                want = z3.And(has('allowHeterogeneousChildren'), INT('allowHeterogeneousChildren') == 1)
                e.prove(s, zb(mk[2][0]) == want if mk[2] else z3.BoolVal(False), 'different children are allowed exactly if so given')
            if kind == 'CompressedVector':
                n, w = s.ghost['count'], s.ghost['where']
                e.prove(s, z3.And(n[1] == INT('recordCount'), z3.BoolVal(n[0] is mk[1])) if n else z3.BoolVal(False), 'the record count is the one given')
                e.prove(s, z3.And(w[1] == P2L(INT('fileOffset')), z3.BoolVal(w[0] is mk[1])) if w else z3.BoolVal(False), 'the section is where the offset says')


def ending(ctx, arg):
    """E57XmlParser::endElement: the finished element has the value its text gives (or zero) with the limits begun with, an explicit value outside them is refused, and the element
    becomes the child of the one around it, under its name"""
    kind, parent = arg
    e, st, im, this = parser(ctx, fpmode='exact')
    E = TYPES.get(kind)

    def info(name, cells):
        r = Region(name)
        st.mem[r] = {}
        for m, w in (('nodeType', 32), ('minimum', 64), ('maximum', 64), ('scale', 64), ('offset', 64), ('precision', 32), ('floatMinimum', 64), ('floatMaximum', 64), ('fileOffset', 64), ('length', 64), ('recordCount', 64)):
            st.mem[r][e.off(PI, m)] = (w // 8, cells.get(m, z3.BitVec('%s.%s' % (name, m), w)))
        st.mem[r][e.off(PI, 'allowHeterogeneousChildren')] = (1, z3.BitVec(name + '.hetero', 8))
        q = cells.get('container', NULL)
        st.mem[r][e.off(PI, 'container_ni')] = (8, q)
        st.mem[r][e.off(PI, 'container_ni') + 8] = (8, Ptr(Region('ctl')) if q is not NULL else NULL)
        ps.put(e, st, Ptr(r, e.off(PI, 'childText')), cells.get('text', ()))
        return r
    st.ghost.update(depth=0, made=None, checked=False, child=None, root=None)
    own = lfile.vobject(e, st, 'container', lambda slot: (lambda eng, s, a, x: RET(s, E)) if slot == 0 else None)

    def attach(how, at=1):
        def f(eng, s, a, x):
            eng.prove(s, z3.BoolVal(s.ghost['child'] is None), 'attached once')
            p = eng.load(s, a[-2] if how == 'name' else a[1], PTR)
            s.set('child', (how, a[0].reg, p.reg if isinstance(p, Ptr) else None, tuple(ps.get(eng, s, a[1])) if how == 'name' else ()))
            return RET(s)
        return f
    T = TYPES.get(parent, 0)
    up = lfile.vobject(e, st, 'parent', lambda slot: {0: (lambda eng, s, a, x: RET(s, T)), 5: attach('name'), 16: attach('append')}.get(slot))
    e.model(r'^e57::StructureNodeImpl::set\(' + ps.STR, attach('name'))
    e.model(r'^e57::(Structure|Vector)NodeImpl::append\(', attach('append'))
    e.model(r'^e57::CompressedVectorNodeImpl::setPrototype\(', attach('prototype'))
    e.model(r'^e57::CompressedVectorNodeImpl::setCodecs\(', attach('codecs'))
    e.model(r'^e57::VectorNodeImpl::allowHeteroChildren\(', lambda eng, s, a, x: RET(s, z3.Bool('heterogeneous')))
    txt = z3.Bool('has text')
    has = []
    box = {}
    cells = {'nodeType': z3.BitVecVal(E, 32), 'text': [('sym', 'child text')]}
    if kind in ('Structure', 'Vector', 'CompressedVector'):
        cells['container'] = Ptr(own)
        cells['text'] = ()
    cur = info('current', cells)
    above = info('above', {'container': Ptr(up) if parent in TYPES and parent in ('Structure', 'Vector', 'CompressedVector') else NULL})
    e.model(r'^std::stack<e57::E57XmlParser::ParseInfo, .*>::top\(', lambda eng, s, a, x: RET(s, Ptr(cur if s.ghost['depth'] == 0 else above)))
    e.model(r'^std::stack<e57::E57XmlParser::ParseInfo, .*>::pop\(', lambda eng, s, a, x: (eng.prove(s, z3.BoolVal(s.ghost['depth'] == 0), 'one element is ended'), s.set('depth', 1), RET(s))[2])
    e.model(r'^std::stack<e57::E57XmlParser::ParseInfo, .*>::empty\(', lambda eng, s, a, x: RET(s, parent == 'none'))

    def ctor(eng, s, a, x):
        c = eng.mod.dem.get(x, x).split('::')[1]
        vt = Region('vtable')
        h = Region('type', size=0)
        h.meta['vslot'] = lambda eng2, s2, a2, x2: RET(s2, E)
        vt.ptrhook = lambda e2, s2, reg, off: Ptr(h, 0)
        s.mem[vt] = {}
        eng.write_cell(s, a[0].reg, a[0].off, 8, Ptr(vt, 0))
        s.set('made', (c, a[0].reg, tuple(ps.get(eng, s, v) if i == 0 and 'StringNode' in c else v for i, v in enumerate(a[2:]))))
        return RET(s)
    e.model(r'^e57::(Integer|ScaledInteger|Float|String|Blob)NodeImpl::\w+NodeImpl\(', ctor)

    def validate(eng, s, a, x):
        t = s.fork()
        s.set('checked', True)
        t.set('checked', True)
        t.set('outside', True)
        return RET(s) + eng.throw_e57(t, 35)
    e.model(r'^e57::(Integer|ScaledInteger|Float)NodeImpl::validateValue', validate)
    n = B(0)
    LN = ps.size(('sym', 'child text'))
    name = {'CompressedVector': [('lit', 'prototype')], 'CompressedVector codecs': [('lit', 'codecs')]}
    qn = [('sym', 'qName')]
    want = 'name'
    if parent == 'Vector':
        want = 'append'
    if parent == 'CompressedVector':
        qn, want = ([('lit', 'codecs')], 'codecs') if kind == 'Vector' else ([('lit', 'prototype')], 'prototype')
    fp = lambda b: z3.fpBVToFP(b, F64)
    F = lambda m, w=64: z3.BitVec('current.' + m, w)
    for o in e.call(st, ctx.fn('^' + XP + r'::endElement\('), [Ptr(this), xmlstr(st, 'uri', [('sym', 'uri')]), xmlstr(st, 'localName', [('sym', 'localName')]), xmlstr(st, 'qName', qn)]):
        s = o.st
        mk = s.ghost['made']
        if o.kind != 'ret':
            e.cover(s, 'refused')
            why = [z3.BoolVal(bool(s.ghost.get('outside')))]
            if parent not in ('Structure', 'Vector', 'CompressedVector', 'none') or (parent == 'none' and kind != 'Structure'):
                why.append(bv(o.val.code, 32) == 12)
            if want == 'codecs':
                why.append(z3.And(bv(o.val.code, 32) == 12, z3.Not(z3.Bool('heterogeneous'))))
            e.prove(s, z3.And(z3.Or(*why), z3.BoolVal(s.ghost['child'] is None)), 'refused only for a value outside its limits or a wrong place')
            continue
        e.cover(s, 'ended')
        node = own if 'container' in cells else (mk[1] if mk else None)
        if 'container' not in cells:
            ok = mk is not None and mk[0] == kind + 'NodeImpl'
            e.prove(s, z3.BoolVal(ok), 'an element of the type begun is made')
            if not ok:
                continue
            v = mk[2]
            if kind in ('Integer', 'ScaledInteger', 'Float'):
                e.prove(s, z3.BoolVal(s.ghost['checked']) if s.ghost['checked'] else LN == 0, 'an explicit value is checked against the limits')
            if kind in ('Integer', 'ScaledInteger'):
                e.prove(s, bv(v[0], 64) == z3.If(LN != 0, INT('child text'), B(0)), 'the value is the one in the text, or zero')
                e.prove(s, z3.And(bv(v[1], 64) == F('minimum'), bv(v[2], 64) == F('maximum')), 'with the limits begun with')
            if kind == 'ScaledInteger':
                e.prove(s, z3.And(bv(v[3], 64) == F('scale'), bv(v[4], 64) == F('offset')), 'with the scale and offset begun with')
            if kind == 'Float':
                single = F('precision', 32) == 1
                t = z3.If(LN != 0, fp(REAL('child text')), z3.FPVal(0.0, F64))
                g = fp(bv(v[0], 64))
                r32 = lambda x: z3.fpFPToFP(z3.RNE(), x, F32)
                e.prove(s, z3.Or(z3.fpIsNaN(t), z3.fpEQ(g, z3.If(single, z3.fpFPToFP(z3.RNE(), r32(t), F64), t))), 'the value is the one in the text, or zero, as the precision has it')
                e.prove(s, z3.And(bv(v[1], 32) == F('precision', 32), bv(v[2], 64) == F('floatMinimum'), bv(v[3], 64) == F('floatMaximum')), 'with the precision and limits begun with')
            if kind == 'String':
                e.prove(s, z3.BoolVal(ps.norm(v[0]) == (('sym', 'child text'),)), 'the value is the text')
            if kind == 'Blob':
                e.prove(s, z3.And(bv(v[0], 64) == F('fileOffset'), bv(v[1], 64) == F('length')), 'at the offset, of the length begun with')
        if parent == 'none':
            r = e.load(s, Ptr(im, e.off('e57::ImageFileImpl', 'root_')), PTR)
            e.prove(s, z3.BoolVal(kind == 'Structure' and isinstance(r, Ptr) and r.reg is node), 'the outermost structure becomes the root')
            continue
        ch = s.ghost['child']
        e.prove(s, z3.BoolVal(ch is not None and ch[0] == want and ch[1] is up and ch[2] is node and (want != 'name' or ch[3] == tuple(qn))), 'it becomes the child of the element around it, under its name')
        if want == 'codecs':
            e.prove(s, z3.Bool('heterogeneous'), 'codecs allow different children')


def chunk(ctx, kind):
    """E57XmlParser::characters: text of a value is collected piece after piece; containers hold nothing but white space"""
    e, st, im, this = parser(ctx)
    r = Region('current')
    st.mem[r] = {e.off(PI, 'nodeType'): (4, TYPES[kind])}
    ps.put(e, st, Ptr(r, e.off(PI, 'childText')), [('sym', 'so far')])
    e.model(r'^std::stack<e57::E57XmlParser::ParseInfo, .*>::top\(', lambda eng, s, a, x: RET(s, Ptr(r)))
    white = z3.Bool('white space only')

    def search(eng, s, a, x):
        eng.prove(s, z3.BoolVal(set(''.join(p[1] for p in ps.of_ptr(eng, s, a[1]))) == set(' \t\n\r') and ps.get(eng, s, a[0]) == (('sym', 'piece'),)), 'white space is blank, tab, line feed and return')
        t = s.fork()
        s.assume(white)
        t.assume(z3.Not(white))
        p = eng.fresh('place', 64)
        t.assume(p != ps.NPOS)
        return RET(s, B(ps.NPOS)) + RET(t, p)
    e.model(ps.S + r'::find_first_not_of\(char const\*, unsigned long\) const', search)
    for o in e.call(st, ctx.fn('^' + XP + r'::characters\('), [Ptr(this), xmlstr(st, 'chars', [('sym', 'piece')]), z3.BitVec('length', 64)]):
        s = o.st
        now = ps.get(e, s, Ptr(r, e.off(PI, 'childText')))
        if kind in ('Structure', 'Vector', 'CompressedVector', 'Blob'):
            e.cover(s, 'accepted' if o.kind == 'ret' else 'refused')
            e.prove(s, white if o.kind == 'ret' else z3.And(z3.Not(white), bv(o.val.code, 32) == 12), 'anything but white space is refused')
            e.prove(s, z3.BoolVal(now == (('sym', 'so far'),)), 'nothing is collected')
        else:
            e.cover(s, 'collected')
            e.prove(s, z3.BoolVal(o.kind == 'ret' and now == (('sym', 'so far'), ('sym', 'piece'))), 'the piece is added behind the text so far')


UNITS = [Unit('string', string, arg=0), Unit('string forced', string, arg=1)] + \
    [Unit('write ' + k, leaf, arg=k) for k in ('Integer', 'ScaledInteger', 'Float', 'Blob')] + \
    [Unit('integer text', integer_text, arg=''), Unit('unsigned text', integer_text, arg='unsigned ')] + \
    [Unit(k + ' text', real_text, arg=k) for k in ('float', 'double')] + [Unit('format ' + k, format_real, arg=k) for k in ('float', 'double')] + \
    [Unit('parse real', parse_real)] + [Unit('write %s%s' % (k, ', forced name' if f else ''), container, arg=(k, f)) for k in ('Structure', 'Vector', 'CompressedVector') for f in (False, True)] + [Unit('start ' + k, reading, arg=k) for k in ('Integer', 'ScaledInteger', 'String', 'Blob', 'Structure', 'Vector', 'CompressedVector', 'Other')] + \
    [Unit('start Float ' + p, reading, arg=('Float', p)) for p in ('absent', 'single', 'double', 'other')] + \
    [Unit('end %s in %s' % (k, p), ending, arg=(k, p)) for p in ('Structure', 'Vector', 'CompressedVector', 'nothing', 'none') for k in TYPES] + \
    [Unit('characters in ' + k, chunk, arg=k) for k in TYPES]
ASSUMPTIONS = [
    'XML semantics (Xerces): attribute values and character data reach the handler as written, a CDATA section ends at the first "]]>", adjacent sections and text are handed over in order and complete, line ends and control characters are outside what XML can carry',
    'toUString hands the handler the UTF-8 form of the parser\'s text (native harness only)',
    'libstdc++ writes the shortest-exponent scientific form with the digits asked for; 9 / 17 significant digits read back to the same single / double value (IEEE 754 with correctly rounded conversion)',
    'strtoll reads the decimal text of an integer as that integer; the exact extraction of a real is the standard library\'s',
    'stored real values are finite; the limits of a single-precision element lie in its range and the value within its limits (C08)',
    'the namespace declarations on the root element and the escaping of their addresses are decided by the native harness only',
    'element names contain no character that is special in XML (C13)',
    'std::stack, shared_ptr and operator new behave as the standard says',
]

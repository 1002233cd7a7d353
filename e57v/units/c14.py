import re
import z3
from ..sym import Ptr, State, Region, Unsupported, Exc, Outcome, ULT, ULE, bv, simp, ite, isc, zb, NULL
from ..ir import I, PTR
from ..unit import Unit
from ..models import RET
from ..filemodel import B
from .. import lfile, idstr
from .c20 import table, const_part, iterators, aligned, Records, vtable

NATIVE = 'c14'
NATIVE_MS = 15000
IM, NI, SN, VN, CV = 'e57::ImageFileImpl', 'e57::NodeImpl', 'e57::StructureNodeImpl', 'e57::VectorNodeImpl', 'e57::CompressedVectorNodeImpl'
ONE, ZERO = z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)
K = z3.BitVec('anychild', 64)       # an arbitrary child: what is shown for it holds for each
BV64 = z3.BitVecSort(64)
NAME = z3.Function('childName', BV64, BV64)
SETTWICE, HOMOGENEOUS, INDEX, UNDEFINED, HASPARENT, DIFFERENT = 4, 5, 3, 22, 43, 44
STRIDE = 1 << 12


def within(off):
    """the constant position within an object of the chain"""
    if isc(off):
        return off & (STRIDE - 1)
    c = simp(z3.Extract(11, 0, off))
    return c if isc(c) else const_part(off, STRIDE)


def this_at(e, a):
    """shared_from_this: the object the base class belongs to"""
    off = simp(a.off)
    c = within(off)
    return Ptr(a.reg, simp(B(off) - c) if not isc(off) else off - c)


def base(e, st):
    lfile.install(e)
    idstr.install(e)
    e.bool_bytes = True
    e.models = [m for m in e.models if 'pathName' not in m[0].pattern]
    e.model(r'^e57::(ImageFileImpl|CheckedFile)::fileName(\[abi:cxx11\])?\(', lambda eng, s, a, n: (idstr.put(eng, s, a[0], eng.fresh('text', 64)), RET(s))[1])
    e.model(r'^e57::NodeImpl::pathName', lambda eng, s, a, n: (idstr.put(eng, s, a[0], eng.fresh('text', 64)), RET(s))[1])
    e.model(r'enable_shared_from_this<e57::NodeImpl>::shared_from_this\(', lambda eng, s, a, n: (eng.store(s, a[0], PTR, this_at(eng, a[1])), eng.store(s, Ptr(a[0].reg, eng._addoff(a[0].off, 8, 64, 1)), PTR, Ptr(Region('ctl'))), RET(s))[2])
    f = lfile.init(e, st)
    return lfile.imagefile(e, st, f, True, 1)


def shared(e, st, name, target):
    r = Region(name)
    st.mem[r] = {0: (8, Ptr(target) if target is not None else NULL), 8: (8, Ptr(Region('ctl')))}
    return r


def node(e, st, name, im, handlers=None, cells=None):
    n = lfile.vobject(e, st, name, handlers or (lambda slot: None))
    lfile.weak(e, st, n, e.off(NI, 'destImageFile_'), im)
    st.mem[n][e.off(NI, 'isAttached_')] = (1, z3.If(z3.Bool(name + '.attached'), ONE, ZERO))
    st.mem[n][e.off(NI, 'elementName_')] = (8, z3.BitVec(name + '.name', 64))
    st.mem[n].update(cells or {})
    return n


def children(e, st, n, handlers=None):
    """any number of children"""
    N = z3.BitVec('children', 64)
    st.assume(ULT(N, B(1 << 31)))
    kid = Region('child')
    vt = vtable(handlers or {})
    kid.ptrhook = lambda eng, s, reg, off: Ptr(vt, 0)
    st.mem[kid] = {}
    tab = table(e, st, 'children', N, 16, {0: kid})
    o = e.off(SN, 'children_')
    for k, v in ((0, 0), (8, simp(N * 16)), (16, simp(N * 16))):
        st.mem[n][o + k] = (8, Ptr(tab, v))
    e.model(r'^e57::NodeImpl::elementName', lambda eng, s, a, x: (idstr.put(eng, s, a[0], NAME(B(a[1].off)) if a[1].reg is kid else eng.fresh('text', 64)), RET(s))[1])
    return N, kid, tab


def push(e, st, n, ni):
    """appending to the list of children"""
    st.ghost['pushed'] = 0

    def f(eng, s, a, x):
        p = eng.load(s, a[1], PTR)
        ok = isinstance(p, Ptr) and p.reg is ni and a[0].reg is n and a[0].off == eng.off(SN, 'children_')
        eng.prove(s, z3.BoolVal(ok), 'the new child is what is put in the list of children')
        eng.prove(s, z3.BoolVal(s.ghost.get('parented') is True), 'only once it has taken its parent')
        s.set('pushed', s.ghost['pushed'] + 1)
        return RET(s)
    e.model(r'std::vector<std::shared_ptr<e57::NodeImpl>.*::(push_back|emplace_back)', f)


def set_parent_contract(e, st, n, ni, name):
    """NodeImpl::setParent as seen by its callers (unit 'parent')"""
    st.ghost['parented'] = False

    def f(eng, s, a, x):
        p = eng.load(s, a[1], PTR)
        eng.prove(s, z3.BoolVal(a[0].reg is ni and isinstance(p, Ptr) and p.reg is n), 'the new child is given this element as its parent')
        eng.prove(s, idstr.get(eng, s, a[2]) == name(s), 'under the name it was set with')
        bad = eng.throw_e57(s.fork(), HASPARENT)
        s.set('parented', True)
        return bad + RET(s)
    e.model(r'^e57::NodeImpl::setParent\(', f)


# ------------------------------------------------------------------------------------------------ the parent chain
def chain(ctx, e, st, im):
    """nodes linked by their parents, in any shape"""
    nodes = Region('nodes')
    st.mem[nodes] = {}
    PAR, TOP, HET, CNT, KIND = [z3.Function(n, BV64, s) for n, s in (('parentOf', BV64), ('isTop', z3.BoolSort()), ('allowsHetero', z3.BoolSort()), ('childCount', BV64), ('kind', z3.BitVecSort(32)))]
    CON, ROOT = z3.Function('constrained', BV64, z3.BoolSort()), z3.Function('rootOf', BV64, BV64)
    # what the two recursive notions mean, one step
    constrains = lambda i: z3.Or(z3.And(KIND(i) == 2, z3.Not(HET(i)), CNT(i) > 1), KIND(i) == 3)
    ax = lambda i: z3.And(CON(i) == z3.And(z3.Not(TOP(i)), z3.Or(constrains(PAR(i)), CON(PAR(i)))), ROOT(i) == z3.If(TOP(i), i, ROOT(PAR(i))))
    idx = lambda off: simp(z3.LShR(B(off), 12))
    vt = vtable({0: lambda eng, s, a, x: RET(s, KIND(idx(a[0].off))), slot(e, 'VectorNodeImpl', r'::childCount\('): lambda eng, s, a, x: RET(s, CNT(idx(a[0].off)))})
    po, do = e.off(NI, 'parent_'), e.off(NI, 'destImageFile_')

    def hook(eng, s, reg, off):
        c = within(off)
        i = idx(simp(B(off) - c))
        if c == 0:
            return Ptr(vt, 0)
        if c == po:
            s.assume(z3.And(ax(i), ULT(PAR(i), B(1 << 40))))
            return Ptr(nodes, simp(PAR(i) << 12))
        if c == do:
            return Ptr(im)
        return Ptr(Region('ctl', isnull=False), 0)
    nodes.ptrhook = hook

    def expired(eng, s, a, x):
        if a[0].reg is not nodes:
            raise Unsupported('expired')
        i = idx(simp(B(a[0].off) - po))
        s.assume(ax(i))
        return RET(s, TOP(i))
    e.model(r'std::__weak_ptr<.*>::expired\(\) const', expired)
    e.model(r'^e57::VectorNodeImpl::allowHeteroChildren\(', lambda eng, s, a, x: RET(s, HET(idx(a[0].off))))
    e.model(r'^e57::StructureNodeImpl::childCount\(', lambda eng, s, a, x: RET(s, CNT(idx(a[0].off))))
    me = z3.BitVec('me', 64)
    st.assume(ULT(me, B(1 << 40)))

    def tmpl(eng, L, ev):
        from .c20 import entry
        for k in L.keys:
            if k[-1] == 64 and isinstance(entry(L, k), Ptr) and entry(L, k).reg is nodes:
                yield '!%s is a node' % (k[1],), lambda v, k=k: z3.And(v.num(k) & B(STRIDE - 1) == 0, ULT(v.num(k), B(1 << 52)))
                yield '!%s: as constrained' % (k[1],), lambda v, k=k: CON(idx(v.num(k))) == CON(me)
                yield '!%s: same root' % (k[1],), lambda v, k=k: ROOT(idx(v.num(k))) == ROOT(me)
    e.templates.append(tmpl)
    return nodes, me, CON, ROOT, idx


def root(ctx):
    """getRoot: the element reached by following parents until there is none"""
    e = ctx.engine()
    st = State()
    im = base(e, st)
    nodes, me, CON, ROOT, idx = chain(ctx, e, st, im)
    res = Region('result')
    st.mem[res] = {}
    for o in e.call(st, ctx.fn(r'^e57::NodeImpl::getRoot\('), [Ptr(res), Ptr(nodes, simp(me << 12))]):
        e.cover(o.st, 'returns')
        e.prove(o.st, z3.BoolVal(o.kind == 'ret'), 'never fails')
        p = e.load(o.st, Ptr(res), PTR)
        e.prove(o.st, z3.And(z3.BoolVal(p.reg is nodes), idx(p.off) == ROOT(me)), 'the root of the tree')


def constrained(ctx):
    """isTypeConstrained: exactly when some element above is a compressed vector, or a homogeneous vector with more than one child"""
    e = ctx.engine()
    st = State()
    im = base(e, st)
    nodes, me, CON, ROOT, idx = chain(ctx, e, st, im)
    for o in e.call(st, ctx.fn(r'^e57::NodeImpl::isTypeConstrained\('), [Ptr(nodes, simp(me << 12))]):
        e.cover(o.st, 'returns')
        e.prove(o.st, z3.BoolVal(o.kind == 'ret'), 'never fails')
        r = o.val if z3.is_bool(o.val) else z3.BoolVal(bool(o.val)) if isc(o.val) else bv(o.val, 1) == 1
        e.prove(o.st, r == CON(me), 'constrained exactly when an element above constrains it')


def parent(ctx):
    """setParent: only for an element with no parent, not attached, that is not the root of the tree it is put in; then it has that parent and name, and it (and all below
    it) counts as attached exactly if the parent is. Otherwise ErrorAlreadyHasParent, and nothing changes"""
    for loop in (False, True):
        e = ctx.engine()
        st = State()
        im = base(e, st)
        has = z3.Bool('hasParent')
        st.ghost['recursed'] = 0

        def attach(eng, s, a, x):
            eng.prove(s, z3.BoolVal(a[0].reg is n), 'the element itself is marked')
            s.set('recursed', s.ghost['recursed'] + 1)
            return RET(s)
        n = node(e, st, 'element', im, lambda slot: attach if slot == 3 else None)
        old = Region('oldparent')
        lfile.weak(e, st, n, e.off(NI, 'parent_'), old)
        p = node(e, st, 'parent', im)
        # whose shared_ptr setParent gets
        sp = shared(e, st, 'parentpointer', p)
        e.model(r'std::__weak_ptr<.*>::expired\(\) const', lambda eng, s, a, x: RET(s, z3.Not(has)))
        rt = n if loop else Region('otherroot')
        e.model(r'^e57::NodeImpl::getRoot\(', lambda eng, s, a, x: (eng.store(s, a[0], PTR, Ptr(rt)), eng.store(s, Ptr(a[0].reg, eng._addoff(a[0].off, 8, 64, 1)), PTR, Ptr(Region('ctl'))), RET(s))[2])
        nm = Region('name')
        st.mem[nm] = {0: (8, z3.BitVec('newname', 64))}
        att, patt = z3.Bool('element.attached'), z3.Bool('parent.attached')
        for o in e.call(st, ctx.fn(r'^e57::NodeImpl::setParent\('), [Ptr(n), Ptr(sp), Ptr(nm)]):
            s = o.st
            pp = e.load(s, Ptr(n, e.off(NI, 'parent_')), PTR)
            name = idstr.get(e, s, Ptr(n, e.off(NI, 'elementName_')))
            if o.kind == 'ret':
                e.cover(s, 'takes its parent')
                e.prove(s, z3.And(z3.Not(has), z3.Not(att), z3.BoolVal(not loop)), 'only an element with no parent, not attached, and not the root of that tree')
                e.prove(s, z3.And(z3.BoolVal(isinstance(pp, Ptr) and pp.reg is p), name == z3.BitVec('newname', 64)), 'parent and name are stored')
                e.prove(s, patt == z3.BoolVal(s.ghost['recursed'] == 1), 'attached, with everything below, exactly if its parent is')
            else:
                e.cover(s, 'is refused')
                e.prove(s, bv(o.val.code, 32) == HASPARENT, 'refused because it has a place already')
                e.prove(s, z3.Or(has, att, z3.BoolVal(loop)), 'refused only for a reason')
                e.prove(s, z3.And(z3.BoolVal(isinstance(pp, Ptr) and pp.reg is old and s.ghost['recursed'] == 0), name == z3.BitVec('element.name', 64)), 'nothing changes')


def attached(ctx, what):
    """setAttachedRecursive: marks the element and passes it on to every child (structures), or to prototype and codecs (compressed vectors)"""
    e = ctx.engine()
    st = State()
    im = base(e, st)
    st.ghost['told'] = B(0)
    n = node(e, st, 'element', im)
    if what == 'structure':
        def told(eng, s, a, x):
            eng.prove(s, B(a[0].off) == B(s.ghost['told']) * 16, 'each child in turn')
            s.set('told', simp(B(s.ghost['told']) + 1))
            return RET(s)
        N, kid, tab = children(e, st, n, {3: told})
        st.assume(ULT(K, N))

        def tmpl(eng, L, ev):
            yield from aligned(L, tab, 16, N)
            yield '!told', lambda v: ULE(B(v.ghost('told')), N)
            for k, at in iterators(L, tab, 16):
                yield '!told before %s' % (k[1],), lambda v, at=at: B(v.ghost('told')) * 16 == at(v)
        e.templates.append(tmpl)
        cls = SN
    elif what == 'compressed vector':
        hit = []
        for m in ('prototype_', 'codecs_'):
            def told(eng, s, a, x, m=m):
                s.set('told', simp(B(s.ghost['told']) + (1 if m == 'prototype_' else 2)))
                return RET(s)
            x = lfile.vobject(e, st, m, lambda slot, t=told: t if slot == 3 else None)
            st.mem[n][e.off(CV, m)] = (8, Ptr(x))
            st.mem[n][e.off(CV, m) + 8] = (8, Ptr(Region('ctl')))
        N, cls = B(3), CV
    else:
        N, cls = B(0), NI
    for o in e.call(st, ctx.fn('^' + cls + r'::setAttachedRecursive\('), [Ptr(n)]):
        s = o.st
        e.cover(s, 'returns')
        e.prove(s, z3.BoolVal(o.kind == 'ret'), 'never fails')
        e.prove(s, bv(e.load(s, Ptr(n, e.off(NI, 'isAttached_')), I(8)), 8) == 1, 'marked as attached')
        e.prove(s, B(s.ghost['told']) == N, 'everything below is told, once')


# ------------------------------------------------------------------------------------------------ attaching
def others(e, st, im, dest):
    """the file the new child belongs to: this one or another"""
    if dest:
        return im
    im2 = Region('otherfile')
    st.mem[im2] = {}
    return im2


def append(ctx, what):
    """attaching at an index: only at the end, only to an unconstrained element, only an element of the same file that can take a parent; it then gets its index as its name and
    is put last. Homogeneous vectors only take what is equivalent to every child. Otherwise an error, and the list of children is as before"""
    for dest in (True, False):
        e = ctx.engine()
        st = State()
        im = base(e, st)
        n = node(e, st, 'element', im)
        ni = node(e, st, 'newchild', others(e, st, im, dest))
        sp = shared(e, st, 'childpointer', ni)
        EQ = z3.Function('equivalent', BV64, z3.BoolSort())

        def equivalent(eng, s, a, x):
            p = eng.load(s, a[1], PTR)
            eng.prove(s, z3.BoolVal(a[0].reg is kid and isinstance(p, Ptr) and p.reg is ni), 'the new child is compared with a child')
            return RET(s, EQ(simp(B(a[0].off))))
        N, kid, tab = children(e, st, n, {1: equivalent})
        st.assume(ULT(K, N) if what == 'vector' else z3.BoolVal(True))
        push(e, st, n, ni)
        idx = z3.BitVec('index', 64)
        set_parent_contract(e, st, n, ni, lambda s: idstr.DEC(idx))
        con, het = z3.Bool('constrained'), z3.Bool('allowHetero')
        e.model(r'^e57::NodeImpl::isTypeConstrained\(', lambda eng, s, a, x: RET(s, con))
        if what == 'vector':
            st.mem[n][e.off(VN, 'allowHeteroChildren_')] = (1, z3.If(het, ONE, ZERO))

            def tmpl(eng, L, ev):
                yield from aligned(L, tab, 16, N)
                for k, at in iterators(L, tab, 16):
                    yield '!equivalent before %s' % (k[1],), lambda v, at=at: z3.Implies(ULT(K * 16, at(v)), EQ(simp(K * 16)))
            e.templates.append(tmpl)
        cls = VN if what == 'vector' else SN
        for o in e.call(st, ctx.fn('^' + cls + r'::set\(long, '), [Ptr(n), idx, Ptr(sp)]):
            s = o.st
            if o.kind == 'ret':
                e.cover(s, 'attaches')
                e.prove(s, z3.BoolVal(s.ghost['pushed'] == 1), 'put last among the children, once')
                e.prove(s, z3.And(idx == N, z3.Not(con), z3.BoolVal(dest)), 'only at the end, to an unconstrained element, of the same file')
                if what == 'vector':
                    e.prove(s, z3.Or(het, EQ(simp(K * 16))), 'a homogeneous vector takes only what is equivalent to every child')
            else:
                e.cover(s, 'refuses')
                e.prove(s, z3.BoolVal(s.ghost['pushed'] == 0 and s.ghost['parented'] is False), 'nothing changes')
                k = bv(o.val.code, 32)
                eq = zb(z3.BoolVal(True))
                why = [z3.And(k == INDEX, z3.Or(idx < 0, idx > N)), z3.And(k == SETTWICE, idx >= 0, ULT(idx, N)), z3.And(k == DIFFERENT, z3.BoolVal(not dest)), z3.And(k == HOMOGENEOUS, con), k == HASPARENT]
                if what == 'vector':
                    why.append(z3.And(k == HOMOGENEOUS, z3.Not(het)))
                e.prove(s, z3.Or(*why), 'with the matching error, for a reason')


def place(ctx, what):
    """attaching at a path, one level: at the last level only under a name no child has, in the same file, to an unconstrained element; on the way down only through the child
    of that name. Otherwise an error, and this element's children are as before"""
    for dest in (True, False):
        e = ctx.engine()
        st = State()
        im = base(e, st)
        n = node(e, st, 'element', im)
        ni = node(e, st, 'newchild', others(e, st, im, dest))
        sp = shared(e, st, 'childpointer', ni)
        F, nf, lev = z3.Function('field', BV64, BV64), z3.BitVec('fields', 64), z3.BitVec('level', 32)
        LV = z3.ZeroExt(32, lev)
        field = F(simp(LV * 32))
        # only the root path has no fields, and only the first level is asked for it
        st.assume(z3.And(ULT(nf, B(1 << 31)), z3.Or(ULT(LV, nf), z3.And(LV == 0, nf == 0))))
        st.ghost.update(down=0, made=0)

        def down(eng, s, a, x):
            eng.prove(s, z3.BoolVal(a[0].reg is kid), 'the way down is a child')
            eng.prove(s, z3.And(NAME(simp(B(a[0].off))) == field, ULT(LV + 1, nf)), 'the child of that name, on the way down')
            eng.prove(s, z3.And(z3.BoolVal(a[1].reg is vec), B(a[1].off) == 0, bv(a[2], 32) == lev + 1, z3.BoolVal(eng.load(s, a[3], PTR).reg is ni)), 'with the rest of the path and the new child')
            s.set('down', s.ghost['down'] + 1)
            return RET(s) + eng.throw_e57(s.fork(), eng.fresh('below', 32))
        N, kid, tab = children(e, st, n, {6: down})
        st.assume(ULT(K, N))
        ft = e.new_bytes(st, 'fieldtable', simp(nf * 32))
        Records(e, st, ft, 32, [('id', 0, 8)], fn=lambda m: F)
        vec = Region('fields')
        st.mem[vec] = {0: (8, Ptr(ft, 0)), 8: (8, Ptr(ft, simp(nf * 32))), 16: (8, Ptr(ft, simp(nf * 32)))}
        push(e, st, n, ni)
        set_parent_contract(e, st, n, ni, lambda s: field)
        con, auto = z3.Bool('constrained'), z3.Bool('autoPathCreate')
        e.model(r'^e57::NodeImpl::isTypeConstrained\(', lambda eng, s, a, x: RET(s, con))

        def creating(eng, s, a, x):              # nested structures for the rest of the path: natively
            eng.prove(s, z3.And(auto, z3.Not(con), ULT(LV + 1, nf), NAME(simp(K * 16)) != field), 'structures are created only if asked for, and only for names not there')
            s.set('made', 1)
            return [Outcome(s, 'throw', Exc('created', B(0), None))]
        e.model(r'^e57::StructureNodeImpl::StructureNodeImpl\(', creating)

        def tmpl(eng, L, ev):
            yield from aligned(L, tab, 16, N)
            for k, at in iterators(L, tab, 16):
                yield '!no such name before %s' % (k[1],), lambda v, at=at: z3.Implies(ULT(K * 16, at(v)), NAME(simp(K * 16)) != field)
        e.templates.append(tmpl)
        for o in e.call(st, ctx.fn(r'^e57::StructureNodeImpl::set\(std::vector<'), [Ptr(n), Ptr(vec), lev, Ptr(sp), auto]):
            s = o.st
            if s.ghost['made']:
                e.cover(s, 'creates the rest of the path')
                continue
            if s.ghost['down']:
                e.prove(s, z3.BoolVal(s.ghost['down'] == 1 and s.ghost['pushed'] == 0 and s.ghost['parented'] is False), 'only the child on the way is asked')
                e.cover(s, 'goes down')
                continue
            if o.kind == 'ret':
                e.cover(s, 'attaches')
                e.prove(s, z3.BoolVal(s.ghost['pushed'] == 1), 'put last among the children, once')
                e.prove(s, z3.And(LV + 1 == nf, z3.Not(con), z3.BoolVal(dest), NAME(simp(K * 16)) != field), 'at the last level, in the same file, under a name no child has, to an unconstrained element')
            else:
                e.cover(s, 'refuses')
                e.prove(s, z3.BoolVal(s.ghost['pushed'] == 0 and s.ghost['parented'] is False), 'nothing changes')
                k = bv(o.val.code, 32)
                e.prove(s, z3.Or(z3.And(k == SETTWICE, z3.Or(LV + 1 == nf, nf == 0)), z3.And(k == DIFFERENT, z3.BoolVal(not dest)), z3.And(k == HOMOGENEOUS, con), z3.And(k == UNDEFINED, z3.Not(auto), ULT(LV + 1, nf)), k == HASPARENT), 'with the matching error, for a reason')


def vector_place(ctx):
    """attaching at a path in a vector: a name that is not there is only taken as the last one of the path and if it is the next index"""
    e = ctx.engine()
    st = State()
    im = base(e, st)
    n = node(e, st, 'element', im)
    ni = node(e, st, 'newchild', im)
    sp = shared(e, st, 'childpointer', ni)
    F, nf, lev = z3.Function('field', BV64, BV64), z3.BitVec('fields', 64), z3.BitVec('level', 32)
    LV = z3.ZeroExt(32, lev)
    field = F(simp(LV * 32))
    st.assume(z3.And(ULT(nf, B(1 << 31)), z3.Or(ULT(LV, nf), z3.And(LV == 0, nf == 0))))
    N, kid, tab = children(e, st, n)
    ft = e.new_bytes(st, 'fieldtable', simp(nf * 32))
    Records(e, st, ft, 32, [('id', 0, 8)], fn=lambda m: F)
    vec = Region('fields')
    st.mem[vec] = {0: (8, Ptr(ft, 0)), 8: (8, Ptr(ft, simp(nf * 32))), 16: (8, Ptr(ft, simp(nf * 32)))}
    defined, auto = z3.Bool('defined'), z3.Bool('autoPathCreate')
    st.ghost['did'] = None

    def isdef(eng, s, a, x):
        eng.prove(s, z3.And(z3.BoolVal(a[0].reg is n), idstr.get(eng, s, a[1]) == field), 'this level\'s name is looked up here')
        return RET(s, defined)

    def at_index(eng, s, a, x):
        eng.prove(s, z3.And(z3.BoolVal(a[0].reg is n and eng.load(s, a[2], PTR).reg is ni), B(a[1]) == N), 'attached at the next index')
        s.set('did', 'index')
        return RET(s) + eng.throw_e57(s.fork(), eng.fresh('below', 32))

    def by_path(eng, s, a, x):
        eng.prove(s, z3.And(z3.BoolVal(a[0].reg is n and a[1].reg is vec and eng.load(s, a[3], PTR).reg is ni), bv(a[2], 32) == lev), 'passed on unchanged')
        s.set('did', 'path')
        return RET(s) + eng.throw_e57(s.fork(), eng.fresh('below', 32))
    e.model(r'^e57::StructureNodeImpl::isDefined\(', isdef)
    e.model(r'^e57::VectorNodeImpl::set\(long, ', at_index)
    e.model(r'^e57::StructureNodeImpl::set\(std::vector<', by_path)
    st.mem[n][0] = (8, Ptr(vtable({2: isdef, slot(e, 'VectorNodeImpl', r'::childCount\('): lambda eng, s, a, x: RET(s, N), slot(e, 'VectorNodeImpl', r'::set\(long, '): at_index}), 0))
    for o in e.call(st, ctx.fn(r'^e57::VectorNodeImpl::set\(std::vector<'), [Ptr(n), Ptr(vec), lev, Ptr(sp), auto]):
        s = o.st
        d = s.ghost['did']
        if d == 'index':
            e.cover(s, 'appends')
            e.prove(s, z3.And(z3.Not(defined), LV + 1 == nf, field == idstr.DEC(N)), 'only the next index is appended')
        elif d == 'path':
            e.cover(s, 'goes on')
            e.prove(s, z3.Or(defined, nf == 0), 'any other path goes through a child that is there')
        else:
            e.cover(s, 'refuses')
            e.prove(s, z3.BoolVal(o.kind != 'ret'), 'anything else is refused')
            if o.kind != 'ret':
                k = bv(o.val.code, 32)
                e.prove(s, z3.And(z3.Not(defined), z3.Or(z3.And(k == UNDEFINED, LV + 1 != nf), z3.And(k == INDEX, field != idstr.DEC(N)))), 'with the matching error')


def slot(e, cls, rx):
    """position of a virtual function in the table of its class"""
    for i, m in enumerate(re.findall(r'ptr (?:@([\w.]+)|null)', e.mod.globals['_ZTVN3e57%d%sE' % (len(cls), cls)])):
        if m and re.search(rx, e.mod.dem.get(m, '')):
            return i - 2
    raise Unsupported('no virtual function like ' + rx)


def equivalence(ctx, cls):
    """isTypeEquivalent of values: same kind and same bounds, precision, scale and offset (the value does not matter)"""
    mem = {'IntegerNodeImpl': [('minimum_', 8), ('maximum_', 8)], 'ScaledIntegerNodeImpl': [('minimum_', 8), ('maximum_', 8), ('scale_', 'd'), ('offset_', 'd')],
           'FloatNodeImpl': [('precision_', 4), ('minimum_', 'd'), ('maximum_', 'd')], 'StringNodeImpl': [], 'BlobNodeImpl': [('blobLogicalLength_', 8)]}[cls]
    kind = {'IntegerNodeImpl': 4, 'ScaledIntegerNodeImpl': 5, 'FloatNodeImpl': 6, 'StringNodeImpl': 7, 'BlobNodeImpl': 8}[cls]
    e = ctx.engine()
    st = State()
    im = base(e, st)
    t = z3.BitVec('kind', 32)
    a = node(e, st, 'a', im)
    b = node(e, st, 'b', im, lambda slot: (lambda eng, s, x, y: RET(s, t)) if slot == 0 else None)
    C = 'e57::' + cls
    same = [t == kind]
    for m, w in mem:
        n = 8 if w == 'd' else w
        va, vb = z3.BitVec('a.' + m, n * 8), z3.BitVec('b.' + m, n * 8)
        st.mem[a][e.off(C, m)], st.mem[b][e.off(C, m)] = (n, va), (n, vb)
        same.append(z3.fpEQ(z3.fpBVToFP(va, z3.Float64()), z3.fpBVToFP(vb, z3.Float64())) if w == 'd' else va == vb)
    sp = shared(e, st, 'pointer', b)
    for o in e.call(st, ctx.fn('^' + C + r'::isTypeEquivalent\('), [Ptr(a), Ptr(sp)]):
        e.cover(o.st, 'returns')
        e.prove(o.st, z3.BoolVal(o.kind == 'ret'), 'never fails')
        r = o.val if z3.is_bool(o.val) else z3.BoolVal(bool(o.val)) if isc(o.val) else bv(o.val, 1) == 1
        e.prove(o.st, r == z3.And(*same), 'equivalent exactly when kind and limits agree')


def names(ctx):
    """pathName: "/" for a root, else the parent's path, a slash unless the parent is a root, and the element's name"""
    for top, ptop in ((True, False), (False, True), (False, False)):
        e = ctx.engine()
        st = State()
        im = base(e, st)
        p, n = node(e, st, 'parent', im), node(e, st, 'element', im)
        lfile.weak(e, st, n, e.off(NI, 'parent_'), p)
        st.mem[p][e.off(NI, 'parent_')] = (8, NULL)
        e.model(r'std::__weak_ptr<.*>::expired\(\) const', lambda eng, s, a, x: RET(s, top if a[0].reg is n else ptop))
        real = ctx.fn(r'^e57::NodeImpl::pathName')
        pp = z3.BitVec('parentpath', 64)
        e.models = [m for m in e.models if 'NodeImpl::pathName' not in m[0].pattern]
        e.model(r'^e57::NodeImpl::pathName', lambda eng, s, a, x: (eng.prove(s, z3.BoolVal(a[1].reg is p), 'the parent\'s path'), idstr.put(eng, s, a[0], pp), RET(s))[2] if a[1].reg is p else None)
        e.model_cache.clear() if hasattr(e, 'model_cache') else None
        res = Region('result')
        st.mem[res] = {}
        for o in e.call(st, real, [Ptr(res), Ptr(n)]):
            e.cover(o.st, 'returns')
            e.prove(o.st, z3.BoolVal(o.kind == 'ret'), 'never fails')
            me = z3.BitVec('element.name', 64)
            l = idstr.lit('/')
            want = l if top else idstr.CAT(l, me) if ptop else idstr.CAT(idstr.CAT(pp, l), me)
            e.prove(o.st, idstr.get(e, o.st, Ptr(res)) == want, 'the path is the parent\'s path plus the name')


def parsed(e, st, n, F, nf, rel):
    """ImageFileImpl::pathNameParse as seen by its callers (C13): any number of fields, relative or absolute, or an error"""
    ft = e.new_bytes(st, 'fieldtable', simp(nf * 32))
    Records(e, st, ft, 32, [('id', 0, 8)], fn=lambda m: F)

    def parse(eng, s, a, x):
        bad = eng.throw_e57(s.fork(), 37)
        eng.write_cell(s, a[2].reg, a[2].off, 1, z3.If(rel, ONE, ZERO))
        for k, v in ((0, 0), (8, simp(nf * 32)), (16, simp(nf * 32))):
            eng.store(s, Ptr(a[3].reg, eng._addoff(a[3].off, k, 64, 1)), PTR, Ptr(ft, v))
        s.set('parsed', idstr.get(eng, s, a[1]))
        return RET(s) + bad
    e.model(r'^e57::ImageFileImpl::pathNameParse\(', parse)
    e.model(r'^std::vector<std::__cxx11::' + idstr.S + r', .*>::(~)?vector\(', lambda eng, s, a, x: RET(s))
    return ft


def result(eng, s, a, p):
    eng.store(s, a, PTR, p)
    eng.store(s, Ptr(a.reg, eng._addoff(a.off, 8, 64, 1)), PTR, Ptr(Region('ctl')))


def lookup(ctx):
    """finding by path: the first field names one of the children (the first of that name), and the rest of the path is looked up there; the root is found by "/", and absolute
    paths are looked up from the root. Nothing is found exactly if no child has the name"""
    e = ctx.engine()
    st = State()
    im = base(e, st)
    n = node(e, st, 'element', im)
    F, nf, rel, top = z3.Function('field', BV64, BV64), z3.BitVec('fields', 64), z3.Bool('relative'), z3.Bool('isRoot')
    st.assume(ULT(nf, B(1 << 31)))
    first = F(B(0))
    UN = z3.BitVec('restOfPath', 64)
    st.ghost.update(went=None, erased=0)
    rt = lfile.vobject(e, st, 'root', lambda k: None)
    L = slot(e, 'StructureNodeImpl', r'::lookup\(')

    def below(eng, s, a, x):
        eng.prove(s, z3.And(z3.BoolVal(s.ghost['erased'] == 1 and a[1].reg is kid), idstr.get(eng, s, a[2]) == UN), 'the rest of the path, at the child')
        result(eng, s, a[0], Ptr(Region('found'), 0))
        s.set('went', a[1])
        return RET(s)

    def above(eng, s, a, x):
        eng.prove(s, idstr.get(eng, s, a[2]) == z3.BitVec('path', 64), 'the whole path, at the root')
        result(eng, s, a[0], Ptr(Region('found'), 0))
        s.set('went', a[1])
        return RET(s)
    N, kid, tab = children(e, st, n, {L: below})
    st.mem[rt][0] = (8, Ptr(vtable({L: above}), 0))
    st.assume(ULT(K, N))
    ft = parsed(e, st, n, F, nf, rel)

    def erase(eng, s, a, x):
        eng.prove(s, B(eng.load(s, a[0], PTR).off) == B(a[1].off if isinstance(a[1], Ptr) else 1), 'the first field is taken away')
        s.set('erased', s.ghost['erased'] + 1)
        return RET(s, Ptr(ft, 0))
    e.model(r'^std::vector<std::__cxx11::' + idstr.S + r', .*>::erase\(', erase)
    e.model(r'^e57::ImageFileImpl::pathNameUnparse', lambda eng, s, a, x: (eng.prove(s, zb(a[1]), 'as a relative path'), idstr.put(eng, s, a[0], UN), RET(s))[2])
    e.model(r'^e57::NodeImpl::isRoot\(', lambda eng, s, a, x: RET(s, top))
    e.model(r'^e57::NodeImpl::getRoot\(', lambda eng, s, a, x: (result(eng, s, a[0], Ptr(rt)), RET(s))[1])
    pn, res = Region('path'), Region('result')
    st.mem[pn], st.mem[res] = {0: (8, z3.BitVec('path', 64))}, {}

    def tmpl(eng, L, ev):
        yield from aligned(L, tab, 16, N)
        for k, at in iterators(L, tab, 16):
            yield '!no such name before %s' % (k[1],), lambda v, at=at: z3.Implies(ULT(K * 16, at(v)), NAME(simp(K * 16)) != first)
    e.templates.append(tmpl)
    for o in e.call(st, ctx.fn(r'^e57::StructureNodeImpl::lookup\('), [Ptr(res), Ptr(n), Ptr(pn)]):
        s = o.st
        if o.kind != 'ret':
            e.cover(s, 'path is wrong')
            e.prove(s, z3.And(bv(o.val.code, 32) == 37, z3.BoolVal(s.ghost.get('parsed') is None)), 'fails only if the path is wrong')
            continue
        p, w = e.load(s, Ptr(res), PTR), s.ghost['went']
        here = z3.Or(rel, top)
        if w is not None and w.reg is rt:
            e.cover(s, 'at the root')
            e.prove(s, z3.And(z3.Not(here), z3.BoolVal(p.reg.name == 'found')), 'absolute paths are looked up at the root')
        elif w is not None:
            e.cover(s, 'further down')
            e.prove(s, z3.And(here, z3.UGT(nf, 1), NAME(simp(B(w.off))) == first, z3.BoolVal(p.reg.name == 'found')), 'longer paths through the child of that name')
            e.prove(s, z3.Implies(ULT(K * 16, B(w.off)), NAME(simp(K * 16)) != first), 'the first of that name')
        elif p.reg is rt:
            e.cover(s, 'the root itself')
            e.prove(s, z3.And(nf == 0, z3.Not(rel)), 'only the absolute empty path is the root')
        elif p.reg is None:
            e.cover(s, 'nothing')
            e.prove(s, z3.Or(z3.And(nf == 0, rel), z3.And(here, NAME(simp(K * 16)) != first)), 'nothing only if no child has the name')
        else:
            e.cover(s, 'a child')
            e.prove(s, z3.And(z3.BoolVal(p.reg is kid), here, nf == 1, NAME(simp(B(p.off))) == first), 'the child of that name')
            e.prove(s, z3.Implies(ULT(K * 16, B(p.off)), NAME(simp(K * 16)) != first), 'the first of that name')


def at_path(ctx):
    """attaching at a path: relative paths start here, absolute ones at the root; a wrong path changes nothing"""
    e = ctx.engine()
    st = State()
    im = base(e, st)
    ni = node(e, st, 'newchild', im)
    sp = shared(e, st, 'childpointer', ni)
    F, nf, rel, auto = z3.Function('field', BV64, BV64), z3.BitVec('fields', 64), z3.Bool('relative'), z3.Bool('autoPathCreate')
    st.assume(ULT(nf, B(1 << 31)))
    st.ghost['where'] = None

    def goes(eng, s, a, x):
        b = eng.load(s, a[1], PTR)
        ok = b.reg is ft and eng.load(s, a[3], PTR).reg is ni and s.ghost['where'] is None
        eng.prove(s, z3.And(z3.BoolVal(ok), bv(a[2], 32) == 0, (a[4] if z3.is_bool(a[4]) else bv(a[4], 8) == 1) == auto), 'the whole path, from the first level, with the new child')
        s.set('where', a[0].reg)
        return RET(s) + eng.throw_e57(s.fork(), eng.fresh('below', 32))
    n = node(e, st, 'element', im, lambda k: goes if k == 6 else None)
    rt = lfile.vobject(e, st, 'root', lambda k: goes if k == 6 else None)
    ft = parsed(e, st, n, F, nf, rel)
    e.model(r'^e57::NodeImpl::getRoot\(', lambda eng, s, a, x: (result(eng, s, a[0], Ptr(rt)), RET(s))[1])
    pn = Region('path')
    st.mem[pn] = {0: (8, z3.BitVec('path', 64))}
    for o in e.call(st, ctx.fn(r'^e57::StructureNodeImpl::set\(std::__cxx11::'), [Ptr(n), Ptr(pn), Ptr(sp), auto]):
        s = o.st
        w = s.ghost['where']
        if w is None:
            e.cover(s, 'path is wrong')
            e.prove(s, z3.BoolVal(o.kind != 'ret'), 'a wrong path is refused')
        else:
            e.cover(s, w.name)
            e.prove(s, rel == z3.BoolVal(w is n), 'from here if relative, from the root if absolute')


def child(ctx):
    """finding by index: the child at that position, else ErrorChildIndexOutOfBounds"""
    e = ctx.engine()
    st = State()
    im = base(e, st)
    n = node(e, st, 'element', im)
    N, kid, tab = children(e, st, n)
    idx, res = z3.BitVec('index', 64), Region('result')
    st.mem[res] = {}
    for o in e.call(st, ctx.fn(r'^e57::StructureNodeImpl::get\(long\)'), [Ptr(res), Ptr(n), idx]):
        s = o.st
        ok = z3.And(idx >= 0, idx < N)
        if o.kind == 'ret':
            e.cover(s, 'found')
            p = e.load(s, Ptr(res), PTR)
            e.prove(s, z3.And(ok, z3.BoolVal(p.reg is kid), B(p.off) == idx * 16), 'the child at that position')
        else:
            e.cover(s, 'refused')
            e.prove(s, z3.And(z3.Not(ok), bv(o.val.code, 32) == INDEX), 'refused exactly outside the children')
    for o in e.call(st, ctx.fn(r'^e57::StructureNodeImpl::childCount\('), [Ptr(n)]):
        e.prove(o.st, z3.And(z3.BoolVal(o.kind == 'ret'), B(o.val) == N), 'the number of children')


def alike(ctx, what):
    """isTypeEquivalent of containers: same kind, as many children, each equivalent to the one of its name (structures) or at its index (vectors)"""
    e = ctx.engine()
    st = State()
    im = base(e, st)
    cls = SN if what == 'structure' else VN
    t, EQ, OTHER, DEF = z3.BitVec('kind', 32), z3.Function('equivalent', BV64, BV64, z3.BoolSort()), z3.Function('otherName', BV64, BV64), z3.Function('defined', BV64, z3.BoolSort())
    FOUND = z3.Function('found', BV64, BV64)
    a = node(e, st, 'a', im)
    b = node(e, st, 'b', im)

    def equivalent(eng, s, x, y):
        p = eng.load(s, x[1], PTR)
        eng.prove(s, z3.BoolVal(x[0].reg is kid and p.reg in (okid, found)), 'children are compared with children')
        key = simp(B(p.off)) if p.reg is okid else simp(B(p.off) + (1 << 50))
        return RET(s, EQ(simp(B(x[0].off)), key))
    N, kid, tab = children(e, st, a, {1: equivalent})
    M = z3.BitVec('otherchildren', 64)
    st.assume(z3.And(ULT(M, B(1 << 31)), ULT(K, N)))
    okid, found = Region('otherchild'), Region('foundchild')
    okid.ptrhook = lambda eng, s, reg, off: Ptr(vtable({}), 0)
    st.mem[okid], st.mem[found] = {}, {}
    otab = table(e, st, 'otherchildren', M, 16, {0: okid})
    o = e.off(SN, 'children_')
    for k, v in ((0, 0), (8, simp(M * 16)), (16, simp(M * 16))):
        st.mem[b][o + k] = (8, Ptr(otab, v))
    e.model(r'^e57::NodeImpl::elementName', lambda eng, s, x, y: (idstr.put(eng, s, x[0], NAME(B(x[1].off)) if x[1].reg is kid else OTHER(B(x[1].off)) if x[1].reg is okid else eng.fresh('text', 64)), RET(s))[1])

    def look(eng, s, x, y):
        q = idstr.get(eng, s, x[2])
        s.assume(ULT(FOUND(q), B(1 << 40)))
        result(eng, s, x[0], Ptr(found, FOUND(q)))
        return RET(s)
    isdef = lambda eng, s, x, y: RET(s, DEF(idstr.get(eng, s, x[1])))
    c = slot(e, 'StructureNodeImpl', r'::childCount\(')
    same = [t == (1 if what == 'structure' else 2)]
    st.mem[a][0] = (8, Ptr(vtable({c: lambda eng, s, x, y: RET(s, N)}), 0))
    st.mem[b][0] = (8, Ptr(vtable({0: lambda eng, s, x, y: RET(s, t), c: lambda eng, s, x, y: RET(s, M), 2: isdef, slot(e, 'StructureNodeImpl', r'::lookup\('): look}), 0))
    if what == 'vector':
        ha, hb = z3.Bool('a.hetero'), z3.Bool('b.hetero')
        st.mem[a][e.off(VN, 'allowHeteroChildren_')], st.mem[b][e.off(VN, 'allowHeteroChildren_')] = (1, z3.If(ha, ONE, ZERO)), (1, z3.If(hb, ONE, ZERO))
        same.append(ha == hb)
    k16 = simp(K * 16)
    inplace = EQ(k16, k16)
    byname = z3.And(DEF(NAME(k16)), EQ(k16, simp(FOUND(NAME(k16)) + (1 << 50))))
    want = inplace if what == 'vector' else z3.If(NAME(k16) == OTHER(k16), inplace, byname)

    def tmpl(eng, L, ev):
        yield from aligned(L, tab, 16, N)
        for k, at in iterators(L, tab, 16):
            yield '!equivalent before %s' % (k[1],), lambda v, at=at: z3.Implies(ULT(K * 16, at(v)), want)
    e.templates.append(tmpl)
    sp = shared(e, st, 'pointer', b)
    for o in e.call(st, ctx.fn('^' + cls + r'::isTypeEquivalent\('), [Ptr(a), Ptr(sp)]):
        e.prove(o.st, z3.BoolVal(o.kind == 'ret'), 'never fails')
        r = o.val if z3.is_bool(o.val) else z3.BoolVal(bool(o.val)) if isc(o.val) else bv(o.val, 1) == 1
        if e.feasible(o.st, r):
            e.cover(o.st, 'equivalent')
        e.prove(o.st, z3.Implies(r, z3.And(*same, N == M, want)), 'equivalent only if kind, number and every child agree')


def prototype(ctx, what):
    """giving a compressed vector its prototype or codecs: once, only an element without parent, of the same file"""
    for dest in (True, False):
        for old in (False, True):
            e = ctx.engine()
            st = State()
            im = base(e, st)
            n = node(e, st, 'element', im)
            ni = node(e, st, 'given', others(e, st, im, dest))
            m = {'prototype': 'prototype_', 'codecs': 'codecs_'}[what]
            was = Region('old') if old else None
            st.mem[n][e.off(CV, m)] = (8, Ptr(was) if old else NULL)
            st.mem[n][e.off(CV, m) + 8] = (8, Ptr(Region('ctl')))
            top = z3.Bool('isRoot')
            e.model(r'^e57::NodeImpl::isRoot\(', lambda eng, s, a, x: (eng.prove(s, z3.BoolVal(a[0].reg is ni), 'the element given is asked'), RET(s, top))[1])
            sp = shared(e, st, 'pointer', ni)
            for o in e.call(st, ctx.fn('^' + CV + '::set' + what.capitalize() + r'\('), [Ptr(n), Ptr(sp)]):
                s = o.st
                p = e.load(s, Ptr(n, e.off(CV, m)), PTR)
                if o.kind == 'ret':
                    e.cover(s, 'taken')
                    e.prove(s, z3.And(top, z3.BoolVal(dest and not old and p.reg is ni)), 'once, without parent, of the same file')
                else:
                    e.cover(s, 'refused')
                    k = bv(o.val.code, 32)
                    e.prove(s, z3.Or(z3.And(k == SETTWICE, z3.BoolVal(old)), z3.And(k == HASPARENT, z3.Not(top)), z3.And(k == DIFFERENT, z3.BoolVal(not dest))), 'with the matching error')
                    e.prove(s, z3.BoolVal(p.reg is was), 'nothing changes')


def owners(ctx):
    """in the whole library a parent is only stored by the constructor of elements and setParent, and only the attaching functions put something in a list of children"""
    e = ctx.engine()
    mod = e.mod
    ty = ('named', '%"class.e57::NodeImpl"')
    fld = next(i for i in range(len(mod.rtype(ty)[1])) if mod.field(ty, i)[0] == e.off(NI, 'parent_'))
    rx = re.compile(r'^\s*(%%[\w.]+) = getelementptr inbounds %%"class\.e57::NodeImpl", ptr \S+, i32 0, i32 %d\b' % fld)
    n = 0
    for name, f in mod.fns.items():
        at = [x.group(1) for x in map(rx.match, f.body) if x]
        if not at:
            continue
        use = re.compile('(' + '|'.join(re.escape(a) for a in at) + r')\b(?!\.)')
        for ln in f.body:
            if use.search(ln) and not rx.match(ln) and '#dbg' not in ln:
                x = re.search(r'@([\w.]+)\(', ln)
                callee = mod.dem.get(x.group(1), '') if x else ''
                if re.search(r'expired|shared_ptr<e57::NodeImpl.*::shared_ptr|~weak_ptr|lock\(', callee):
                    continue
                n += 1
                d = mod.dem.get(name, name)
                e.obligation('proved' if re.match(r'^e57::NodeImpl::(NodeImpl|~NodeImpl|setParent)\(', d) else 'unknown', 'parent stored by %s' % d.split('(')[0])
    e.covers['functions that store parents were found'] = n >= 2
    e.obligation('proved' if n >= 2 else 'unknown', 'where parents are stored was found')
    m = 0
    for name, f in mod.fns.items():
        for ln in f.body:
            x = re.search(r'(?:call|invoke) .*@([\w.]+)\(', ln)
            c = mod.dem.get(x.group(1), '') if x else ''
            if re.search(r'std::vector<std::shared_ptr<e57::NodeImpl>.*::(push_back|emplace_back|insert|erase|clear|resize|pop_back|swap|operator=)', c):
                d = mod.dem.get(name, name)
                if d.startswith('std::'):
                    continue
                m += 1
                e.obligation('proved' if re.match(r'^e57::StructureNodeImpl::set\(', d) and 'push_back' in c else 'unknown', 'children changed by %s' % d.split('(')[0])
    e.obligation('proved' if m >= 2 else 'unknown', 'where children are added was found')


UNITS = [Unit('root', root), Unit('constrained', constrained), Unit('parent', parent)] + [Unit('attached ' + w, attached, arg=w) for w in ('structure', 'compressed vector', 'value')] + \
    [Unit('append ' + w, append, arg=w) for w in ('structure', 'vector')] + [Unit('place', place, arg='structure'), Unit('vector place', vector_place)] + \
    [Unit('equivalence ' + c, equivalence, arg=c) for c in ('IntegerNodeImpl', 'ScaledIntegerNodeImpl', 'FloatNodeImpl', 'StringNodeImpl', 'BlobNodeImpl')] + [Unit('equivalence ' + w, alike, arg=w) for w in ('structure', 'vector')] + [Unit('names', names), Unit('lookup', lookup), Unit('at path', at_path), Unit('child', child)] + \
    [Unit('set ' + w, prototype, arg=w) for w in ('prototype', 'codecs')] + [Unit('owners', owners)]
ASSUMPTIONS = ['strings up to equality (idstr.py): std::string comparison, copy and concatenation have the standard library\'s meaning',
               'shared_ptr and weak_ptr: a weak pointer to the parent has expired exactly if there is no parent (elements are kept alive by the handles and lists that own them)',
               'chains of parents end (elements can only be attached to a tree they are not the root of: unit parent), so following them terminates']

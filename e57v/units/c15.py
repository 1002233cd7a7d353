import re
import z3
from ..sym import Ptr, State, Region, ULT, ULE, bv, simp, zb, NULL
from ..ir import I, PTR
from ..unit import Unit
from ..models import RET, str_new
from ..filemodel import B
from .. import lfile
from . import c16, c20

NATIVE = 'c15'
NATIVE_MS = 10000
IM, NI, CV, CR, CW = 'e57::ImageFileImpl', 'e57::NodeImpl', 'e57::CompressedVectorNodeImpl', 'e57::CompressedVectorReaderImpl', 'e57::CompressedVectorWriterImpl'
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&'
ONE, ZERO = z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)

# public operation, arguments, returns an object
NODE = [('isRoot() const', '', 0), ('parent() const', '', 1), ('pathName[abi:cxx11]() const', '', 1), ('elementName[abi:cxx11]() const', '', 1), ('isAttached() const', '', 0)]
OPS = {
    'IntegerNode': [(m + '() const', '', 0) for m in ('value', 'minimum', 'maximum')],
    'ScaledIntegerNode': [(m + '() const', '', 0) for m in ('rawValue', 'scaledValue', 'minimum', 'scaledMinimum', 'maximum', 'scaledMaximum', 'scale', 'offset')],
    'FloatNode': [(m + '() const', '', 0) for m in ('value', 'precision', 'minimum', 'maximum')],
    'StringNode': [('value[abi:cxx11]() const', '', 1)],
    'StructureNode': [('childCount() const', '', 0), ('isDefined(STR) const', 's', 0), ('get(long) const', 'l', 1), ('get(STR) const', 's', 1), ('set(STR, e57::Node const&)', 'sn', 0)],
    'VectorNode': [('childCount() const', '', 0), ('allowHeteroChildren() const', '', 0), ('isDefined(STR) const', 's', 0), ('get(long) const', 'l', 1), ('get(STR) const', 's', 1), ('append(e57::Node const&)', 'n', 0)],
    'CompressedVectorNode': [('childCount() const', '', 0), ('prototype() const', '', 1), ('codecs() const', '', 1)],
    'BlobNode': [('byteCount() const', '', 0), ('read(unsigned char*, long, unsigned long)', 'bll', 0), ('write(unsigned char*, long, unsigned long)', 'bll', 0)],
    'ImageFile': [('root() const', '', 1), ('extensionsAdd(STR, STR)', 'ss', 0), ('extensionsLookupPrefix(STR) const', 's', 0), ('extensionsLookupPrefix(STR, STRM) const', 'ss', 0),
                  ('extensionsLookupUri(STR, STRM) const', 'ss', 0), ('extensionsCount() const', '', 0), ('extensionsPrefix[abi:cxx11](unsigned long) const', 'l', 1), ('extensionsUri[abi:cxx11](unsigned long) const', 'l', 1)],
}


def fn(ctx, cls, sig):
    s = sig.replace('STRM', STR.replace(' const&', '&')).replace('STR', STR)
    return ctx.fn('^' + re.escape('e57::%s::%s' % (cls, s)) + '$')


def string(e, st, name):
    r = Region(name)
    st.mem[r] = {}
    str_new(e, st, [Ptr(r)], 'string')
    return Ptr(r)


def objects(e, st, open_=True, writer=1):
    lfile.install(e)
    e.model(r'^e57::(ImageFileImpl|CheckedFile)::fileName(\[abi:cxx11\])?\(', str_new)
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, open_, writer)
    h = Region('handle')
    st.mem[h] = {}
    lfile.weak(e, st, h, 0, im)
    return im, h, f


def construct(ctx, e, st, h, cls):
    """a real object of that class on the (open) file, built by its public constructor"""
    this = Region(cls)
    st.mem[this] = {}
    z = lambda n: z3.BitVec(n, 64)
    F = 'e57::ImageFile const&'
    if cls == 'ImageFile':
        return [(st, h)]
    args = {'IntegerNode': (F + ', long, long, long', [1, 0, 2]), 'ScaledIntegerNode': (F + ', long, long, long, double, double', [1, 0, 2, 0x3FF0000000000000, 0]),
            'FloatNode': (F + ', double, e57::FloatPrecision, double, double', [0, 2, 0xFFEFFFFFFFFFFFFF, 0x7FEFFFFFFFFFFFFF]), 'StructureNode': (F, []), 'VectorNode': (F + ', bool', [True]),
            'BlobNode': (F + ', long', [16])}.get(cls)
    if cls == 'StringNode':
        args = (F + ', ' + STR, [string(e, st, 'text')])
    if cls == 'CompressedVectorNode':
        # any such node: its members are not looked at before the guards
        n = Region('cvnode')
        st.mem[n] = {}
        lfile.weak(e, st, n, e.off(NI, 'destImageFile_'), e.load(st, Ptr(h), PTR).reg)
        lfile.weak(e, st, this, 0, n)
        return [(st, this)]
    out = []
    for o in e.call(st, ctx.fn('^' + re.escape('e57::%s::%s(%s)' % (cls, cls, args[0])) + '$'), [Ptr(this), Ptr(h)] + args[1]):
        if o.kind == 'ret':
            out.append((o.st, this))
    return out


def same(e, a, b, regs):
    """the listed objects hold what they held"""
    for r in regs:
        for k, (w, v) in a.mem[r].items():
            n = b.mem[r].get(k)
            if isinstance(v, Ptr):
                yield z3.BoolVal(n is not None and isinstance(n[1], Ptr) and n[1].reg is v.reg)
            elif n is not None:
                yield bv(n[1], 8 * w) == bv(v, 8 * w)


def closed(ctx, cls):
    """every public operation of this class that needs an open file, on an object of a file that has been closed: ErrorImageFileNotOpen, and nothing changes"""
    e = ctx.engine()
    e.bool_bytes = True
    st = State()
    im, h, f = objects(e, st)
    for s, this in construct(ctx, e, st, h, cls):
        s.mem[im][e.off(IM, 'file_')] = (8, NULL)             # the file is closed
        s.ghost['ev'] = ()
        e.models = [m for m in e.models if 'pathName' not in m[0].pattern]     # names are looked at here
        e.model_cache.clear()
        impl = e.load(s, Ptr(this), PTR).reg
        for sig, kinds, ret in OPS[cls] + (NODE if cls not in ('ImageFile', 'CompressedVectorNode') else []):
            c = 'Node' if (sig, kinds, ret) in NODE else cls
            t = s.fork()
            args = [Ptr(this)]
            for k in kinds:
                if k == 's':
                    args.append(string(e, t, 'text'))
                elif k == 'n':
                    n = Region('other')
                    t.mem[n] = {}
                    lfile.weak(e, t, n, 0, Region('othernode'))
                    args.append(Ptr(n))
                elif k == 'b':
                    args.append(Ptr(e.new_bytes(t, 'buffer', z3.BitVec('size', 64))))
                else:
                    args.append(z3.BitVec('argument%d' % len(args), 64))
            if ret:
                r = Region('result')
                t.mem[r] = {}
                args.insert(0, Ptr(r))
            t0 = t.fork()
            for o in e.call(t, fn(ctx, c, sig), args):
                name = '%s::%s' % (c, sig.split('(')[0].split('[')[0])
                e.cover(o.st, name + ' is called')
                e.prove(o.st, z3.BoolVal(o.kind != 'ret'), name + ' is refused on a closed file')
                if o.kind != 'ret':
                    e.prove(o.st, bv(o.val.code, 32) == 45, name + ' reports that the file is not open')
                e.prove(o.st, z3.And(z3.BoolVal(o.st.ghost['ev'] == ()), *same(e, t0, o.st, [im, impl])), name + ' changes nothing')


def construction(ctx):
    """no element can be created for a closed file"""
    e = ctx.engine()
    e.bool_bytes = True
    F = 'e57::ImageFile const&'
    for cls, sig, extra in (('IntegerNode', F + ', long, long, long', 3), ('ScaledIntegerNode', F + ', long, long, long, double, double', 5), ('ScaledIntegerNode', F + ', double, double, double, double, double', 5),
                            ('FloatNode', F + ', double, e57::FloatPrecision, double, double', 4), ('StructureNode', F, 0), ('VectorNode', F + ', bool', 'b'), ('BlobNode', F + ', long', 1), ('StringNode', F + ', ' + STR, 's')):
        st = State()
        im, h, f = objects(e, st, open_=False)
        this = Region('new')
        st.mem[this] = {}
        args = [Ptr(this), Ptr(h)]
        if extra == 's':
            args.append(string(e, st, 'text'))
        elif extra == 'b':
            args.append(z3.Bool('allowHetero'))
        else:
            for i in range(extra):
                args.append(z3.BitVec('argument%d' % i, 32 if cls == 'FloatNode' and i == 1 else 64))
        for o in e.call(st, ctx.fn('^' + re.escape('e57::%s::%s(%s)' % (cls, cls, sig)) + '$'), args):
            e.cover(o.st, cls + ' is created')
            e.prove(o.st, z3.BoolVal(o.kind != 'ret'), cls + ' cannot be created for a closed file')
            if o.kind != 'ret':
                e.prove(o.st, bv(o.val.code, 32) == 45, cls + ': reports that the file is not open')


# ------------------------------------------------------------------------------------------------ readers and writers
def stale(ctx, what):
    """reading or writing through a closed reader or writer, or of a closed file: refused with the matching error, nothing changes"""
    cls, m, code = {'read': ('Reader', 'read()', 41), 'read buffers': ('Reader', 'read(std::vector<e57::SourceDestBuffer, std::allocator<e57::SourceDestBuffer> >&)', 41),
                    'write': ('Writer', 'write(unsigned long)', 40), 'seek': ('Reader', 'seek(long)', 0)}[what]
    C = 'e57::CompressedVector%sImpl' % cls
    for fo in (True, False):
        e = ctx.engine()
        e.bool_bytes = True
        st = State()
        im, h, f = objects(e, st, open_=fo)
        o, cv, hd = Region('object'), Region('cvnode'), Region('public')
        c = st.mem[o] = {}
        st.mem[cv], st.mem[hd] = {}, {}
        lfile.weak(e, st, cv, e.off(NI, 'destImageFile_'), im)
        lfile.weak(e, st, o, e.off(C, 'cVector_'), cv)
        lfile.weak(e, st, hd, 0, o)
        opened = z3.Bool('isOpen') if not fo else z3.BoolVal(False)
        c[e.off(C, 'isOpen_')] = (1, z3.If(opened, ONE, ZERO) if not fo else 0)
        reached = []
        # anything behind the guards
        e.model(r'^e57::CompressedVector(Reader|Writer)Impl::(setBuffers|earliestPacketNeededForInput|feedPacketToDecoders|packetWrite|currentPacketSize)\(', lambda eng, s, a, n: (reached.append(n), RET(s, 0))[1])
        args = [Ptr(hd)]
        if 'vector' in m:
            v = Region('buffers')
            st.mem[v] = {}
            args.append(Ptr(v))
        elif what in ('write', 'seek'):
            args.append(z3.BitVec('argument', 64))
        t0 = st.fork()
        for x in e.call(st, ctx.fn('^' + re.escape('e57::CompressedVector%s::%s' % (cls, m)) + '$'), args):
            e.cover(x.st, 'called')
            e.prove(x.st, z3.BoolVal(x.kind != 'ret'), 'refused')
            if x.kind != 'ret' and what != 'seek':
                e.prove(x.st, bv(x.val.code, 32) == code if fo else z3.Or(bv(x.val.code, 32) == 45, z3.And(z3.Not(opened), bv(x.val.code, 32) == code)), 'with the matching error')
            e.prove(x.st, z3.And(*same(e, t0, x.st, [im, o])), 'nothing changes')
        e.obligation('proved' if not [n for n in reached if 'setBuffers' not in e.mod.dem.get(n, n)] else 'unknown', 'nothing is read or written')


def opening(ctx, what):
    """CompressedVectorNode::reader, writer: a reader or writer is only created when the file is open, no writer and no reader is open, buffers are given, the vector is
    attached (and, to write, the file is writable); otherwise the matching error and no count changes"""
    e = ctx.engine()
    e.bool_bytes = True
    st = State()
    lfile.install(e)
    lfile.names(e)
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, True, 1)
    c = st.mem[im]
    wc, rc, wr = z3.BitVec('writerCount', 32), z3.BitVec('readerCount', 32), z3.Bool('isWriter')
    st.assume(z3.And(0 <= wc, wc < 1000, 0 <= rc, rc < 1000))
    c[e.off(IM, 'writerCount_')], c[e.off(IM, 'readerCount_')], c[e.off(IM, 'isWriter_')] = (4, wc), (4, rc), (1, z3.If(wr, ONE, ZERO))
    cv = Region('cvnode')
    st.mem[cv] = {}
    lfile.weak(e, st, cv, e.off(NI, 'destImageFile_'), im)
    att = z3.Bool('isAttached')
    st.mem[cv][e.off(NI, 'isAttached_')] = (1, z3.If(att, ONE, ZERO))
    e.model(r'std::enable_shared_from_this<e57::NodeImpl>::shared_from_this\(', lambda eng, s, a, n: (eng.store(s, a[0], PTR, Ptr(cv)), eng.store(s, Ptr(a[0].reg, a[0].off + 8), PTR, Ptr(Region('ctl'))), RET(s))[2])
    K = 'Writer' if what == 'writer' else 'Reader'
    made = []

    def ctor(eng, s, a, n):
        eng.cover(s, 'creates')
        eng.prove(s, z3.And(wc == 0, rc == 0), 'created only when no writer and no reader is open')
        eng.prove(s, z3.And(att, z3.Not(none)), 'created only for an attached vector, with buffers')
        if what == 'writer':
            eng.prove(s, wr, 'a writer only for a writable file')
        s.set('made', True)
        return RET(s) + eng.throw_e57(s.fork(), eng.fresh('constructorerror', 32))
    e.model(r'^e57::CompressedVector%sImpl::CompressedVector%sImpl\(' % (K, K), ctor)
    none = z3.Bool('noBuffers')
    vec = Region('buffers')
    n = z3.BitVec('buffers', 64)
    st.assume(z3.And(none == (n == 0), ULE(n, B(1 << 20))))
    st.ghost['made'] = False
    tab = Region('buffertable', size=simp(n * 16))
    st.mem[tab] = {}
    st.mem[vec] = {0: (8, Ptr(tab, 0)), 8: (8, Ptr(tab, simp(n * 16))), 16: (8, Ptr(tab, simp(n * 16)))}
    e.model(r'^std::vector<e57::SourceDestBuffer.*::~vector\(', lambda eng, s, a, nm: RET(s))
    ret = Region('result')
    st.mem[ret] = {}
    for o in e.call(st, ctx.fn(r'^e57::CompressedVectorNodeImpl::%s\(' % what), [Ptr(ret), Ptr(cv), Ptr(vec)]):
        s = o.st
        cnt = [bv(e.load(s, Ptr(im, e.off(IM, m)), I(32)), 32) for m in ('writerCount_', 'readerCount_')]
        e.prove(s, z3.And(cnt[0] == wc, cnt[1] == rc), 'the counts change only in the constructor')
        if o.kind == 'ret':
            e.prove(s, z3.BoolVal(s.ghost['made']), 'one was created')
            e.cover(s, 'returns')
        elif not s.ghost['made']:
            e.cover(s, 'refuses')
            k = bv(o.val.code, 32)
            e.prove(s, z3.Or(wc != 0, rc != 0, none, z3.Not(att), z3.And(z3.Not(wr), z3.BoolVal(what == 'writer'))), 'refused only for a reason')
            e.prove(s, z3.And(z3.Implies(k == 47, wc != 0), z3.Implies(k == 48, rc != 0), z3.Implies(z3.And(wc != 0, rc == 0, z3.Not(none), att, wr), k == 47), z3.Implies(z3.And(wc == 0, rc != 0, z3.Not(none), att, wr), k == 48),
                              z3.Implies(z3.And(wc == 0, rc == 0, z3.Not(none), att, z3.Not(wr)), k == 15), z3.Implies(z3.And(wc == 0, rc == 0, z3.Not(none), z3.Not(att), wr), k == 42)), 'with the matching error')


def reader_close(ctx, how):
    """CompressedVectorReaderImpl::close and its destructor: the number of open readers falls by one when it was open, otherwise nothing happens; closed afterwards"""
    e = ctx.engine()
    e.bool_bytes = True
    st = State()
    lfile.install(e)
    lfile.names(e)
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, True, 1)
    rc, wc, opened = z3.BitVec('readerCount', 32), z3.BitVec('writerCount', 32), z3.Bool('isOpen')
    st.assume(z3.And(0 < rc, rc < 1000, 0 <= wc, wc < 1000))
    st.mem[im][e.off(IM, 'readerCount_')], st.mem[im][e.off(IM, 'writerCount_')] = (4, rc), (4, wc)
    r, cv = Region('reader'), Region('cvnode')
    c = st.mem[r] = {}
    st.mem[cv] = {}
    lfile.weak(e, st, cv, e.off(NI, 'destImageFile_'), im)
    lfile.weak(e, st, r, e.off(CR, 'cVector_'), cv)
    c[e.off(CR, 'isOpen_')] = (1, z3.If(opened, ONE, ZERO))
    c[e.off(CR, 'cache_')] = (8, Ptr(Region('cache')))
    e.model(r'^e57::PacketReadCache::~PacketReadCache\(', lambda eng, s, a, n: RET(s))
    e.model(r'^std::vector<e57::DecodeChannel.*::(clear|~vector|_M_erase_at_end)\(', lambda eng, s, a, n: RET(s))
    e.model(r'^std::vector<e57::SourceDestBuffer.*::~vector\(', lambda eng, s, a, n: RET(s))
    e.model(r'^std::shared_ptr<.*::~shared_ptr\(', lambda eng, s, a, n: RET(s))
    fnm = r'^e57::CompressedVectorReaderImpl::close\(\)' if how == 'close' else r'^e57::CompressedVectorReaderImpl::~CompressedVectorReaderImpl\(\)'
    for o in e.call(st, ctx.fn(fnm), [Ptr(r)]):
        s = o.st
        e.cover(s, 'returns')
        e.prove(s, z3.BoolVal(o.kind == 'ret'), 'never fails')
        n1, w1 = [bv(e.load(s, Ptr(im, e.off(IM, m)), I(32)), 32) for m in ('readerCount_', 'writerCount_')]
        e.prove(s, z3.And(n1 == z3.If(opened, rc - 1, rc), w1 == wc), 'the number of open readers falls by one exactly if it was open')
        if how == 'close':
            e.prove(s, bv(e.load(s, Ptr(r, e.off(CR, 'isOpen_')), I(8)), 8) == 0, 'closed afterwards')


def counts(ctx):
    """incrReaderCount, decrReaderCount, incrWriterCount, decrWriterCount change their count by one and nothing else"""
    for kind, d in (('Reader', 1), ('Reader', -1), ('Writer', 1), ('Writer', -1)):
        e = ctx.engine()
        st = State()
        im, h, f = objects(e, st)
        rc, wc = z3.BitVec('readerCount', 32), z3.BitVec('writerCount', 32)
        st.assume(z3.And(0 <= rc, rc < 1 << 30, 0 <= wc, wc < 1 << 30))
        st.mem[im][e.off(IM, 'readerCount_')], st.mem[im][e.off(IM, 'writerCount_')] = (4, rc), (4, wc)
        me = rc if kind == 'Reader' else wc
        for o in e.call(st, ctx.fn(r'^e57::ImageFileImpl::%s%sCount\(' % ('incr' if d > 0 else 'decr', kind)), [Ptr(im)]):
            s = o.st
            n1, w1 = [bv(e.load(s, Ptr(im, e.off(IM, m)), I(32)), 32) for m in ('readerCount_', 'writerCount_')]
            if o.kind != 'ret':
                e.prove(s, z3.And(z3.BoolVal(d < 0), me == 0), 'fails only when there is nothing to count down')
                continue
            e.cover(s, 'counts')
            e.prove(s, z3.And(n1 == rc + (d if kind == 'Reader' else 0), w1 == wc + (d if kind == 'Writer' else 0)), 'one count changes, by one')


def owners(ctx):
    """in the whole library the counts are only stored to by the constructor and the four counting functions; those are only called by the constructors and close of
    readers and writers"""
    e = ctx.engine()
    mod = e.mod
    ty = ('named', '%"class.e57::ImageFileImpl"')
    for m in ('writerCount_', 'readerCount_'):
        fld = next(i for i in range(len(mod.rtype(ty)[1])) if mod.field(ty, i)[0] == e.off(IM, m))
        rx = re.compile(r'^\s*(%%[\w.]+) = getelementptr inbounds %%"class\.e57::ImageFileImpl", ptr \S+, i32 0, i32 %d\b' % fld)
        n = 0
        for name, f in mod.fns.items():
            at = [x.group(1) for x in map(rx.match, f.body) if x]
            if not at:
                continue
            n += 1
            use = re.compile('(' + '|'.join(re.escape(a) for a in at) + r')\b(?!\.)')
            if any(use.search(ln) and not rx.match(ln) and ' = load ' not in ln and '#dbg' not in ln and 'toString' not in ln for ln in f.body):
                d = mod.dem.get(name, name)
                e.obligation('proved' if re.match(r'^e57::ImageFileImpl::(ImageFileImpl|(incr|decr)%sCount)\(' % m[:6].capitalize(), d) else 'unknown', '%s stored to by %s' % (m, d.split('(')[0]))
        e.covers['functions that use %s were found' % m] = n >= 2
    n = 0
    for name, f in mod.fns.items():
        for ln in f.body:
            x = re.search(r'(?:call|invoke) .*@([\w.]+)\(', ln)
            t = x and re.match(r'^e57::ImageFileImpl::(incr|decr)(Reader|Writer)Count\(', mod.dem.get(x.group(1), ''))
            if t:
                n += 1
                d = mod.dem.get(name, name)
                want = r'^e57::CompressedVector%sImpl::%s\(' % (t.group(2), 'CompressedVector%sImpl' % t.group(2) if t.group(1) == 'incr' else 'close')
                e.obligation('proved' if re.match(want, d) else 'unknown', '%s%sCount called by %s' % (t.group(1), t.group(2), d.split('(')[0]))
    e.obligation('proved' if n >= 4 else 'unknown', 'the counting functions are called by constructors and close')


def cancel(ctx):
    """cancel: an open file is closed (deleted from disk if it was being written, else left alone); cancelling again does nothing"""
    e = ctx.engine()
    e.bool_bytes = True
    for fo in (True, False):
        st = State()
        im, h, f = objects(e, st, open_=fo)
        wr = z3.Bool('isWriter')
        st.mem[im][e.off(IM, 'isWriter_')] = (1, z3.If(wr, ONE, ZERO))
        st.ghost.update(unlinked=0, closed=0)
        e.model(r'^e57::CheckedFile::unlink\(', lambda eng, s, a, n: (s.set('unlinked', s.ghost['unlinked'] + 1), RET(s))[1])
        e.model(r'^e57::CheckedFile::close\(', lambda eng, s, a, n: (s.set('closed', s.ghost['closed'] + 1), RET(s))[1])
        e.model(r'^e57::CheckedFile::~CheckedFile\(', lambda eng, s, a, n: RET(s))
        for o in e.call(st, ctx.fn(r'^e57::ImageFileImpl::cancel\('), [Ptr(im)]):
            s = o.st
            e.cover(s, 'returns')
            e.prove(s, z3.BoolVal(o.kind == 'ret'), 'never fails')
            p = s.mem[im][e.off(IM, 'file_')][1]
            e.prove(s, z3.BoolVal((isinstance(p, Ptr) and p.reg is None) or p == 0), 'the file is closed afterwards')
            if fo:
                e.prove(s, z3.If(wr, z3.BoolVal(s.ghost['unlinked'] == 1), z3.BoolVal(s.ghost['unlinked'] == 0)), 'a file being written is deleted, one being read is not')
            else:
                e.prove(s, z3.BoolVal(s.ghost['unlinked'] == 0 and s.ghost['closed'] == 0), 'cancelling a closed file does nothing')


def created(ctx, what):
    """the constructors of readers and writers: on success the object is open and its count went up by one; when it fails, however it fails, no count changed"""
    e = ctx.engine()
    e.bool_bytes = True
    st = State()
    lfile.install(e)
    lfile.names(e)
    f = lfile.init(e, st)
    im = lfile.imagefile(e, st, f, True, 1, unused=z3.BitVec('unused', 64))
    rc, wc = z3.BitVec('readerCount', 32), z3.BitVec('writerCount', 32)
    st.assume(z3.And(0 <= rc, rc < 1 << 30, 0 <= wc, wc < 1 << 30))
    st.mem[im][e.off(IM, 'readerCount_')], st.mem[im][e.off(IM, 'writerCount_')] = (4, rc), (4, wc)
    cv, o = Region('cvnode'), Region(what)
    st.mem[cv], st.mem[o] = {}, {}
    lfile.weak(e, st, cv, e.off(NI, 'destImageFile_'), im)
    st.mem[cv][e.off(CV, 'recordCount_')] = (8, z3.BitVec('records', 64))
    st.mem[cv][e.off(CV, 'binarySectionLogicalStart_')] = (8, z3.BitVec('sectionStart', 64))
    arg = Region('argument')
    st.mem[arg] = {0: (8, Ptr(cv)), 8: (8, Ptr(Region('ctl')))}
    n = z3.BitVec('buffers', 64)
    st.assume(ULE(n, B(1 << 20)))
    tab = Region('buffertable', size=simp(n * 16))
    st.mem[tab] = {}
    vec = Region('buffers')
    st.mem[vec] = {0: (8, Ptr(tab, 0)), 8: (8, Ptr(tab, simp(n * 16))), 16: (8, Ptr(tab, simp(n * 16)))}
    fails = lambda eng, s: eng.throw_e57(s.fork(), eng.fresh('error', 32))

    def maykeep(eng, s, a, nm):
        return fails(eng, s) + RET(s)

    def mayobj(eng, s, a, nm):          # returns a shared pointer through its first argument
        bad = fails(eng, s)
        eng.store(s, a[0], PTR, Ptr(Region('object')))
        eng.store(s, Ptr(a[0].reg, eng._addoff(a[0].off, 8, 64, 1)), PTR, Ptr(Region('ctl')))
        return bad + RET(s)

    def set_buffers(eng, s, a, nm):      # as many as it was given
        bad = fails(eng, s)
        at = eng.off(CW, 'sbufs_') if what == 'writer' else eng.off(CR, 'dbufs_')
        for k, v in ((0, B(0)), (8, simp(n * 16)), (16, simp(n * 16))):
            eng.store(s, Ptr(a[0].reg, at + k), PTR, Ptr(tab, v))
        return bad + RET(s)

    def virtual(slot):
        return lambda eng, s, a, x: fails(eng, s) + (RET(s, eng.fresh('found', 1)) if slot != 4 else mayobj(eng, s, a, x))
    proto = lfile.vobject(e, st, 'prototype', virtual)
    e.model(r'^e57::CompressedVectorNodeImpl::getPrototype\(', lambda eng, s, a, nm: (eng.store(s, a[0], PTR, Ptr(proto)), eng.store(s, Ptr(a[0].reg, eng._addoff(a[0].off, 8, 64, 1)), PTR, Ptr(Region('ctl'))), RET(s))[2])
    e.model(r'^e57::CompressedVector(Reader|Writer)Impl::setBuffers\(', set_buffers)
    e.model(r'^e57::(Encoder::EncoderFactory|Decoder::DecoderFactory)\(', mayobj)
    e.model(r'\bstd::vector<(e57::SourceDestBuffer|e57::DecodeChannel|std::shared_ptr<e57::Encoder>).*::(push_back|emplace_back)', maykeep)
    e.model(r'^std::vector<(e57::SourceDestBuffer|e57::DecodeChannel|std::shared_ptr<e57::Encoder>).*::~vector\(', lambda eng, s, a, nm: RET(s))
    e.model(r'^std::shared_ptr<.*::~shared_ptr\(', lambda eng, s, a, nm: RET(s))
    e.model(r'^e57::SourceDestBuffer::pathName', lambda eng, s, a, nm: fails(eng, s) + str_new(eng, s, a, nm))
    e.model(r'^e57::NodeImpl::findTerminalPosition\(', lambda eng, s, a, nm: fails(eng, s) + (eng.store(s, a[2], I(64), eng.fresh('stream', 64)), RET(s, eng.fresh('found', 1)))[1])
    e.model(r'^void std::sort<', lambda eng, s, a, nm: RET(s))
    e.model(r'^e57::(CompressedVectorSectionHeader::verify|PacketReadCache::PacketReadCache)\(', maykeep)
    e.model(r'^e57::PacketReadCache::~PacketReadCache\(', lambda eng, s, a, nm: RET(s))
    e.model(r'^e57::CheckedFile::(seek|read|extend|write|physicalToLogical|logicalToPhysical|length)\(', lambda eng, s, a, nm: fails(eng, s) + RET(s, eng.fresh('filevalue', 64)))
    pkt = Region('packet')
    st.mem[pkt] = {}

    def lock(eng, s, a, nm):
        bad = fails(eng, s)
        eng.store(s, a[0], PTR, NULL)
        p = eng.new_bytes(s, 'packet', B(65536))
        eng.store(s, a[3], PTR, Ptr(p))
        return bad + RET(s)
    e.model(r'^e57::PacketReadCache::lock\(', lock)
    e.model(r'^std::unique_ptr<e57::PacketLock.*::~unique_ptr\(', lambda eng, s, a, nm: RET(s))
    C = CW if what == 'writer' else CR
    for x in e.call(st, ctx.fn(r'^%s::%s\(' % (C, C.split('::')[1])), [Ptr(o), Ptr(arg), Ptr(vec)]):
        s = x.st
        n1, w1 = [bv(e.load(s, Ptr(im, e.off(IM, m)), I(32)), 32) for m in ('readerCount_', 'writerCount_')]
        if x.kind == 'ret':
            e.cover(s, 'succeeds')
            e.prove(s, z3.And(n1 == rc + (what == 'reader'), w1 == wc + (what == 'writer')), 'counted once on success')
            e.prove(s, bv(e.load(s, Ptr(o, e.off(C, 'isOpen_')), I(8)), 8) == 1, 'open on success')
            e.prove(s, bv(e.load(s, Ptr(o, e.off(C, 'recordCount_')), I(64)), 64) == 0, 'at the first record')
            if what == 'reader':
                e.prove(s, bv(e.load(s, Ptr(o, e.off(C, 'maxRecordCount_')), I(64)), 64) == z3.BitVec('records', 64), 'as many records as the vector has')
        else:
            e.cover(s, 'fails')
            e.prove(s, z3.And(n1 == rc, w1 == wc), 'not counted on failure')


UNITS = [Unit('closed ' + c, closed, arg=c) for c in OPS] + [Unit('construction', construction)] + [Unit('stale ' + w, stale, arg=w) for w in ('read', 'read buffers', 'write', 'seek')] + \
    [Unit('opening ' + w, opening, arg=w) for w in ('reader', 'writer')] + [Unit('reader ' + w, reader_close, arg=w) for w in ('close', 'destructor')] + \
    [Unit('created ' + w, created, arg=w) for w in ('reader', 'writer')] + [Unit('writer close', c20.close), Unit('counts', counts), Unit('owners', owners), Unit('cancel', cancel), Unit('file close twice', c16.reclose)]
ASSUMPTIONS = ['shared ownership (handles keep the file object alive) is the standard library\'s: a handle to a destroyed file object is not considered',
               'element handles are built by the public constructors, then the file is closed: the guards do not depend on the element\'s contents']

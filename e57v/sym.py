"""Verification-condition generator: forward symbolic execution of LLVM IR with contracts.

Calls are replaced by a contract where the verification unit gives one, otherwise the callee's body
is entered.  Loops are cut at their header: everything the body writes is forgotten, the inductive
subset of the candidate invariants is assumed (see loops.py), so a single pass over the body stands
for every iteration.  There is no unwinding bound (loops whose trip count folds to a constant are
simply executed).
"""
import re
import struct
import time
import z3
from . import intx
from .ir import Unsupported, PTR, VOID, I, Module

ULT, ULE, UGT, UGE = z3.ULT, z3.ULE, z3.UGT, z3.UGE


def mask(w):
    return (1 << w) - 1


def isc(v):
    return isinstance(v, (int, bool))


def bv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    if isinstance(v, z3.BitVecRef):
        return v == 1
    return v


def norm(v):
    """fold a z3 term to a python value when it is a literal"""
    if isinstance(v, z3.BitVecNumRef):
        return v.as_long()
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def simp(v):
    """fold to a python literal where possible; boolean terms keep their original shape"""
    if isc(v):
        return v
    s = norm(z3.simplify(v))
    if isinstance(s, z3.BoolRef):
        return v
    return s


def s2(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# --------------------------------------------------------------------------- memory
class Region:
    __slots__ = ('id', 'name', 'size', 'kind', 'isnull', 'cls', 'init', 'cells', 'fn', 'base', 'addr', 'ptrhook',
                 'meta', 'stack')
    count = 0

    def __init__(self, name, size=None, kind='cells', isnull=False, cls=None, init='sym'):
        Region.count += 1
        self.id = Region.count
        self.name = name
        self.size = size          # int, BV64 or None (unknown: no bounds obligation)
        self.kind = kind          # 'cells' | 'bytes'
        self.isnull = isnull      # False or z3 Bool
        self.cls = cls
        self.init = init          # 'sym' | 'zero' | 'undef'
        self.cells = {}           # shared initial cells (lazily created)
        self.fn = None
        self.base = None
        self.addr = None
        self.ptrhook = None
        self.meta = {}
        self.stack = False

    def __repr__(self):
        return '<%s>' % self.name


class Ptr:
    __slots__ = ('reg', 'off')

    def __init__(self, reg, off=0):
        self.reg = reg
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.reg, self.off)


NULL = Ptr(None, 0)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class PtrInt:
    """result of ptrtoint"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Exc:
    """in-flight exception"""
    def __init__(self, kind, code=None, reg=None):
        self.kind = kind          # typeinfo symbol, e.g. _ZTIN3e5712E57ExceptionE
        self.code = code          # E57 error code (int/BV) or None
        self.reg = reg

    def __repr__(self):
        return 'Exc(%s,%s)' % (self.kind, self.code)


class Layer:
    """functional byte map: index (int or BV64) -> BV8/int"""
    __slots__ = ()


class Base(Layer):
    __slots__ = ('f', 'name')
    n = 0

    def __init__(self, name):
        Base.n += 1
        self.name = '%s#%d' % (name, Base.n)
        self.f = z3.Function(self.name, z3.BitVecSort(64), z3.BitVecSort(8))

    def read(self, i):
        return self.f(bv(i, 64))


class Zero(Layer):
    __slots__ = ()

    def read(self, i):
        return 0


class ConstBytes(Layer):
    __slots__ = ('b', 'arr')

    def __init__(self, b):
        self.b = b

    def read(self, i):
        if isc(i):
            return self.b[i] if i < len(self.b) else 0
        r = z3.BitVecVal(0, 8)
        for k in range(len(self.b) - 1, -1, -1):
            r = z3.If(i == k, z3.BitVecVal(self.b[k], 8), r)
        return r


def inrange(i, off, n):
    """off <= i < off+n  (unsigned, no wrap assumed for the window itself)"""
    if isc(i) and isc(off) and isc(n):
        return off <= i < off + n
    d = simp(bv(i, 64) - bv(off, 64))
    if isc(d) and isc(n):
        return d < n
    return simp(ULT(bv(d, 64), bv(n, 64)))


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


class Store(Layer):
    __slots__ = ('prev', 'off', 'n', 'val')

    def __init__(self, prev, off, n, val):
        self.prev, self.off, self.n, self.val = prev, off, n, val

    def read(self, i):
        c = inrange(i, self.off, self.n)
        if c is False:
            return self.prev.read(i)
        if self.n == 1:
            v = self.val
        else:
            d = simp(bv(i, 64) - bv(self.off, 64))
            if isc(d):
                if isc(self.val):
                    v = (self.val >> (8 * (d % (1 << 32)))) & 255 if d < self.n else 0
                else:
                    v = z3.Extract(8 * d + 7, 8 * d, self.val) if d < self.n else 0
            else:
                v = bv(byte_of(self.val, 0, self.n), 8)
                for k in range(1, self.n):
                    v = z3.If(d == k, bv(byte_of(self.val, k, self.n), 8), v)
        if c is True:
            return v
        return ite(c, v, self.prev.read(i), 8)


def byte_of(val, k, n):
    if isc(val):
        return (val >> (8 * k)) & 255
    return z3.Extract(8 * k + 7, 8 * k, val)


class Copy(Layer):
    __slots__ = ('prev', 'off', 'n', 'src', 'soff')

    def __init__(self, prev, off, n, src, soff):
        self.prev, self.off, self.n, self.src, self.soff = prev, off, n, src, soff

    def read(self, i):
        c = inrange(i, self.off, self.n)
        if c is False:
            return self.prev.read(i)
        j = simp(bv(i, 64) - bv(self.off, 64) + bv(self.soff, 64))
        v = self.src.read(j)
        if c is True:
            return v
        return ite(c, v, self.prev.read(i), 8)


class Fill(Layer):
    __slots__ = ('prev', 'off', 'n', 'val')

    def __init__(self, prev, off, n, val):
        self.prev, self.off, self.n, self.val = prev, off, n, val

    def read(self, i):
        c = inrange(i, self.off, self.n)
        if c is False:
            return self.prev.read(i)
        if c is True:
            return self.val
        return ite(c, self.val, self.prev.read(i), 8)


class Func(Layer):
    """byte map given by a python closure over terms"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def read(self, i):
        return self.f(i)


class State:
    __slots__ = ('pc', 'mem', 'ghost', 'log', 'trace', 'imprecise')

    def __init__(self):
        self.imprecise = False      # a loop on the way lost an invariant to a solver limit: a refutation is then not conclusive
        self.pc = []
        self.mem = {}
        self.ghost = {}
        self.log = None
        self.trace = ()

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.log = self.log            # shared set during discovery
        s.trace = self.trace
        s.imprecise = self.imprecise
        return s

    def assume(self, c):
        c = simp(zb(c))
        if c is True:
            return self
        self.pc.append(zb(c))
        return self

    def set(self, name, v):
        if self.log is not None:
            self.log.add(('ghost', name))
        self.ghost[name] = v


class Outcome:
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val


class LoopInst:
    """A loop being verified: entry snapshot, havocked header snapshot, invariants."""
    pass


class Limit(Exception):
    pass


class Session:
    def __init__(self, eng, hyps):
        self.eng, self.hyps = eng, list(hyps)
        self.ses = None
        if not eng.bv_only:
            try:
                self.ses = intx.Session(self.hyps)
            except (intx.NotInt, z3.Z3Exception):
                pass

    def entails(self, goal, timeout):
        g = simp(zb(goal))
        if g is True:
            return 'proved', None, 'simplify'
        if self.ses is not None:
            t = time.time()
            try:
                r, m = self.ses.refute(zb(g), timeout)
                self.eng.queries += 1
                if r == z3.unsat:
                    return 'proved', None, 'z3/lia'
                if r == z3.sat:
                    return 'refuted' if self.ses.whole else 'unknown', m, 'z3/lia'
                return 'unknown', None, None
            except (intx.NotInt, z3.Z3Exception):
                pass
            finally:
                dt = time.time() - t
                self.eng.solver_time += dt
                if self.eng.debug and dt > .3:
                    print('  goal %.1fs %s' % (dt, str(g)[:150].replace(chr(10), ' ')), flush=True)
        return self.eng.entails(self.hyps, goal, (timeout,))


def shape(f, yes):
    seen, todo = set(), [zb(f)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x):
            continue
        if yes(x, x.decl().kind()):
            return True
        todo.extend(x.children())
    return False


_bits = {}


def bitwise(f):
    return shape(f, lambda x, k: k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT))


def bitfriendly(f):
    f = zb(f)
    r = _bits.get(f.get_id())
    if r is None:
        def bad(x, k):
            if k == z3.Z3_OP_BMUL:
                cs = [c.as_long() for c in x.children() if z3.is_bv_value(c)]
                return len(cs) + 1 < x.num_args() or any(c & (c - 1) for c in cs)
            return k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM) and not (
                z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() & (x.arg(1).as_long() - 1) == 0 and x.arg(1).as_long())
        r = (not shape(f, bad), f)
        _bits[f.get_id()] = r
    return r[0]


class Engine:
    def __init__(self, mod, unit=None):
        self.mod = mod
        self.unit = unit
        self.models = []           # (regex, callable)
        self.model_cache = {}
        self.gl = {}
        self.quiet = 0
        self.soft = False           # refutations over uninterpreted arithmetic are not conclusive
        self.obls = []             # Obligation results
        self.fpmode = 'uf'
        self.fresh_n = 0
        self.steps = 0
        self.max_steps = 4_000_000
        self.max_paths = 20000
        self.solver_time = 0.0
        self.queries = 0
        self.templates = []        # loop invariant templates
        self.loop_hooks = []
        self.axioms = []           # defining equations of recursive specification functions, instantiated at loop heads
        self.layer_templates = []  # candidate functional contents of byte regions
        self.safety = set()        # categories of implicit obligations to generate
        self.inlined = set()
        self.contracts_used = set()
        self.loops_seen = {}
        self.depth = 0
        self.nofeas = 0
        self.deadline = None
        self.typeids = {}
        self.feas_timeout = 400
        self.prove_timeouts = (6000, 20000, 60000)
        self.hook_call = None
        self.unrolled = set()
        self.prove_cache = {}
        self.covers = {}
        self.div_like = False
        self.bit_ms = 0             # time for a first attempt at bit-level goals without the arithmetic hypotheses
        self.ptr_classes = {}
        self.nokeys = {'lastread'}
        self.want_samples = 40
        self.houdini_ms = 700
        self.bv_only = False
        self.samples = []          # concrete assignments used to propose loop invariants
        self.layer_probe = lambda v, subs: (0, 1, 7, 100, 1019, 1020, 1023, 1024, 2050)
        self.debug = False
        self.last_branch_concrete = False
        self.peel_limit = 300
        self.short_loops = 0      # loops that cannot run more often than this are executed as they are
        self.assumed = {}          # text of assumed contract -> uses

    # ---------------------------------------------------------------- helpers
    def fresh(self, name, w):
        self.fresh_n += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.fresh_n))
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def region(self, name, **k):
        return Region(name, **k)

    def new_bytes(self, st, name, size, layer=None, isnull=False):
        r = Region(name, size=size, kind='bytes', isnull=isnull)
        st.mem[r] = layer if layer is not None else Base(name)
        return r

    def off(self, cls, member):
        return self.mod.di.off(cls, member)

    # ---------------------------------------------------------------- solving
    def _solver(self, kind, timeout):
        if kind == 'int':
            s = z3.SimpleSolver()
            s.set('bv.solver', 2)
        elif kind == 'fd':
            s = z3.SolverFor('QF_UFBV')
        elif kind == 'fp':
            s = z3.SolverFor('QF_FPBV')
        else:
            s = z3.SimpleSolver() if kind == 'simple' else z3.Solver()
        s.set('timeout', int(timeout * intx.SCALE))
        return s

    def check(self, fs, timeout, kind='default'):
        self.queries += 1
        s = self._solver(kind, timeout)
        s.add(*fs)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        if self.debug and dt > 0.5:
            print('  query', kind, timeout, r, '%.1fs' % dt, len(fs), str(fs[-1])[:150].replace('\n', ' '), flush=True)
        return r, s

    def solve(self, fs, timeout):
        """-> (sat|unsat|unknown, model, backend): integer translation first, then bit-vectors"""
        best = (z3.unknown, None, None)
        t = time.time()
        if not self.bv_only:
            try:
                r, m = intx.check(fs, timeout)
                self.queries += 1
                dt = time.time() - t
                self.solver_time += dt
                if self.debug and dt > 0.5:
                    print('  query lia', timeout, r, '%.1fs' % dt, len(fs), str(fs[-1])[:150].replace('\n', ' '), flush=True)
                if r != z3.unknown:
                    return r, m, 'z3/lia'
            except (intx.NotInt, z3.Z3Exception):
                pass
        try:
            r, s = self.check(fs, timeout, 'default')
        except z3.Z3Exception:
            return best
        return r, (s.model() if r == z3.sat else None), 'z3/bv'

    def session(self, hyps):
        return Session(self, hyps)

    def feasible(self, st, extra=None):
        if self.nofeas:
            return True
        fs = list(st.pc)
        if extra is not None:
            c = simp(zb(extra))
            if c is True:
                extra = None
            elif c is False:
                return False
            else:
                fs.append(c)
        if not fs:
            return True
        key = ('feas',) + tuple(f.get_id() for f in fs)
        hit = self.prove_cache.get(key)
        if hit is not None:
            return hit[0]
        r, _, _ = self.solve(fs, self.feas_timeout)
        res = r != z3.unsat
        self.prove_cache[key] = (res, fs)
        return res

    def entails(self, pc, goal, timeouts=None):
        """('proved'|'refuted'|'unknown', model, backend)"""
        g = simp(zb(goal))
        if g is True:
            return 'proved', None, 'simplify'
        ng = z3.Not(zb(g))
        key = tuple(f.get_id() for f in pc) + (ng.get_id(),)
        hit = self.prove_cache.get(key)
        if hit is not None:
            return hit[0]
        fs = list(pc) + [ng]
        res = ('unknown', None, None)
        if self.bit_ms and bitwise(ng):
            # first without the arithmetic hypotheses that bit-blast badly
            r, m = self.check([f for f in pc if bitfriendly(f)] + [ng], self.bit_ms, 'fd')
            if r == z3.unsat:
                res = ('proved', None, 'z3/bv')
                self.prove_cache[key] = (res, fs)
                return res
        for t in (timeouts or self.prove_timeouts):
            r, m, be = self.solve(fs, t)
            if r == z3.unsat:
                res = ('proved', None, be)
                break
            if r == z3.sat:
                res = ('refuted', m, be)
                break
        if res[0] != 'unknown':
            self.prove_cache[key] = (res, fs)
        return res

    def prove(self, st, goal, name, info=None):
        """Generate and discharge one obligation.  Returns True when proved."""
        if self.quiet:
            return True
        t = time.time()
        r, m, be = self.entails(st.pc, goal)
        if r == 'refuted' and (st.imprecise or self.soft):
            r = 'unknown'
        self.obls.append({'name': name, 'result': r, 'backend': be, 'time': time.time() - t,
                          'model': self.model_values(m) if m is not None else None, 'info': info,
                          'trace': list(st.trace)[-12:]})
        return r == 'proved'

    def obligation(self, result, name, backend='whole-program scan'):
        """an obligation decided by other means than a solver query"""
        self.obls.append({'name': name, 'result': result, 'backend': backend, 'time': 0, 'model': None, 'info': None, 'trace': []})

    def cover(self, st, name):
        """Reachability witness (vacuity guard): records whether the path condition is satisfiable."""
        if self.quiet:
            return
        if self.covers.get(name):
            return
        r, _, _ = self.solve(list(st.pc), 5000) if st.pc else (z3.sat, None, None)
        for how, ms in (('fd', 5000), ('default', 20000)):
            if r != z3.unknown:
                break
            try:
                r, _ = self.check(list(st.pc), ms, how)
            except z3.Z3Exception:
                pass
        self.covers[name] = (r == z3.sat)

    def model_values(self, m):
        out = {}
        if isinstance(m, intx.IntModel):
            return m.values()
        try:
            for d in m.decls():
                if d.arity() == 0:
                    v = m[d]
                    if isinstance(v, z3.BitVecNumRef):
                        out[d.name()] = v.as_long()
                    elif z3.is_bool(v):
                        out[d.name()] = z3.is_true(v)
        except z3.Z3Exception:
            pass
        return out

    # ---------------------------------------------------------------- globals
    def global_ptr(self, name):
        name = name[1:]
        if name.startswith('"'):
            name = name[1:-1]
        if name in self.gl:
            return Ptr(self.gl[name], 0)
        mod = self.mod
        name2 = mod.resolve_alias(name)
        if name2 in mod.fns or name2 in mod.decls:
            r = Region('@' + name2, size=0)
            r.fn = name2
        elif name in mod.globals:
            r = Region('@' + name)
            r.meta['global'] = mod.globals[name]
        else:
            r = Region('@' + name)
        self.gl[name] = r
        return Ptr(r, 0)

    def load_global(self, r):
        """lazily materialise the initialiser of a constant global"""
        if 'cells' in r.meta:
            return
        r.meta['cells'] = True
        g = r.meta.get('global')
        if g is None:
            return
        m = re.match(r'^(.*?)\b(constant|global)\b (.*)$', g)
        if not m:
            return
        if m.group(2) == 'global' and 'internal' not in m.group(1):
            return
        rest = m.group(3)
        from .ir import P, toks
        p = P(toks(rest), self.mod)
        ty = p.type()
        if p.peek() is None or p.peek() == ',':
            return
        try:
            v = p.value(ty)
        except (Unsupported, IndexError):
            return
        if m.group(2) == 'global':
            return
        if v[0] == 'bytes':
            r.kind = 'bytes'
            r.size = len(v[1])
            r.meta['layer'] = ConstBytes(v[1])
            return
        if v[0] == 'zero' and ty[0] == 'arr' and ty[2] == I(8):
            r.kind = 'bytes'
            r.size = ty[1]
            r.meta['layer'] = Zero()
            return
        if ty[0] == 'arr' and ty[2][0] == 'i' and v[0] == 'agg':
            n = self.mod.sizeof(ty[2])
            b = b''.join((e[1][1] if e[1][0] == 'c' else 0).to_bytes(n, 'little') for e in v[1])
            r.kind = 'bytes'
            r.size = len(b)
            r.meta['layer'] = ConstBytes(b)
            return
        self._init_cells(r, 0, ty, v)
        r.size = self.mod.sizeof(ty)
        r.init = 'zero' if False else r.init

    def _init_cells(self, r, off, ty, v):
        rt = self.mod.rtype(ty)
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                if rt[0] == 'struct':
                    o, _ = self.mod.field(rt, i)
                else:
                    o = i * self.mod.sizeof(rt[2])
                self._init_cells(r, off + o, et, ev)
        elif v[0] == 'zero':
            n = self.mod.sizeof(rt)
            for k in range(0, n):
                r.cells[off + k] = (1, 0)
        elif v[0] == 'bytes':
            for k, b in enumerate(v[1]):
                r.cells[off + k] = (1, b)
        else:
            val = self.const(rt, v)
            r.cells[off] = (self.mod.sizeof(rt), val)

    def const(self, ty, v):
        k = v[0]
        if k == 'c':
            return v[1] if ty != I(1) else bool(v[1])
        if k == 'glob':
            return self.global_ptr(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'cgep':
            base = self.const(PTR, v[2])
            return self.gep(v[1], base, [(t, self.const(t, x)) for t, x in v[3]])
        if k == 'agg':
            return tuple(self.const(t, x) for t, x in v[1])
        if k == 'ccast':
            if v[1] in ('bitcast',):
                return self.const(v[2], v[3])
            if v[1] == 'inttoptr':
                x = self.const(v[2], v[3])
                if isc(x):
                    return Ptr(None, x)
            raise Unsupported('const cast')
        raise Unsupported('const %r' % (v,))

    def zero(self, ty):
        ty = self.mod.rtype(ty)
        if ty[0] == 'i':
            return False if ty[1] == 1 else 0
        if ty[0] == 'fp':
            return 0
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'struct':
            return tuple(self.zero(e) for e in ty[1])
        if ty[0] == 'arr':
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero of %r' % (ty,))

    def val(self, regs, ty, v):
        if v[0] == 'reg':
            return regs[v[1]]
        return self.const(ty, v)

    # ---------------------------------------------------------------- pointers
    def gep(self, bt, base, idx):
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        ty = bt
        first = True
        for it, iv in idx:
            w = it[1]
            if first:
                sz = self.mod.sizeof(ty)
                off = self._addoff(off, iv, w, sz)
                first = False
                continue
            rt = self.mod.rtype(ty)
            if rt[0] == 'struct':
                o, ty = self.mod.field(rt, iv)
                off = self._addoff(off, o, 64, 1)
            elif rt[0] in ('arr', 'vec'):
                ty = rt[2]
                off = self._addoff(off, iv, w, self.mod.sizeof(ty))
            else:
                raise Unsupported('gep type')
        if base.reg is not None and 'subs' in base.reg.meta and isc(off):
            # a member held as a region of its own
            for lo, hi, sub in base.reg.meta['subs']:
                if lo <= off < hi:
                    return Ptr(sub, off - lo)
        return Ptr(base.reg, off)

    def _addoff(self, off, iv, w, sz):
        if isinstance(iv, PtrInt) or iv is UNDEF:
            raise Unsupported('gep index')
        if isc(iv):
            d = (s2(iv, w) * sz) & mask(64)
            if isc(off):
                return (off + d) & mask(64)
            return simp(off + z3.BitVecVal(d, 64)) if d else off
        x = iv if w == 64 else z3.SignExt(64 - w, iv)
        return simp(bv(off, 64) + (x * sz if sz != 1 else x))

    def paddr(self, p):
        """integer address of pointer (symbolic base per region)"""
        if p.reg is None:
            return p.off
        if p.reg.addr is None:
            p.reg.addr = z3.BitVec('addr(%s)%d' % (p.reg.name, p.reg.id), 64)
        return simp(p.reg.addr + bv(p.off, 64))

    def ptr_eq(self, a, b):
        if a is UNDEF or b is UNDEF:
            return self.fresh('undefcmp', 1)
        if a.reg is b.reg:
            if a.reg is None or True:
                r = simp(bv(a.off, 64) == bv(b.off, 64))
                return r
        if a.reg is None or b.reg is None:
            n, o = (a, b) if a.reg is None else (b, a)
            if isc(n.off) and n.off == 0:
                # compare against null
                if o.reg.isnull is False:
                    return False
                return o.reg.isnull
            return False
        # different regions: distinct objects (separation assumption), unless both null
        an, bn = a.reg.isnull, b.reg.isnull
        if a.reg.meta.get('alias_of') is not None or b.reg.meta.get('alias_of') is not None:
            ra, rb = a.reg.meta.get('alias_of'), b.reg.meta.get('alias_of')
            return self.fresh('palias', 1)
        if an is False or bn is False:
            return False
        return z3.And(an, bn)

    # ---------------------------------------------------------------- memory access
    def mem_state(self, st, reg):
        s = st.mem.get(reg)
        if s is None:
            if 'global' in reg.meta:
                self.load_global(reg)
            if reg.kind == 'bytes':
                s = reg.meta.get('layer')
                if s is None:
                    s = Zero() if reg.init == 'zero' else Base(reg.name)
                    reg.meta['layer'] = s
            else:
                s = {}
            st.mem[reg] = s
        return s

    def to_bytes(self, st, reg):
        """convert a cells region holding plain data into a byte-addressed one"""
        s = self.mem_state(st, reg)
        if reg.kind == 'bytes' or isinstance(s, Layer):
            return s
        lay = reg.meta.get('layer')
        if lay is None:
            lay = Zero() if reg.init == 'zero' else Base(reg.name)
            reg.meta['layer'] = lay
            for o, (n, v) in sorted(reg.cells.items()):
                if isinstance(v, (Ptr, PtrInt)) or v is UNDEF:
                    continue
                lay = Store(lay, o, n, v if not isinstance(v, z3.BoolRef) else bv(v, 8))
            reg.meta['layer'] = lay
        for o, (n, v) in sorted(s.items()):
            if isinstance(v, (Ptr, PtrInt)) or v is UNDEF:
                continue
            lay = Store(lay, o, n, v if not isinstance(v, z3.BoolRef) else bv(v, 8))
        st.mem[reg] = lay
        return lay

    def bounds(self, st, reg, off, n, what):
        if reg.size is None or 'bounds' not in self.safety or self.quiet:
            return
        if isc(off) and isc(reg.size) and isc(n):
            ok = off + n <= reg.size
            if ok:
                return
            self.prove(st, z3.BoolVal(False), 'memory.%s in bounds of %s' % (what, reg.name))
            return
        sz = bv(reg.size, 64)
        o = bv(off, 64)
        k = bv(n, 64)
        self.prove(st, z3.Or(k == 0, z3.And(ULE(o, sz), ULE(k, sz - o))), 'memory.%s in bounds of %s' % (what, reg.name))

    def load(self, st, p, ty):
        if not isinstance(p, Ptr):
            raise Unsupported('load from %r' % (p,))
        if p.reg is None:
            if 'null' in self.safety:
                self.prove(st, z3.BoolVal(False), 'memory.load through null')
            raise Limit('null')
        reg, off = p.reg, p.off
        ty = self.mod.rtype(ty)
        n = self.mod.sizeof(ty)
        if reg.fn is not None:
            raise Unsupported('load from function')
        self.bounds(st, reg, off, n, 'load')
        s = self.mem_state(st, reg)
        if ty[0] in ('struct', 'arr'):
            if ty[0] == 'struct':
                return tuple(self.load(st, Ptr(reg, self._addoff(off, self.mod.field(ty, i)[0], 64, 1)), e)
                             for i, e in enumerate(ty[1]))
            es = self.mod.sizeof(ty[2])
            return tuple(self.load(st, Ptr(reg, self._addoff(off, i * es, 64, 1)), ty[2]) for i in range(ty[1]))
        if 'record' in reg.meta and ty[0] != 'ptr':
            return self.from_bits(reg.meta['record'].load(self, st, off, n), ty)
        if isinstance(s, Layer):
            if ty[0] == 'ptr':
                return self.load_ptr_bytes(st, reg, off)
            return self.from_bits(self.read_bytes(s, off, n), ty)
        if not isc(off):
            if ty[0] == 'ptr':
                return self.load_ptr_bytes(st, reg, off)
            s = self.to_bytes(st, reg)
            return self.from_bits(self.read_bytes(s, off, n), ty)
        c = s.get(off)
        if c is not None and c[0] == n:
            return self.conv(c[1], ty, reg, off)
        if c is None:
            ci = reg.cells.get(off)
            if ci is not None and ci[0] == n and not self._overlap(s, off, n):
                return self.conv(ci[1], ty, reg, off)
        if not self._overlap(s, off, n) and not self._overlap(reg.cells, off, n):
            v = self.init_value(st, reg, off, ty, n)
            reg.cells[off] = (n, v)
            return v
        # compose from bytes
        if ty[0] == 'ptr':
            parts = [self._cell_byte(s, reg, off + k) for k in range(n)]
            if all(isc(b) and b == 0 for b in parts):
                return NULL
            raise Unsupported('pointer load from overlapping cells %s+%s' % (reg.name, off))
        parts = [self._cell_byte(s, reg, off + k) for k in range(n)]
        return self.from_bits(self.join(parts), ty)

    def load_ptr_bytes(self, st, reg, off):
        if reg.ptrhook is not None:
            return reg.ptrhook(self, st, reg, off)
        raise Unsupported('pointer load at symbolic offset from %s' % reg.name)

    def init_value(self, st, reg, off, ty, n):
        if reg.ptrhook is not None and ty[0] == 'ptr':
            p = reg.ptrhook(self, st, reg, off)
            if p is not None:
                return p
        if reg.init == 'zero':
            return self.zero(ty)
        if reg.init == 'undef':
            if ty[0] == 'ptr':
                return UNDEF
            return self.fresh('undef(%s+%d)' % (reg.name, off), 8 * n) if ty != I(1) else self.fresh('undef', 1)
        if ty[0] == 'ptr':
            name = '%s.%d' % (reg.name, off)
            r = Region(name, isnull=z3.Bool('null(%s)' % name))
            return Ptr(r, 0)
        if ty == I(1):
            return z3.Bool('%s.%d' % (reg.name, off))
        if ty[0] == 'fp' and ty[1] == 80:
            raise Unsupported('fp80')
        w = 8 * n
        v = z3.BitVec('%s.%d' % (reg.name, off), w)
        if ty[0] == 'i' and ty[1] != w:
            v = z3.Extract(ty[1] - 1, 0, v)
        return v

    def _overlap(self, cells, off, n):
        for o, (k, _) in cells.items():
            if o < off + n and off < o + k:
                return True
        return False

    def _cell_byte(self, s, reg, o):
        for cells in (s, reg.cells):
            for co, (k, v) in cells.items():
                if co <= o < co + k:
                    if isinstance(v, Ptr):
                        if v.reg is None and isc(v.off):
                            v = v.off
                        else:
                            raise Unsupported('byte of pointer')
                    if v is UNDEF:
                        return self.fresh('undefb', 8)
                    if isinstance(v, z3.BoolRef):
                        v = bv(v, 8 * k)
                    elif isinstance(v, bool):
                        v = int(v)
                    elif not isc(v) and v.size() < 8 * k:
                        v = z3.ZeroExt(8 * k - v.size(), v)
                    return byte_of(v, o - co, k)
        if reg.init == 'zero':
            b = 0
        elif reg.init == 'undef':
            b = self.fresh('undefb', 8)
        else:
            b = z3.BitVec('%s.%db' % (reg.name, o), 8)
        reg.cells[o] = (1, b)
        return b

    def join(self, parts):
        if all(isc(p) for p in parts):
            v = 0
            for i, p in enumerate(parts):
                v |= p << (8 * i)
            return v
        if len(parts) == 1:
            return parts[0]
        return simp(z3.Concat(*[bv(p, 8) for p in reversed(parts)]))

    def read_bytes(self, lay, off, n):
        return self.join([norm(lay.read(self._addoff(off, k, 64, 1))) for k in range(n)])

    def from_bits(self, v, ty):
        if ty[0] == 'i':
            w = ty[1]
            if w == 1:
                return simp(bv(v, 8) != 0) if not isc(v) else bool(v & 1)
            if not isc(v) and v.size() > w:
                return simp(z3.Extract(w - 1, 0, v))
            return v
        if ty[0] == 'fp':
            return v
        if ty[0] == 'ptr':
            if isc(v) and v == 0:
                return NULL
            raise Unsupported('pointer from bytes')
        raise Unsupported('from_bits %r' % (ty,))

    def conv(self, v, ty, reg, off):
        if ty[0] == 'ptr':
            if isinstance(v, Ptr) or v is UNDEF:
                return v
            if isinstance(v, PtrInt):
                return v.p
            if isc(v) and v == 0:
                return NULL
            raise Unsupported('int cell loaded as pointer %s+%s' % (reg.name, off))
        if isinstance(v, Ptr):
            return PtrInt(v)
        if v is UNDEF:
            return v
        if ty[0] == 'i':
            if ty[1] == 1:
                if isinstance(v, (bool, z3.BoolRef)):
                    return v
                return simp(bv(v, 8) != 0) if not isc(v) else bool(v & 1)
            if isinstance(v, z3.BoolRef):
                return bv(v, ty[1])
            if isinstance(v, bool):
                return int(v)
            if not isc(v) and v.size() != ty[1]:
                if v.size() > ty[1]:
                    return simp(z3.Extract(ty[1] - 1, 0, v))
                return z3.ZeroExt(ty[1] - v.size(), v)
        return v

    def store(self, st, p, ty, v):
        if not isinstance(p, Ptr):
            raise Unsupported('store to %r' % (p,))
        if p.reg is None:
            if 'null' in self.safety:
                self.prove(st, z3.BoolVal(False), 'memory.store through null')
            raise Limit('null')
        reg, off = p.reg, p.off
        ty = self.mod.rtype(ty)
        n = self.mod.sizeof(ty)
        self.bounds(st, reg, off, n, 'store')
        if ty[0] in ('struct', 'arr'):
            if v is UNDEF:
                return
            for i in range(len(v)):
                if ty[0] == 'struct':
                    o, e = self.mod.field(ty, i)
                else:
                    e = ty[2]
                    o = i * self.mod.sizeof(e)
                self.store(st, Ptr(reg, self._addoff(off, o, 64, 1)), e, v[i])
            return
        self.write_cell(st, reg, off, n, v, ty)

    def write_cell(self, st, reg, off, n, v, ty=None):
        if 'record' in reg.meta:
            return reg.meta['record'].store(self, st, off, n, v)
        s = self.mem_state(st, reg)
        if st.log is not None:
            st.log.add(('mem', reg, off if isc(off) and not isinstance(s, Layer) else 'bytes', n))
        if isinstance(s, Layer) or not isc(off):
            if not isinstance(s, Layer):
                s = self.to_bytes(st, reg)
            if isinstance(v, Ptr) or v is UNDEF or isinstance(v, PtrInt):
                if v is UNDEF:
                    v = self.fresh('undef', 8 * n)
                elif isinstance(v, Ptr) and v.reg is None and isc(v.off):
                    v = v.off
                else:
                    raise Unsupported('pointer store into byte region %s' % reg.name)
            if isinstance(v, (bool, z3.BoolRef)):
                v = int(v) if isinstance(v, bool) else bv(v, 8 * n)
            if not isc(v) and v.size() < 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
            st.mem[reg] = Store(s, off, n, v)
            return
        s = dict(s)
        # remove / split overlapped cells
        for o in [o for o, (k, _) in s.items() if o < off + n and off < o + k and not (o == off and k == n)]:
            k, ov = s.pop(o)
            for j in range(k):
                if not (off <= o + j < off + n):
                    if isinstance(ov, Ptr):
                        if not (ov.reg is None and isc(ov.off)):
                            continue      # remaining bytes of a clobbered pointer: never read back
                        ov = ov.off
                    if ov is UNDEF or isinstance(ov, PtrInt):
                        continue
                    x = bv(ov, 8 * k) if isinstance(ov, z3.BoolRef) else (int(ov) if isinstance(ov, bool) else ov)
                    if not isc(x) and x.size() < 8 * k:
                        x = z3.ZeroExt(8 * k - x.size(), x)
                    s[o + j] = (1, byte_of(x, j, k))
        s[off] = (n, v)
        st.mem[reg] = s

    def as_layer(self, st, reg):
        return self.to_bytes(st, reg)

    def memcpy(self, st, d, s_, n, what='memcpy'):
        if isc(n) and n == 0:
            return
        if d.reg is None or s_.reg is None:
            if isc(n):
                raise Limit('null')
            if 'null' in self.safety:
                self.prove(st, bv(n, 64) == 0, 'memory.%s through null only when empty' % what)
            st.assume(bv(n, 64) == 0)
            return
        self.bounds(st, d.reg, d.off, n, what + '.dst')
        self.bounds(st, s_.reg, s_.off, n, what + '.src')
        ss = self.mem_state(st, s_.reg)
        ds = self.mem_state(st, d.reg)
        if not isinstance(ss, Layer) and not isinstance(ds, Layer) and isc(n) and isc(d.off) and isc(s_.off):
            # cell-wise copy
            todo = []
            k = 0
            while k < n:
                o = s_.off + k
                c = ss.get(o)
                if c is None:
                    c = s_.reg.cells.get(o)
                    if c is not None and self._overlap(ss, o, c[0]):
                        c = None
                if c is not None and k + c[0] <= n:
                    todo.append((d.off + k, c[0], c[1]))
                    k += c[0]
                else:
                    # uninitialised: natural 8/4/2/1 chunk
                    if self._overlap(ss, o, 1) or self._overlap(s_.reg.cells, o, 1):
                        todo.append((d.off + k, 1, self._cell_byte(ss, s_.reg, o)))
                        k += 1
                        continue
                    for sz in (8, 4, 2, 1):
                        if o % sz == 0 and k + sz <= n and not self._overlap(ss, o, sz) and not self._overlap(
                                s_.reg.cells, o, sz):
                            break
                    v = self.init_value(st, s_.reg, o, I(8 * sz), sz)
                    s_.reg.cells[o] = (sz, v)
                    todo.append((d.off + k, sz, v))
                    k += sz
            for o, sz, v in todo:
                self.write_cell(st, d.reg, o, sz, v)
            return
        if isinstance(ss, Layer) and not isinstance(ds, Layer) and isc(n) and isc(d.off) and n <= 64:
            # bytes into a struct: keep it a struct
            k = 0
            vals = [norm(ss.read(self._addoff(s_.off, j, 64, 1))) for j in range(n)]
            while k < n:
                sz = next(z for z in (8, 4, 2, 1) if (d.off + k) % z == 0 and k + z <= n)
                # follow existing cell shape
                c = ds.get(d.off + k) or d.reg.cells.get(d.off + k)
                if c is not None and k + c[0] <= n:
                    sz = c[0]
                self.write_cell(st, d.reg, d.off + k, sz, self.join(vals[k:k + sz]))
                k += sz
            return
        sl = self.to_bytes(st, s_.reg)
        dl = self.to_bytes(st, d.reg)
        if st.log is not None:
            st.log.add(('mem', d.reg, 'bytes', 0))
        st.mem[d.reg] = Copy(dl, d.off, n, sl, s_.off)

    def memset(self, st, d, v, n):
        if isc(n) and n == 0:
            return
        if d.reg is None:
            st.assume(bv(n, 64) == 0)
            return
        self.bounds(st, d.reg, d.off, n, 'memset')
        ds = self.mem_state(st, d.reg)
        if not isinstance(ds, Layer) and isc(n) and isc(d.off) and n <= 256:
            k = 0
            x = v
            while k < n:
                sz = next(z for z in (8, 4, 2, 1) if (d.off + k) % z == 0 and k + z <= n)
                c = ds.get(d.off + k) or d.reg.cells.get(d.off + k)
                if c is not None and k + c[0] <= n:
                    sz = c[0]
                self.write_cell(st, d.reg, d.off + k, sz, self.join([x] * sz))
                k += sz
            return
        dl = self.to_bytes(st, d.reg)
        if st.log is not None:
            st.log.add(('mem', d.reg, 'bytes', 0))
        st.mem[d.reg] = Fill(dl, d.off, n, v)

    # ---------------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, w, flags):
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt) and a.p.reg is b.p.reg:
                return simp(bv(a.p.off, 64) - bv(b.p.off, 64))
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt) and (a.p.reg is None) != (b.p.reg is None):
                pass
            a = self.paddr(a.p) if isinstance(a, PtrInt) else a
            b = self.paddr(b.p) if isinstance(b, PtrInt) else b
        if a is UNDEF or b is UNDEF:
            return self.fresh('undef', w)
        if w == 1:
            x, y = zb(a), zb(b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if r is None:
                raise Unsupported('i1 ' + op)
            return simp(r(x, y))
        if isc(a) and isc(b):
            return self._cbin(op, a, b, w)
        x, y = bv(a, w), bv(b, w)
        if op in ('add', 'sub', 'mul') and 'nsw' in flags and 'overflow' in self.safety and not self.quiet:
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.prove(st, ok, 'arithmetic.signed %s does not overflow' % op)
        if op == 'add':
            return simp(x + y)
        if op == 'sub':
            return simp(x - y)
        if op == 'mul':
            return simp(x * y)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if op == 'sdiv' and isc(b) and 0 < b < 1 << (w - 1):
                m = simp(x)
                # (t * b) / b is t when the product does not wrap
                if not isc(m) and m.decl().kind() == z3.Z3_OP_BMUL and m.num_args() == 2 and z3.is_bv_value(m.arg(0)) and m.arg(0).as_long() == b \
                        and self.entails(st.pc, ULE(m.arg(1), ((1 << (w - 1)) - 1) // b), (700,))[0] == 'proved':
                    return m.arg(1)
            self.div_like = True
            if 'div' in self.safety and not self.quiet:
                self.prove(st, y != 0, 'arithmetic.divisor is non-zero')
            return simp({'udiv': z3.UDiv, 'urem': z3.URem, 'srem': z3.SRem,
                         'sdiv': lambda p, q: p / q}[op](x, y))
        if op in ('shl', 'lshr', 'ashr'):
            if 'shift' in self.safety and not self.quiet and not (isc(b) and b < w):
                self.prove(st, ULT(y, w), 'arithmetic.shift amount below width')
            return simp({'shl': lambda p, q: p << q, 'lshr': z3.LShR, 'ashr': lambda p, q: p >> q}[op](x, y))
        if op == 'and':
            return simp(x & y)
        if op == 'or':
            return simp(x | y)
        if op == 'xor':
            return simp(x ^ y)
        raise Unsupported(op)

    def _cbin(self, op, a, b, w):
        m = mask(w)
        sa, sb = s2(a, w), s2(b, w)
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'udiv':
            return a // b if b else 0
        if op == 'urem':
            return a % b if b else a
        if op == 'sdiv':
            if b == 0:
                return 0
            q = abs(sa) // abs(sb)
            return (q if (sa < 0) == (sb < 0) else -q) & m
        if op == 'srem':
            if b == 0:
                return a
            q = abs(sa) % abs(sb)
            return (q if sa >= 0 else -q) & m
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sa >> min(b, w - 1)) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        raise Unsupported(op)

    def icmp(self, pred, a, b, ty):
        if ty[0] == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if pred == 'eq':
                    return norm(self.ptr_eq(a, b))
                if pred == 'ne':
                    r = self.ptr_eq(a, b)
                    return (not r) if isinstance(r, bool) else simp(z3.Not(r))
                if a.reg is b.reg:
                    a, b = a.off, b.off
                else:
                    a, b = self.paddr(a), self.paddr(b)
                w = 64
            elif a is UNDEF or b is UNDEF:
                return self.fresh('undef', 1)
            else:
                raise Unsupported('icmp ptr')
        else:
            w = ty[1]
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt) and isinstance(b, PtrInt) and a.p.reg is b.p.reg:
                a, b = a.p.off, b.p.off
            else:
                a = self.paddr(a.p) if isinstance(a, PtrInt) else a
                b = self.paddr(b.p) if isinstance(b, PtrInt) else b
        if a is UNDEF or b is UNDEF:
            return self.fresh('undef', 1)
        if w == 1:
            x, y = zb(a), zb(b)
            if pred == 'eq':
                return simp(x == y)
            if pred == 'ne':
                return simp(x != y)
            raise Unsupported('icmp i1 ' + pred)
        if isc(a) and isc(b):
            sa, sb = s2(a, w), s2(b, w)
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
        x, y = bv(a, w), bv(b, w)
        f = {'eq': lambda p, q: p == q, 'ne': lambda p, q: p != q, 'ult': ULT, 'ule': ULE, 'ugt': UGT, 'uge': UGE,
             'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q, 'sgt': lambda p, q: p > q,
             'sge': lambda p, q: p >= q}[pred]
        return simp(f(x, y))

    # ---- floating point: values are bit patterns
    def fps(self, w):
        return z3.Float64() if w == 64 else z3.Float32()

    def tofp(self, v, w):
        return z3.fpBVToFP(bv(v, w), self.fps(w))

    def fcmp(self, pred, a, b, w):
        if isc(a) and isc(b):
            x, y = cfp(a, w), cfp(b, w)
            un = x != x or y != y
            base = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}
            if pred == 'ord':
                return not un
            if pred == 'uno':
                return un
            if pred[0] == 'o':
                return (not un) and base[pred[1:]]
            return un or base[pred[1:]]
        x, y = self.tofp(a, w), self.tofp(b, w)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord':
            return z3.Not(un)
        if pred == 'uno':
            return un
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ,
                'ne': lambda p, q: z3.Not(z3.fpEQ(p, q))}[pred[1:]]
        c = base(x, y)
        if pred[0] == 'o':
            return z3.And(z3.Not(un), c) if pred == 'one' else c
        return z3.Or(un, c)

    def fop(self, op, a, b, w):
        if isc(a) and isc(b):
            x, y = cfp(a, w), cfp(b, w)
            try:
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y,
                     'fdiv': lambda: x / y}[op]()
                return fpbits(r, w)
            except (ZeroDivisionError, KeyError, OverflowError):
                pass
        x, y = bv(a, w), bv(b, w)
        if self.fpmode == 'exact':
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return z3.fpToIEEEBV(f(z3.RNE(), self.tofp(x, w), self.tofp(y, w)))
        if op in ('fadd', 'fmul'):
            x, y = simp(x), simp(y)
            if isc(x):
                x, y = y, x
            x, y = bv(x, w), bv(y, w)
            if not isc(simp(y)) and not x.eq(y):
                x, y = z3.If(ULE(x, y), x, y), z3.If(ULE(x, y), y, x)
        s = z3.BitVecSort(w)
        return z3.Function('%s%d' % (op, w), s, s, s)(x, y)

    def funary(self, name, a, w):
        s = z3.BitVecSort(w)
        if isc(a):
            import math
            x = cfp(a, w)
            if x == x and abs(x) != float('inf'):
                if name == 'floor':
                    return fpbits(float(math.floor(x)), w)
                if name in ('nearbyint', 'rint'):
                    return fpbits(float(round(x)), w)
        if name in ('nearbyint', 'rint', 'floor', 'ceil', 'trunc', 'round') and self.fpmode == 'exact':
            rm = {'nearbyint': z3.RNE(), 'rint': z3.RNE(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(),
                  'round': z3.RNA()}[name]
            return z3.fpToIEEEBV(z3.fpRoundToIntegral(rm, self.tofp(a, w)))
        return z3.Function('%s%d' % (name, w), s, s)(bv(a, w))

    def cast(self, st, op, v, sty, dty):
        if v is UNDEF:
            if dty[0] == 'ptr':
                return UNDEF
            return self.fresh('undef', dty[1])
        if op in ('zext', 'sext', 'trunc'):
            sw, dw = sty[1], dty[1]
            if isinstance(v, PtrInt):
                v = self.paddr(v.p)
            if sw == 1:
                if isc(v):
                    b = 1 if v else 0
                    return (mask(dw) if b else 0) if op == 'sext' else b
                return z3.If(v, z3.BitVecVal(mask(dw) if op == 'sext' else 1, dw), z3.BitVecVal(0, dw))
            if op == 'trunc':
                if dw == 1:
                    return bool(v & 1) if isc(v) else simp(z3.Extract(0, 0, v) == 1)
                return v & mask(dw) if isc(v) else simp(z3.Extract(dw - 1, 0, v))
            if isc(v):
                return v if op == 'zext' else s2(v, sw) & mask(dw)
            return simp(z3.ZeroExt(dw - sw, v) if op == 'zext' else z3.SignExt(dw - sw, v))
        if op == 'ptrtoint':
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            if isc(v):
                return Ptr(None, v)
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            return v
        if op in ('sitofp', 'uitofp'):
            w = dty[1]
            sw = sty[1]
            if sw == 1:
                v = bv(v, 8) if not isc(v) else int(v)
                sw = 8
            if w == 80:
                raise Unsupported('fp80')
            if isc(v):
                x = s2(v, sw) if op == 'sitofp' else v
                return fpbits_int(x, w)
            if self.fpmode != 'exact' and sw < 64:
                v = (z3.SignExt if op == 'sitofp' else z3.ZeroExt)(64 - sw, bv(v, sw))
                sw, op = 64, 'sitofp'
            f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
            return self.fpname(op, v, sw, w, lambda: z3.fpToIEEEBV(f(z3.RNE(), v, self.fps(w))))
        if op in ('fptosi', 'fptoui'):
            sw, dw = sty[1], dty[1]
            if isc(v):
                x = cfp(v, sw)
                if x == x and abs(x) < 2 ** 65:
                    return int(x) & mask(dw)
            x = self.tofp(v, sw)
            if 'fptoint' in self.safety and not self.quiet:
                self.prove(st, self.fp_fits(v, sw, dw, op == 'fptosi'), 'conversion.floating value representable in i%d before cast' % dw)
            f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
            return f(z3.RTZ(), x, z3.BitVecSort(dw))
        if op in ('fptrunc', 'fpext'):
            sw, dw = sty[1], dty[1]
            if isc(v) and dw <= 64 and sw <= 64:
                return fpbits(cfp(v, sw), dw)
            if sw > 64 or dw > 64:
                raise Unsupported('fp80')
            key = '%s_%d_%d' % (op, sw, dw)
            if op == 'fptrunc' and 'fptrunc' in self.safety and not self.quiet:
                x = self.tofp(v, sw)
                lim = z3.FPVal(3.4028234663852886e38, z3.Float64())
                self.prove(st, z3.Or(z3.fpIsNaN(x), z3.And(z3.fpLEQ(x, lim), z3.fpGEQ(x, z3.fpNeg(lim))), z3.fpIsInf(x)),
                           'conversion.double within float range before narrowing')
            return self.fpname(key, v, sw, dw, lambda: z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), self.tofp(v, sw), self.fps(dw))))
        raise Unsupported(op)

    def fpname(self, key, v, sw, dw, exact):
        """conversion results: exact term, or a named uninterpreted function in 'uf' mode"""
        if self.fpmode == 'exact':
            return exact()
        return z3.Function('%s_%d_%d' % (key, sw, dw), z3.BitVecSort(sw), z3.BitVecSort(dw))(bv(v, sw))

    def fp_fits(self, v, sw, dw, signed):
        x = self.tofp(v, sw)
        S = self.fps(sw)
        lo = -(2.0 ** (dw - 1)) if signed else 0.0
        hi = 2.0 ** (dw - 1) if signed else 2.0 ** dw
        # trunc(x) in [lo, hi-1]  <=>  x > lo-1 and x < hi; for wide types lo-1 is not representable and x >= lo
        mant = 53 if sw == 64 else 24
        low_ok = z3.fpGEQ(x, z3.FPVal(lo, S)) if dw > mant else z3.fpGT(x, z3.FPVal(lo - 1, S))
        return z3.And(z3.Not(z3.fpIsNaN(x)), low_ok, z3.fpLT(x, z3.FPVal(hi, S)))

    # ---------------------------------------------------------------- execution
    def call(self, st, name, args, argtys=None, rty=VOID):
        """-> list of Outcome"""
        name = self.mod.resolve_alias(name)
        m = self.model_for(name)
        if m is not None:
            r = m(self, st, args, name)
            if r is not None:
                return r
        fn = self.mod.fn(name)
        if fn is None:
            raise Unsupported('no body and no contract for %s' % self.mod.dem.get(name, name))
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth (recursion?) at ' + self.mod.dem.get(name, name))
        try:
            if not self.quiet:
                self.inlined.add(name)
            return self.run(st, fn, args)
        finally:
            self.depth -= 1

    def model_for(self, name):
        if name in self.model_cache:
            return self.model_cache[name]
        d = self.mod.dem.get(name, name)
        r = None
        for rx, f in self.models:
            if rx.search(d) or rx.search(name):
                r = f
                break
        self.model_cache[name] = r
        return r

    def throw_e57(self, st, code):
        reg = Region('exc%d' % Region.count)
        reg.meta['heap'] = True
        st.mem[reg] = {self.off('e57::E57Exception', 'errorCode_'): (4, code)}
        return [Outcome(st, 'throw', Exc('_ZTIN3e5712E57ExceptionE', code, reg))]

    def model(self, pattern, f):
        """register a contract; later registrations take precedence"""
        self.models.insert(0, (re.compile(pattern), f))
        self.model_cache.clear()

    def run(self, st, fn, args):
        regs = {}
        for (ty, nm), a in zip(fn.params, args):
            regs[nm] = a
        out = []
        self.exec_blocks([(st, regs, fn.entry, None)], fn, out, None)
        return out

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit('step budget')
        if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
            raise Limit('time budget')

    def exec_blocks(self, work, fn, out, cut):
        """cut: None or dict(header, body, back=[], exits=[]) for loop-body exploration"""
        from . import loops
        npaths = 0
        while work:
            st, regs, blk, prev = work.pop()
            if cut is not None and blk == cut['header'] and prev is not None:
                cut['back'].append((st, regs, prev))
                continue
            if cut is not None and blk not in cut['body']:
                cut['exits'].append((st, regs, blk, prev))
                continue
            skipphi = False
            if blk in fn.loops and not (cut is not None and blk == cut['header']):
                body = fn.loops[blk]
                inst = regs.get('$loop' + blk)
                if prev in body and inst is not None:
                    # back edge of a loop under proof
                    loops.back_edge(self, fn, inst, st, regs, prev)
                    continue
                if not loops.unrollable(self, fn, blk, st, regs, prev) and not (self.short_loops and loops.short(self, fn, blk, st, regs, prev)):
                    r = loops.enter(self, fn, blk, st, regs, prev)
                    if r is None:
                        continue
                    st, regs = r
                    skipphi = True
            elif cut is not None and blk == cut['header']:
                skipphi = True
            ins = fn.blocks[blk]
            i = 0
            if not skipphi:
                i = self.phis(fn, blk, prev, regs)
            else:
                while i < len(ins) and ins[i].op == 'phi':
                    i += 1
            self.exec_from(st, regs, fn, blk, i, work, out)
            npaths += 1
            if npaths > self.max_paths:
                raise Limit('path budget in ' + fn.name)

    def phis(self, fn, blk, prev, regs):
        ins = fn.blocks[blk]
        i = 0
        new = {}
        while i < len(ins) and ins[i].op == 'phi':
            p = ins[i]
            for v, lab in p.x:
                if lab == prev:
                    new[p.res] = self.val(regs, p.ty, v)
                    break
            else:
                raise Unsupported('phi edge')
            i += 1
        regs.update(new)
        return i

    def exec_from(self, st, regs, fn, blk, i, work, out):
        ins = fn.blocks[blk]
        try:
            while True:
                x = ins[i]
                self.tick()
                op = x.op
                if op == 'call' or op == 'invoke':
                    res = self.do_call(st, regs, fn, x)
                    nxt = []
                    if len(res) == 1 and res[0].kind == 'ret' and op == 'call':
                        st = res[0].st
                        if x.res:
                            regs[x.res] = res[0].val
                        i += 1
                        continue
                    for o in res:
                        r2 = dict(regs) if len(res) > 1 else regs
                        if o.kind == 'ret':
                            if x.res:
                                r2[x.res] = o.val
                            if op == 'invoke':
                                work.append((o.st, r2, x.x[0], blk))
                            else:
                                nxt.append((o.st, r2))
                        elif o.kind == 'throw':
                            if op == 'invoke':
                                r2['$exc'] = o.val
                                work.append((o.st, r2, x.x[1], blk))
                            else:
                                out.append(Outcome(o.st, 'throw', o.val))
                        else:
                            out.append(o)
                    for s2_, r2 in nxt:
                        self.exec_from(s2_, r2, fn, blk, i + 1, work, out)
                    return
                if op == 'br':
                    if x.a is None:
                        work.append((st, regs, x.x[0], blk))
                        return
                    c = self.val(regs, I(1), x.a[0])
                    self.branch(st, regs, c, x.x[0], x.x[1], blk, work)
                    return
                if op == 'switch':
                    v = self.val(regs, x.ty, x.a[0])
                    self.last_branch_concrete = isc(v)
                    d, cases = x.x
                    if isc(v):
                        for c, lab in cases:
                            if c == v:
                                work.append((st, regs, lab, blk))
                                break
                        else:
                            work.append((st, regs, d, blk))
                        return
                    if v is UNDEF:
                        raise Unsupported('switch on undef')
                    if isinstance(v, PtrInt):
                        raise Unsupported('switch on ptr')
                    neg = []
                    w = x.ty[1]
                    bylab = {}
                    for c, lab in cases:
                        bylab.setdefault(lab, []).append(c)
                    for lab, cs in bylab.items():
                        cond = simp(z3.Or(*[v == c for c in cs]))
                        neg.append(z3.Not(zb(cond)))
                        s_ = st.fork()
                        s_.assume(cond)
                        if cond is not False and self.feasible(s_):
                            work.append((s_, dict(regs), lab, blk))
                    s_ = st.fork()
                    for n in neg:
                        s_.assume(n)
                    if self.feasible(s_):
                        work.append((s_, dict(regs), d, blk))
                    return
                if op == 'ret':
                    v = None
                    if x.a:
                        v = self.val(regs, x.ty, x.a[0])
                    out.append(Outcome(st, 'ret', v))
                    return
                if op == 'unreachable':
                    return
                if op == 'resume':
                    v = self.val(regs, x.ty, x.a[0])
                    out.append(Outcome(st, 'throw', v[0]))
                    return
                try:
                    self.step(st, regs, fn, x)
                except SelectFork as sf:
                    for c, v in ((sf.c, sf.a), (z3.Not(sf.c), sf.b)):
                        s_ = st.fork()
                        s_.assume(c)
                        if self.feasible(s_):
                            r2 = dict(regs)
                            r2[x.res] = v
                            self.exec_from(s_, r2, fn, blk, i + 1, work, out)
                    return
                i += 1
        except Limit as e:
            if str(e) == 'null':
                return                   # path dereferences null: obligation recorded (or excluded by assumption)
            raise

    def branch(self, st, regs, c, t, f, blk, work):
        if c is UNDEF:
            c = self.fresh('undef', 1)
        self.last_branch_concrete = isc(c)
        if isc(c):
            work.append((st, regs, t if c else f, blk))
            return
        s1 = st.fork()
        s1.assume(c)
        s0 = st.fork()
        s0.assume(z3.Not(c))
        f1 = self.feasible(s1)
        f0 = self.feasible(s0) if f1 else True
        if f1 and f0:
            work.append((s1, dict(regs), t, blk))
            work.append((s0, regs, f, blk))
        elif f1:
            work.append((s1, regs, t, blk))
        else:
            work.append((s0, regs, f, blk))

    def step(self, st, regs, fn, x):
        op = x.op
        V = self.val
        if op == 'load':
            r = self.load(st, V(regs, PTR, x.a[0]), x.ty)
        elif op == 'store':
            self.store(st, V(regs, PTR, x.a[1]), x.ty, V(regs, x.ty, x.a[0]))
            return
        elif op == 'getelementptr':
            base = V(regs, PTR, x.a[0])
            r = self.gep(x.ty, base, [(t, V(regs, t, v)) for t, v in x.x])
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if x.ty[0] != 'i':
                raise Unsupported(x.line)
            r = self.binop(st, op, V(regs, x.ty, x.a[0]), V(regs, x.ty, x.a[1]), x.ty[1], x.x)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            if x.ty[1] not in (32, 64):
                raise Unsupported('fp80')
            r = self.fop(op, V(regs, x.ty, x.a[0]), V(regs, x.ty, x.a[1]), x.ty[1])
        elif op == 'fneg':
            v = V(regs, x.ty, x.a[0])
            w = x.ty[1]
            r = v ^ (1 << (w - 1)) if isc(v) else simp(v ^ z3.BitVecVal(1 << (w - 1), w))
        elif op == 'icmp':
            r = self.icmp(x.x, V(regs, x.ty, x.a[0]), V(regs, x.ty, x.a[1]), x.ty)
        elif op == 'fcmp':
            if x.ty[1] not in (32, 64):
                raise Unsupported('fp80')
            r = norm(self.fcmp(x.x, V(regs, x.ty, x.a[0]), V(regs, x.ty, x.a[1]), x.ty[1]))
        elif op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext', 'ptrtoint',
                    'inttoptr', 'bitcast'):
            r = self.cast(st, op, V(regs, x.x, x.a[0]), x.x, x.ty)
        elif op == 'alloca':
            n = V(regs, x.x, x.a[0])
            if not isc(n):
                raise Unsupported('variable alloca')
            rt = self.mod.rtype(x.ty)
            reg = Region('%s:%s' % (short(fn.name, self.mod), x.res), size=self.mod.sizeof(x.ty) * n, init='undef')
            reg.stack = True
            if rt[0] == 'arr' and rt[2][0] in ('i', 'fp') and rt[1] > 1:
                reg.kind = 'bytes'
            r = Ptr(reg, 0)
        elif op == 'select':
            c = V(regs, I(1), x.a[0])
            a, b = V(regs, x.ty, x.a[1]), V(regs, x.ty, x.a[2])
            r = self.select(st, c, a, b, x.ty)
        elif op == 'extractvalue':
            v = V(regs, x.ty, x.a[0])
            for k in x.x:
                v = v[k] if v is not UNDEF else UNDEF
            r = v
        elif op == 'insertvalue':
            v = V(regs, x.ty, x.a[0])
            idx, et = x.x
            e = V(regs, et, x.a[1])
            r = self.insertv(v, e, idx, self.mod.rtype(x.ty))
        elif op == 'freeze':
            r = V(regs, x.ty, x.a[0])
        elif op == 'landingpad':
            cleanup, clauses = x.x
            exc = regs.get('$exc')
            sel = 0
            for k, v in clauses:
                if v[0] == 'null':
                    sel = self.typeid('null')
                    break
                if v[0] == 'glob' and self.exc_matches(exc, v[1][1:]):
                    sel = self.typeid(v[1][1:])
                    break
            r = (exc, sel)
        elif op == 'fence':
            return
        elif op == 'atomicrmw':
            p = V(regs, PTR, x.a[0])
            old = self.load(st, p, x.ty)
            y = V(regs, x.ty, x.a[1])
            o = {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}.get(x.x)
            new = y if x.x == 'xchg' else self.binop(st, o, old, y, x.ty[1], set())
            self.store(st, p, x.ty, new)
            r = old
        else:
            raise Unsupported('instruction ' + x.line)
        if x.res:
            regs[x.res] = r

    def select(self, st, c, a, b, ty):
        if c is UNDEF:
            c = self.fresh('undef', 1)
        if isc(c):
            return a if c else b
        if ty[0] == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.reg is b.reg:
                    return Ptr(a.reg, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
                raise SelectFork(c, a, b)
            raise Unsupported('select ptr')
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            a = self.paddr(a.p) if isinstance(a, PtrInt) else a
            b = self.paddr(b.p) if isinstance(b, PtrInt) else b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        w = ty[1]
        if w == 1:
            return simp(z3.If(c, zb(a), zb(b)))
        return simp(z3.If(c, bv(a, w), bv(b, w)))

    def insertv(self, v, e, idx, ty):
        n = len(ty[1]) if ty[0] == 'struct' else ty[1]
        l = list(v) if v is not UNDEF else [UNDEF] * n
        if len(idx) == 1:
            l[idx[0]] = e
        else:
            et = self.mod.rtype(ty[1][idx[0]] if ty[0] == 'struct' else ty[2])
            l[idx[0]] = self.insertv(l[idx[0]], e, idx[1:], et)
        return tuple(l)

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def exc_matches(self, exc, ti):
        if exc is None:
            return False
        if exc.kind == ti:
            return True
        if ti == '_ZTISt9exception' and (exc.kind.startswith('_ZTISt') or exc.kind == '_ZTIN3e5712E57ExceptionE'):
            return True
        return False

    def do_call(self, st, regs, fn, x):
        callee, args = x.a
        av = [self.val(regs, t, v) for t, v in args]
        if callee.startswith('@'):
            name = callee[1:]
            if name.startswith('"'):
                name = name[1:-1]
            return self.call(st, name, av, [t for t, _ in args], x.ty)
        p = regs[callee]
        if isinstance(p, Ptr) and p.reg is not None and p.reg.fn is not None:
            return self.call(st, p.reg.fn, av, [t for t, _ in args], x.ty)
        if isinstance(p, Ptr) and p.reg is not None and p.reg.meta.get('vslot') is not None:
            h = p.reg.meta['vslot']
            return h(self, st, av, x)
        raise Unsupported('indirect call: ' + x.line[:100])


class SelectFork(Unsupported):
    def __init__(self, c, a, b):
        Unsupported.__init__(self, 'select between pointers to different objects')
        self.c, self.a, self.b = c, a, b


def cfp(bits, w):
    if w == 64:
        return struct.unpack('<d', struct.pack('<Q', bits))[0]
    return struct.unpack('<f', struct.pack('<I', bits))[0]


def fpbits(x, w):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def fpbits_int(x, w):
    """int -> fp bits, round to nearest even"""
    f = z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), z3.BitVecVal(x, 80), z3.Float64() if w == 64 else z3.Float32()))
    return z3.simplify(f).as_long()


def short(name, mod):
    d = mod.dem.get(name, name)
    d = re.sub(r'\(.*', '', d)
    d = re.sub(r'<.*>', '', d)
    return d.split('::')[-1].strip() or d

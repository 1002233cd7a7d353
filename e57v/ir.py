"""Reader for textual LLVM 18 IR (opaque pointers), the input language of the verifier.

Only what clang emits for the library at -O1 -disable-llvm-passes, followed by
sroa/early-cse/simplifycfg, is accepted; anything else raises Unsupported, which
the driver reports as "extraction broke", never as a verdict.
"""
import re
import struct as _struct
import subprocess


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[{}\[\]()<>,=*:])
''', re.X)

VOID = ('void',)
PTR = ('ptr',)


def I(n):
    return ('i', n)


def toks(s):
    out = []
    for m in TOK.finditer(s):
        out.append(m.group(0))
    return out


PARAM_ATTRS = {
    'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias', 'returned',
    'signext', 'zeroext', 'inreg', 'immarg', 'dead_on_unwind', 'writable', 'swiftself', 'nofree',
    'nest', 'allocptr', 'allocalign', 'noext', 'captures',
}


class P:
    """Token cursor."""
    def __init__(self, tokens, mod):
        self.t = tokens
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        g = self.next()
        if g != x:
            raise Unsupported('IR parse: expected %r got %r in %r' % (x, g, ' '.join(self.t[:60])))

    def type(self):
        t = self.next()
        if t == 'ptr':
            ty = PTR
            if self.peek() == 'addrspace':
                raise Unsupported('addrspace')
        elif t == 'void':
            ty = VOID
        elif t == 'float':
            ty = ('fp', 32)
        elif t == 'double':
            ty = ('fp', 64)
        elif t == 'x86_fp80':
            ty = ('fp', 80)
        elif t == 'half':
            ty = ('fp', 16)
        elif re.fullmatch(r'i\d+', t):
            ty = ('i', int(t[1:]))
        elif t == '{':
            ty = ('struct', tuple(self._tlist('}')), False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                el = self._tlist('}')
                self.expect('>')
                ty = ('struct', tuple(el), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = ('vec', n, e)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = ('arr', n, e)
        elif t.startswith('%'):
            ty = ('named', t)
        elif t in ('label', 'metadata', 'token', 'opaque'):
            ty = (t,)
        else:
            raise Unsupported('type token %r in %r' % (t, ' '.join(self.t[:40])))
        # function type
        while self.peek() == '(':
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            ty = ('func', ty)
        return ty

    def _tlist(self, end):
        el = []
        while not self.eat(end):
            el.append(self.type())
            self.eat(',')
        return el

    def skip_attrs(self):
        """parameter attributes"""
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
            elif t in ('align',):
                self.next()
                if self.peek() == '(':
                    self._paren()
                else:
                    self.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype',
                       'inalloca', 'preallocated', 'byref', 'range', 'nofpclass', 'captures'):
                self.next()
                self._paren()
            else:
                return

    def _paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def value(self, ty):
        t = self.next()
        if t.startswith('%'):
            return ('reg', t)
        if t.startswith('@'):
            return ('glob', t)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if re.fullmatch(r'-?\d+', t) and ty[0] == 'i':
            return ('c', int(t) & ((1 << ty[1]) - 1))
        if ty[0] == 'fp':
            return ('c', self._fp(t, ty[1]))
        if t.startswith('c"'):
            return ('bytes', unescape(t[2:-1]))
        if t == '{' or t == '[' or t == '<':
            close = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                el = self._vlist('}')
                self.expect('>')
                return ('agg', el)
            return ('agg', self._vlist(close))
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self._paren()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.eat(','):
                while self.peek() == 'inrange':
                    self.next()
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', bt, base, idx)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('ccast', t, st, v, dt)
        if t in ('sub', 'add'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            st = self.type()
            a = self.value(st)
            self.expect(',')
            self.type()
            b = self.value(st)
            self.expect(')')
            return ('cbin', t, st, a, b)
        raise Unsupported('constant %r in %r' % (t, ' '.join(self.t[:50])))

    def _vlist(self, end):
        el = []
        while not self.eat(end):
            ty = self.type()
            el.append((ty, self.value(ty)))
            self.eat(',')
        return el

    @staticmethod
    def _fp(t, w):
        if t.startswith('0xK'):
            return int(t[3:], 16)
        if t.startswith('0x'):
            bits = int(t[2:], 16)          # always a double pattern
            if w == 64:
                return bits
            d = _struct.unpack('<d', _struct.pack('<Q', bits))[0]
            try:
                return _struct.unpack('<I', _struct.pack('<f', d))[0]
            except OverflowError:
                raise Unsupported('fp const')
        d = float(t)
        if w == 64:
            return _struct.unpack('<Q', _struct.pack('<d', d))[0]
        if w == 32:
            return _struct.unpack('<I', _struct.pack('<f', d))[0]
        raise Unsupported('fp const width %d' % w)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')

    def __init__(self, op, res=None, ty=None, a=None, x=None, line=''):
        self.op, self.res, self.ty, self.a, self.x, self.line = op, res, ty, a, x, line

    def __repr__(self):
        return self.line


class Fn:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header, self.body = mod, name, header, body
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        p = P(toks(self.header), self.mod)
        while p.peek() != '@' + self.name and p.peek() != '@"%s"' % self.name:
            p.next()
        # find return type: re-scan
        q = P(toks(self.header), self.mod)
        q.next()
        while True:
            t = q.peek()
            if t in ('dso_local', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'available_externally',
                     'hidden', 'protected', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'weak', 'linkonce',
                     'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'external', 'default'):
                q.next()
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
                q.skip_attrs()
            else:
                break
        self.rty = q.type()
        p.next()
        p.expect('(')
        self.params = []
        self.sret = None
        n = 0
        while not p.eat(')'):
            if p.peek() == '...':
                p.next()
                continue
            ty = p.type()
            st = p.i
            p.skip_attrs()
            if 'sret' in p.t[st:p.i]:
                self.sret = n
            self.params.append((ty, p.next()))
            p.eat(',')
            n += 1
        self.blocks = {}
        self.order = []
        cur = None
        npar = len(self.params)
        lines = []
        for ln in self.body:
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if ln.startswith('   ') and lines and not re.match(r'^\S', ln):
                lines[-1] += ' ' + ln.strip()
            elif ln.startswith('  ]'):
                lines[-1] += ' ]'
            else:
                lines.append(ln)
        first = True
        for ln in lines:
            m = re.match(r'^(?:"([^"]+)"|([-a-zA-Z$._0-9]+)):', ln)
            if m:
                lab = m.group(1) or m.group(2)
                cur = []
                self.blocks['%' + lab] = cur
                self.order.append('%' + lab)
                first = False
                continue
            if first:
                cur = []
                # entry label is implicit: first unnamed number
                lab = '%' + str(npar)
                self.blocks[lab] = cur
                self.order.append(lab)
                first = False
            cur.append(self.ins(ln))
        self.entry = self.order[0]
        self._loops()
        return self

    # ------------------------------------------------------------------
    def ins(self, ln):
        s = ln.strip()
        p = P(toks(s), self.mod)
        res = None
        if p.peek(1) == '=':
            res = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        I_ = lambda **k: Ins(op, res, line=s, **k)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'arcp',
                               'afn', 'reassoc'):
                fl.add(p.next())
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return I_(ty=ty, a=[a, b], x=fl)
        if op == 'fneg':
            ty = p.type()
            return I_(ty=ty, a=[p.value(ty)])
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('samesign', 'fast', 'nnan', 'ninf', 'nsz'):
                p.next()
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return I_(ty=ty, a=[a, b], x=pred)
        if op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext', 'ptrtoint',
                  'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            st = p.type()
            v = p.value(st)
            p.expect('to')
            dt = p.type()
            return I_(ty=dt, a=[v], x=st)
        if op == 'alloca':
            p.eat('inalloca')
            ty = p.type()
            n = ('c', 1)
            nt = I(32)
            if p.eat(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = p.value(nt)
            return I_(ty=ty, a=[n], x=nt)
        if op == 'load':
            p.eat('atomic')
            p.eat('volatile')
            ty = p.type()
            p.expect(',')
            p.type()
            return I_(ty=ty, a=[p.value(PTR)])
        if op == 'store':
            p.eat('atomic')
            p.eat('volatile')
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.type()
            return I_(ty=ty, a=[v, p.value(PTR)])
        if op == 'getelementptr':
            fl = set()
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                fl.add(p.next())
            bt = p.type()
            p.expect(',')
            p.type()
            base = p.value(PTR)
            idx = []
            while p.eat(','):
                if p.peek().startswith('!'):
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            return I_(ty=bt, a=[base], x=idx)
        if op == 'br':
            if p.eat('label'):
                return I_(x=[p.next()])
            p.type()
            c = p.value(I(1))
            p.expect(',')
            p.expect('label')
            t = p.next()
            p.expect(',')
            p.expect('label')
            f = p.next()
            return I_(a=[c], x=[t, f])
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.eat(']'):
                p.type()
                c = p.value(ty)
                p.expect(',')
                p.expect('label')
                cases.append((c[1], p.next()))
            return I_(ty=ty, a=[v], x=(d, cases))
        if op == 'ret':
            ty = p.type()
            if ty == VOID:
                return I_(ty=ty, a=[])
            return I_(ty=ty, a=[p.value(ty)])
        if op == 'unreachable':
            return I_()
        if op == 'phi':
            ty = p.type()
            inc = []
            while p.eat('['):
                v = p.value(ty)
                p.expect(',')
                lab = p.next()
                p.expect(']')
                inc.append((v, lab))
                if not p.eat(','):
                    break
            return I_(ty=ty, x=inc)
        if op == 'select':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz'):
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            p.type()
            b = p.value(ty)
            return I_(ty=ty, a=[c, a, b])
        if op in ('call', 'invoke'):
            while True:
                t = p.peek()
                if t in ('fastcc', 'ccc', 'fast', 'nnan', 'ninf', 'nsz', 'coldcc'):
                    p.next()
                    continue
                j = p.i
                p.skip_attrs()
                if p.i == j:
                    break
            rt = p.type()
            if rt[0] == 'func':
                rt = rt[1]
            callee = p.next()
            if callee == 'asm':
                raise Unsupported('inline asm')
            p.expect('(')
            args = []
            while not p.eat(')'):
                ty = p.type()
                if ty == ('metadata',):
                    depth = 0
                    while not (depth == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        depth += (x in '({') - (x in ')}')
                    p.eat(',')
                    continue
                p.skip_attrs()
                args.append((ty, p.value(ty)))
                p.eat(',')
            x = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.expect('label')
                n = p.next()
                p.expect('unwind')
                p.expect('label')
                u = p.next()
                x = (n, u)
            return I_(ty=rt, a=[callee, args], x=x)
        if op == 'landingpad':
            ty = p.type()
            clauses = []
            cleanup = False
            while p.peek() is not None:
                t = p.next()
                if t == 'cleanup':
                    cleanup = True
                elif t == 'catch':
                    ct = p.type()
                    clauses.append(('catch', p.value(ct)))
                elif t == 'filter':
                    raise Unsupported('filter clause')
                else:
                    break
            return I_(ty=ty, x=(cleanup, clauses))
        if op == 'resume':
            ty = p.type()
            return I_(ty=ty, a=[p.value(ty)])
        if op == 'extractvalue':
            ty = p.type()
            v = p.value(ty)
            idx = []
            while p.eat(','):
                if p.peek().startswith('!'):
                    break
                idx.append(int(p.next()))
            return I_(ty=ty, a=[v], x=idx)
        if op == 'insertvalue':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            idx = []
            while p.eat(','):
                if p.peek().startswith('!'):
                    break
                idx.append(int(p.next()))
            return I_(ty=ty, a=[v, e], x=(idx, et))
        if op == 'freeze':
            ty = p.type()
            return I_(ty=ty, a=[p.value(ty)])
        if op == 'fence':
            return I_()
        if op == 'atomicrmw':
            p.eat('volatile')
            o = p.next()
            p.type()
            ptr = p.value(PTR)
            p.expect(',')
            ty = p.type()
            return I_(ty=ty, a=[ptr, p.value(ty)], x=o)
        return Ins('unsupported', res, line=s)

    # ------------------------------------------------------------------ CFG
    def succ(self, lab):
        t = self.blocks[lab][-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [c[1] for c in t.x[1]]
        if t.op == 'invoke':
            return [t.x[0], t.x[1]]
        return []

    def _loops(self):
        succ = {b: self.succ(b) for b in self.order}
        pred = {b: [] for b in self.order}
        for b in self.order:
            for s in succ[b]:
                pred[s].append(b)
        # dominators (iterative)
        idx = {}
        rpo = []
        seen = set()
        stack = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    adv = True
                    break
            if not adv:
                rpo.append(b)
                stack.pop()
        rpo.reverse()
        for i, b in enumerate(rpo):
            idx[b] = i
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [q for q in pred[b] if q in idom]
                new = ps[0]
                for q in ps[1:]:
                    a, c = q, new
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in idx and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += [q for q in pred[x] if q in idx]


class Module:
    def __init__(self, ll_path, dbg_path=None):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.decls = {}
        self.aliases = {}
        self._size = {}
        with open(ll_path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'@(?:"([^"]+)"|([-a-zA-Z$._0-9]+))\(', ln)
                name = m.group(1) or m.group(2)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.fns[name] = Fn(self, name, ln, lines[i + 1:j])
                i = j
            elif ln.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|\S+)) = type (.*)$', ln)
                self.types[m.group(1)] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'^@(?:"([^"]+)"|([-a-zA-Z$._0-9]+)) = (.*)$', ln)
                name = m.group(1) or m.group(2)
                rest = m.group(3)
                ma = re.search(r'\balias\b.*?, ptr @(?:"([^"]+)"|([-a-zA-Z$._0-9]+))', rest)
                if ma and re.match(r'^(?:\w+ )*alias ', rest):
                    self.aliases[name] = ma.group(1) or ma.group(2)
                else:
                    self.globals[name] = rest
            elif ln.startswith('declare '):
                m = re.search(r'@(?:"([^"]+)"|([-a-zA-Z$._0-9]+))\(', ln)
                self.decls[m.group(1) or m.group(2)] = ln
            i += 1
        names = sorted(set(self.fns) | set(self.decls) | set(self.aliases))
        d = subprocess.run(['c++filt'], input='\n'.join(names), text=True, stdout=subprocess.PIPE).stdout.split('\n')
        self.dem = dict(zip(names, d))
        self.bydem = {}
        for k, v in self.dem.items():
            self.bydem.setdefault(v, []).append(k)
        self.di = DebugInfo(dbg_path) if dbg_path else None

    def resolve_alias(self, name):
        while name in self.aliases:
            name = self.aliases[name]
        return name

    def fn(self, name):
        name = self.resolve_alias(name)
        f = self.fns.get(name)
        return f.parse() if f else None

    def find(self, pattern):
        """all defined functions whose demangled name matches the regex"""
        r = re.compile(pattern)
        return [n for n in self.fns if r.search(self.dem.get(n, n))]

    # ---------------------------------------------------------------- types
    def rtype(self, ty):
        while ty[0] == 'named':
            s = self.types.get(ty[1])
            if s is None:
                raise Unsupported('type ' + ty[1])
            if isinstance(s, str):
                s = P(toks(s), self).type()
                self.types[ty[1]] = s
            ty = s
        return ty

    def sizealign(self, ty):
        k = ty
        if k in self._size:
            return self._size[k]
        ty = self.rtype(ty)
        if ty[0] == 'i':
            b = (ty[1] + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            r = ((b + a - 1) // a * a, a)
        elif ty[0] == 'fp':
            r = {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16)}[ty[1]]
        elif ty[0] == 'ptr':
            r = (8, 8)
        elif ty[0] == 'arr':
            s, a = self.sizealign(ty[2])
            r = (s * ty[1], a)
        elif ty[0] == 'struct':
            off, al = 0, 1
            for e in ty[1]:
                s, a = self.sizealign(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif ty[0] == 'vec':
            s, a = self.sizealign(ty[2])
            r = (s * ty[1], s * ty[1])
        elif ty[0] == 'opaque':
            r = (0, 1)
        else:
            raise Unsupported('sizeof %r' % (ty,))
        self._size[k] = r
        return r

    def sizeof(self, ty):
        return self.sizealign(ty)[0]

    def field(self, ty, i):
        """(offset, type) of element i of struct type"""
        ty = self.rtype(ty)
        off = 0
        for j, e in enumerate(ty[1]):
            s, a = self.sizealign(e)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise Unsupported('field')


class DebugInfo:
    """Class layouts by member name, from the DWARF metadata clang emitted for the same compilation."""
    def __init__(self, path):
        self.nodes = {}
        self.comp = {}
        self._cls = {}
        members = []
        rx = re.compile(r'^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$')
        with open(path) as f:
            for ln in f:
                if ln[0] != '!':
                    continue
                m = rx.match(ln.rstrip('\n'))
                if not m:
                    continue
                kind = m.group(2)
                if kind in ('DICompositeType', 'DIDerivedType', 'DIBasicType', 'DINamespace', 'DIEnumerator'):
                    self.nodes[int(m.group(1))] = (kind, m.group(3))
        for i, (k, s) in self.nodes.items():
            if k == 'DICompositeType':
                self.comp.setdefault(self.attr(s, 'name'), []).append(i)
            elif k == 'DIDerivedType' and 'DW_TAG_member' in s:
                members.append(i)
        self.members = {}
        self.bases = {}
        for i in members:
            s = self.nodes[i][1]
            sc = self.ref(s, 'scope')
            if 'DIFlagStaticMember' in s:
                continue
            self.members.setdefault(sc, []).append((self.attr(s, 'name'), int(self.num(s, 'offset') or 0),
                                                    int(self.num(s, 'size') or 0), self.ref(s, 'baseType')))
        for i, (k, s) in self.nodes.items():
            if k == 'DIDerivedType' and 'DW_TAG_inheritance' in s:
                self.bases.setdefault(self.ref(s, 'scope'), []).append((self.ref(s, 'baseType'), int(self.num(s, 'offset') or 0)))

    def has(self, cls):
        return cls.split('::')[-1] in self.comp

    @staticmethod
    def attr(s, a):
        m = re.search(r'\b%s: "((?:[^"\\]|\\.)*)"' % a, s)
        return m.group(1) if m else None

    @staticmethod
    def num(s, a):
        m = re.search(r'\b%s: (\d+)' % a, s)
        return m.group(1) if m else None

    @staticmethod
    def ref(s, a):
        m = re.search(r'\b%s: !(\d+)' % a, s)
        return int(m.group(1)) if m else None

    def cls(self, name):
        """members of class: name -> (byte offset, bits, typeid), base members included"""
        best = {}
        if name.startswith('e57::'):
            name = name[5:]
        if name in self._cls:
            return self._cls[name]
        for i in self.comp.get(name, []):
            out = {}
            self._collect(i, 0, out)
            if len(out) > len(best):
                best = out
        if not best:
            raise Unsupported('class layout of %s not found' % name)
        self._cls[name] = best
        return best

    def _collect(self, i, base, out):
        for b, off in self.bases.get(i, []):
            self._collect(self.strip(b), base + off // 8, out)
        for n, off, size, ty in self.members.get(i, []):
            out[n] = (base + off // 8, size, ty)

    def strip(self, i):
        while i is not None and self.nodes.get(i, ('', ''))[0] == 'DIDerivedType':
            i = self.ref(self.nodes[i][1], 'baseType')
        return i

    def off(self, cls, member):
        m = self.cls(cls)
        if member not in m:
            raise Unsupported('member %s::%s not found' % (cls, member))
        return m[member][0]

    def enum(self, name):
        """enumerator name -> value for enum type `name`"""
        out = {}
        for i in self.comp.get(name, []):
            s = self.nodes[i][1]
            r = self.ref(s, 'elements')
            out['_id'] = r
        return out

"""Parser for the textual LLVM IR clang emits from /repo's sources (-O0, opaque pointers)."""
import re, struct, subprocess, os

TOK = re.compile(r'''%"[^"]*"|%[\w.$-]+|@"[^"]*"|@[\w.$-]+|c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|![\w.]*|\#\d+|[\w.+$-]+:?|\.\.\.|[{}()\[\]<>,=*|]''')


class Ty:
    __slots__ = ('k', 'n', 'elems', 'packed', '_sz', '_al', 'name', '_offs')

    def __init__(self, k, n=0, elems=None, packed=False, name=None):
        self.k, self.n, self.elems, self.packed, self.name = k, n, elems, packed, name
        self._sz = self._al = self._offs = None

    def body(self):
        return self

    def _layout(self):
        k = self.k
        if k == 'i':
            b = (self.n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            self._al = min(p, 16)
            self._sz = p
        elif k == 'float':
            self._sz = self._al = 4
        elif k == 'double':
            self._sz = self._al = 8
        elif k == 'fp80':
            self._sz = self._al = 16
        elif k == 'ptr':
            self._sz = self._al = 8
        elif k == 'arr':
            self._al = self.elems[0].align
            self._sz = self.n * self.elems[0].size
        elif k == 'st':
            off, al, offs = 0, 1, []
            for e in self.elems:
                a = 1 if self.packed else e.align
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += e.size
            self._offs = offs
            self._al = al
            self._sz = (off + al - 1) // al * al
        elif k == 'void' or k == 'label' or k == 'metadata' or k == 'opaque':
            self._sz, self._al = 0, 1
        else:
            raise ValueError('layout of ' + k)

    @property
    def size(self):
        if self._sz is None:
            self._layout()
        return self._sz

    @property
    def align(self):
        if self._al is None:
            self._layout()
        return self._al

    @property
    def offs(self):
        if self._offs is None:
            self._layout()
        return self._offs

    def __repr__(self):
        return self.name or (self.k + (str(self.n) if self.n else ''))


I = {n: Ty('i', n) for n in (1, 8, 16, 32, 64, 128)}
PTR = Ty('ptr')
VOID = Ty('void')
FLOAT = Ty('float')
DOUBLE = Ty('double')
FP80 = Ty('fp80')
SIMPLE = {'ptr': PTR, 'void': VOID, 'float': FLOAT, 'double': DOUBLE, 'x86_fp80': FP80, 'label': Ty('label'),
          'metadata': Ty('metadata'), 'opaque': Ty('opaque')}


class NamedTy(Ty):
    __slots__ = ('mod', '_b')

    def __init__(self, mod, name):
        Ty.__init__(self, 'named', name=name)
        self.mod, self._b = mod, None

    def body(self):
        if self._b is None:
            self._b = self.mod.struct(self.name)
        return self._b

    @property
    def size(self):
        return self.body().size

    @property
    def align(self):
        return self.body().align


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, text, mod):
        self.t = TOK.findall(text)
        self.i = 0
        self.mod = mod

    def peek(self, d=0):
        return self.t[self.i + d] if self.i + d < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ValueError('expected %r got %r in %r' % (x, y, ' '.join(self.t)[:300]))

    def type(self):
        t = self.next()
        r = None
        if t in SIMPLE:
            r = SIMPLE[t]
        elif t[0] == 'i' and t[1:].isdigit():
            n = int(t[1:])
            r = I.get(n)
            if r is None:
                r = I[n] = Ty('i', n)
        elif t[0] == '%':
            r = self.mod.named(t)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = Ty('arr', n, [e])
        elif t == '{':
            es = []
            while not self.eat('}'):
                es.append(self.type())
                self.eat(',')
            r = Ty('st', 0, es)
        elif t == '<':
            if self.eat('{'):
                es = []
                while not self.eat('}'):
                    es.append(self.type())
                    self.eat(',')
                self.expect('>')
                r = Ty('st', 0, es, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = Ty('vec', n, [e])
        else:
            raise ValueError('type? %r in %s' % (t, ' '.join(self.t)[:200]))
        # function types: ret (args)
        if self.peek() == '(':
            self.skip_parens()
            self.eat('*')
            return Ty('fn', 0, [r])
        return r

    def skip_parens(self):
        d = 0
        while True:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1
                if d == 0:
                    return

    ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
             'immarg', 'inreg', 'nofree', 'readnone', 'swiftself', 'dead_on_unwind', 'writable', 'inrange'}

    def attrs(self):
        """skip parameter attributes; returns dict of typed ones"""
        out = {}
        while True:
            t = self.peek()
            if t in self.ATTRS:
                self.i += 1
            elif t == 'align':
                self.i += 2
            elif t in ('dereferenceable', 'dereferenceable_or_null'):
                self.i += 1
                self.skip_parens()
            elif t in ('sret', 'byval', 'elementtype', 'inalloca', 'byref'):
                self.i += 1
                self.expect('(')
                out[t] = self.type()
                self.expect(')')
            else:
                return out

    def value(self, ty):
        """operand -> tagged tuple"""
        t = self.next()
        c = t[0]
        if c == '%':
            return ('r', t)
        if c == '@':
            return ('g', t[1:].strip('"'))
        b = ty.body() if ty.k == 'named' else ty
        if t == 'null':
            return ('null',)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if t in ('getelementptr',):
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            ety = self.type()
            self.expect(',')
            ops = []
            while True:
                if self.eat('inrange'):
                    if self.peek() == '(':
                        self.skip_parens()
                oty = self.type()
                ops.append((oty, self.value(oty)))
                if not self.eat(','):
                    break
            self.expect(')')
            return ('cgep', ety, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            sty = self.type()
            v = self.value(sty)
            self.expect('to')
            dty = self.type()
            self.expect(')')
            return ('ccast', t, sty, v, dty)
        if t in ('sub', 'add', 'mul', 'icmp'):
            if t == 'icmp':
                t = 'icmp ' + self.next()
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            aty = self.type()
            a = self.value(aty)
            self.expect(',')
            bty = self.type()
            bb = self.value(bty)
            self.expect(')')
            return ('cbin', t, aty, a, bb)
        if c == '{' or c == '[' or c == '<':
            close = {'{': '}', '[': ']', '<': '>'}[c]
            if c == '<' and self.peek() == '{':
                self.next()
                close = '}>'
            es = []
            end = close[0]
            while not self.eat(end):
                ety = self.type()
                es.append((ety, self.value(ety)))
                self.eat(',')
            if close == '}>':
                self.expect('>')
            return ('agg', es)
        if t.startswith('c"'):
            return ('bytes', unescape(t[2:-1]))
        if b.k == 'i':
            return ('c', int(t) & ((1 << b.n) - 1))
        if b.k == 'double':
            if t.startswith('0x'):
                return ('fp', int(t, 16))
            return ('fp', struct.unpack('>Q', struct.pack('>d', float(t)))[0])
        if b.k == 'float':
            if t.startswith('0x'):  # printed as the double of the same value
                d = struct.unpack('>d', struct.pack('>Q', int(t, 16)))[0]
            else:
                d = float(t)
            return ('fp', struct.unpack('>I', struct.pack('>f', d))[0])
        if b.k == 'fp80':
            return ('fp80', t)
        raise ValueError('value %r of type %r' % (t, ty))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line')

    def __init__(self, op, dst, ty, a, line):
        self.op, self.dst, self.ty, self.a, self.line = op, dst, ty, a, line

    def __repr__(self):
        return '%s = %s %r' % (self.dst, self.op, self.a)


class Fn:
    def __init__(self, mod, name, text):
        self.mod, self.name, self.text = mod, name, text
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        lines = self.text.split('\n')
        hdr = lines[0]
        self.params = []
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', hdr)
        # return type
        pre = hdr[len('define'):m.start()]
        p = P(pre, self.mod)
        while p.peek() in ('dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'private', 'hidden', 'noundef',
                           'zeroext', 'signext', 'nonnull', 'align', 'dereferenceable', 'noalias', 'weak', 'available_externally',
                           'dereferenceable_or_null') or (p.peek() or '').isdigit() or p.peek() == '(':
            if p.peek() == '(':
                p.skip_parens()
            else:
                p.next()
        self.ret = p.type()
        # parameters
        d, j = 0, m.end() - 1
        for e in range(j, len(hdr)):
            if hdr[e] == '(':
                d += 1
            elif hdr[e] == ')':
                d -= 1
                if d == 0:
                    break
        p = P(hdr[j + 1:e], self.mod)
        while p.peek() is not None:
            if p.eat('...'):
                break
            t = p.type()
            at = p.attrs()
            n = p.next()
            self.params.append((t, n, at))
            p.eat(',')
        md = re.search(r'!dbg !(\d+)', hdr[e:])
        self.dbg = int(md.group(1)) if md else None
        self.blocks = {}
        self.order = []
        # first block label is implicit: number of params if unnamed
        cur = None
        i = 1
        n = len(lines)
        first = True
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln == '}':
                continue
            mm = re.match(r'^([\w.$-]+|"[^"]*"):', ln)
            if mm and not ln.startswith(' '):
                cur = '%' + mm.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                first = False
                continue
            if first:
                nums = [int(q[1][1:]) for q in self.params if q[1] and q[1][1:].isdigit()]
                cur = '%' + str(max(nums) + 1 if nums else 0)
                self.blocks[cur] = []
                self.order.append(cur)
                first = False
            s = ln.strip()
            # join continuation lines
            if ' switch ' in ln[:12] or s.startswith('switch'):
                while not lines[i - 1].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
            elif 'landingpad' in s:
                while i < n and re.match(r'^\s+(catch|filter|cleanup)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            elif ' invoke ' in ' ' + s[:40] and ' unwind label ' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            if 'llvm.dbg.' in s or 'llvm.experimental.noalias' in s or 'llvm.lifetime' in s or s.startswith('#dbg'):
                continue
            self.blocks[cur].append(self.ins(s))
        self.parsed = True
        self.text = None
        return self

    def ins(self, s):
        md = re.search(r', !dbg !(\d+)', s)
        line = int(md.group(1)) if md else None
        k = s.find(', !')
        if k >= 0:
            s = s[:k]
        p = P(s, self.mod)
        dst = None
        if p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        while p.peek() in ('nsw', 'nuw', 'exact', 'inbounds', 'volatile', 'fast', 'nnan', 'ninf', 'nsz', 'nneg', 'disjoint',
                           'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
            p.next()
        I_ = lambda ty, a: Ins(op, dst, ty, a, line)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return I_(t, (a, p.value(t)))
        if op == 'fneg' or op == 'freeze':
            t = p.type()
            return I_(t, (p.value(t),))
        if op in ('icmp', 'fcmp'):
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return I_(t, (pred, a, p.value(t)))
        if op == 'alloca':
            t = p.type()
            cnt = None
            if p.eat(',') and p.peek() != 'align':
                ct = p.type()
                cnt = p.value(ct)
            return I_(t, (cnt,))
        if op == 'load':
            p.eat('atomic')
            t = p.type()
            p.expect(',')
            pt = p.type()
            return I_(t, (p.value(pt),))
        if op == 'store':
            p.eat('atomic')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            return I_(t, (v, p.value(pt)))
        if op == 'getelementptr':
            ety = p.type()
            p.expect(',')
            ops = []
            while True:
                oty = p.type()
                ops.append((oty, p.value(oty)))
                if not p.eat(','):
                    break
            return I_(ety, tuple(ops))
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
                  'inttoptr', 'bitcast'):
            st = p.type()
            v = p.value(st)
            p.expect('to')
            return I_(p.type(), (st, v))
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return I_(None, (None, p.next(), None))
            p.next()
            c = p.value(I[1])
            p.expect(',')
            p.next()
            a = p.next()
            p.expect(',')
            p.next()
            return I_(None, (c, a, p.next()))
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.next()
            dflt = p.next()
            p.expect('[')
            cs = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.next()
                cs.append((cv[1], p.next()))
            return I_(t, (v, dflt, cs))
        if op == 'ret':
            t = p.type()
            return I_(t, (p.value(t) if t.k != 'void' else None,))
        if op in ('unreachable',):
            return I_(None, ())
        if op == 'resume':
            t = p.type()
            return I_(t, (p.value(t),))
        if op in ('call', 'invoke'):
            while p.peek() in ('noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'align', 'dereferenceable', 'fastcc',
                               'dereferenceable_or_null') or (p.peek() or '').isdigit():
                x = p.next()
                if p.peek() == '(':
                    p.skip_parens()
            # type: either ret type or function type
            t = p.type()
            vararg = t.k == 'fn'
            rt = t.elems[0] if t.k == 'fn' else t
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.eat(')'):
                at = p.type()
                aa = p.attrs()
                if at.k == 'metadata':
                    # skip
                    while p.peek() not in (',', ')'):
                        p.next()
                    args.append((at, ('undef',), aa))
                else:
                    args.append((at, p.value(at), aa))
                p.eat(',')
            nd = uw = None
            if op == 'invoke':
                while p.next() != 'to':
                    pass
                p.next()
                nd = p.next()
                p.expect('unwind')
                p.next()
                uw = p.next()
            return I_(rt, (callee, args, nd, uw))
        if op == 'landingpad':
            t = p.type()
            cl = []
            cleanup = False
            while p.peek() is not None:
                x = p.next()
                if x == 'cleanup':
                    cleanup = True
                elif x == 'catch':
                    ct = p.type()
                    cl.append(('catch', p.value(ct)))
                elif x == 'filter':
                    ct = p.type()
                    cl.append(('filter', p.value(ct)))
            return I_(t, (cleanup, cl))
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return I_(t, (v, idx))
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            ev = p.value(et)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return I_(t, (v, et, ev, idx))
        if op == 'phi':
            t = p.type()
            inc = []
            while p.eat('['):
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()))
                p.expect(']')
                p.eat(',')
            return I_(t, (inc,))
        if op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            return I_(t, (c, a, p.value(t2)))
        if op == 'atomicrmw':
            what = p.next()
            pt = p.type()
            ptr = p.value(pt)
            p.expect(',')
            t = p.type()
            return I_(t, (what, ptr, p.value(t)))
        if op == 'fence':
            return I_(None, ())
        raise ValueError('instruction ' + s[:200])


class Module:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.types = {}
        self._named = {}
        self.fns = {}
        self.globals = {}
        self.aliases = {}
        self.ctors = []
        self.meta = None
        t = self.text
        for m in re.finditer(r'^(%(?:"[^"]*"|[\w.$-]+)) = type (.*)$', t, re.M):
            self.types[m.group(1)] = m.group(2)
        for m in re.finditer(r'^define [^\n]*?@("[^"\n]*"|[\w.$-]+)\(.*?^\}', t, re.M | re.S):
            n = m.group(1).strip('"')
            self.fns[n] = Fn(self, n, m.group(0))
        for m in re.finditer(r'^@("[^"]*"|[\w.$-]+) = ([^\n]*)$', t, re.M):
            n, r = m.group(1).strip('"'), m.group(2)
            if ' alias ' in ' ' + r[:60]:
                tgt = re.findall(r'@("[^"]*"|[\w.$-]+)', r)[-1]
                self.aliases[n] = tgt.strip('"')
            else:
                self.globals[n] = r
        self._g = {}
        g = self.globals.get('llvm.global_ctors')
        if g:
            self.ctors = re.findall(r'i32 \d+, ptr @([\w.$-]+)', g)

    def named(self, n):
        r = self._named.get(n)
        if r is None:
            r = self._named[n] = NamedTy(self, n)
        return r

    def struct(self, n):
        return P(self.types[n], self).type()

    def global_def(self, n):
        """-> (internal?, const?, type, init or None)"""
        if n in self._g:
            return self._g[n]
        r = self.globals[n]
        m = re.match(r'(.*?\b(global|constant))\s+(.*)$', r)
        pre, kind, rest = m.group(1), m.group(2), m.group(3)
        k = re.search(r', (align|comdat|section|!dbg)', rest)
        # cut the trailing attributes, not ones inside a string
        if 'c"' not in rest and k:
            rest = rest[:k.start()]
        p = P(rest, self)
        ty = p.type()
        ext = re.search(r'\bexternal\b', pre) is not None
        init = None
        if not ext:
            init = p.value(ty)
        internal = re.search(r'\b(internal|private)\b', pre) is not None
        self._g[n] = (internal, kind == 'constant', ty, init)
        return self._g[n]

    def src_line(self, dbg):
        """DILocation id -> line number and file"""
        if self.meta is None:
            self.meta = {}
            for m in re.finditer(r'^!(\d+) = (?:distinct )?(!DI(?:Location|Subprogram|LexicalBlock|LexicalBlockFile|File)\(.*\))$', self.text, re.M):
                self.meta[int(m.group(1))] = m.group(2)
        r = self.meta.get(dbg)
        if r is None:
            return None
        m = re.search(r'line: (\d+)', r)
        line = int(m.group(1)) if m else 0
        # find file through scopes
        cur = r
        for _ in range(20):
            f = re.search(r'file: !(\d+)', cur)
            if f and 'DILocation' not in cur[:14]:
                ff = self.meta.get(int(f.group(1)), '')
                mm = re.search(r'filename: "([^"]*)"', ff)
                return (mm.group(1) if mm else '?', line)
            s = re.search(r'scope: !(\d+)', cur)
            if not s:
                break
            cur = self.meta.get(int(s.group(1)), '')
        return ('?', line)


class Program:
    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.fns = {}
        self.gmod = {}
        self.aliases = {}
        for m in self.mods:
            for n, f in m.fns.items():
                if 'internal' in f.text[:f.text.index('@')]:
                    continue
                self.fns.setdefault(n, f)
            for n in m.globals:
                r = m.globals[n]
                pre = r[:60]
                if 'external' in pre or 'private' in pre or 'internal' in pre:
                    continue
                self.gmod.setdefault(n, m)
            for n, t in m.aliases.items():
                self.aliases.setdefault(n, t)
        names = set(self.fns)
        for m in self.mods:
            names.update(m.fns)
            names.update(re.findall(r'^declare [^\n]*?@([\w.$]+)\(', m.text, re.M))
            names.update(m.aliases)
        names = sorted(names)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))

    def find_fn(self, name, mod=None):
        if mod is not None and name in mod.fns:
            return mod.fns[name]
        f = self.fns.get(name)
        if f is None:
            a = (mod.aliases.get(name) if mod else None) or self.aliases.get(name)
            if a:
                return self.find_fn(a, mod)
            # constructors/destructors: C1/C2, D1/D2 aliases
        return f

    def find_global(self, name, mod):
        if mod is not None and name in mod.globals:
            d = mod.global_def(name)
            if d[3] is not None:
                return mod, d
        m = self.gmod.get(name)
        if m is not None:
            return m, m.global_def(name)
        if mod is not None and name in mod.globals:
            return mod, mod.global_def(name)
        return None, None


def demangled(prog, name):
    d = prog.dem.get(name)
    if d is None:
        d = subprocess.run(['c++filt', name], capture_output=True, text=True).stdout.strip()
        prog.dem[name] = d
    return d


if __name__ == '__main__':
    import sys, glob, time
    t0 = time.time()
    pr = Program(sorted(glob.glob(sys.argv[1] + '/*.ll')))
    print(time.time() - t0, len(pr.fns))
    n = 0
    for m in pr.mods:
        for f in m.fns.values():
            f.parse()
            n += 1
    print(n, time.time() - t0)
    for m in pr.mods:
        for g in m.globals:
            if not g.startswith('llvm.'):
                m.global_def(g)
    print(time.time() - t0)

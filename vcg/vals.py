"""Symbolic values of the verification-condition generator."""
import z3

z3.set_param('smt.random_seed', 7)
RNE = z3.RNE()
F32, F64 = z3.Float32(), z3.Float64()
FP80S = z3.FPSort(15, 64)
StrSort = z3.DeclareSort('Str')
slen = z3.Function('slen', StrSort, z3.BitVecSort(64))
sat_ = z3.Function('sat', StrSort, z3.BitVecSort(64), z3.BitVecSort(8))


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Pack:
    """several cells moved by one wide load and store"""
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = cells


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()

_cnt = [0]


def fresh_id():
    _cnt[0] += 1
    return _cnt[0]


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, fresh_id()), sort)


def fresh_bv(name, n):
    return z3.BitVec('%s!%d' % (name, fresh_id()), n)


def bv(v, n):
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if isinstance(v, LinV):
        v = v.lin.bv()
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    if v is UNDEF:
        raise Unsupported('use of an uninitialised value')
    return v


def norm(t):
    """z3 term -> python int / 0-1 when it is a literal after simplification"""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return t


def boolt(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    if v is UNDEF:
        raise Unsupported('branch on an uninitialised value')
    if z3.is_bv(v):
        return v != 0
    return v


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


M64 = (1 << 64) - 1


class Lin:
    """c + sum coef*term over 64-bit integers"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c & M64
        self.t = t or {}

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, int):
            return Lin(x)
        if isinstance(x, LinV):
            return x.lin
        return _decomp(z3.simplify(x))

    def add(self, o, k=1):
        o = Lin.of(o)
        t = dict(self.t)
        for i, (term, c) in o.t.items():
            n = ((t[i][1] if i in t else 0) + k * c) & M64
            if n:
                t[i] = (term, n)
            else:
                t.pop(i, None)
        return Lin(self.c + k * o.c, t)

    def sub(self, o):
        return self.add(o, -1)

    def mul(self, k):
        return Lin(self.c * k, {i: (t, (c * k) & M64) for i, (t, c) in self.t.items() if (c * k) & M64})

    def div(self, k):
        """exact division, or None"""
        if k == 1:
            return self
        s = lambda v: v - (1 << 64) if v >> 63 else v
        if s(self.c) % k or any(s(c) % k for _, c in self.t.values()):
            return None
        return Lin(s(self.c) // k, {i: (t, (s(c) // k) & M64) for i, (t, c) in self.t.items()})

    def rem_c(self, k):
        """constant remainder when all coefficients are divisible by k"""
        s = lambda v: v - (1 << 64) if v >> 63 else v
        if any(s(c) % k for _, c in self.t.values()):
            return None
        return s(self.c) % k

    def const(self):
        return None if self.t else self.c

    def bv(self):
        if not self.t:
            return z3.BitVecVal(self.c, 64)
        r = None
        for _, (t, c) in sorted(self.t.items()):
            x = t if c == 1 else t * z3.BitVecVal(c, 64)
            r = x if r is None else r + x
        if self.c:
            r = r + z3.BitVecVal(self.c, 64)
        return r

    def simp(self):
        return self.c if not self.t else self

    def same(self, o):
        return self.sub(o).const() == 0

    def __repr__(self):
        return str(self.c) if not self.t else str(z3.simplify(self.bv()))


def _decomp(x):
    if z3.is_bv_value(x):
        return Lin(x.as_long())
    k = x.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = Lin(0)
        for a in x.children():
            r = r.add(_decomp(a))
        return r
    if k == z3.Z3_OP_BSUB:
        a = x.children()
        return _decomp(a[0]).sub(_decomp(a[1]))
    if k == z3.Z3_OP_BMUL and len(x.children()) == 2 and z3.is_bv_value(x.arg(0)):
        return _decomp(x.arg(1)).mul(x.arg(0).as_long())
    return Lin(0, {x.get_id(): (x, 1)})


class LinV:
    """64-bit integer known as an exact (non-wrapping) linear form, e.g. a pointer difference"""
    __slots__ = ('lin',)

    def __init__(self, lin):
        self.lin = lin


def i64(x):
    """index value -> z3 BV64"""
    if isinstance(x, int):
        return z3.BitVecVal(x, 64)
    if isinstance(x, Lin):
        return x.bv()
    if isinstance(x, LinV):
        return x.lin.bv()
    return x


def off_simp(o):
    if isinstance(o, Lin):
        return o.simp()
    return o


# ---------------------------------------------------------------- pointers
class Buf(tuple):
    """contents of the container stored in cell (obj, off); gen = generation for invalidation"""
    def __new__(cls, obj, off, gen=0):
        return tuple.__new__(cls, ('buf', obj, off, gen))


class Alt(tuple):
    """alternative `tag` of the variant at pointer (base, off)"""
    def __new__(cls, base, off, tag):
        return tuple.__new__(cls, ('alt', base, off if isinstance(off, int) else _LinKey(off), tag))


class _LinKey:
    __slots__ = ('lin', 'k')

    def __init__(self, lin):
        self.lin = lin
        self.k = (lin.c, tuple(sorted((i, c) for i, (_, c) in lin.t.items())))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, _LinKey) and self.k == o.k


class Handle:
    """an object of unknown dynamic type, known only through the contract of its static type"""
    __slots__ = ('cls', 'id', 'idx')

    def __init__(self, cls, id, idx=None):
        self.cls, self.id, self.idx = cls, id, idx

    def key(self):
        return (self.cls, self.id, None if self.idx is None else (self.idx if isinstance(self.idx, int) else z3.simplify(self.idx).get_id()))

    def __hash__(self):
        return hash((self.cls, self.id))

    def __eq__(self, o):
        return isinstance(o, Handle) and self.key() == o.key()

    def __repr__(self):
        return '<%s %s%s>' % (self.cls, self.id, '' if self.idx is None else '[%s]' % (self.idx,))


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off=0):
        self.base = base
        self.off = off_simp(off)

    def add(self, d):
        if isinstance(self.off, int) and isinstance(d, int):
            return Ptr(self.base, (self.off + d) & M64)
        return Ptr(self.base, Lin.of(self.off).add(d))

    def __repr__(self):
        return 'P(%r+%r)' % (self.base, self.off)


NULL = Ptr(None, 0)


class FnP:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod=None):
        self.name, self.mod = name, mod

    def __repr__(self):
        return '&' + self.name


class VTab:
    """vtable of a Handle, with a byte offset"""
    __slots__ = ('h', 'off')

    def __init__(self, h, off):
        self.h, self.off = h, off


class VFn:
    __slots__ = ('h', 'slot')

    def __init__(self, h, slot):
        self.h, self.slot = h, slot


class PInt:
    """pointer converted to an integer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


# ---------------------------------------------------------------- operands
T_NULL, T_I32, T_I64, T_BOOL, T_F32, T_F64, T_STR = range(7)
ALT_TYPES = ['std::monostate', 'int', 'long', 'bool', 'float', 'double', 'dingodb::expr::String']
SORTS = {1: z3.BitVecSort(32), 2: z3.BitVecSort(64), 3: z3.BoolSort(), 4: F32, 5: F64, 6: StrSort}


class OV:
    """value of a variant operand: tag (int or BV8) and payload per tag"""
    __slots__ = ('tag', '_pay', 'name')

    def __init__(self, tag, pay, name=None):
        self.tag, self._pay, self.name = tag, pay, name

    def pay(self, t):
        p = self._pay
        if callable(p):
            return p(t)
        if t not in p:
            return None
        return p[t]

    @staticmethod
    def null():
        return OV(0, {})

    @staticmethod
    def of(tag, v):
        return OV(tag, {tag: v})

    @staticmethod
    def sym(name):
        tag = z3.BitVec(name + '.tag', 8)
        cache = {}

        def pay(t):
            if t not in cache:
                if t in SORTS:
                    if t in (4, 5):
                        cache[t] = z3.fpBVToFP(z3.BitVec('%s.%d' % (name, t), 32 if t == 4 else 64), SORTS[t])
                        return cache[t]
                    c = z3.Const('%s.%d' % (name, t), SORTS[t])
                    cache[t] = Str.of_term(c) if t == 6 else c
                else:
                    cache[t] = z3.Const('%s.%d' % (name, t), z3.BitVecSort(64))
            return cache[t]
        return OV(tag, pay, name)

    @staticmethod
    def family(name):
        """index -> operand"""
        ft = z3.Function(name + '.tag', z3.BitVecSort(64), z3.BitVecSort(8))
        fs = {}
        byb = name != 'stk'      # operands of operators: no bits, for the solvers' sake

        def at(i):
            i = i64(norm(i64(i)))

            def pay(t):
                f = fs.get(t)
                if f is None:
                    so = z3.BitVecSort(32 if t == 4 else 64) if byb and t in (4, 5) else SORTS.get(t, z3.BitVecSort(64))
                    f = fs[t] = z3.Function('%s.%d' % (name, t), z3.BitVecSort(64), so)
                c = f(i)
                if byb and t in (4, 5):      # reals by their bits: a copy keeps those of a NaN
                    return z3.fpBVToFP(c, SORTS[t])
                return Str.of_term(c) if t == 6 else c
            return OV(ft(i), pay, '%s[%s]' % (name, i))
        return at

    def is_(self, t):
        if isinstance(self.tag, int):
            return z3.BoolVal(self.tag == t)
        return self.tag == t

    def __repr__(self):
        if isinstance(self.tag, int):
            return 'OV(%d,%s)' % (self.tag, self.pay(self.tag) if self.tag else '')
        return 'OV<%s>' % (self.name or self.tag)


def fbits(t):
    """the bits of a real where the term tells them (those of a NaN included), else None"""
    if not z3.is_expr(t) or not z3.is_fp(t):
        return None
    w = t.sort().ebits() + t.sort().sbits()
    k = t.decl().kind()
    if k == z3.Z3_OP_FPA_TO_FP and t.num_args() == 1 and z3.is_bv(t.arg(0)):
        return t.arg(0)
    if k == z3.Z3_OP_ITE:
        a, b = fbits(t.arg(1)), fbits(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    if k in (z3.Z3_OP_FPA_NEG, z3.Z3_OP_FPA_ABS):
        a = fbits(t.arg(0))
        if a is None:
            return None
        s = z3.BitVecVal(1 << (w - 1), w)
        return a ^ s if k == z3.Z3_OP_FPA_NEG else a & ~s
    if z3.is_fp_value(t) and k != z3.Z3_OP_FPA_NAN:
        r = z3.simplify(z3.fpToIEEEBV(t))
        return r if z3.is_bv_value(r) else None
    return None


def same_real(x, y):
    """goal: the same value, bit by bit where the bits are known"""
    a, b = fbits(x), fbits(y)
    if a is not None and b is not None:
        return a == b
    return x == y


def tag_bv(t):
    return z3.BitVecVal(t, 8) if isinstance(t, int) else t


def val_ite(c, a, b, kind=None):
    c = norm(c) if not isinstance(c, int) else c
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, OV):
        if not isinstance(b, OV):
            raise Unsupported('ite of operand and other')
        tag = norm(z3.If(c, tag_bv(a.tag), tag_bv(b.tag)))

        def pay(t, a=a, b=b, c=c):
            x, y = a.pay(t), b.pay(t)
            if x is None:
                return y
            if y is None:
                return x
            return val_ite(c, x, y, t)
        return OV(tag, pay)
    if isinstance(a, Str):
        return Str(norm(z3.If(c, i64(a.n), i64(b.n))),
                   lambda i, a=a, b=b, c=c: val_ite(c, a.at(i), b.at(i), 8))
    if isinstance(a, LinV) or isinstance(b, LinV):
        a = a.lin.bv() if isinstance(a, LinV) else a
        b = b.lin.bv() if isinstance(b, LinV) else b
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if kind is None:
            raise Unsupported('width of ite unknown')
        if kind == 1 or kind == 'b':
            return norm(z3.If(c, z3.BoolVal(bool(a)), z3.BoolVal(bool(b))))
        return norm(z3.If(c, z3.BitVecVal(a, kind), z3.BitVecVal(b, kind)))
    if isinstance(a, int):
        a = z3.BoolVal(bool(a)) if z3.is_bool(b) else z3.BitVecVal(a, b.size())
    if isinstance(b, int):
        b = z3.BoolVal(bool(b)) if z3.is_bool(a) else z3.BitVecVal(b, a.size())
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return a
        if z3.is_bool(a) and z3.is_bv(b):
            a = bv(a, b.size())
        if z3.is_bool(b) and z3.is_bv(a):
            b = bv(b, a.size())
        return norm(z3.If(c, a, b)) if not z3.is_fp(a) else z3.If(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
        if ptr_same(a, b):
            return a
        return Ptr(a.base, Lin.of(z3.If(c, Lin.of(a.off).bv(), Lin.of(b.off).bv())))
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    raise Unsupported('ite of %r and %r' % (type(a), type(b)))


def ptr_same(a, b):
    return a.base == b.base and Lin.of(a.off).same(b.off)


# ---------------------------------------------------------------- strings
_terms = {}


class Str:
    """content of a std::string: length, byte at index, optionally a term naming the value"""
    __slots__ = ('n', 'at', 'term', 'key', 'lit', 'seq', 'par')

    def __init__(self, n, at, term=None, key=None, lit=None, seq=None, par=None):
        self.n, self.at, self.term, self.key, self.lit, self.seq = n, at, term, key, lit, seq
        self.par = par       # (string, position) this one is a part of

    def root(self):
        """(string, position) of the longest string this one is known to be a part of"""
        s, o = self, 0
        while s.par is not None:
            s, p = s.par
            o = norm(i64(o) + i64(p))
        return s, o

    @staticmethod
    def of_seq(q, key=None):
        """string given as a sequence of bytes (used where a loop changes it)"""
        def at(i):
            v = q.at(i)
            return 0 if v is UNDEF else v
        return Str(norm(i64(q.n)), at, key=key, seq=q)

    def view(self):
        """the same content as a sequence of bytes"""
        if self.seq is not None:
            return self.seq
        if self.lit is not None and len(self.lit) == 0:
            return Seq(1, 8, stable=True)
        return Seq(1, 8, nb=i64(self.n), bat=self.at, ident=('strview', fresh_id()), stable=True)

    def store(self, i, v):
        if self.seq is not None:
            return Str.of_seq(self.seq.set(i, v))
        return Str(self.n, lambda j: val_ite(i64(j) == i64(i), v, self.at(j), 8))

    @staticmethod
    def of_term(c):
        return Str(slen(c), lambda i: sat_(c, i64(i)), term=c, key=('t', c.get_id(), c))

    @staticmethod
    def lit_(b):
        def at(i):
            i = norm(i64(i))
            if isinstance(i, int):
                return b[i] if i < len(b) else 0
            r = z3.BitVecVal(0, 8)
            for j in range(len(b) - 1, -1, -1):
                r = z3.If(i == j, z3.BitVecVal(b[j], 8), r)
            return r
        return Str(len(b), at, key=('l', b), lit=b)

    def name(self):
        """a term standing for this value (same key, same term)"""
        if self.term is None:
            k = self.key
            if k is not None and k in _terms:
                self.term = _terms[k]
            else:
                self.term = fresh('str', StrSort)
                if k is not None:
                    _terms[k] = self.term
        return self.term

    def substr(self, pos, cnt):
        key = ('sub', self.key, norm_key(pos), norm_key(cnt)) if self.key is not None else None
        if self.key is not None and isinstance(pos, int) and pos == 0 and norm_key(cnt) == norm_key(self.n):
            return self
        q = self.seq
        if q is not None and isinstance(pos, int) and pos == 0 and q.is_opaque() and not q.tail and not q.upd:
            return Str.of_seq(q.but(nb=i64(cnt)), key)
        return Str(cnt, lambda i: self.at(norm(i64(i) + i64(pos))), key=key, par=(self, pos))

    def concat(self, o):
        if self.lit is not None and o.lit is not None:
            return Str.lit_(self.lit + o.lit)
        if self.lit == b'' and self.seq is None:
            return o
        if o.lit == b'':
            return self
        key = ('cat', self.key, o.key) if self.key is not None and o.key is not None else None
        if self.seq is not None and isinstance(o.n, int) and o.n <= 8:
            q = self.seq
            for j in range(o.n):
                q = q.push(o.at(j))
            return Str.of_seq(q, key)
        n = norm(i64(self.n) + i64(o.n))

        def at(i):
            return val_ite(z3.ULT(i64(i), i64(self.n)), self.at(i), o.at(norm(i64(i) - i64(self.n))), 8)
        return Str(n, at, key=key)

    def __repr__(self):
        if self.lit is not None:
            return 'Str(%r)' % (self.lit,)
        return 'Str(%s)' % (self.key,)


def norm_key(x):
    x = norm(i64(x))
    return x if isinstance(x, int) else ('z', x.get_id(), _keep(x))


_kept = {}


class _K:
    """keeps a z3 term alive in a key without taking part in comparison"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 0


def _keep(x):
    return _K(x)


# ---------------------------------------------------------------- sequences
class Seq:
    """contents of a vector/deque/array: explicit tail after an optional symbolic base, then updates"""
    __slots__ = ('es', 'nb', 'bat', 'ident', 'tail', 'upd', 'gen', 'ety', 'stable')

    def __init__(self, es, ety, nb=0, bat=None, ident=None, tail=(), upd=(), gen=0, stable=False):
        self.es, self.ety, self.nb, self.bat, self.ident, self.tail, self.upd, self.gen = es, ety, nb, bat, ident, tail, upd, gen
        self.stable = stable

    def but(self, **kw):
        d = dict(es=self.es, ety=self.ety, nb=self.nb, bat=self.bat, ident=self.ident, tail=self.tail, upd=self.upd, gen=self.gen, stable=self.stable)
        d.update(kw)
        return Seq(**d)

    @property
    def n(self):
        if isinstance(self.nb, int):
            return self.nb + len(self.tail)
        return norm(self.nb + len(self.tail)) if self.tail else self.nb

    def is_opaque(self):
        return not (isinstance(self.nb, int) and self.nb == 0)

    def raw_at(self, i):
        """value at i ignoring updates"""
        i = norm(i64(i))
        w = self.ety if isinstance(self.ety, int) else None
        if not self.is_opaque():
            if isinstance(i, int):
                return self.tail[i] if i < len(self.tail) else UNDEF
            if not self.tail:
                return UNDEF
            r = self.tail[-1]
            for j in range(len(self.tail) - 2, -1, -1):
                r = val_ite(i == j, self.tail[j], r, w)
            return r
        if not self.tail:
            return self.bat(i)
        d = norm(i64(i) - i64(self.nb))
        if isinstance(d, int) and d < len(self.tail):
            return self.tail[d]
        r = self.bat(i)
        for j in range(len(self.tail)):
            r = val_ite(i64(d) == j, self.tail[j], r, w)
        return r

    def at(self, i):
        w = self.ety if isinstance(self.ety, int) else None
        i = norm(i64(i))
        if not self.upd:
            return self.raw_at(i)
        # innermost first
        pend = []
        r = None
        for u in reversed(self.upd):
            if u[0] == 'set':
                c = norm(i64(i) == i64(u[1]))
                if isinstance(c, int):
                    if c:
                        r = u[2]
                        break
                    continue
                pend.append((c, u[2]))
            else:  # ('rng', d0, cnt, at)
                d = norm(i64(i) - i64(u[1]))
                c = norm(z3.ULT(i64(d), i64(u[2])))
                if isinstance(c, int):
                    if c:
                        r = u[3](d)
                        break
                    continue
                pend.append((c, u[3](d)))
        if r is None:
            r = self.raw_at(i)
        for c, v in reversed(pend):
            r = val_ite(c, v, r, w)
        return r

    def cases(self, i):
        """[(conditions, value)] instead of one value"""
        i = norm(i64(i))
        out, neg = [], []
        for u in reversed(self.upd):
            d = i64(u[1]) if u[0] == 'set' else None
            if u[0] == 'set':
                c, v = norm(i64(i) == i64(u[1])), (lambda u=u: u[2])
            else:
                d = norm(i64(i) - i64(u[1]))
                c, v = norm(z3.ULT(i64(d), i64(u[2]))), (lambda u=u, d=d: u[3](d))
            if isinstance(c, int):
                if c:
                    out.append((list(neg), v()))
                    return out
                continue
            out.append((neg + [c], v()))
            neg = neg + [z3.Not(c)]
        out.append((neg, self.raw_at(i)))
        return out

    def flat(self):
        """push updates into the tail when everything is concrete"""
        if not self.upd or self.is_opaque():
            return self
        if all(u[0] == 'set' and isinstance(norm(i64(u[1])), int) for u in self.upd):
            t = list(self.tail)
            for u in self.upd:
                j = norm(i64(u[1]))
                if j >= len(t):
                    return self
                t[j] = u[2]
            return self.but(tail=tuple(t), upd=())
        return self

    def set(self, i, v):
        i = norm(i64(i))
        up = self.upd
        # overwrite of the same index
        if up and up[-1][0] == 'set' and isinstance(norm(i64(up[-1][1]) == i64(i)), int) and norm(i64(up[-1][1]) == i64(i)):
            up = up[:-1]
        return self.but(upd=up + (('set', i, v),)).flat()

    def push(self, v):
        s = self
        if s.upd:
            s = s.freeze()
        return s.but(tail=s.tail + (v,), gen=s.gen if s.stable else s.gen + 1)

    def freeze(self):
        """fold everything into a base closure"""
        s = self.flat()
        if not s.upd:
            return s
        return s.but(nb=i64(self.n), bat=lambda i, s=self: s.at(i), ident=('frozen', fresh_id()), tail=(), upd=())

    def __repr__(self):
        return 'Seq(nb=%s id=%s tail=%r upd=%d)' % (self.nb, self.ident, self.tail, len(self.upd))

"""Assumed contracts of the C++ standard library, the C library and the C++ runtime, in terms of
abstract values (see vals.py).  Every entry used by a check is listed in that check's evidence."""
import re
import z3
from vals import *

SYMS = ['()', '[]', '<<=', '>>=', '<=>', '<<', '>>', '->*', '->', '<=', '>=', '==', '!=', '&&', '||', '++', '--', '+=', '-=',
        '*=', '/=', '|=', '&=', '^=', '+', '-', '*', '/', '%', '<', '>', '=', '!', '~', '&', '|', '^', ',']


def splittop(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<({[':
            d += 1
        elif c in '>)}]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def untmpl(s):
    out, d = '', 0
    for c in s:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
    return out


def lasttargs(s):
    """template arguments at the end of s"""
    s = s.rstrip()
    if not s.endswith('>'):
        return []
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == '>':
            d += 1
        elif s[i] == '<':
            d -= 1
            if d == 0:
                return splittop(s[i + 1:-1])
    return []


class Dem:
    __slots__ = ('full', 'cls', 'ctargs', 'meth', 'ftargs', 'params', 'const', 'ret', 'key')


def simp_names(d):
    d = d.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '').replace('[abi:ne180100]', '')
    d = re.sub(r'std::basic_string<char, std::char_traits<char>, std::allocator<char> ?>', 'std::string', d)
    d = re.sub(r'std::basic_(\w+)<char, std::char_traits<char>(, std::allocator<char> ?)? ?>', r'std::\1', d)
    return d


_dem = {}


def parse_dem(full):
    r = _dem.get(full)
    if r is not None:
        return r
    d = simp_names(full)
    r = Dem()
    r.full = d
    r.const = False
    s = d.rstrip()
    while True:
        for suf in (' const', ' &', ' &&', '&'):
            if s.endswith(suf) and not s.endswith('operator&'):
                if suf == ' const':
                    r.const = True
                s = s[:-len(suf)].rstrip()
                break
        else:
            break
    if s.endswith(')'):
        dep = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ')':
                dep += 1
            elif s[i] == '(':
                dep -= 1
                if dep == 0:
                    break
        r.params = splittop(s[i + 1:-1])
        head = s[:i]
    else:
        r.params = []
        head = s
    # locate the method part
    dep = 0
    i = 0
    lastsp = -1
    lastcc = -1
    opat = -1
    n = len(head)
    while i < n:
        c = head[i]
        if c in '<({[':
            dep += 1
        elif c in '>)}]':
            dep -= 1
        elif dep == 0:
            if head.startswith('operator', i) and (i == 0 or not (head[i - 1].isalnum() or head[i - 1] == '_')) and \
                    (i + 8 >= n or not (head[i + 8].isalnum() or head[i + 8] == '_')):
                opat = i
                break
            if c == ' ':
                lastsp = i
                lastcc = -1
            elif head.startswith('::', i):
                lastcc = i
        i += 1
    if opat >= 0:
        rest = head[opat + 8:]
        for y in SYMS:
            if rest.startswith(y):
                r.meth = 'operator' + y
                r.ftargs = lasttargs(rest[len(y):])
                break
        else:
            r.meth = 'operator' + untmpl(rest)
            r.ftargs = []
        pre = head[:opat]
        pre = pre[lastsp + 1:]
        cls = pre[:-2] if pre.endswith('::') else ''
        r.ret = head[:lastsp] if lastsp >= 0 else ''
    else:
        q = head[lastsp + 1:]
        r.ret = head[:lastsp] if lastsp >= 0 else ''
        if lastcc >= 0:
            cls = head[lastsp + 1:lastcc]
            m = head[lastcc + 2:]
        else:
            cls, m = '', q
        r.meth = untmpl(m)
        r.ftargs = lasttargs(m)
    r.cls = untmpl(cls)
    r.ctargs = lasttargs(cls)
    r.key = (r.cls + '::' if r.cls else '') + r.meth
    _dem[full] = r
    return r


# ---------------------------------------------------------------- abstract library values
class SP:
    """shared_ptr<std::string>: pointer to the string object, or NULL"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class It:
    """iterator stored as a library object (deque iterators): a pointer into a Buf"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class SS:
    """string stream / output stream: formatting state and the text written so far"""
    __slots__ = ('flags', 'text', 'base')

    def __init__(self, flags=(), text=None, base=None):
        self.flags, self.text, self.base = flags, text, base


class MapVal:
    """unordered_map: focused entries, keys known absent, and an opaque rest"""
    __slots__ = ('ents', 'absent', 'rest', 'n0', 'erased')

    def __init__(self, ents=(), absent=(), rest=None, n0=0, erased=()):
        self.ents, self.absent, self.rest, self.n0, self.erased = ents, absent, rest, n0, erased

    def but(self, **kw):
        m = MapVal(self.ents, self.absent, self.rest, self.n0, self.erased)
        for k, v in kw.items():
            setattr(m, k, v)
        return m


class MapPos:
    """entry of an unordered_map by its position in the order of iteration"""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i64(i)

    def __eq__(self, o):
        return isinstance(o, MapPos) and z3.eq(z3.simplify(self.i), z3.simplify(o.i))

    def __hash__(self):
        return 7


class MapIt:
    """iterator of an unordered_map: container (object, offset) and position (or ('ent', id) of an entry looked up)"""
    __slots__ = ('m', 'i')

    def __init__(self, m, i):
        self.m, self.i = m, i


class TI:
    pass


def elem(t):
    t = t.strip()
    if t == 'dingodb::expr::Operand' or t.startswith('std::variant<std::monostate'):
        return 24, 'ov'
    if t.endswith('*') or t.endswith('* const'):
        return 8, 'ptr'
    if t in ('std::string',):
        return 32, 'str'
    if t == 'dingodb::expr::String' or t.startswith('std::shared_ptr<std::string'):
        return 16, 'sp'
    if t.startswith('std::unique_ptr<'):
        return 8, 'ptr'
    w = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'char': 8,
         'unsigned char': 8, 'signed char': 8, 'short': 16, 'unsigned short': 16}.get(t)
    if w:
        return w // 8, w
    if t == 'float':
        return 4, 'f32'
    if t == 'double':
        return 8, 'f64'
    raise Unsupported('container of ' + t[:60])


def elem_default(ety):
    if ety == 'ov':
        return OV.null()
    if ety == 'ptr':
        return NULL
    if ety == 'str':
        return Str.lit_(b'')
    if ety == 'f32':
        return z3.FPVal(0.0, F32)
    if ety == 'f64':
        return z3.FPVal(0.0, F64)
    if isinstance(ety, int):
        return 0
    raise Unsupported('default element ' + str(ety))


def ret(st, v=None):
    return [(st, 'ret', v)]


def alt_index(t):
    t = t.strip()
    for c in (' const', '&', ' const&'):
        pass
    t = re.sub(r'\s*(const)?\s*&{0,2}$', '', t).strip()
    t = re.sub(r'^const ', '', t)
    if t in ALT_TYPES:
        return ALT_TYPES.index(t)
    m = re.match(r'std::shared_ptr<std::vector<(\w+|std::string)', t)
    if m:
        return {'int': 7, 'long': 8, 'bool': 9, 'float': 10, 'double': 11, 'std::string': 12}.get(m.group(1))
    return None


# ---------------------------------------------------------------- buffers
def buf_seq(ex, st, p, what):
    """contents of the container that pointer p points into"""
    _, obj, off, gen = p.base
    s = ex.get_abs(st, Ptr(obj, off), what)
    if isinstance(s, str) and s == 'dead':
        return None
    if isinstance(s, Str):
        return s
    if not isinstance(s, Seq):
        ex.stats.obl += 1
        ex.fail(st, 'memory', '%s through a pointer into a container that no longer exists' % what)
        return None
    if s.gen != gen:
        ex.stats.obl += 1
        ex.fail(st, 'memory', '%s through an iterator or reference that a modification of the container invalidated' % what)
        return None
    return s


def seq_index(ex, st, s, p, sz, what):
    """index of the element p points to (obligation: inside), with byte offset inside the element"""
    l = Lin.of(p.off)
    sub = l.rem_c(s.es)
    if sub is None:
        raise Unsupported('pointer into the middle of a container element')
    q = l.add(-sub).div(s.es)
    i = norm(q.bv())
    if not ex.obl(st, z3.ULT(i64(i), i64(s.n)), 'memory', '%s outside the container (index not below size)' % what):
        return None, None
    return i, sub


def seq_load(ex, st, s, p, ty):
    i, sub = seq_index(ex, st, s, p, ty.size, 'read')
    if i is None:
        return []
    if sub or ty.size != s.es:
        raise Unsupported('partial read of a container element')
    if s.ety == 'ptr' and s.upd:
        out = []
        for cs, v in s.cases(i):
            t = st.fork() if cs else st
            t.pc += cs
            if not cs or ex.feasible(t):
                out.append((t, ex.conv_load(v, ty)))
        return out
    v = s.at(i)
    if isinstance(v, (OV, Str, SP)):
        raise Unsupported('raw read of a library object in a container')
    return [(st, ex.conv_load(v, ty))]


def seq_store(ex, st, p, v, ty):
    s = buf_seq(ex, st, p, 'write')
    if s is None:
        return []
    _, obj, off, gen = p.base
    if isinstance(s, Str):
        l = Lin.of(p.off)
        if ty.size != 1:
            raise Unsupported('wide write into a string')
        i = norm(l.bv())
        if not ex.obl(st, z3.ULT(i64(i), i64(s.n)), 'memory', 'write outside the string'):
            return []
        return [st] if ex.put_abs(st, Ptr(obj, off), s.store(i, v)) else []
    i, sub = seq_index(ex, st, s, p, ty.size, 'write')
    if i is None:
        return []
    if sub or ty.size != s.es:
        raise Unsupported('partial write of a container element')
    return [st] if ex.put_abs(st, Ptr(obj, off), s.set(i, v)) else []


def seq_elem(ex, st, p):
    s = buf_seq(ex, st, p, 'read')
    if s is None:
        return 'dead'
    if isinstance(s, Str):
        raise Unsupported('library object inside a string')
    i, sub = seq_index(ex, st, s, p, s.es, 'read')
    if i is None:
        return 'dead'
    if sub:
        raise Unsupported('library object inside a container element')
    v = s.at(i)
    if s.ety == 'sp' and isinstance(v, Str):
        return sp_of_str(ex, st, v)
    return v


def seq_elem_put(ex, st, p, v):
    s = buf_seq(ex, st, p, 'write')
    if s is None:
        return False
    _, obj, off, gen = p.base
    i, sub = seq_index(ex, st, s, p, s.es, 'write')
    if i is None:
        return False
    if sub:
        raise Unsupported('library object inside a container element')
    return ex.put_abs(st, Ptr(obj, off), s.set(i, v))


def sp_of_str(ex, st, v):
    """shared_ptr to an unmodifiable string object holding v"""
    k = ('spobj', id(v))
    e = st.ghost.get(k)
    if e is None:
        p = ex.new_obj(st, 'sp', 32, 'shared string')
        o = st.mem[p.base]
        o.cells[0] = ('abs', v)
        o.ro = True
        st.ghost[k] = e = (p, v)
    return SP(e[0])


def sp_same(ex, st, x, y):
    """whether two unmodifiable shared strings are one object: unknown, but then their contents are equal"""
    k = ('spsame', min(x, y), max(x, y))
    b = st.ghost.get(k)
    if b is None:
        b = z3.Bool('same_object!%d' % fresh_id())
        st.ghost[k] = b
        sx, sy = (st.mem[i].cells[0][1] for i in (x, y))
        st.pc.append(z3.Implies(b, str_eq(sx, sy)))
    return b


def alt_value(ex, st, p):
    _, base, off, tag = p.base
    if isinstance(off, _LinKeyT):
        off = off.lin
    o = ex.get_abs(st, Ptr(base, off))
    if isinstance(o, str):
        raise Unsupported('dead variant')
    if not isinstance(o, OV):
        ex.fail(st, 'memory', 'read of a variant that does not exist')
        raise Unsupported('variant gone')
    if p.off != 0:
        raise Unsupported('inside a variant alternative')
    if not ex.obl(st, o.is_(tag), 'memory', 'reference to a variant alternative that is no longer active'):
        raise Unsupported('inactive alternative')
    v = o.pay(tag)
    if tag == T_STR:
        return sp_of_str(ex, st, v)
    return v


import vals as _v
_LinKeyT = _v._LinKey


# ---------------------------------------------------------------- map entries
def _mapent(ex, st, p):
    """(map, part 'key' / 'val', entry) of a pointer into an entry"""
    _, obj, off, eid, part = p.base
    o = p.off
    if part == 'pair':
        if o not in (0, 24):
            raise Unsupported('inside a map entry')
        part, o = ('key', 'val')[o // 24], 0
    if o != 0:
        raise Unsupported('inside a map entry')
    m = ex.get_abs(st, Ptr(obj, off))
    if isinstance(m, MapVal):
        if isinstance(eid, MapPos):
            ex.obl(st, z3.And(z3.ULT(eid.i, i64(m.n0)), *[eid.i != e for e in m.erased]), 'memory', 'use of a map entry that does not exist')
            return m, part, (eid, None, None)
        for e in m.ents:
            if e[0] == eid:
                return m, part, e
    if not (isinstance(m, str) and m == 'dead'):
        ex.stats.obl += 1
        ex.fail(st, 'memory', 'use of a map entry that was erased')
    return None, None, None


def mapent_load(ex, st, p, ty):
    m, part, e = _mapent(ex, st, p)
    if e is None:
        return []
    if part == 'val':
        return [(st, ex.conv_load(m.rest.val(e[0].i) if isinstance(e[0], MapPos) else e[2], ty))]
    raise Unsupported('read inside a map entry')


def mapent_store(ex, st, p, v, ty):
    m, part, e = _mapent(ex, st, p)
    if e is None:
        return []
    if part != 'val' or isinstance(e[0], MapPos):
        raise Unsupported('write of a map entry')
    ents = tuple((x[0], x[1], v if x[0] == e[0] else x[2]) for x in m.ents)
    return [st] if ex.put_abs(st, Ptr(p.base[1], p.base[2]), m.but(ents=ents)) else []


def mapent_abs(ex, st, p):
    m, part, e = _mapent(ex, st, p)
    if e is None:
        return 'dead'
    if isinstance(e[0], MapPos):
        return m.rest.key(e[0].i) if part == 'key' else m.rest.val(e[0].i)
    return e[1] if part == 'key' else e[2]


def mapent_abs_put(ex, st, p, v):
    m, part, e = _mapent(ex, st, p)
    if e is None:
        return False
    if part != 'val' or isinstance(e[0], MapPos):
        raise Unsupported('write of a map entry')
    ents = tuple((x[0], x[1], v if x[0] == e[0] else x[2]) for x in m.ents)
    return ex.put_abs(st, Ptr(p.base[1], p.base[2]), m.but(ents=ents))


# ---------------------------------------------------------------- numeric helpers shared with the specifications
def fp_in_range(v, s, n, signed):
    """v truncates into an n-bit integer"""
    lo = -(1 << (n - 1)) if signed else 0
    hi = (1 << (n - 1)) if signed else (1 << n)
    # lo-1 < v < hi, with lo - 1 representable only for small n
    h = z3.fpLT(v, z3.FPVal(float(hi), s))
    if not signed:
        l = z3.fpGT(v, z3.FPVal(-1.0, s))
    elif n == 32 and s == F64:
        l = z3.fpGT(v, z3.FPVal(float(lo - 1), s))
    else:
        l = z3.fpGEQ(v, z3.FPVal(float(lo), s))
    return z3.And(h, l)


def lround(v):
    """round half away from zero; v is F64"""
    r = z3.fpRoundToIntegral(z3.RNA(), v)
    inr = z3.And(z3.fpLT(r, z3.FPVal(9223372036854775808.0, F64)), z3.fpGEQ(r, z3.FPVal(-9223372036854775808.0, F64)))
    # out of range and NaN: unspecified by the standard; glibc on x86-64 yields the most negative value
    return z3.If(inr, z3.fpToSBV(z3.RNA(), v, z3.BitVecSort(64)), z3.BitVecVal(1 << 63, 64))


def to_f64(v):
    return z3.fpFPToFP(RNE, v, F64)


_libm = {}


def libm(name, *sorts):
    if name not in _libm:
        _libm[name] = z3.Function('libm_' + name, *sorts)
    return _libm[name]


tostr_uf = {}


def tostr(kind, v):
    """text of a number: kind in i32 i64 u32 u64 f32 f64 with optional formatting key"""
    if kind not in tostr_uf:
        tostr_uf[kind] = z3.Function('text_' + kind, v.sort(), StrSort)
    return Str.of_term(tostr_uf[kind](v))


STO = {}


def sto(kind, s):
    """(status, value) of stoi/stoll/stof/stod: status 0 ok, 1 invalid, 2 out of range"""
    if kind not in STO:
        so = {'stoi': z3.BitVecSort(32), 'stol': z3.BitVecSort(64), 'stoll': z3.BitVecSort(64), 'stof': F32, 'stod': F64}[kind]
        k2 = 'stoll' if kind == 'stol' else kind
        STO[kind] = (z3.Function(k2 + '.status', StrSort, z3.BitVecSort(2)), z3.Function(k2 + '.value', StrSort, so))
    f, g = STO[kind]
    t = s.name()
    return f(t), g(t)


lexf = z3.Function('lexless', StrSort, StrSort, z3.BoolSort())


def lexcmp(a, b):
    """sign of the lexicographic comparison as BV2: 0, 1 (greater), 3 (less); total and antisymmetric by construction"""
    x, y = a.name(), b.name()
    if x.eq(y):
        return z3.BitVecVal(0, 2)
    if a.lit is not None and b.lit is not None:
        return z3.BitVecVal(0 if a.lit == b.lit else (1 if a.lit > b.lit else 3), 2)
    l, g = lexf(x, y), lexf(y, x)
    V = z3.BitVecVal
    return z3.If(z3.And(l, z3.Not(g)), V(3, 2), z3.If(z3.And(g, z3.Not(l)), V(1, 2), V(0, 2)))


def str_eq(a, b):
    if a is b:
        return z3.BoolVal(True)
    if a.key is not None and a.key == b.key:
        return z3.BoolVal(True)
    # empty literals need no name
    for x, y in ((a, b), (b, a)):
        if x.lit is not None and len(x.lit) <= 8:
            return z3.And(i64(y.n) == len(x.lit), *[bv(y.at(j), 8) == x.lit[j] for j in range(len(x.lit))])
    return z3.And(i64(a.n) == i64(b.n), lexcmp(a, b) == 0)


def str_lt(a, b):
    return lexcmp(a, b) == 3


hash_uf = {}


def strhash(s):
    if 's' not in hash_uf:
        hash_uf['s'] = z3.Function('hash_string', StrSort, z3.BitVecSort(64))
    return hash_uf['s'](s.name())


def ov_eq(a, b):
    """operator== of the operand variant"""
    def alt(t):
        x, y = a.pay(t), b.pay(t)
        if t == 0:
            return z3.BoolVal(True)
        if x is None or y is None:
            return z3.BoolVal(False)
        if t in (4, 5):
            return z3.fpEQ(x, y)
        if t == 6:
            return str_eq(x, y)
        if t == 3:
            return boolt(x) == boolt(y)
        w = {1: 32, 2: 64}.get(t, 64)
        return bv(x, w) == bv(y, w)
    if isinstance(a.tag, int) and isinstance(b.tag, int):
        return alt(a.tag) if a.tag == b.tag else z3.BoolVal(False)
    ts = [a.tag] if isinstance(a.tag, int) else ([b.tag] if isinstance(b.tag, int) else range(13))
    cs = [z3.And(a.is_(t), b.is_(t), alt(t)) for t in ts]
    return z3.Or(cs)


# ---------------------------------------------------------------- table
T = {}


def reg(*names):
    def f(h):
        for n in names:
            T[n] = h
        return h
    return f


def lookup(ex, name):
    d = ex.prog.dem.get(name)
    full = d if d else name
    if name.startswith(('_ZN7dingodb', '_ZNK7dingodb')) or full.startswith('dingodb') and not name.startswith(('_ZNSt', '_ZNKSt')):
        return None
    D = parse_dem(full)
    h = T.get(D.key)
    if h is None and name in T:
        h = T[name]
    if h is None:
        return None

    def call(ex, st, args, nm, ins, D=D, h=h):
        ex.cur_callee = nm
        return h(ex, st, args, D)
    call.__name__ = D.key
    return call


# ---------------------------------------------------------------- runtime
@reg('operator new', 'operator new[]')
def op_new(ex, st, a, D):
    n = a[0]
    how = D.meth
    if isinstance(n, LinV):
        n = n.lin.bv()
    p = ex.new_obj(st, 'heap', n, 'heap object', 'new[]' if '[]' in D.meth else 'new')
    o = st.mem[p.base]
    o.meta = ex.where()
    st.events.append(('new', p.base))
    return ret(st, p)


@reg('operator delete', 'operator delete[]')
def op_delete(ex, st, a, D):
    p = a[0]
    if p is UNDEF:
        ex.stats.obl += 1
        ex.fail(st, 'memory', 'delete of an uninitialised pointer')
        return []
    if isinstance(p, int):
        p = Ptr(None, p)
    if p.base is None:
        return ret(st)
    how = 'new[]' if '[]' in D.meth else 'new'
    ex.stats.obl += 1
    if isinstance(p.base, Handle):
        ex.stats.disch += 1
        if not ex.h_alive(st, p.base, 'object released twice (%s)' % p.base.cls):
            return []
        ex.h_free(st, p.base)
        st.events.append(('delete', p.base, how))
        return ret(st)
    if isinstance(p.base, tuple):
        ex.fail(st, 'memory', 'delete of a pointer that was not allocated on its own')
        return []
    o = st.mem.get(p.base)
    if o is None or o.kind not in ('heap',) or p.off != 0:
        ex.fail(st, 'memory', 'delete of a pointer that was not allocated with new')
        return []
    if not o.alive:
        ex.fail(st, 'memory', 'object released twice')
        return []
    if o.how is not None and o.how != how:
        ex.fail(st, 'memory', '%s released with %s' % (o.how, 'delete[]' if '[]' in how else 'delete'))
        return []
    ex.stats.disch += 1
    o = o.copy()
    o.alive = False
    st.mem[p.base] = o
    st.events.append(('free', p.base))
    return ret(st)


@reg('__cxa_allocate_exception')
def cxa_alloc(ex, st, a, D):
    return ret(st, ex.new_obj(st, 'exc', a[0], 'exception object'))


@reg('__cxa_free_exception')
def cxa_free(ex, st, a, D):
    return ret(st)


@reg('__cxa_throw')
def cxa_throw(ex, st, a, D):
    ti = a[1]
    nm = None
    o = st.mem.get(ti.base)
    nm = o.name if o is not None else None
    if nm is None:
        raise Unsupported('thrown type')
    v = (a[0], nm)
    st.ghost[('exc', a[0].base)] = v
    return [(st, 'exc', v)]


@reg('__cxa_begin_catch')
def cxa_begin(ex, st, a, D):
    st.exc = st.exc + [ex.exc_of(st, a[0])]
    return ret(st, a[0])


@reg('__cxa_end_catch')
def cxa_end(ex, st, a, D):
    if st.exc:
        st.exc = st.exc[:-1]
    return ret(st)


@reg('__cxa_rethrow')
def cxa_rethrow(ex, st, a, D):
    if not st.exc:
        ex.fail(st, 'terminate', 'rethrow without an exception')
        return []
    return [(st, 'exc', st.exc[-1])]


@reg('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def eh_typeid(ex, st, a, D):
    return ret(st, ex.type_id(st.mem[a[0].base].name))


@reg('__clang_call_terminate', 'std::terminate', 'abort', 'llvm.trap', '__cxa_pure_virtual', 'std::__throw_bad_alloc_x')
def terminate(ex, st, a, D):
    ex.stats.obl += 1
    ex.fail(st, 'terminate', 'the program is terminated here (%s)' % D.meth)
    return []


@reg('std::__throw_bad_variant_access')
def thr_bva(ex, st, a, D):
    return [ex.throw(st, '_ZTISt18bad_variant_access')]


@reg('std::__throw_bad_any_cast')
def thr_bac(ex, st, a, D):
    return [ex.throw(st, '_ZTISt12bad_any_cast')]


@reg('std::__throw_bad_optional_access')
def thr_boa(ex, st, a, D):
    return [ex.throw(st, '_ZTISt19bad_optional_access')]


@reg('std::__throw_out_of_range', 'std::__throw_out_of_range_fmt')
def thr_oor(ex, st, a, D):
    return [ex.throw(st, '_ZTISt12out_of_range')]


@reg('std::__throw_length_error')
def thr_len(ex, st, a, D):
    return [ex.throw(st, '_ZTISt12length_error')]


@reg('std::__throw_bad_array_new_length', '__cxa_throw_bad_array_new_length')
def thr_ban(ex, st, a, D):
    return [ex.throw(st, '_ZTISt20bad_array_new_length')]


@reg('__cxa_atexit', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.dbg.declare', 'llvm.experimental.noalias.scope.decl',
     'llvm.assume', 'llvm.stackrestore', 'llvm.stackrestore.p0')
def nop(ex, st, a, D):
    return ret(st, 0)


@reg('__cxa_guard_acquire')
def guard_acq(ex, st, a, D):
    raise Unsupported('function local static object')


def runtime_error_ctor(ex, st, a, D):
    msg = None
    if len(a) > 1 and 'char const*' in D.params[0]:
        msg = cstr(ex, st, a[1])
        if msg is None:
            return []
    elif len(a) > 1:
        msg = ex.get_abs(st, a[1])
        if isinstance(msg, str):
            return []
        if isinstance(msg, tuple):      # copy of another exception
            msg = msg[1]
    return ret(st) if ex.put_abs(st, a[0], ('excmsg', msg)) else []


for n in ('runtime_error', 'logic_error', 'invalid_argument', 'out_of_range', 'domain_error', 'length_error', 'range_error',
          'overflow_error', 'underflow_error'):
    T['std::%s::%s' % (n, n)] = runtime_error_ctor
    T['std::%s::~%s' % (n, n)] = nop
T['std::exception::exception'] = nop
T['std::exception::~exception'] = nop


# ---------------------------------------------------------------- C library
@reg('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove')
def memcpy(ex, st, a, D):
    d, s, n = a[0], a[1], a[2]
    if isinstance(n, LinV):
        n = n.lin.simp()
        n = n if isinstance(n, int) else n.bv()
    if not isinstance(n, int):
        n2 = norm(n)
        if not isinstance(n2, int):
            return memcpy_sym(ex, st, d, s, n2)
        n = n2
    if n == 0:
        return ret(st, d)
    so = st.mem.get(s.base) if not isinstance(s.base, (tuple, Handle)) else None
    do = st.mem.get(d.base) if not isinstance(d.base, (tuple, Handle)) else None
    if so is None or do is None:
        if isinstance(s.base, tuple) or isinstance(d.base, tuple):
            from irparse import I
            if n in (1, 2, 4, 8):
                r = ex.load(st, s, I[8 * n])
                if len(r) != 1:
                    return [] if not r else _uns('memcpy')
                for st2 in ex.store(r[0][0], d, r[0][1], I[8 * n]):
                    return ret(st2, d)
                return []
            return memcpy_sym(ex, st, d, s, n)
        ex.getobj(st, s, 'read')
        ex.getobj(st, d, 'write')
        return [] if s.base is None or d.base is None else _uns('memcpy')
    if ex.getobj(st, s, 'read') is None:
        return []
    if so.arr is not None or do.arr is not None or not isinstance(s.off, int) or not isinstance(d.off, int):
        return memcpy_sym(ex, st, d, s, n)
    if not ex.bounds(st, s, n, so.size, 'read') or not ex.bounds(st, d, n, do.size, 'write'):
        return []
    o = ex.wobj(st, d)
    if o is None:
        return []
    cells = {}
    for off, (sz, v) in so.cells.items():
        e = 32 if sz == 'abs' else sz
        if sz == 'abs':
            if s.off <= off < s.off + n:
                cells[off - s.off] = (sz, v)
        elif off >= s.off and off + sz <= s.off + n:
            cells[off - s.off] = (sz, v)
        elif off < s.off + n and off + sz > s.off:
            if isinstance(v, int):
                for k in range(sz):
                    if s.off <= off + k < s.off + n:
                        cells[off + k - s.off] = (1, (v >> (8 * k)) & 255)
            elif z3.is_expr(v) and z3.is_bv(v):
                lo = max(off, s.off)
                hi = min(off + sz, s.off + n)
                cells[lo - s.off] = (hi - lo, norm(z3.Extract(8 * (hi - off) - 1, 8 * (lo - off), v)))
            else:
                raise Unsupported('memcpy of part of a value')
    ex.clear_range(o, d.off, n)
    for x in [x for x, (sz, _) in o.cells.items() if d.off <= x < d.off + n]:
        del o.cells[x]
    for off, c in cells.items():
        o.cells[d.off + off] = c
    return ret(st, d)


def _uns(m):
    raise Unsupported(m)


def byte_reader(ex, st, p, n, what):
    """(obligation) n readable bytes at p -> function index -> byte"""
    if isinstance(p.base, tuple) and p.base[0] == 'buf':
        s = buf_seq(ex, st, p, what)
        if s is None:
            return None
        if isinstance(s, Str):
            o = Lin.of(p.off).bv()
            if not ex.obl(st, z3.And(z3.ULE(o, i64(s.n) + 1), z3.ULE(i64(n), i64(s.n) + 1 - o)), 'memory', '%s outside the string' % what):
                return None
            return lambda i: val_ite(norm(i64(i) + o == i64(s.n)), 0, s.at(norm(i64(i) + o)), 8)
        if s.es != 1:
            raise Unsupported('bytes of a container')
        o = Lin.of(p.off).bv()
        if not ex.obl(st, z3.And(z3.ULE(o, i64(s.n)), z3.ULE(i64(n), i64(s.n) - o)), 'memory', '%s outside the container' % what):
            return None
        return lambda i: s.at(norm(i64(i) + o))
    if isinstance(p.base, tuple):
        raise Unsupported('bytes of a library object')
    o = ex.getobj(st, p, what)
    if o is None:
        return None
    off = Lin.of(p.off).bv()
    if o.size is not None and not (isinstance(o.size, int) and isinstance(p.off, int) and isinstance(n, int) and p.off + n <= o.size):
        if not ex.obl(st, z3.And(z3.ULE(off, i64(o.size)), z3.ULE(i64(n), i64(o.size) - off)), 'memory', '%s outside the object (%s)' % (what, o.name)):
            return None
    if o.arr is not None and o.arr.es == 1:
        arr = o.arr
        return lambda i: arr.at(norm(i64(i) + off))
    from irparse import I

    def rd(i):
        i = norm(i64(i) + off)
        if not isinstance(i, int):
            raise Unsupported('symbolic byte of a structured object')
        return ex.cell_load(st, o, i, I[8])
    return rd


def memcpy_sym(ex, st, d, s, n):
    rd = byte_reader(ex, st, s, n, 'read')
    if rd is None:
        return []
    if isinstance(d.base, tuple):
        if d.base[0] == 'buf':
            q = buf_seq(ex, st, d, 'write')
            if q is None:
                return []
            o = Lin.of(d.off).bv()
            if not ex.obl(st, z3.And(z3.ULE(o, i64(q.n)), z3.ULE(i64(n), i64(q.n) - o)), 'memory', 'write outside the container'):
                return []
            if isinstance(q, Str):
                ns = Str(q.n, lambda j, q=q: val_ite(z3.ULT(i64(j) - o, i64(n)), rd(norm(i64(j) - o)), q.at(j), 8))
            elif q.es == 1:
                ns = q.but(upd=q.upd + (('rng', norm(o), n, rd),))
            else:
                raise Unsupported('memcpy into a container')
            return ret(st, d) if ex.put_abs(st, Ptr(d.base[1], d.base[2]), ns) else []
        raise Unsupported('memcpy target')
    w = ex.wobj(st, d)
    if w is None:
        return []
    off = Lin.of(d.off).bv()
    if w.size is not None and not ex.obl(st, z3.And(z3.ULE(off, i64(w.size)), z3.ULE(i64(n), i64(w.size) - off)), 'memory', 'write outside the object (%s)' % w.name):
        return []
    if w.arr is None:
        if isinstance(n, int) and isinstance(d.off, int) and n <= 16:
            ex.clear_range(w, d.off, n)
            bs = [rd(i) for i in range(n)]
            if all(isinstance(b, int) or z3.is_expr(b) for b in bs):
                v = norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if n > 1 else bs[0]
                w.cells[d.off] = (n, v)
                return ret(st, d)
        heap_array(w, 1, 8)
    if w.arr.es != 1:
        raise Unsupported('memcpy into an array of wider elements')
    w.arr = w.arr.but(upd=w.arr.upd + (('rng', norm(off), n, rd),))
    return ret(st, d)


def heap_array(o, es, ety):
    """give a fresh allocation the shape of an array"""
    if o.cells:
        raise Unsupported('array access to a structured object')
    n = o.size
    if isinstance(n, int):
        cnt = n // es
    else:
        q = Lin.of(n).div(es)
        cnt = norm(q.bv()) if q is not None else norm(z3.UDiv(i64(n), z3.BitVecVal(es, 64)))
    o.arr = Seq(es, ety, nb=i64(cnt), bat=lambda i: UNDEF, ident=('uninit', fresh_id()))


@reg('llvm.memset.p0.i64', 'memset')
def memset(ex, st, a, D):
    p, v, n = a[0], a[1], a[2]
    if isinstance(n, LinV):
        n = norm(n.lin.bv())
    if isinstance(n, int) and n == 0:
        return ret(st, p)
    if isinstance(p.base, tuple):
        raise Unsupported('memset of a library object')
    o = ex.wobj(st, p)
    if o is None:
        return []
    if not isinstance(n, int) or not isinstance(p.off, int) or o.arr is not None:
        if isinstance(v, int):
            off = Lin.of(p.off).bv()
            if not ex.obl(st, z3.And(z3.ULE(off, i64(o.size)), z3.ULE(i64(n), i64(o.size) - off)), 'memory', 'memset outside the object'):
                return []
            if o.arr is None:
                heap_array(o, 1, 8)
            if o.arr.es == 1:
                o.arr = o.arr.but(upd=o.arr.upd + (('rng', norm(off), n, lambda i: v),))
                return ret(st, p)
        raise Unsupported('memset with a symbolic size')
    if not ex.bounds(st, p, n, o.size, 'write'):
        return []
    if not isinstance(v, int):
        raise Unsupported('memset with a symbolic value')
    ex.clear_range(o, p.off, n)
    for x in [x for x in o.cells if p.off <= x < p.off + n]:
        del o.cells[x]
    o.cells[p.off] = (n, int.from_bytes(bytes([v & 255]) * n, 'little'))
    return ret(st, p)


@reg('llvm.umul.with.overflow.i64')
def umulo(ex, st, a, D):
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        return ret(st, ((x * y) & M64, int(x * y > M64)))
    X, Y = bv(x, 64), bv(y, 64)
    if isinstance(y, int):
        ov = z3.UGT(X, z3.BitVecVal(M64 // y, 64)) if y else z3.BoolVal(False)
    elif isinstance(x, int):
        ov = z3.UGT(Y, z3.BitVecVal(M64 // x, 64)) if x else z3.BoolVal(False)
    else:
        ov = z3.Not(z3.BVMulNoOverflow(X, Y, False))
    return ret(st, (norm(X * Y), norm(ov)))


def reg_abs(n):
    def f(ex, st, a, D):
        x = a[0]
        if isinstance(x, int):
            s = sgn(x, n)
            return ret(st, abs(s) & ((1 << n) - 1))
        return ret(st, norm(z3.If(x < 0, -x, x)))
    return f


T['llvm.abs.i32'] = reg_abs(32)
T['llvm.abs.i64'] = reg_abs(64)
T['abs'] = reg_abs(32)
T['labs'] = reg_abs(64)
T['llabs'] = reg_abs(64)


@reg('llvm.fabs.f32', 'llvm.fabs.f64', 'fabs', 'fabsf')
def fabs_(ex, st, a, D):
    return ret(st, z3.simplify(z3.fpAbs(a[0])))


def reg_round(nm, mode, srt):
    def f(ex, st, a, D):
        return ret(st, z3.simplify(z3.fpRoundToIntegral(mode, a[0])))
    return f


for nm, mode in (('ceil', z3.RTP()), ('floor', z3.RTN()), ('trunc', z3.RTZ()), ('round', z3.RNA())):
    T[nm] = T['llvm.%s.f64' % nm] = reg_round(nm, mode, F64)
    T[nm + 'f'] = T['llvm.%s.f32' % nm] = reg_round(nm, mode, F32)


def reg_libm(nm):
    def f(ex, st, a, D):
        return ret(st, libm(nm, F64, F64)(a[0]))
    return f


for nm in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'exp2',
           'sqrt', 'cbrt', 'asinh', 'acosh', 'atanh'):
    T[nm] = reg_libm(nm)
    T['llvm.%s.f64' % nm] = reg_libm(nm)


@reg('lround', 'llround')
def lround_(ex, st, a, D):
    return ret(st, norm(lround(a[0])))


@reg('lroundf', 'llroundf')
def lroundf_(ex, st, a, D):
    return ret(st, norm(lround(to_f64(a[0]))))


def reg_overflow(kind, w):
    """llvm.{s,u}{add,sub,mul}.with.overflow: the wrapped result and whether it wrapped"""
    sg, op = kind[0] == 's', kind[1:]

    def f(ex, st, a, D):
        x, y = a
        if isinstance(x, int) and isinstance(y, int):
            p, q = (sgn(x, w), sgn(y, w)) if sg else (x, y)
            r = {'add': p + q, 'sub': p - q, 'mul': p * q}[op]
            t = r & ((1 << w) - 1)
            return ret(st, (t, int((sgn(t, w) if sg else t) != r)))
        X, Y = bv(x, w), bv(y, w)
        e = z3.SignExt if sg else z3.ZeroExt
        if op == 'mul':
            ok = z3.BVMulNoOverflow(X, Y, sg)
            if sg:
                ok = z3.And(ok, z3.BVMulNoUnderflow(X, Y))
            r = X * Y
        else:
            wide = e(1, X) + e(1, Y) if op == 'add' else e(1, X) - e(1, Y)
            r = X + Y if op == 'add' else X - Y
            ok = wide == e(1, r)
        return ret(st, (norm(r), norm(z3.Not(ok))))
    return f


for _w in (32, 64):
    for _k in ('sadd', 'ssub', 'smul', 'uadd', 'usub') + (('umul',) if _w == 32 else ()):
        T['llvm.%s.with.overflow.i%d' % (_k, _w)] = reg_overflow(_k, _w)


def reg_count(kind, w):
    """number of leading or trailing zero bits, number of one bits"""
    def f(ex, st, a, D):
        x = bv(a[0], w)
        if kind == 'ctpop':
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return ret(st, norm(r))
        if len(a) > 1 and a[1] == 1 and not ex.obl(st, x != 0, 'arith', 'count of zero bits of zero'):
            return []
        r = z3.BitVecVal(w, w)
        for i in (range(w) if kind == 'ctlz' else range(w - 1, -1, -1)):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if kind == 'ctlz' else i, w), r)
        return ret(st, norm(r))
    return f


for _w in (8, 16, 32, 64):
    for _k in ('ctlz', 'cttz', 'ctpop'):
        T['llvm.%s.i%d' % (_k, _w)] = reg_count(_k, _w)


def reg_mm(kind, w):
    def f(ex, st, a, D):
        x, y = bv(a[0], w), bv(a[1], w)
        c = {'smax': x >= y, 'smin': x <= y, 'umax': z3.UGE(x, y), 'umin': z3.ULE(x, y)}[kind]
        return ret(st, norm(z3.If(c, x, y)))
    return f


for _w in (8, 32, 64):
    for _k in ('smax', 'smin', 'umax', 'umin'):
        T['llvm.%s.i%d' % (_k, _w)] = reg_mm(_k, _w)


def reg_fminmax(mx):
    def f(ex, st, a, D):
        x, y = a
        lt = z3.fpLT(y, x) if not mx else z3.fpGT(y, x)
        # which of two equal operands (the zeroes) comes back is left open by the standard
        pick = z3.Function('fminmax_pick', x.sort(), y.sort(), z3.BoolSort())(x, y)
        r = z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(z3.fpEQ(x, y), z3.If(pick, x, y), z3.If(lt, y, x))))
        return ret(st, r)
    return f


for _k, _f in (('fmin', reg_fminmax(False)), ('fmax', reg_fminmax(True))):
    T[_k] = T[_k + 'f'] = _f
    for _t in ('f32', 'f64'):
        T['llvm.%snum.%s' % (_k[1:], _t)] = _f


def norm_fp(x):
    return z3.simplify(x)


@reg('copysign', 'copysignf', 'llvm.copysign.f32', 'llvm.copysign.f64')
def copysign_(ex, st, a, D):
    x, y = fbits(a[0]), fbits(a[1])
    if y is None:
        raise Unsupported('copysign with the sign of a computed real')
    if x is None:
        w = y.size()
        return ret(st, norm_fp(z3.If(z3.Extract(w - 1, w - 1, y) == 1, z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0]))))
    w = x.size()
    r = z3.Concat(z3.Extract(w - 1, w - 1, y), z3.Extract(w - 2, 0, x))
    return ret(st, z3.fpBVToFP(z3.simplify(r), a[0].sort()))


@reg('llvm.is.fpclass.f32', 'llvm.is.fpclass.f64')
def is_fpclass(ex, st, a, D):
    x, m = a
    if m & 3 in (1, 2):
        raise Unsupported('kinds of NaN')
    neg, pos = z3.fpIsNegative(x), z3.fpIsPositive(x)
    cs = [(3, z3.fpIsNaN(x))]
    for k, f, s in ((2, z3.fpIsInf, neg), (3, z3.fpIsNormal, neg), (4, z3.fpIsSubnormal, neg), (5, z3.fpIsZero, neg),
                    (6, z3.fpIsZero, pos), (7, z3.fpIsSubnormal, pos), (8, z3.fpIsNormal, pos), (9, z3.fpIsInf, pos)):
        cs.append((1 << k, z3.And(f(x), s)))
    return ret(st, norm(z3.Or([c for k, c in cs if m & k])))


# the rounding mode is never changed: to nearest, ties to even
for _k in ('nearbyint', 'rint', 'roundeven'):
    T[_k] = T['llvm.%s.f64' % _k] = reg_round(_k, z3.RNE(), F64)
    T[_k + 'f'] = T['llvm.%s.f32' % _k] = reg_round(_k, z3.RNE(), F32)


def reg_libm2(nm):
    def f(ex, st, a, D):
        return ret(st, libm(nm, F64, F64, F64)(a[0], a[1]))
    return f


for nm in ('fmod', 'pow', 'atan2', 'hypot', 'remainder'):
    T[nm] = reg_libm2(nm)
T['llvm.pow.f64'] = T['pow']


@reg('llvm.bswap.i32', '__bswap_32')
def bswap32(ex, st, a, D):
    return ret(st, bswap(a[0], 4))


@reg('llvm.bswap.i64', '__bswap_64')
def bswap64(ex, st, a, D):
    return ret(st, bswap(a[0], 8))


@reg('llvm.bswap.i16', '__bswap_16')
def bswap16(ex, st, a, D):
    return ret(st, bswap(a[0], 2))


def bswap(v, n):
    if isinstance(v, int):
        return int.from_bytes(v.to_bytes(n, 'little'), 'big')
    return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]))


def byteclass(f):
    def h(ex, st, a, D):
        x = a[0]
        return ret(st, norm(f(bv(x, 32))))
    return h


def inr(x, lo, hi):
    return z3.And(z3.UGE(x, lo), z3.ULE(x, hi))


def c_isspace(x):
    return z3.Or(inr(x, 9, 13), x == 32)


B32 = lambda v: z3.BitVecVal(v, 32)
B64 = lambda v: z3.BitVecVal(v, 64)
T['tolower'] = byteclass(lambda x: z3.If(inr(x, 65, 90), x + 32, x))
T['toupper'] = byteclass(lambda x: z3.If(inr(x, 97, 122), x - 32, x))
T['isspace'] = byteclass(lambda x: z3.If(c_isspace(x), B32(8192), B32(0)))
T['isdigit'] = byteclass(lambda x: z3.If(inr(x, 48, 57), B32(2048), B32(0)))
T['isupper'] = byteclass(lambda x: z3.If(inr(x, 65, 90), B32(256), B32(0)))
T['islower'] = byteclass(lambda x: z3.If(inr(x, 97, 122), B32(512), B32(0)))
T['isblank'] = byteclass(lambda x: z3.If(z3.Or(x == 32, x == 9), B32(1), B32(0)))


# ---------------------------------------------------------------- shared_ptr<string>
def sp_get(ex, st, p):
    v = ex.get_abs(st, p)
    if isinstance(v, str):
        return None
    if v is None or v is UNDEF:
        raise Unsupported('uninitialised shared_ptr')
    if isinstance(v, Ptr) and v.base is None:
        return SP(NULL)
    if isinstance(v, Str):
        return sp_of_str(ex, st, v)
    if not isinstance(v, SP):
        raise Unsupported('shared_ptr of %r' % type(v).__name__)
    return v


@reg('std::shared_ptr::shared_ptr', 'std::__shared_ptr::__shared_ptr')
def sp_ctor(ex, st, a, D):
    if len(a) == 1 or 'nullptr_t' in D.params[0]:
        return ret(st) if ex.put_abs(st, a[0], SP(NULL)) else []
    if len(a) == 2 and 'shared_ptr<' in D.params[0]:
        if 'std::vector' in D.params[0]:
            raise Unsupported('shared_ptr to a vector')
        v = sp_get(ex, st, a[1])
        if v is None:
            return []
        if not ex.put_abs(st, a[0], v):
            return []
        if '&&' in D.params[0]:
            if isinstance(a[1].base, int):
                ex.put_abs(st, a[1], SP(NULL))
        return ret(st)
    if len(a) == 2 and 'std::string*' in D.params[0]:
        return ret(st) if ex.put_abs(st, a[0], SP(a[1])) else []
    raise Unsupported('shared_ptr constructor ' + D.full[:100])


@reg('std::shared_ptr::operator=', 'std::__shared_ptr::operator=')
def sp_asg(ex, st, a, D):
    v = sp_get(ex, st, a[1])
    if v is None or not ex.put_abs(st, a[0], v):
        return []
    if '&&' in D.params[0] and isinstance(a[1].base, int):
        ex.put_abs(st, a[1], SP(NULL))
    return ret(st, a[0])


@reg('std::shared_ptr::~shared_ptr', 'std::__shared_ptr::~__shared_ptr')
def sp_dtor(ex, st, a, D):
    return ret(st)


@reg('std::__shared_ptr_access::operator*', 'std::__shared_ptr_access::operator->', 'std::__shared_ptr::get', 'std::__shared_ptr_access::_M_get')
def sp_deref(ex, st, a, D):
    v = sp_get(ex, st, a[0])
    if v is None:
        return []
    if D.meth in ('operator*', 'operator->') and v.p.base is None:
        ex.stats.obl += 1
        ex.fail(st, 'memory', 'dereference of a null shared_ptr')
        return []
    return ret(st, v.p)


@reg('std::__shared_ptr::operator bool')
def sp_bool(ex, st, a, D):
    v = sp_get(ex, st, a[0])
    return [] if v is None else ret(st, int(v.p.base is not None))


@reg('std::__shared_ptr::reset')
def sp_reset(ex, st, a, D):
    if len(a) == 1:
        return ret(st) if ex.put_abs(st, a[0], SP(NULL)) else []
    raise Unsupported('shared_ptr::reset')


@reg('std::make_shared')
def make_shared(ex, st, a, D):
    if not D.ftargs or D.ftargs[0] != 'std::string':
        raise Unsupported('make_shared of ' + D.full[:80])
    p = ex.new_obj(st, 'sp', 32, 'shared string')
    ps = [x for x in D.params]
    args = []
    from irparse import PTR, I
    for x, t in zip(a[1:], ps):
        args.append((x, t))
    if not args:
        s = Str.lit_(b'')
    elif len(args) == 1 and 'std::string' in args[0][1]:
        s = ex.get_abs(st, args[0][0])
        if isinstance(s, str):
            return []
    elif 'char const*' in args[0][1] or 'char*' in args[0][1]:
        r = ex.load(st, args[0][0], PTR)
        if len(r) != 1:
            return [] if not r else _uns('make_shared')
        st, q = r[0]
        if len(args) == 1:
            s = cstr(ex, st, q)
        else:
            r = ex.load(st, args[1][0], I[64])
            if len(r) != 1:
                return [] if not r else _uns('make_shared')
            st, n = r[0]
            s = bytes_str(ex, st, q, n)
        if s is None:
            return []
    elif 'char const (&)' in args[0][1] or 'char const(&)' in args[0][1]:
        s = cstr(ex, st, args[0][0])
        if s is None:
            return []
    else:
        raise Unsupported('make_shared arguments ' + D.full[:120])
    if not isinstance(s, Str):
        raise Unsupported('make_shared argument')
    st.mem[p.base].cells[0] = ('abs', s)
    return ret(st) if ex.put_abs(st, a[0], SP(p)) else []


def bytes_str(ex, st, p, n):
    """string of n bytes at p"""
    if isinstance(n, LinV):
        n = norm(n.lin.bv())
    if isinstance(n, int) and n == 0:
        return Str.lit_(b'')
    rd = byte_reader(ex, st, p, n, 'read')
    if rd is None:
        return None
    if isinstance(p.base, tuple) and p.base[0] == 'buf':
        s = buf_seq(ex, st, p, 'read')
        if isinstance(s, Str):
            return part(ex, st, s, norm(Lin.of(p.off).bv()), n)
    if isinstance(n, int) and n <= 64:
        bs = [rd(i) for i in range(n)]
        if all(isinstance(b, int) for b in bs):
            return Str.lit_(bytes(bs))
    b = p.base
    o = st.mem.get(b)
    key = None
    if o is not None and o.arr is not None and not o.arr.upd and o.arr.ident is not None:
        key = ('bytes', o.arr.ident, norm_key(Lin.of(p.off).bv()), norm_key(n))
    return Str(n, rd, key=key)


def cstr(ex, st, p):
    """NUL terminated string at p"""
    if p is UNDEF:
        ex.fail(st, 'memory', 'read through an uninitialised pointer')
        return None
    if isinstance(p.base, tuple) and p.base[0] == 'buf':
        s = buf_seq(ex, st, p, 'read')
        if s is None:
            return None
        if isinstance(s, Str):
            # only exact when there is no NUL inside
            j = fresh_bv('nul', 64)
            o = Lin.of(p.off).bv()
            c = z3.Implies(z3.And(z3.UGE(j, o), z3.ULT(j, i64(s.n))), bv(s.at(j), 8) != 0)
            if ex.valid(st, c):
                return s.substr(norm(o), norm(i64(s.n) - o))
            raise Unsupported('C string inside a std::string')
    o = ex.getobj(st, p, 'read') if not isinstance(p.base, tuple) else None
    if o is None:
        if isinstance(p.base, tuple):
            raise Unsupported('C string in a container')
        return None
    if isinstance(p.off, int) and o.arr is not None and isinstance(o.arr.n, int):
        bs = []
        for i in range(p.off, min(o.arr.n, p.off + 4096)):
            b = o.arr.at(i)
            if not isinstance(b, int):
                break
            if b == 0:
                return Str.lit_(bytes(bs))
            bs.append(b)
    # prove that the last byte of the object is the first NUL
    rd = byte_reader(ex, st, p, 0, 'read')
    n = o.size
    off = Lin.of(p.off)
    last = Lin.of(n if not z3.is_expr(n) else n).sub(off).add(-1)
    lb = norm(last.bv())
    if not ex.obl(st, z3.And(z3.UGT(i64(n), off.bv()), bv(rd(lb), 8) == 0), 'memory', 'C string without a terminating NUL'):
        return None
    j = fresh_bv('nul', 64)
    if ex.valid(st, z3.Implies(z3.ULT(j, i64(lb)), bv(rd(j), 8) != 0)):
        return Str(lb, rd)
    raise Unsupported('C string with an inner NUL')


# ---------------------------------------------------------------- std::string
def sget(ex, st, p, what='read'):
    v = ex.get_abs(st, p, what)
    if isinstance(v, str):
        return None
    if not isinstance(v, Str):
        if v is None:
            ex.stats.obl += 1
            ex.fail(st, 'memory', 'use of a string that does not exist')
            return None
        raise Unsupported('string expected, found ' + type(v).__name__)
    return v


def sput(ex, st, p, s, r=None):
    return ret(st, r) if ex.put_abs(st, p, s) else []


def chr_(v):
    if isinstance(v, int):
        return Str.lit_(bytes([v & 255]))
    return Str(1, lambda i: v, key=('chr', v.get_id(), _keep(v)))


_keep = _v._keep


def rep(n, c):
    if isinstance(n, LinV):
        n = norm(n.lin.bv())
    if isinstance(n, int) and n < 64 and isinstance(c, int):
        return Str.lit_(bytes([c]) * n)
    return Str(n, lambda i: c)


@reg('std::string::basic_string', 'std::string::string')
def s_ctor(ex, st, a, D):
    ps = D.params
    if len(a) == 1 or 'allocator' in ps[0]:
        return sput(ex, st, a[0], Str.lit_(b''))
    if ps[0].startswith('std::string') or 'basic_string' in ps[0]:
        s = sget(ex, st, a[1])
        if s is None:
            return []
        if len(ps) >= 2 and ps[1] == 'unsigned long':
            n = a[3] if len(ps) > 2 and ps[2] == 'unsigned long' else M64
            return substr_to(ex, st, a[0], s, a[2], n)
        if '&&' in ps[0] and isinstance(a[1].base, int) and not st.mem[a[1].base].ro:
            ex.put_abs(st, a[1], Str.lit_(b''))
        return sput(ex, st, a[0], s)
    if ps[0] == 'char const*':
        if len(ps) >= 2 and ps[1] == 'unsigned long':
            s = bytes_str(ex, st, a[1], a[2])
        elif len(ps) >= 2 and ps[1] == 'char const*':
            n = ex.arith(st, 'sub', PInt(a[2]), PInt(a[1]), 64)
            s = bytes_str(ex, st, a[1], n)
        else:
            s = cstr(ex, st, a[1])
        return [] if s is None else sput(ex, st, a[0], s)
    if ps[0] == 'unsigned long':
        return sput(ex, st, a[0], rep(a[1], a[2]))
    if (ps[0].startswith('__gnu_cxx::__normal_iterator<char') or ps[0] in ('unsigned char const*', 'unsigned char*', 'char*')) and len(ps) > 1 and ps[1] == ps[0]:
        n = ex.arith(st, 'sub', PInt(a[2]), PInt(a[1]), 64)
        s = bytes_str(ex, st, a[1], n)
        return [] if s is None else sput(ex, st, a[0], s)
    raise Unsupported('string constructor ' + D.full[:100])


@reg('std::string::~basic_string', 'std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::~__new_allocator',
     'std::__new_allocator::__new_allocator', 'std::_Deque_iterator::~_Deque_iterator', 'std::ios_base::Init::Init', 'std::ios_base::Init::~Init')
def s_dtor(ex, st, a, D):
    return ret(st)


@reg('std::string::operator=', 'std::string::assign')
def s_asg(ex, st, a, D):
    ps = D.params
    if ps[0].startswith('std::string'):
        s = sget(ex, st, a[1])
        if s is not None and len(ps) > 1:
            raise Unsupported('string::assign')
        if s is not None and '&&' in ps[0] and isinstance(a[1].base, int) and a[1].base != a[0].base and not st.mem[a[1].base].ro:
            ex.put_abs(st, a[1], Str.lit_(b''))
    elif ps[0] == 'char const*':
        s = cstr(ex, st, a[1]) if len(ps) == 1 else bytes_str(ex, st, a[1], a[2])
    elif ps[0] == 'char':
        s = chr_(a[1])
    elif ps[0] == 'unsigned long' and len(ps) == 2:
        s = rep(a[1], a[2])
    else:
        raise Unsupported('string assignment')
    return [] if s is None else sput(ex, st, a[0], s, a[0])


@reg('std::string::length', 'std::string::size')
def s_len(ex, st, a, D):
    s = sget(ex, st, a[0])
    if s is None:
        return []
    if z3.is_expr(s.n):
        c = z3.ULT(s.n, z3.BitVecVal(1 << 62, 64))
        if not any(c.eq(x) for x in st.pc):
            st.pc.append(c)
    return ret(st, s.n)


@reg('std::string::empty')
def s_empty(ex, st, a, D):
    s = sget(ex, st, a[0])
    return [] if s is None else ret(st, norm(i64(s.n) == 0))


def s_ptr(p, off):
    return Ptr(Buf(p.base, p.off if isinstance(p.off, int) else _uns('string at symbolic offset'), 0), off)


@reg('std::string::begin', 'std::string::cbegin', 'std::string::data', 'std::string::c_str')
def s_begin(ex, st, a, D):
    s = sget(ex, st, a[0])
    return [] if s is None else ret(st, s_ptr(a[0], 0))


@reg('std::string::end', 'std::string::cend')
def s_end(ex, st, a, D):
    s = sget(ex, st, a[0])
    return [] if s is None else ret(st, s_ptr(a[0], Lin.of(s.n)))


@reg('std::string::rbegin', 'std::string::crbegin', 'std::string::rend', 'std::string::crend')
def s_rbegin(ex, st, a, D):
    s = sget(ex, st, a[1])
    if s is None:
        return []
    from irparse import PTR
    p = s_ptr(a[1], Lin.of(s.n) if 'begin' in D.meth else 0)
    return [(x, 'ret', None) for x in ex.store(st, a[0], p, PTR)]


@reg('std::string::operator[]', 'std::string::at', 'std::string::front', 'std::string::back')
def s_idx(ex, st, a, D):
    s = sget(ex, st, a[0])
    if s is None:
        return []
    if D.meth == 'front':
        i = 0
    elif D.meth == 'back':
        i = norm(i64(s.n) - 1)
    else:
        i = a[1] if not isinstance(a[1], LinV) else norm(a[1].lin.bv())
    if D.meth == 'at':
        out = []
        c = norm(z3.ULT(i64(i), i64(s.n)))
        for cc, ok in ((c, True), (norm(z3.Not(boolt(c))), False)):
            if ex.feasible(st, boolt(cc)):
                s2 = st.fork()
                if not isinstance(cc, int):
                    s2.pc.append(cc)
                out.append((s2, 'ret', s_ptr(a[0], Lin.of(i))) if ok else ex.throw(s2, '_ZTISt12out_of_range'))
        return out
    lim = i64(s.n) if D.meth != 'operator[]' else i64(s.n) + 1
    if not ex.obl(st, z3.ULT(i64(i), lim), 'memory', 'string index out of range (%s)' % D.meth):
        return []
    return ret(st, s_ptr(a[0], Lin.of(i)))


def substr_to(ex, st, dst, s, pos, n):
    """substring [pos, pos+min(n, len-pos)) or out_of_range"""
    if isinstance(pos, LinV):
        pos = norm(pos.lin.bv())
    if isinstance(n, LinV):
        n = norm(n.lin.bv())
    out = []
    P, N, L = i64(pos), i64(n), i64(s.n)
    oor = norm(z3.UGT(P, L))
    if not (isinstance(oor, int) and not oor):
        if ex.feasible(st, boolt(oor)):
            s2 = st.fork()
            if not isinstance(oor, int):
                s2.pc.append(oor)
            out.append(ex.throw(s2, '_ZTISt12out_of_range'))
        if isinstance(oor, int):
            return out
        c = norm(z3.Not(oor))
        if not ex.feasible(st, c):
            return out
        st = st.fork()
        st.pc.append(c)
    rest = norm(L - P)
    big = norm(z3.UGE(N, i64(rest)))
    if isinstance(big, int):
        cnt = rest if big else n
    else:
        v = ex.valid(st, big)
        if v:
            cnt = rest
        elif ex.valid(st, z3.Not(big)):
            cnt = n
        else:
            cnt = norm(z3.If(big, i64(rest), N))
    r = s.substr(pos, cnt)
    return out + sput(ex, st, dst, r)


@reg('std::string::substr')
def s_substr(ex, st, a, D):
    s = sget(ex, st, a[1])
    if s is None:
        return []
    return substr_to(ex, st, a[0], s, a[2] if len(a) > 2 else 0, a[3] if len(a) > 3 else M64)


@reg('std::string::erase')
def s_erase(ex, st, a, D):
    s = sget(ex, st, a[0])
    if s is None:
        return []
    if not D.params or D.params[0] != 'unsigned long':
        raise Unsupported('string::erase(iterator)')
    pos = a[1] if not isinstance(a[1], LinV) else norm(a[1].lin.bv())
    n = a[2]
    if n != M64:
        if not ex.valid(st, z3.UGE(i64(n), i64(s.n) - i64(pos))):
            raise Unsupported('string::erase in the middle')
    out = []
    P, L = i64(pos), i64(s.n)
    oor = z3.UGT(P, L)
    if ex.feasible(st, oor):
        s2 = st.fork()
        s2.pc.append(z3.simplify(oor))
        out.append(ex.throw(s2, '_ZTISt12out_of_range'))
        if not ex.feasible(st, z3.Not(oor)):
            return out
        st = st.fork()
        st.pc.append(z3.simplify(z3.Not(oor)))
    return out + sput(ex, st, a[0], s.substr(0, pos), a[0])


@reg('std::string::push_back')
def s_push(ex, st, a, D):
    s = sget(ex, st, a[0])
    return [] if s is None else sput(ex, st, a[0], s.concat(chr_(a[1])))


@reg('std::string::pop_back')
def s_pop(ex, st, a, D):
    s = sget(ex, st, a[0])
    if s is None:
        return []
    if not ex.obl(st, i64(s.n) != 0, 'memory', 'pop_back of an empty string'):
        return []
    return sput(ex, st, a[0], s.substr(0, norm(i64(s.n) - 1)))


@reg('std::string::clear')
def s_clear(ex, st, a, D):
    return sput(ex, st, a[0], Str.lit_(b''))


@reg('std::string::resize')
def s_resize(ex, st, a, D):
    s = sget(ex, st, a[0])
    if s is None:
        return []
    n, c = a[1], (a[2] if len(a) > 2 else 0)
    if isinstance(n, LinV):
        n = norm(n.lin.bv())
    r = Str(n, lambda i: val_ite(z3.ULT(i64(i), i64(s.n)), s.at(i), c, 8))
    return sput(ex, st, a[0], r)


@reg('std::string::reserve', 'std::string::shrink_to_fit')
def s_reserve(ex, st, a, D):
    return ret(st)


def str_arg(ex, st, v, t):
    t = t.replace('const&', 'const &')
    if 'std::string' in t:
        return sget(ex, st, v)
    if t == 'char const*':
        return cstr(ex, st, v)
    if t == 'char':
        return chr_(v)
    raise Unsupported('string operand ' + t)


@reg('std::string::operator+=', 'std::string::append')
def s_app(ex, st, a, D):
    s = sget(ex, st, a[0])
    if s is None:
        return []
    ps = D.params
    if len(ps) == 2 and ps[0] == 'char const*':
        o = bytes_str(ex, st, a[1], a[2])
    elif len(ps) == 2 and ps[0] == 'unsigned long':
        o = rep(a[1], a[2])
    elif len(ps) == 1:
        o = str_arg(ex, st, a[1], ps[0])
    else:
        raise Unsupported('string::append')
    return [] if o is None else sput(ex, st, a[0], s.concat(o), a[0])


def part(ex, st, s, pos, n):
    """the part of s from pos on with n bytes; the string itself when that is all of it"""
    if isinstance(pos, int) and pos == 0 and norm_key(n) != norm_key(s.n) and ex.valid(st, i64(n) == i64(s.n)):
        return s
    return s.substr(pos, n)


def lex_facts(ex, st, x, y):
    """the exact meaning of the comparison of x and y when one of them is a part of another string: the first difference
    lexdiff(x, y), related with the first differences of the other pairs compared"""
    if x is y or x.lit is not None and y.lit is not None:
        return
    st.pc.append(z3.Implies(lexcmp(x, y) == 0, i64(x.n) == i64(y.n)))
    (rx, ox), (ry, oy) = x.root(), y.root()
    pairs = st.ghost.get('lexpairs', ())
    new = []
    for (p, q) in ((rx, ry), (x, y)):
        a, b = p.name(), q.name()
        if a.eq(b) or any(c.eq(a) and d.eq(b) or c.eq(b) and d.eq(a) for (c, d), *_ in pairs + tuple(new)):
            continue
        (_, op), (_, oq) = p.root(), q.root()
        d = z3.Function('lexdiff', StrSort, StrSort, z3.BitVecSort(64))(a, b)
        n, m = i64(p.n), i64(q.n)
        st.pc += [z3.ULE(d, n), z3.ULE(d, m), z3.ULT(n, B64(1 << 62)), z3.ULT(m, B64(1 << 62))]
        pd, qd = bv(p.at(d), 8), bv(q.at(d), 8)
        st.pc.append(z3.Implies(z3.And(d != n, d != m), pd != qd))
        st.pc.append(lexf(a, b) == z3.And(d != m, z3.Or(d == n, z3.ULT(pd, qd))))
        st.pc.append(lexf(b, a) == z3.And(d != n, z3.Or(d == m, z3.ULT(qd, pd))))
        new.append(((a, b), p, q, d, op, oq))
    allp = pairs + tuple(new)
    for P in allp:
        for Q in allp:
            if P is Q or (P in pairs and Q in pairs):
                continue
            i = norm(Q[3] + i64(Q[4]) - i64(P[4]))
            st.pc.append(z3.simplify(z3.Implies(z3.ULT(i64(i), P[3]), bv(P[1].at(i), 8) == bv(P[2].at(i), 8))))
    st.ghost['lexpairs'] = allp


def compare_result(ex, st, x, y):
    lex_facts(ex, st, x, y)
    l = lexcmp(x, y)
    f = z3.Function('compare_magnitude', StrSort, StrSort, z3.BitVecSort(31))(x.name(), y.name())
    m = z3.ZeroExt(1, f) | 1
    m = z3.If(m == 0, B32(1), m)
    return norm(z3.If(l == 0, B32(0), z3.If(l == 3, -m, m)))


def str_window(ex, st, s, pos, n, out):
    """s.substr(pos, n), the exception of a position behind the end is added to out; None when that always happens"""
    oor = z3.simplify(z3.UGT(i64(pos), i64(s.n)))
    if not z3.is_false(oor) and ex.feasible(st, oor):
        s2 = st.fork()
        s2.pc.append(oor)
        out.append(ex.throw(s2, '_ZTISt12out_of_range'))
        if not ex.feasible(st, z3.Not(oor)):
            return None
        st.pc.append(z3.simplify(z3.Not(oor)))
    rest = norm(i64(s.n) - i64(pos))
    if isinstance(n, int) and isinstance(rest, int):
        n = min(n, rest)
    elif isinstance(n, int) and n == M64:
        n = rest
    else:
        n = norm(z3.If(z3.ULT(i64(n), i64(rest)), i64(n), i64(rest)))
    return part(ex, st, s, pos, n)


@reg('std::string::compare')
def s_compare(ex, st, a, D):
    x = sget(ex, st, a[0])
    if x is None:
        return []
    ps = D.params
    a = [norm(v.lin.bv()) if isinstance(v, LinV) else v for v in a]
    out = []
    st = st.fork()
    if len(ps) == 1:
        y = str_arg(ex, st, a[1], ps[0])
    else:
        x = str_window(ex, st, x, a[1], a[2], out)
        if x is None:
            return out
        if len(ps) == 4 and ps[2] == 'char const*':
            y = bytes_str(ex, st, a[3], a[4])
        else:
            y = str_arg(ex, st, a[3], ps[2])
            if len(ps) >= 5 and y is not None:
                y = str_window(ex, st, y, a[4], a[5], out)
                if y is None:
                    return out
    if y is None:
        return out
    return out + ret(st, compare_result(ex, st, x, y))


@reg('memcmp', 'bcmp', '__builtin_memcmp')
def memcmp_(ex, st, a, D):
    n = a[2]
    x = bytes_str(ex, st, a[0], n)
    if x is None:
        return []
    y = bytes_str(ex, st, a[1], n)
    if y is None:
        return []
    return ret(st, compare_result(ex, st, x, y))


def find_facts(ex, st, s, f, fact):
    """register a universally quantified fact about s and instantiate it at the known interesting indices"""
    k = ('sx', s.name().get_id())
    idx, fs = st.ghost.get(k, ((), ()))
    for i in idx:
        st.pc.append(z3.simplify(fact(i)))
    if f is not None:
        for g in fs:
            st.pc.append(z3.simplify(g(f)))
    st.ghost[k] = (idx + ((f,) if f is not None else ()), fs + (fact,))
    st.facts.append((s.name(), fact))


_search = {}


def search(ex, st, s, pred, pkey, back):
    """first index (or one past the last index when back) whose byte does not satisfy pred; len (0) when none"""
    k = ('search', pkey, back)
    f = _search.get(k)
    if f is None:
        f = _search[k] = z3.Function('%s_not#%d' % ('last' if back else 'first', len(_search)), StrSort, z3.BitVecSort(64))
    j = f(s.name())
    n = i64(s.n)
    g = ('searched', f.name(), s.name().get_id())
    if g not in st.ghost:
        st.ghost[g] = True
        st.pc.append(z3.ULE(j, n))
        if not back:
            st.pc.append(z3.simplify(z3.Implies(z3.ULT(j, n), z3.Not(pred(s.at(j))))))
            find_facts(ex, st, s, j, lambda i: z3.Implies(z3.ULT(i64(i), j), pred(s.at(i))))
        else:
            st.pc.append(z3.simplify(z3.Implies(j != 0, z3.Not(pred(s.at(norm(j - 1)))))))
            find_facts(ex, st, s, norm(j - 1), lambda i: z3.Implies(z3.And(z3.UGE(i64(i), j), z3.ULT(i64(i), n)), pred(s.at(i))))
    return j


@reg('std::string::find', 'std::string::find_first_of', 'std::string::rfind', 'std::string::find_last_of')
def s_find(ex, st, a, D):
    """the position of a character of a constant set"""
    s = sget(ex, st, a[0])
    if s is None:
        return []
    back = D.meth in ('rfind', 'find_last_of')
    if D.params[0] == 'char' and isinstance(a[1], int):
        cs = (a[1] & 255,)
    elif D.params[0] == 'char const*' and len(D.params) == 2:
        l = cstr(ex, st, a[1])
        if l is None:
            return []
        if l.lit is None or (len(l.lit) != 1 and '_of' not in D.meth):
            raise Unsupported('search for a text')
        cs = tuple(sorted(set(l.lit)))
    else:
        raise Unsupported(D.full[:80])
    if a[2] != (M64 if back else 0):
        raise Unsupported('%s with a position' % D.meth)
    j = search(ex, st, s, lambda b: z3.And([bv(b, 8) != c for c in cs]), ('nec', cs), back)
    if back:
        return ret(st, norm(j - 1))
    return ret(st, norm(z3.If(j == i64(s.n), z3.BitVecVal(M64, 64), j)))


@reg('strlen')
def strlen_(ex, st, a, D):
    s = cstr(ex, st, a[0])
    return [] if s is None else ret(st, s.n)


@reg('strcmp')
def strcmp_(ex, st, a, D):
    x = cstr(ex, st, a[0])
    if x is None:
        return []
    y = cstr(ex, st, a[1])
    if y is None:
        return []
    return ret(st, compare_result(ex, st, x, y))


@reg('std::string::find_last_not_of', 'std::string::find_first_not_of')
def s_flno(ex, st, a, D):
    s = sget(ex, st, a[0])
    if s is None:
        return []
    if D.params[0] == 'char' and isinstance(a[1], int):
        c = a[1] & 255
        pred = lambda b: bv(b, 8) == c
        pk = ('eqc', (c,))
    elif D.params[0] == 'char const*' and len(D.params) == 2:
        l = cstr(ex, st, a[1])
        if l is None:
            return []
        if l.lit is None:
            raise Unsupported('find_*_not_of with a symbolic set')
        cs = tuple(sorted(set(l.lit)))
        pred = lambda b: z3.Or([bv(b, 8) == c for c in cs])
        pk = ('eqc', cs)
    else:
        raise Unsupported('find_*_not_of')
    if 'last' in D.meth:
        if a[2] != M64:
            raise Unsupported('find_last_not_of with a position')
        j = search(ex, st, s, pred, pk, True)
        return ret(st, norm(j - 1))      # 0 - 1 is npos
    if a[2] != 0:
        raise Unsupported('find_first_not_of with a position')
    j = search(ex, st, s, pred, pk, False)
    return ret(st, norm(z3.If(j == i64(s.n), z3.BitVecVal(M64, 64), j)))


@reg('std::operator+')
def op_plus(ex, st, a, D):
    if len(D.params) != 2 or 'std::string' not in D.params[0] + D.params[1]:
        raise Unsupported(D.full[:80])
    x = str_arg(ex, st, a[1], D.params[0])
    if x is None:
        return []
    y = str_arg(ex, st, a[2], D.params[1])
    if y is None:
        return []
    return sput(ex, st, a[0], x.concat(y))


def rel_op(op, x, y):
    l = None
    if op in ('==', '!='):
        e = str_eq(x, y)
        return e if op == '==' else z3.Not(e)
    l = lexcmp(x, y)
    return {'<': l == 3, '<=': l != 1, '>': l == 1, '>=': l != 3}[op]


@reg('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator<=', 'std::operator>', 'std::operator>=')
def op_rel(ex, st, a, D):
    op = D.meth[8:]
    ps = D.params
    if 'shared_ptr<' in ps[0] and op in ('==', '!=') and 'std::vector' not in ps[0]:
        v = sp_get(ex, st, a[0])
        if v is None:
            return []
        if 'nullptr_t' in ps[1]:
            return ret(st, int((v.p.base is None) == (op == '==')))
        w = sp_get(ex, st, a[1])
        if w is None:
            return []
        return ret(st, ex.pcmp(st, 'eq' if op == '==' else 'ne', v.p, w.p))
    if any('std::string' in p and 'std::variant' not in p and 'vector' not in p for p in ps):
        x = str_arg(ex, st, a[0], ps[0])
        if x is None:
            return []
        y = str_arg(ex, st, a[1], ps[1])
        if y is None:
            return []
        lex_facts(ex, st, x, y)
        return ret(st, norm(rel_op(op, x, y)))
    if ps[0].startswith('std::variant<') and op in ('==', '!='):
        x, y = oget(ex, st, a[0]), oget(ex, st, a[1])
        if x is None or y is None:
            return []
        e = ov_eq(x, y)
        return ret(st, norm(e if op == '==' else z3.Not(e)))
    if ps[0].startswith('std::_Deque_iterator'):
        x, y = itget(ex, st, a[0]), itget(ex, st, a[1])
        if x is None or y is None:
            return []
        r = ex.pcmp(st, {'==': 'eq', '!=': 'ne', '<': 'ult', '<=': 'ule', '>': 'ugt', '>=': 'uge'}[op], x.p, y.p)
        return ret(st, r)
    if ps[0].startswith('std::vector<') and op in ('==', '!='):
        raise Unsupported('comparison of vectors')
    return NotImplemented


# numeric text
@reg('std::to_string')
def to_string(ex, st, a, D):
    t = D.params[0]
    k = {'int': ('i32', 32), 'long': ('i64', 64), 'long long': ('i64', 64), 'unsigned int': ('u32', 32), 'unsigned long': ('u64', 64),
         'unsigned long long': ('u64', 64)}.get(t)
    if k:
        return sput(ex, st, a[0], tostr(k[0], bv(a[1], k[1])))
    if t in ('float', 'double'):
        return sput(ex, st, a[0], tostr('f64.fixed6', to_f64(a[1]) if t == 'float' else a[1]))
    raise Unsupported('to_string(%s)' % t)


@reg('std::stoi', 'std::stol', 'std::stoll', 'std::stof', 'std::stod')
def stox(ex, st, a, D):
    s = sget(ex, st, a[0])
    if s is None:
        return []
    if not (isinstance(a[1], Ptr) and a[1].base is None):
        raise Unsupported('%s with a position result' % D.meth)
    if len(a) > 2 and a[2] != 10:
        raise Unsupported('%s with base %s' % (D.meth, a[2]))
    k, v = sto(D.meth, s)
    out = []
    for code, ti in ((0, None), (1, '_ZTISt16invalid_argument'), (2, '_ZTISt12out_of_range')):
        c = z3.simplify(k == code)
        if not z3.is_false(c) and ex.feasible(st, c):
            s2 = st.fork()
            s2.pc.append(c)
            out.append((s2, 'ret', v) if ti is None else ex.throw(s2, ti))
    st.pc.append(z3.ULE(k, 2))
    return out


# streams
@reg('std::stringstream::basic_stringstream', 'std::ostringstream::basic_ostringstream', 'std::stringstream::stringstream')
def ss_ctor(ex, st, a, D):
    return ret(st) if ex.put_abs(st, a[0], SS((), Str.lit_(b''))) else []


@reg('std::stringstream::~basic_stringstream', 'std::ostringstream::~basic_ostringstream')
def ss_dtor(ex, st, a, D):
    return ret(st)


@reg('std::stringstream::str', 'std::ostringstream::str')
def ss_str(ex, st, a, D):
    if len(a) != 2 or D.params:
        raise Unsupported('stringstream::str(string)')
    v = ssget(ex, st, a[1])
    return [] if v is None else sput(ex, st, a[0], v.text)


def ssloc(p):
    """the ostream part of a stringstream lives at offset 16"""
    if isinstance(p.off, int) and p.off == 16:
        return Ptr(p.base, 0)
    return p


def ssget(ex, st, p):
    p = ssloc(p)
    v = ex.get_abs(st, p)
    if isinstance(v, str):
        return None
    if not isinstance(v, SS):
        raise Unsupported('stream expected')
    return v


@reg('std::setprecision')
def setprec(ex, st, a, D):
    return ret(st, a[0])


@reg('std::ostream::operator<<', 'std::operator<<')
def ss_put(ex, st, a, D):
    free = D.cls == 'std' or len(D.params) == 2
    if free and 'ostream' not in D.params[0]:
        return NotImplemented
    t = D.params[-1]
    p = a[0]
    v = ssget(ex, st, p)
    if v is None:
        return []
    x = a[1]
    add = None
    fl = v.flags
    if t.startswith('std::_Setprecision'):
        if isinstance(x, tuple):
            x = x[0]
        fl = tuple(f for f in fl if f[0] != 'prec') + (('prec', x if isinstance(x, int) else _uns('symbolic precision')),)
    elif '(*)(' in t:
        if not isinstance(x, FnP):
            raise Unsupported('stream manipulator')
        m = parse_dem(ex.prog.dem.get(x.name, x.name)).meth
        if m in ('fixed', 'scientific', 'boolalpha', 'noboolalpha', 'defaultfloat', 'hex', 'dec', 'showpoint'):
            g = {'fixed': 'float', 'scientific': 'float', 'defaultfloat': 'float', 'boolalpha': 'bool', 'noboolalpha': 'bool',
                 'hex': 'base', 'dec': 'base'}.get(m, m)
            fl = tuple(f for f in fl if f[0] != g) + ((g, m),)
            fl = tuple(f for f in fl if f[1] not in ('defaultfloat', 'noboolalpha', 'dec'))
        else:
            raise Unsupported('stream manipulator ' + m)
    elif t in ('int', 'long', 'long long', 'unsigned int', 'unsigned long', 'bool', 'float', 'double', 'short'):
        fk = '' if not fl else '.' + '_'.join('%s%s' % f for f in sorted(fl))
        if t == 'bool':
            k, y = 'bool', boolt(x)
        elif t in ('float', 'double'):
            k, y = 'f64', to_f64(x) if t == 'float' else x      # num_put formats float as double
            k = 'f64'
        else:
            n = 32 if t in ('int', 'unsigned int') else 64
            k, y = ('u%d' if 'unsigned' in t else 'i%d') % n, bv(x, n)
        add = tostr(k + fk, y)
        n = i64(add.n)
        st.pc.append(z3.And(z3.UGE(n, 1), z3.ULE(n, 1 << 16)))
        fd = dict(fl)
        if k == 'f64' and fd.get('float') == 'fixed' and fd.get('prec', 6) > 0:
            # ISO C fixed notation: digits '.' prec digits, or nan / inf
            pr = fd.get('prec', 6)
            fin = z3.Not(z3.Or(z3.fpIsNaN(y), z3.fpIsInf(y)))
            st.pc.append(z3.If(fin, z3.And(z3.UGE(n, pr + 2), bv(add.at(norm(n - (pr + 1))), 8) == ord('.')),
                               z3.And(z3.UGE(n, 3), z3.Or(*[bv(add.at(norm(n - 1)), 8) == ord(c) for c in 'nf)']))))
            find_facts(ex, st, add, norm(n - (pr + 1)), lambda i: z3.BoolVal(True))
            find_facts(ex, st, add, norm(n - 1), lambda i: z3.BoolVal(True))
    elif t == 'char const*':
        add = cstr(ex, st, x)
        if add is None:
            return []
    elif 'std::string' in t:
        add = sget(ex, st, x)
        if add is None:
            return []
    elif t in ('char',):
        add = chr_(x)
    else:
        return NotImplemented
    return ret(st, p) if ex.put_abs(st, ssloc(p), SS(fl, v.text.concat(add) if add is not None else v.text)) else []


# ---------------------------------------------------------------- std::variant (Operand)
def oget(ex, st, p):
    v = ex.get_abs(st, p)
    if isinstance(v, str):
        return None
    if isinstance(v, OV):
        return v
    if v is None or v is UNDEF:
        ex.stats.obl += 1
        ex.fail(st, 'memory', 'use of a value that was never constructed')
        return None
    raise Unsupported('operand expected, found ' + type(v).__name__)


def string_content(ex, st, p):
    """content of the String object at p, whose shared string becomes unmodifiable"""
    v = sp_get(ex, st, p)
    if v is None:
        return None
    if v.p.base is None:
        raise Unsupported('null string in an operand')
    s = sget(ex, st, v.p)
    if s is None:
        return None
    o = st.mem.get(v.p.base)
    if o is not None and not o.ro:
        o = o.copy()
        o.ro = True
        st.mem[v.p.base] = o
    st.ghost[('spobj', id(s))] = (v.p, s)
    return s


def conv_operand(ex, st, p, t):
    """OV built from the object of C++ type t at p"""
    k = alt_index(t)
    u = False
    if k is None:
        b = re.sub(r'\s*(const)?\s*&{0,2}$', '', t).strip()
        if b not in ('long long', 'unsigned int'):      # the only alternative without narrowing is long
            raise Unsupported('operand from ' + t[:60])
        k, u = 2, b[0] == 'u'
    if k == 0:
        return OV.null()
    if k == T_STR:
        s = string_content(ex, st, p)
        return None if s is None else OV.of(T_STR, s)
    from irparse import I, FLOAT, DOUBLE
    if k > 6:
        raise Unsupported('array operand')
    ty = {1: I[32], 2: I[64], 3: I[8], 4: FLOAT, 5: DOUBLE}[k] if not u else I[32]
    r = ex.load(st, p, ty)
    if len(r) != 1:
        if not r:
            return None
        raise Unsupported('operand from several values')
    v = r[0][1]
    if v is UNDEF:
        raise Unsupported('operand from an uninitialised value')
    if k == 3:
        v = boolt(norm(z3.Extract(0, 0, bv(v, 8)) == 1)) if not isinstance(v, int) else z3.BoolVal(v & 1 == 1)
    elif u:
        v = z3.ZeroExt(32, bv(v, 32))
    elif k in (1, 2):
        v = bv(v, 32 if k == 1 else 64)
    return OV.of(k, v)


def raw_type(t):
    t = re.sub(r'&+$', '', t).strip()
    t = re.sub(r'\bconst$', '', t).strip()
    return t


@reg('std::variant::variant')
def v_ctor(ex, st, a, D):
    if len(a) == 1:
        return ret(st) if ex.put_abs(st, a[0], OV.null()) else []
    t = raw_type(D.params[0])
    if t.startswith('std::variant<'):
        v = oget(ex, st, a[1])
        if v is None:
            return []
    else:
        if 'in_place' in t:
            raise Unsupported('in-place variant construction')
        v = conv_operand(ex, st, a[1], t)
        if v is None:
            return []
    return ret(st) if ex.put_abs(st, a[0], v) else []


@reg('std::variant::operator=')
def v_asg(ex, st, a, D):
    t = raw_type(D.params[0])
    v = oget(ex, st, a[1]) if t.startswith('std::variant<') else conv_operand(ex, st, a[1], t)
    if v is None:
        return []
    return ret(st, a[0]) if ex.put_abs(st, a[0], v) else []


@reg('std::variant::~variant')
def v_dtor(ex, st, a, D):
    return ret(st)


@reg('std::variant::index')
def v_index(ex, st, a, D):
    v = oget(ex, st, a[0])
    if v is None:
        return []
    return ret(st, v.tag if isinstance(v.tag, int) else norm(z3.ZeroExt(56, v.tag)))


@reg('std::holds_alternative')
def v_holds(ex, st, a, D):
    v = oget(ex, st, a[0])
    if v is None:
        return []
    k = alt_index(D.ftargs[0])
    if k is None:
        raise Unsupported('holds_alternative ' + D.full[:80])
    return ret(st, norm(v.is_(k)))


def alt_ptr(p, k):
    return Ptr(Alt(p.base, p.off, k), 0)


@reg('std::get')
def v_get(ex, st, a, D):
    if not D.params or 'std::variant<' not in D.params[0]:
        return NotImplemented
    t = D.ftargs[0]
    m = re.match(r'(\d+)u?l?$', t)
    k = int(m.group(1)) if m else alt_index(t)
    if k is None:
        raise Unsupported('get ' + D.full[:80])
    v = oget(ex, st, a[0])
    if v is None:
        return []
    c = norm(v.is_(k))
    out = []
    if isinstance(c, int):
        return ret(st, alt_ptr(a[0], k)) if c else [ex.throw(st, '_ZTISt18bad_variant_access')]
    if ex.feasible(st, c):
        s2 = st.fork()
        s2.pc.append(c)
        out.append((s2, 'ret', alt_ptr(a[0], k)))
    nc = norm(z3.Not(c))
    if ex.feasible(st, nc):
        s2 = st.fork()
        s2.pc.append(nc)
        out.append(ex.throw(s2, '_ZTISt18bad_variant_access'))
    return out


@reg('std::get_if')
def v_get_if(ex, st, a, D):
    k = alt_index(D.ftargs[0]) if not re.match(r'\d+u?l?$', D.ftargs[0]) else int(re.match(r'\d+', D.ftargs[0]).group())
    v = oget(ex, st, a[0])
    if v is None:
        return []
    c = norm(v.is_(k))
    if isinstance(c, int):
        return ret(st, alt_ptr(a[0], k) if c else NULL)
    out = []
    for cc, r in ((c, alt_ptr(a[0], k)), (norm(z3.Not(c)), NULL)):
        if ex.feasible(st, cc):
            s2 = st.fork()
            s2.pc.append(cc)
            out.append((s2, 'ret', r))
    return out


@reg('std::hash::operator()')
def h_call(ex, st, a, D):
    t = D.ctargs[0]
    if t.startswith('std::variant<'):
        v = oget(ex, st, a[1])
        if v is None:
            return []
        return ret(st, norm(ov_hash(v)))
    if t == 'std::string':
        s = sget(ex, st, a[1])
        return [] if s is None else ret(st, strhash(s))
    return NotImplemented


@reg('std::__str_hash_base::operator()')
def s_hash(ex, st, a, D):
    s = sget(ex, st, a[1])
    return [] if s is None else ret(st, strhash(s))


@reg('std::__variant_hash_call_base_impl::operator()')
def v_hash(ex, st, a, D):
    v = oget(ex, st, a[1])
    return [] if v is None else ret(st, norm(ov_hash(v)))


def ov_hash(v):
    """std::hash of the variant: a function of the alternative and of the hash of its value"""
    if 'comb' not in hash_uf:
        hash_uf['comb'] = z3.Function('hash_variant', z3.BitVecSort(8), z3.BitVecSort(64), z3.BitVecSort(64))
        hash_uf[4] = z3.Function('hash_float', F32, z3.BitVecSort(64))
        hash_uf[5] = z3.Function('hash_double', F64, z3.BitVecSort(64))
    comb = hash_uf['comb']

    def alt(t):
        x = v.pay(t)
        if t == 0:
            return z3.BitVecVal(0, 64)
        if t == 1:
            h = z3.SignExt(32, bv(x, 32))
        elif t == 3:
            h = bv(boolt(x), 64)
        elif t in (4, 5):
            # equal zeros hash alike
            h = hash_uf[t](z3.If(z3.fpIsZero(x), z3.FPVal(0.0, x.sort()), x))
        elif t == 6:
            h = strhash(x)
        else:
            h = bv(x, 64)
        return h
    if isinstance(v.tag, int):
        return comb(z3.BitVecVal(v.tag, 8), alt(v.tag))
    r = z3.BitVecVal(0, 64)
    for t in range(12, -1, -1):
        if v.pay(t) is None and t:
            continue
        r = z3.If(v.tag == t, alt(t), r)
    return comb(v.tag, r)


# ---------------------------------------------------------------- vector and deque
def qget(ex, st, p, what='read'):
    v = ex.get_abs(st, p, what)
    if isinstance(v, str):
        return None
    if isinstance(v, Seq):
        return v
    if v is None or v is UNDEF:
        ex.stats.obl += 1
        ex.fail(st, 'memory', 'use of a container that does not exist')
        return None
    raise Unsupported('container expected, found ' + type(v).__name__)


def qput(ex, st, p, s, r=None):
    return ret(st, r) if ex.put_abs(st, p, s) else []


def qbuf(p, s, off=0):
    if not isinstance(p.off, int):
        raise Unsupported('container at a symbolic offset')
    return Ptr(Buf(p.base, p.off, s.gen), off)


def length_fact(ex, st, s):
    if z3.is_expr(s.n):
        lim = M64 // 2 // s.es
        c = z3.ULE(s.n, z3.BitVecVal(lim, 64))
        if not any(c.eq(x) for x in st.pc):
            st.pc.append(c)


def seq_copy(s):
    return s.but(gen=0)


def check_elem(D):
    t = D.ctargs[0]
    if t == 'bool':
        raise Unsupported('vector<bool>')
    return elem(t)


@reg('std::vector::vector', 'std::deque::deque')
def q_ctor(ex, st, a, D):
    es, ety = check_elem(D)
    stable = 'deque' in D.cls
    ps = D.params
    if len(a) == 1 or 'allocator' in ps[0] and not ps[0].startswith('std::vector') and not ps[0].startswith('std::deque') \
            and 'initializer_list' not in ps[0]:
        return qput(ex, st, a[0], Seq(es, ety, stable=stable))
    if ps[0].startswith('std::vector<') or ps[0].startswith('std::deque<'):
        s = qget(ex, st, a[1])
        if s is None:
            return []
        length_fact(ex, st, s)
        if '&&' in ps[0]:
            if not ex.put_abs(st, a[1], Seq(es, ety, stable=stable, gen=s.gen + 1)):
                return []
        return qput(ex, st, a[0], seq_copy(s))
    if ps[0] == 'unsigned long':
        n = a[1] if not isinstance(a[1], LinV) else norm(a[1].lin.bv())
        dv = elem_default(ety)
        if len(ps) > 1 and 'allocator' not in ps[1]:
            if ety == 'ov':
                dv = oget(ex, st, a[2])
                if dv is None:
                    return []
            else:
                from irparse import PTR, I
                r = ex.load(st, a[2], PTR if ety == 'ptr' else I[8 * es])
                if len(r) != 1:
                    return [] if not r else _uns('vector(n, value)')
                dv = r[0][1]
        out = []
        if not isinstance(n, int):
            # more elements than max_size(): length_error
            lim = z3.BitVecVal((M64 >> 1) // es, 64)
            big = z3.simplify(z3.UGT(n, lim))
            if ex.feasible(st, big):
                s2 = st.fork()
                s2.pc.append(big)
                out.append(ex.throw(s2, '_ZTISt12length_error'))
            nb = z3.simplify(z3.Not(big))
            if not ex.feasible(st, nb):
                return out
            st = st.fork()
            st.pc.append(nb)
            return out + qput(ex, st, a[0], Seq(es, ety, nb=n, bat=lambda i: dv, ident=('fill', fresh_id()), stable=stable))
        if n > 4096:
            return qput(ex, st, a[0], Seq(es, ety, nb=n, bat=lambda i: dv, ident=('fill', fresh_id()), stable=stable))
        return qput(ex, st, a[0], Seq(es, ety, tail=(dv,) * n, stable=stable))
    if len(ps) >= 2 and raw_type(ps[0]) == raw_type(ps[1]):
        src = range_src(ex, st, a[1], a[2], ps[0])
        if src is None:
            return []
        n, at, ees = src
        return qput(ex, st, a[0], bulk_append(Seq(es, ety, stable=stable), n, at))
    raise Unsupported('container constructor ' + D.full[:120])


@reg('std::vector::~vector', 'std::deque::~deque')
def q_dtor(ex, st, a, D):
    if isinstance(a[0].base, Handle):
        if not ex.h_alive(st, a[0].base, 'object released twice (%s)' % a[0].base.cls):
            return []
        return ret(st)
    if isinstance(a[0].base, int):
        o = ex.getobj(st, a[0], 'destruction')
        if o is None:
            return []
    return ret(st)


@reg('std::vector::size', 'std::deque::size')
def q_size(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    length_fact(ex, st, s)
    return ret(st, s.n)


@reg('std::vector::empty', 'std::deque::empty')
def q_empty(ex, st, a, D):
    s = qget(ex, st, a[0])
    return [] if s is None else ret(st, norm(i64(s.n) == 0))


@reg('std::vector::reserve', 'std::vector::shrink_to_fit', 'std::deque::shrink_to_fit')
def q_reserve(ex, st, a, D):
    s = qget(ex, st, a[0])
    return [] if s is None else qput(ex, st, a[0], s.but(gen=s.gen + 1))


@reg('std::vector::capacity')
def q_cap(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    c = fresh_bv('capacity', 64)
    st.pc.append(z3.UGE(c, i64(s.n)))
    return ret(st, c)


def idx_arg(v):
    return norm(v.lin.bv()) if isinstance(v, LinV) else v


@reg('std::vector::operator[]', 'std::deque::operator[]', 'std::vector::front', 'std::deque::front', 'std::vector::back', 'std::deque::back')
def q_idx(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    if D.meth == 'front':
        i = 0
    elif D.meth == 'back':
        i = norm(i64(s.n) - 1)
    else:
        i = idx_arg(a[1])
    k = 'underflow' if D.meth in ('back', 'front') else 'index'
    tag = st.ghost.get('index_kind')
    if not ex.obl(st, z3.ULT(i64(i), i64(s.n)), 'memory', '%s of %s outside its size' % (D.meth, D.cls)):
        return []
    return ret(st, qbuf(a[0], s, Lin.of(i).mul(s.es)))


@reg('std::vector::at', 'std::deque::at')
def q_at(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    i = idx_arg(a[1])
    c = norm(z3.ULT(i64(i), i64(s.n)))
    out = []
    if ex.feasible(st, boolt(c)):
        s2 = st.fork()
        if not isinstance(c, int):
            s2.pc.append(c)
        out.append((s2, 'ret', qbuf(a[0], s, Lin.of(i).mul(s.es))))
    nc = norm(z3.Not(boolt(c)))
    if ex.feasible(st, boolt(nc)):
        s2 = st.fork()
        if not isinstance(nc, int):
            s2.pc.append(nc)
        out.append(ex.throw(s2, '_ZTISt12out_of_range'))
    return out


@reg('std::vector::data')
def q_data(ex, st, a, D):
    s = qget(ex, st, a[0])
    return [] if s is None else ret(st, qbuf(a[0], s))


@reg('std::vector::begin', 'std::vector::cbegin', 'std::vector::end', 'std::vector::cend')
def q_begin(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    length_fact(ex, st, s)
    return ret(st, qbuf(a[0], s, 0 if 'begin' in D.meth else Lin.of(s.n).mul(s.es)))


@reg('std::deque::begin', 'std::deque::cbegin', 'std::deque::end', 'std::deque::cend')
def dq_begin(ex, st, a, D):
    s = qget(ex, st, a[1])
    if s is None:
        return []
    length_fact(ex, st, s)
    p = qbuf(a[1], s, 0 if 'begin' in D.meth else Lin.of(s.n).mul(s.es))
    return ret(st) if ex.put_abs(st, a[0], It(p)) else []


@reg('std::deque::rbegin', 'std::deque::crbegin', 'std::deque::rend', 'std::deque::crend')
def dq_rbegin(ex, st, a, D):
    # the reverse iterator is the iterator it is based on; its operators are executed as they are in the library
    s = qget(ex, st, a[1])
    if s is None:
        return []
    length_fact(ex, st, s)
    p = qbuf(a[1], s, Lin.of(s.n).mul(s.es) if 'begin' in D.meth else 0)
    return ret(st) if ex.put_abs(st, a[0], It(p)) else []


@reg('std::vector::rbegin', 'std::vector::crbegin', 'std::vector::rend', 'std::vector::crend')
def q_rbegin(ex, st, a, D):
    s = qget(ex, st, a[1])
    if s is None:
        return []
    length_fact(ex, st, s)
    from irparse import PTR
    p = qbuf(a[1], s, Lin.of(s.n).mul(s.es) if 'begin' in D.meth else 0)
    return [(x, 'ret', None) for x in ex.store(st, a[0], p, PTR)]


def elem_arg(ex, st, p, s):
    """value of the element type at p"""
    from irparse import PTR, I, FLOAT, DOUBLE
    if s.ety == 'ov':
        return oget(ex, st, p)
    if s.ety == 'str':
        return sget(ex, st, p)
    if s.ety == 'sp':
        return string_content(ex, st, p)
    ty = PTR if s.ety == 'ptr' else (FLOAT if s.ety == 'f32' else (DOUBLE if s.ety == 'f64' else I[s.ety]))
    r = ex.load(st, p, ty)
    if len(r) != 1:
        if r:
            raise Unsupported('element from several values')
        return None
    return r[0][1]


@reg('std::vector::push_back', 'std::deque::push_back')
def q_push(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    length_fact(ex, st, s)
    v = elem_arg(ex, st, a[1], s)
    if v is None:
        return []
    return qput(ex, st, a[0], s.push(v))


@reg('std::vector::emplace_back', 'std::deque::emplace_back')
def q_emplace(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    if len(D.params) == 0:
        v = elem_default(s.ety)
    elif len(D.params) == 1:
        t = raw_type(D.params[0])
        if s.ety == 'ov' and t != 'dingodb::expr::Operand':
            if 'nullptr_t' in t or t == 'decltype(nullptr)':
                v = OV.null()
            elif t in ('std::shared_ptr<std::string>',):
                sc = string_content(ex, st, a[1])
                v = None if sc is None else OV.of(T_STR, sc)
            else:
                v = conv_operand(ex, st, a[1], t)
        else:
            v = elem_arg(ex, st, a[1], s)
    else:
        raise Unsupported('emplace_back')
    if v is None:
        return []
    s = s.push(v)
    return qput(ex, st, a[0], s, qbuf(a[0], s, Lin.of(norm(i64(s.n) - 1)).mul(s.es)))


@reg('std::vector::pop_back', 'std::deque::pop_back')
def q_pop(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    if not ex.obl(st, i64(s.n) != 0, 'memory', 'pop_back of an empty %s' % D.cls):
        return []
    if s.upd:
        s = s.freeze()
    if s.tail:
        s = s.but(tail=s.tail[:-1])
    else:
        s = s.but(nb=norm(i64(s.nb) - 1))
    return qput(ex, st, a[0], s)


@reg('std::deque::pop_front')
def q_pop_front(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    if not ex.obl(st, i64(s.n) != 0, 'memory', 'pop_front of an empty %s' % D.cls):
        return []
    s = s.flat()
    if not s.is_opaque() and not s.upd:
        return qput(ex, st, a[0], s.but(tail=s.tail[1:], gen=s.gen + 1))
    return qput(ex, st, a[0], Seq(s.es, s.ety, nb=i64(norm(i64(s.n) - 1)), bat=lambda i, s=s: s.at(norm(i64(i) + 1)), ident=('popfront', fresh_id()),
                gen=s.gen + 1, stable=s.stable))


@reg('std::deque::push_front')
def q_push_front(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    length_fact(ex, st, s)
    v = elem_arg(ex, st, a[1], s)
    if v is None:
        return []
    s = s.flat()
    if not s.is_opaque() and not s.upd:
        return qput(ex, st, a[0], s.but(tail=(v,) + s.tail, gen=s.gen + 1))
    w = s.ety if isinstance(s.ety, int) else None
    return qput(ex, st, a[0], Seq(s.es, s.ety, nb=i64(norm(i64(s.n) + 1)), bat=lambda i, s=s: val_ite(i64(i) == 0, v, s.at(norm(i64(i) - 1)), w),
                ident=('pushfront', fresh_id()), gen=s.gen + 1, stable=s.stable))


@reg('std::vector::clear', 'std::deque::clear')
def q_clear(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    return qput(ex, st, a[0], Seq(s.es, s.ety, gen=s.gen + 1, stable=s.stable))


@reg('std::vector::erase', 'std::deque::erase')
def q_erase(ex, st, a, D):
    dq = 'deque' in D.cls
    me = a[1] if dq else a[0]
    s = qget(ex, st, me)
    if s is None:
        return []
    its = []
    for x in a[2:] if dq else a[1:]:
        if dq:
            x = itget(ex, st, x)
            if x is None:
                return []
            x = x.p
        if not (isinstance(x, Ptr) and isinstance(x.base, tuple) and x.base[0] == 'buf' and x.base[1] == me.base):
            raise Unsupported('erase through an iterator of another container')
        i = Lin.of(x.off).div(s.es)
        if i is None:
            raise Unsupported('erase position')
        its.append((x, i))
    n = i64(s.n)
    i = its[0][1]
    j = its[1][1] if len(its) > 1 else i.add(1)
    ib, jb = i.bv(), j.bv()
    if not ex.obl(st, z3.And(z3.ULE(ib, jb), z3.ULE(jb, n)) if len(its) > 1 else z3.ULT(ib, n), 'memory', 'erase outside the container'):
        return []
    length_fact(ex, st, s)
    if ex.valid(st, jb == n):
        if ex.valid(st, ib == 0):
            ns = Seq(s.es, s.ety, gen=s.gen + 1, stable=s.stable)
        elif len(its) == 1 and not s.upd and s.tail:
            ns = s.but(tail=s.tail[:-1])
        else:
            s = s.freeze()
            ns = Seq(s.es, s.ety, nb=norm(ib), bat=lambda k, s=s: s.at(k), ident=('erase', fresh_id()), gen=s.gen + (len(its) > 1), stable=s.stable)
    else:
        w = s.ety if isinstance(s.ety, int) else None
        s = s.freeze()
        ns = Seq(s.es, s.ety, nb=i64(norm(n - (jb - ib))), bat=lambda k, s=s: val_ite(z3.ULT(i64(k), ib), s.at(k), s.at(norm(i64(k) + (jb - ib))), w),
                 ident=('erase', fresh_id()), gen=s.gen + 1, stable=s.stable)
    if dq:
        r = qput(ex, st, me, ns)
        return r if r and ex.put_abs(st, a[0], It(qbuf(me, ns, i.mul(s.es)))) else []
    return qput(ex, st, me, ns, qbuf(me, ns, i.mul(s.es)))


@reg('std::vector::resize')
def q_resize(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    n = idx_arg(a[1])
    dv = elem_default(s.ety)
    if len(D.params) > 1:
        dv = elem_arg(ex, st, a[2], s)
        if dv is None:
            return []
    if not s.is_opaque() and isinstance(n, int) and n < 4096:
        s = s.flat()
        if not s.upd:
            t = s.tail[:n] + (dv,) * (n - len(s.tail))
            return qput(ex, st, a[0], s.but(tail=t, gen=s.gen + 1))
    on = s.n
    return qput(ex, st, a[0], Seq(s.es, s.ety, nb=i64(n), bat=lambda i: val_ite(z3.ULT(i64(i), i64(on)), s.at(i), dv,
                s.ety if isinstance(s.ety, int) else None), ident=('resize', fresh_id()), gen=s.gen + 1))


@reg('std::vector::operator=', 'std::deque::operator=')
def q_asg(ex, st, a, D):
    s = qget(ex, st, a[1])
    d = qget(ex, st, a[0])
    if s is None or d is None:
        return []
    if '&&' in D.params[0]:
        if not ex.put_abs(st, a[1], Seq(s.es, s.ety, stable=s.stable, gen=s.gen + 1)):
            return []
    return qput(ex, st, a[0], s.but(gen=d.gen + 1), a[0])


@reg('std::vector::swap', 'std::deque::swap')
def q_swap(ex, st, a, D):
    x = qget(ex, st, a[0])
    y = qget(ex, st, a[1])
    if x is None or y is None:
        return []
    g = max(x.gen, y.gen) + 1
    return ret(st) if ex.put_abs(st, a[0], y.but(gen=g)) and ex.put_abs(st, a[1], x.but(gen=g)) else []


def range_src(ex, st, p, q, t):
    """elements of the iterator range [p, q): (count, at, element size)"""
    if '_Deque_iterator' in t:
        x, y = itget(ex, st, p), itget(ex, st, q)
        if x is None or y is None:
            return None
        p, q = x.p, y.p
    if not isinstance(p, Ptr) or not isinstance(q, Ptr):
        raise Unsupported('iterator range')
    if isinstance(p.base, tuple) and p.base[0] == 'buf':
        if not isinstance(q.base, tuple) or q.base[:3] != p.base[:3]:
            raise Unsupported('iterator range over two containers')
        s = buf_seq(ex, st, p, 'read')
        if s is None or buf_seq(ex, st, q, 'read') is None:
            return None
        if isinstance(s, Str):
            raise Unsupported('copy from a string')
    else:
        raise Unsupported('copy from a plain array')
    a, b = Lin.of(p.off).div(s.es), Lin.of(q.off).div(s.es)
    if a is None or b is None:
        raise Unsupported('iterator range')
    n = b.sub(a)
    nn = norm(n.bv())
    if not ex.obl(st, z3.And(z3.ULE(a.bv(), b.bv()), z3.ULE(b.bv(), i64(s.n))), 'memory', 'iterator range outside the container'):
        return None
    st.ghost['copysrc'] = (s, a)
    return nn, (lambda i, s=s, a=a: s.at(norm(i64(i) + a.bv()))), s


def bulk_append(d, n, at):
    d = d.flat()
    if isinstance(n, int) and n <= 64:
        for i in range(n):
            d = d.push(at(i))
        return d
    dn = d.n
    w = d.ety if isinstance(d.ety, int) else None
    if isinstance(dn, int) and dn == 0:
        return Seq(d.es, d.ety, nb=i64(n), bat=at, ident=('copy', fresh_id()), gen=d.gen + 1, stable=d.stable)
    return Seq(d.es, d.ety, nb=norm(i64(dn) + i64(n)), bat=lambda i: val_ite(z3.ULT(i64(i), i64(dn)), d.at(i), at(norm(i64(i) - i64(dn))), w),
               ident=('append', fresh_id()), gen=d.gen + 1, stable=d.stable)


@reg('std::back_inserter')
def back_inserter(ex, st, a, D):
    return ret(st, a[0])


@reg('std::copy', 'std::move')
def std_copy(ex, st, a, D):
    if len(D.params) != 3:
        return NotImplemented
    src = range_src(ex, st, a[0], a[1], D.params[0])
    if src is None:
        return []
    n, at, s = src
    if 'back_insert_iterator' in D.params[2]:
        c = a[2]
        d = qget(ex, st, c)
        if d is None:
            return []
        return qput(ex, st, c, bulk_append(d, n, at), c)
    q = a[2]
    if isinstance(q.base, tuple) and q.base[0] == 'buf':
        d = buf_seq(ex, st, q, 'write')
        if d is None:
            return []
        if isinstance(d, Str) or d.ety != s.ety:
            raise Unsupported('copy between different element types')
        o = Lin.of(q.off).div(d.es)
        if o is None:
            raise Unsupported('copy target')
        if not ex.obl(st, z3.And(z3.ULE(o.bv(), i64(d.n)), z3.ULE(i64(n), i64(d.n) - o.bv())), 'memory', 'copy past the end of the container'):
            return []
        nd = d.but(upd=d.upd + (('rng', norm(o.bv()), n, at),))
        if isinstance(n, int) and n <= 64:
            nd = d
            for i in range(n):
                nd = nd.set(norm(o.bv() + i), at(i))
        r = Ptr(q.base, Lin.of(q.off).add(Lin.of(n).mul(d.es)))
        return qput(ex, st, Ptr(q.base[1], q.base[2]), nd, r)
    raise Unsupported('copy target')


@reg('std::vector::insert')
def q_insert(ex, st, a, D):
    s = qget(ex, st, a[0])
    if s is None:
        return []
    if len(D.params) == 3 and raw_type(D.params[1]) == raw_type(D.params[2]) and isinstance(a[1], Ptr):
        pos = Lin.of(a[1].off).div(s.es)
        if pos is None or not ex.valid(st, pos.bv() == i64(s.n)):
            raise Unsupported('vector::insert in the middle')
        src = range_src(ex, st, a[2], a[3], D.params[1])
        if src is None:
            return []
        ns = bulk_append(s, src[0], src[1])
        return qput(ex, st, a[0], ns, qbuf(a[0], ns, a[1].off))
    raise Unsupported('vector::insert')


# deque iterators
def itget(ex, st, p):
    v = ex.get_abs(st, p)
    if isinstance(v, str):
        return None
    if isinstance(v, It):
        return v
    raise Unsupported('iterator expected')


@reg('std::_Deque_iterator::_Deque_iterator')
def di_ctor(ex, st, a, D):
    if len(a) == 1:
        return ret(st) if ex.put_abs(st, a[0], It(NULL)) else []
    v = itget(ex, st, a[1])
    if v is None:
        return []
    return ret(st) if ex.put_abs(st, a[0], v) else []


@reg('std::_Deque_iterator::operator=')
def di_asg(ex, st, a, D):
    v = itget(ex, st, a[1])
    if v is None:
        return []
    return ret(st, a[0]) if ex.put_abs(st, a[0], v) else []


@reg('std::_Deque_iterator::operator*', 'std::_Deque_iterator::operator->')
def di_deref(ex, st, a, D):
    v = itget(ex, st, a[0])
    return [] if v is None else ret(st, v.p)


@reg('std::_Deque_iterator::operator++', 'std::_Deque_iterator::operator--')
def di_inc(ex, st, a, D):
    post = bool(D.params)
    me = a[1] if post else a[0]
    v = itget(ex, st, me)
    if v is None:
        return []
    es = 24
    q = v.p.add(es if '++' in D.meth else (-es) & M64)
    if not ex.put_abs(st, me, It(q)):
        return []
    if post:
        return ret(st) if ex.put_abs(st, a[0], v) else []
    return ret(st, me)


@reg('std::_Deque_iterator::operator[]')
def di_sub(ex, st, a, D):
    v = itget(ex, st, a[0])
    return [] if v is None else ret(st, v.p.add(Lin.of(a[1]).mul(24)))


@reg('std::_Deque_iterator::operator+=', 'std::_Deque_iterator::operator-=')
def di_pe(ex, st, a, D):
    v = itget(ex, st, a[0])
    if v is None:
        return []
    q = v.p.add(Lin.of(a[1]).mul(24 if '+' in D.meth else -24))
    return ret(st, a[0]) if ex.put_abs(st, a[0], It(q)) else []


@reg('std::operator-')
def op_minus(ex, st, a, D):
    if '_Deque_iterator' not in D.params[0]:
        return NotImplemented
    if '_Deque_iterator' in D.params[1]:
        x, y = itget(ex, st, a[0]), itget(ex, st, a[1])
        if x is None or y is None:
            return []
        d = ex.arith(st, 'sub', PInt(x.p), PInt(y.p), 64)
        return ret(st, ex.arith(st, 'sdiv', d, 24, 64))
    v = itget(ex, st, a[1])
    if v is None:
        return []
    return ret(st) if ex.put_abs(st, a[0], It(v.p.add(Lin.of(a[2]).mul(-24)))) else []


_op_plus0 = T['std::operator+']


@reg('std::operator+')
def op_plus2(ex, st, a, D):
    if '_Deque_iterator' in D.params[0]:
        v = itget(ex, st, a[1])
        if v is None:
            return []
        return ret(st) if ex.put_abs(st, a[0], It(v.p.add(Lin.of(a[2]).mul(24)))) else []
    return _op_plus0(ex, st, a, D)


# ---------------------------------------------------------------- algorithms over strings
def one_elem_range(ex, st, D, a, x, reverse):
    """run the real instantiation on a one-element range holding byte x"""
    raise Unsupported('unused')


def pred_of(ex, st, name, mk_args, read):
    """value of a functor, obtained by executing the library template on a one-element range"""
    b = fresh_bv('ch', 8)
    s2 = st.fork()
    npc = len(s2.pc)
    f = name
    args = mk_args(s2, b)
    sv = ex.quiet
    rs = ex.call_fn(s2, f, args)
    val = None
    for s3, kind, v in reversed(rs):
        if kind != 'ret':
            raise Unsupported('functor that throws')
        r = read(s3, v)
        c = z3.And(s3.pc[npc:]) if len(s3.pc) > npc else z3.BoolVal(True)
        val = r if val is None else val_ite(z3.simplify(c), r, val, 8)
    if val is None:
        raise Unsupported('functor without a result')
    return b, val


def cur_inst(ex):
    """the library template instantiation being called (functor instantiations are module-local)"""
    f = ex.prog.find_fn(ex.cur_callee, ex.cur[0].mod)
    if f is None:
        raise Unsupported('instantiation of ' + ex.cur_callee[:60])
    return f


def find_not(ex, st, a, D):
    neg = D.meth == 'find_if_not'
    rev = 'reverse_iterator' in D.params[0]
    from irparse import PTR
    if not rev:
        p, q, fn = a[0], a[1], a[2]
    else:
        r1 = ex.load(st, a[1], PTR)
        r2 = ex.load(st, a[2], PTR)
        if len(r1) != 1 or len(r2) != 1:
            raise Unsupported('reverse iterators')
        p, q, fn = r1[0][1], r2[0][1], a[3]
    if not (isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'buf' and isinstance(q.base, tuple) and q.base[:3] == p.base[:3]):
        raise Unsupported('search outside a string')
    s = buf_seq(ex, st, p, 'read')
    if s is None:
        return []
    if not isinstance(s, Str):
        raise Unsupported('search in a container')
    lo, hi = (q, p) if rev else (p, q)
    if not (Lin.of(lo.off).const() == 0 and Lin.of(hi.off).same(Lin.of(s.n))):
        raise Unsupported('search in part of a string')
    name = cur_inst(ex)

    def mk(s2, b):
        o = ex.new_obj(s2, 'stack', 32, 'one-element string')
        s2.mem[o.base].cells[0] = ('abs', Str(1, lambda i: b))
        x, y = s_ptr(o, 0), s_ptr(o, 1)
        if not rev:
            return [x, y] + list(a[2:])
        its = []
        for v in (y, x):
            i = ex.new_obj(s2, 'stack', 8, 'iterator')
            s2.mem[i.base].cells[0] = (8, v)
            its.append(i)
        o2 = ex.new_obj(s2, 'stack', 8, 'iterator')
        s2.ghost['oneres'] = (o2, y)
        return [o2, its[0], its[1]] + list(a[3:])

    def rd(s3, v):
        if rev:
            o2, y = s3.ghost['oneres']
            v = s3.mem[o2.base].cells[0][1]
            return norm(z3.If(i64(v.off) == 1, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))     # still at rbegin: found
        return norm(z3.If(i64(v.off) == 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    b, found = pred_of(ex, st, name, mk, rd)
    stop = boolt(found)           # the search stops at b
    stop = z3.simplify(stop)
    pk = ('p', canon(stop, b))
    # note: search() wants the predicate that holds on the skipped bytes
    pred = lambda c: z3.Not(z3.substitute(stop, (b, bv(c, 8))))
    j = search(ex, st, s, pred, pk, rev)
    if not rev:
        return ret(st, Ptr(p.base, Lin.of(j)))
    return [(x, 'ret', None) for x in ex.store(st, a[0], Ptr(p.base, Lin.of(j)), PTR)]


D_name = {}
_canonvar = z3.BitVec('canonical.byte', 8)
_canon = {}


def canon(e, b):
    e = z3.simplify(z3.substitute(e, (b, _canonvar)))
    # two predicates are the same when they agree on all 256 bytes
    bits = tuple(z3.is_true(z3.simplify(z3.substitute(e, (_canonvar, z3.BitVecVal(i, 8))))) for i in range(256))
    return bits


T['std::find_if_not'] = find_not
T['std::find_if'] = find_not


@reg('std::transform')
def transform(ex, st, a, D):
    if len(D.params) != 4 or len(a) != 4:
        return NotImplemented      # its body is executed
    p, q, o = a[0], a[1], a[2]
    for x in (p, q, o):
        if not (isinstance(x, Ptr) and isinstance(x.base, tuple) and x.base[0] == 'buf'):
            return NotImplemented
    s = buf_seq(ex, st, p, 'read')
    d = buf_seq(ex, st, o, 'write')
    if s is None or d is None:
        return []
    if not isinstance(s, Str) or not isinstance(d, Str):
        return NotImplemented
    lo, hi, ds = Lin.of(p.off), Lin.of(q.off), Lin.of(o.off)
    n = norm(hi.sub(lo).bv())
    if not ex.obl(st, z3.And(z3.ULE(lo.bv(), hi.bv()), z3.ULE(hi.bv(), i64(s.n)), z3.ULE(ds.bv(), i64(d.n)), z3.ULE(i64(n), i64(d.n) - ds.bv())),
                  'memory', 'transform past the end of the string'):
        return []
    name = cur_inst(ex)

    def mk(s2, b):
        i = ex.new_obj(s2, 'stack', 32, 'one-element string')
        s2.mem[i.base].cells[0] = ('abs', Str(1, lambda k: b))
        r = ex.new_obj(s2, 'stack', 32, 'one-element result')
        s2.mem[r.base].cells[0] = ('abs', Str(1, lambda k: 0))
        s2.ghost['oneres'] = r
        return [s_ptr(i, 0), s_ptr(i, 1), s_ptr(r, 0)] + list(a[3:])

    def rd(s3, v):
        return s3.mem[s3.ghost['oneres'].base].cells[0][1].at(0)
    b, val = pred_of(ex, st, name, mk, rd)
    val = bv(val, 8)
    f = lambda c: norm(z3.substitute(val, (b, bv(c, 8))))
    lob, dsb = lo.bv(), ds.bv()
    r = Str(d.n, lambda j: val_ite(z3.ULT(i64(j) - dsb, i64(n)), f(s.at(norm(i64(j) - dsb + lob))), d.at(j), 8))
    if not ex.put_abs(st, Ptr(o.base[1], o.base[2]), r):
        return []
    return ret(st, Ptr(o.base, Lin.of(o.off).add(Lin.of(n))))


# ---------------------------------------------------------------- unordered_map<Tuple, Tuple*>
def mget(ex, st, p):
    v = ex.get_abs(st, p)
    if isinstance(v, str):
        return None
    if isinstance(v, MapVal):
        return v
    raise Unsupported('map expected')


def m_check(D):
    """the map must hash and compare with the library's std::hash and std::equal_to"""
    t = D.full.replace(' ', '')
    if 'std::hash<std::vector<dingodb::expr::Operand>>' not in t.replace(',std::allocator<dingodb::expr::Operand>', '') or \
       'std::equal_to<std::vector<dingodb::expr::Operand>>' not in t.replace(',std::allocator<dingodb::expr::Operand>', ''):
        raise Unsupported('unordered_map with other keys, hash or equality')


@reg('std::unordered_map::unordered_map')
def m_ctor(ex, st, a, D):
    m_check(D)
    if len(a) != 1:
        raise Unsupported('map constructor')
    return ret(st) if ex.put_abs(st, a[0], MapVal()) else []


@reg('std::unordered_map::~unordered_map')
def m_dtor(ex, st, a, D):
    st.events.append(('mapdtor', a[0].base))
    return ret(st)


def seq_same(x, y):
    return x is y or (x.ident is not None and x.ident == y.ident and x.tail == y.tail and x.upd == y.upd)


def m_focus(ex, st, p, m, key):
    """[(state, map, entry id or None)]: is there an entry whose key equals `key`?"""
    for e in m.ents:
        if seq_same(e[1], key):
            return [(st, m, e[0])]
    for k in m.absent:
        if seq_same(k, key):
            return [(st, m, None)]
    if m.ents or m.erased:
        raise Unsupported('several entries of one map')
    if m.rest is None:
        return [(st, m, None)]
    out = []
    s2 = st.fork()
    eid = fresh_id()
    present = m.rest.present(ex, s2, key)       # value stored under an existing key
    s2.pc.append(i64(m.n0) != 0)
    out.append((s2, m.but(ents=m.ents + ((eid, key, present),)), eid))
    s3 = st.fork()
    out.append((s3, m.but(absent=m.absent + (key,)), None))
    return out


def ent_ptr(p, eid, part):
    return Ptr(('mapent', p.base, p.off, eid, part), 0)


def m_insert(ex, st, p, m, key, val=None):
    """[(state, entry id, inserted?)]"""
    out = []
    for s2, m2, eid in m_focus(ex, st, p, m, key):
        new = eid is None
        if new:
            eid = fresh_id()
            m2 = m2.but(ents=m2.ents + ((eid, seq_copy(key), NULL if val is None else val),), absent=tuple(k for k in m2.absent if not seq_same(k, key)))
        s2.events.append(('mapkey', p, key, eid, new))
        if ex.put_abs(s2, p, m2):
            out.append((s2, eid, new))
    return out


def m_args(ex, st, a, D):
    m_check(D)
    m = mget(ex, st, a[0])
    return m


@reg('std::unordered_map::operator[]')
def m_index(ex, st, a, D):
    m = m_args(ex, st, a, D)
    key = qget(ex, st, a[1]) if m is not None else None
    if key is None:
        return []
    return [(s, 'ret', ent_ptr(a[0], eid, 'val')) for s, eid, new in m_insert(ex, st, a[0], m, key)]


@reg('std::unordered_map::emplace', 'std::unordered_map::try_emplace')
def m_emplace(ex, st, a, D):
    m = m_args(ex, st, a, D)
    key = qget(ex, st, a[1]) if m is not None else None
    if key is None:
        return []
    val = None
    if len(a) > 2:
        if not re.search(r'(std::nullptr_t|decltype\(nullptr\))', D.full.rsplit('(', 1)[-1]) and len(D.params) > 1 and 'vector' in D.params[1]:
            from irparse import PTR
            r = ex.load(st, a[2], PTR)
            if len(r) != 1:
                return []
            val = r[0][1]
        elif 'nullptr' not in D.full.rsplit('(', 1)[-1]:
            raise Unsupported('map entry from ' + str(D.params[1:])[:60])
    return [(s, 'ret', (MapIt((a[0].base, a[0].off), ('ent', eid)), int(new))) for s, eid, new in m_insert(ex, st, a[0], m, key, val)]


@reg('std::unordered_map::find', 'std::unordered_map::count')
def m_find(ex, st, a, D):
    m = m_args(ex, st, a, D)
    key = qget(ex, st, a[1]) if m is not None else None
    if key is None:
        return []
    out = []
    for s2, m2, eid in m_focus(ex, st, a[0], m, key):
        if not ex.put_abs(s2, a[0], m2):
            continue
        s2.events.append(('mapkey', a[0], key, eid, False))
        if D.meth == 'count':
            out.append((s2, 'ret', int(eid is not None)))
        else:
            out.append((s2, 'ret', MapIt((a[0].base, a[0].off), norm(i64(m2.n0)) if eid is None else ('ent', eid))))
    return out


@reg('std::unordered_map::begin', 'std::unordered_map::cbegin')
def m_begin(ex, st, a, D):
    m = m_args(ex, st, a, D)
    if m is None:
        return []
    if m.ents or m.erased:
        raise Unsupported('iteration over a map in use')
    return ret(st, MapIt((a[0].base, a[0].off), 0))


@reg('std::unordered_map::end', 'std::unordered_map::cend')
def m_end(ex, st, a, D):
    m = m_args(ex, st, a, D)
    return [] if m is None else ret(st, MapIt((a[0].base, a[0].off), norm(i64(m.n0))))


def itval(ex, st, v):
    """value of an iterator argument (by value or by reference)"""
    if isinstance(v, MapIt):
        return v
    if isinstance(v, Ptr):
        v = ex.get_abs(st, v)
        if isinstance(v, MapIt):
            return v
        if isinstance(v, str):
            return None
    raise Unsupported('map iterator expected')


@reg('std::unordered_map::erase')
def m_erase(ex, st, a, D):
    m = m_args(ex, st, a, D)
    if m is None:
        return []
    if 'iterator' not in D.params[0]:
        key = qget(ex, st, a[1])
        if key is None:
            return []
        out = []
        for s2, m2, eid in m_focus(ex, st, a[0], m, key):
            if ex.put_abs(s2, a[0], m2.but(ents=tuple(e for e in m2.ents if e[0] != eid))):
                out.append((s2, 'ret', int(eid is not None)))
        return out
    if len(a) > 2:
        raise Unsupported('erasing a range of a map')
    it = itval(ex, st, a[1])
    if it is None:
        return []
    if it.m != (a[0].base, a[0].off):
        raise Unsupported('iterator of another map')
    if isinstance(it.i, tuple):
        if not any(e[0] == it.i[1] for e in m.ents):
            ex.stats.obl += 1
            ex.fail(st, 'memory', 'use of a map entry that was erased')
            return []
        m2 = m.but(ents=tuple(e for e in m.ents if e[0] != it.i[1]))
        nx = MapIt(it.m, ('after', fresh_id()))
    else:
        if not ex.obl(st, z3.And(z3.ULT(i64(it.i), i64(m.n0)), *[i64(it.i) != e for e in m.erased]), 'memory', 'erasing a map entry that does not exist'):
            return []
        m2 = m.but(erased=m.erased + (i64(it.i),))
        nx = MapIt(it.m, norm(i64(it.i) + 1))
    return ret(st, nx) if ex.put_abs(st, a[0], m2) else []


@reg('std::unordered_map::clear')
def m_clear(ex, st, a, D):
    m = m_args(ex, st, a, D)
    return [] if m is None else ret(st) if ex.put_abs(st, a[0], MapVal()) else []


@reg('std::unordered_map::empty')
def m_empty(ex, st, a, D):
    m = mget(ex, st, a[0])
    if m is None:
        return []
    if m.ents:
        return ret(st, 0)
    return ret(st, norm(i64(m.n0) == len(m.erased)))


@reg('std::unordered_map::size')
def m_size(ex, st, a, D):
    m = mget(ex, st, a[0])
    if m is None:
        return []
    if m.ents and m.rest is not None:
        raise Unsupported('size of a map in use')
    return ret(st, norm(i64(m.n0) + len(m.ents) - len(m.erased)))


NI = ['std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator']


@reg(*[n + '::' + m for n in NI for m in ('operator*', 'operator->')])
def ni_deref(ex, st, a, D):
    it = itval(ex, st, a[0])
    if it is None:
        return []
    base, off = it.m
    if isinstance(it.i, tuple):
        if it.i[0] != 'ent':
            raise Unsupported('map iterator')
        return ret(st, Ptr(('mapent', base, off, it.i[1], 'pair'), 0))
    m = mget(ex, st, Ptr(base, off))
    if m is None:
        return []
    if not ex.obl(st, z3.And(z3.ULT(i64(it.i), i64(m.n0)), *[i64(it.i) != e for e in m.erased]), 'memory', 'use of a map entry that does not exist'):
        return []
    return ret(st, Ptr(('mapent', base, off, MapPos(it.i), 'pair'), 0))


@reg(*[n + '::operator++' for n in NI])
def ni_inc(ex, st, a, D):
    it = itval(ex, st, a[0])
    if it is None:
        return []
    if isinstance(it.i, tuple):
        raise Unsupported('map iterator')
    m = mget(ex, st, Ptr(*it.m))
    if m is None:
        return []
    if not ex.obl(st, z3.ULT(i64(it.i), i64(m.n0)), 'memory', 'map iterator moved past the end'):
        return []
    from irparse import PTR
    return [(s, 'ret', a[0] if len(a) == 1 else it) for s in ex.store(st, a[0], MapIt(it.m, norm(i64(it.i) + 1)), PTR)]


@reg(*[n + '::' + n.rsplit('::', 1)[1] for n in NI])
def ni_ctor(ex, st, a, D):
    if len(a) == 1:
        return ret(st)
    it = itval(ex, st, a[1])
    if it is None:
        return []
    from irparse import PTR
    return [(s, 'ret', None) for s in ex.store(st, a[0], it, PTR)]


@reg('std::__detail::operator!=', 'std::__detail::operator==')
def ni_cmp(ex, st, a, D):
    x, y = itval(ex, st, a[0]), itval(ex, st, a[1])
    if x is None or y is None:
        return []
    if x.m != y.m:
        raise Unsupported('iterators of different maps')
    if isinstance(x.i, tuple) or isinstance(y.i, tuple):
        if 'after' in (x.i[0] if isinstance(x.i, tuple) else '', y.i[0] if isinstance(y.i, tuple) else ''):
            raise Unsupported('map iterator')
        if isinstance(x.i, tuple) and isinstance(y.i, tuple):
            e = int(x.i == y.i)
        else:
            m = mget(ex, st, Ptr(*x.m))
            if m is None:
                return []
            o = y.i if isinstance(x.i, tuple) else x.i
            if not ex.valid(st, i64(o) == i64(m.n0)):
                raise Unsupported('map iterator')
            e = 0
    else:
        e = norm(i64(x.i) == i64(y.i))
    if D.meth.endswith('!='):
        e = 1 - e if isinstance(e, int) else norm(e == 0) if not z3.is_bool(e) else norm(z3.Not(e))
    return ret(st, e)


def lookup_method(nm):
    return T.get(nm)


# ---------------------------------------------------------------- virtual calls on objects known by contract
def ti_name(ex, vt):
    return '_ZTI' + vt[4:]


def root_ti(ex, ti):
    """topmost base class of a typeinfo"""
    while True:
        b = [x for x in ex.bases.get(ti, []) if x.startswith('_ZTI')]
        if not b:
            return ti
        ti = b[0]


def class_name(ex, ti):
    from irparse import demangled
    d = demangled(ex.prog, ti)
    return d.replace('typeinfo for ', '')


def root_class(ex, st, o):
    """root class of the object, by its virtual table"""
    c = o.cells.get(0)
    if c is None or not isinstance(c[1], Ptr):
        return None
    b = c[1].base
    g = st.mem.get(b) or ex.base_mem.get(b)
    if g is None or not str(g.name).startswith('_ZTV'):
        return None
    return class_name(ex, root_ti(ex, ti_name(ex, g.name)))


def obj_class(ex, st, p):
    """dynamic class of a real object"""
    o = st.mem.get(p.base)
    if o is None:
        return None
    c = o.cells.get(0)
    if c is None or not isinstance(c[1], Ptr):
        return None
    g = st.mem.get(c[1].base) or ex.base_mem.get(c[1].base)
    if g is None or not str(g.name).startswith('_ZTV'):
        return None
    return class_name(ex, ti_name(ex, g.name))


def slots(ex, cls):
    """virtual functions by slot: 'D1', 'D0' or the method's name, read from the virtual tables in the IR"""
    r = ex.class_slots.get(cls)
    if r is not None:
        return r
    from irparse import demangled
    names = {}
    for m in ex.prog.mods:
        for g in list(m.globals):
            if not g.startswith('_ZTV'):
                continue
            ti = ti_name(ex, g)
            if class_name(ex, ti) != cls and class_name(ex, root_ti(ex, ti)) != cls:
                continue
            s0 = ex.base_state.fork()
            try:
                p = ex.gptr(s0, g, m)
            except Unsupported:
                continue
            if not isinstance(p, Ptr):
                continue
            o = s0.mem[p.base]
            for off, (sz, v) in o.cells.items():
                if off < 16 or not isinstance(v, FnP) or v.name == '__cxa_pure_virtual':
                    continue
                n = v.name
                if n.endswith('D1Ev') or n.endswith('D2Ev'):
                    nm = 'D1'
                elif n.endswith('D0Ev'):
                    nm = 'D0'
                else:
                    d = demangled(ex.prog, n)
                    pd = parse_dem(d)
                    nm = pd.meth if pd is not None else d
                names.setdefault((off - 16) // 8, nm)
    if not names:
        raise Unsupported('virtual call on ' + cls)
    r = [names.get(i) for i in range(max(names) + 1)]
    ex.class_slots[cls] = r
    return r


def virtual_call(ex, st, vf, args, ins):
    h = vf.h
    sl = slots(ex, h.cls)
    if vf.slot >= len(sl):
        raise Unsupported('virtual slot %d of %s' % (vf.slot, h.cls))
    m = sl[vf.slot]
    if not ex.h_alive(st, h, 'use of an object already released (%s)' % h.cls):
        return []
    if m == 'D0':
        ex.h_free(st, h)
        st.events.append(('delete', h, 'new'))
        return ret(st)
    if m == 'D1':
        raise Unsupported('destructor call without delete')
    vh = ex.vhandlers.get((h.cls, m))
    if vh is None:
        raise Unsupported('no contract for %s::%s' % (h.cls, m))
    return vh(ex, st, h, args)


def byval_copy(ex, st, p, ty):
    o = ex.new_obj(st, 'stack', ty.size, 'by-value argument')
    memcpy(ex, st, [o, p, ty.size], None)
    return o

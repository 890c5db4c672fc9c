"""Concrete reference semantics (README of dingo-libexpr + properties.jsonl), used to replay
counterexamples against the real code and for the bounded native stand-ins.  Values are tuples:
('n',) ('i',int) ('l',int) ('b',0/1) ('f',bits32) ('d',bits64) ('s',bytes)."""
import ctypes, ctypes.util, math, struct

libm = ctypes.CDLL('libm.so.6')
libc = ctypes.CDLL('libc.so.6', use_errno=True)
for _f in ('ceil floor sin cos tan asin acos atan sinh cosh tanh exp log').split():
    getattr(libm, _f).restype = ctypes.c_double
    getattr(libm, _f).argtypes = [ctypes.c_double]
libc.strtod.restype = ctypes.c_double
libc.strtod.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p)]
libc.strtof.restype = ctypes.c_float
libc.strtof.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p)]

NULL = ('n',)
TYPES = {1: 'i', 2: 'l', 3: 'b', 4: 'f', 5: 'd', 7: 's'}
CODE = {v: k for k, v in TYPES.items()}
EXPR_ERR = 'E'      # any dingodb ExprError
ANY_ERR = '*'       # any exception
NS = 'dingodb::expr::'


class Err(Exception):
    def __init__(self, kind):
        self.kind = kind


class Unspecified(Exception):
    pass


def f32(bits): return struct.unpack('<f', struct.pack('<I', bits))[0]
def f64(bits): return struct.unpack('<d', struct.pack('<Q', bits))[0]
def b64(x): return struct.unpack('<Q', struct.pack('<d', x))[0]


def b32(x):
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def d2f(x):
    """round a double to float32 bits (nearest even)"""
    if math.isnan(x) or math.isinf(x):
        return b32(x)
    return b32(x)


def wrap(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


BITS = {'i': 32, 'l': 64}


def num(v):
    k = v[0]
    if k in 'il': return v[1]
    if k == 'b': return v[1]
    if k == 'f': return f32(v[1])
    if k == 'd': return f64(v[1])
    raise Unspecified()


def isnan(v): return v[0] in 'fd' and math.isnan(num(v))


def mkf(k, x): return ('f', b32(x)) if k == 'f' else ('d', b64(x))


def fp_op(k, op, a, b):
    # exact double arithmetic on float32 operands rounds correctly to float32 (2p+2 <= 53)
    x, y = num(a), num(b)
    try:
        if op == '+': r = x + y
        elif op == '-': r = x - y
        elif op == '*': r = x * y
        elif op == '/':
            r = x / y
    except OverflowError:
        raise Unspecified()
    return mkf(k, r)


def arith(op, k, a, b):
    if k == 's':
        if op == '+': return ('s', a[1] + b[1])
        raise Unspecified()
    if k in 'il':
        n = BITS[k]
        x, y = a[1], b[1]
        if op == '+': r = x + y
        elif op == '-': r = x - y
        elif op == '*': r = x * y
        else:
            if y == 0: return NULL
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            r = q if op == '/' else x - q * y
        return (k, wrap(r, n))
    if op == '/' and num(b) == 0: return NULL
    return fp_op(k, op, a, b)


def rel(op, k, a, b):
    x, y = (a[1], b[1]) if k == 's' else (num(a), num(b))
    return ('b', int({'EQ': x == y, 'NE': x != y, 'GT': x > y, 'GE': x >= y, 'LT': x < y, 'LE': x <= y}[op]))


def round_half_away(x):
    r = math.floor(abs(x) + 0) if False else None
    from fractions import Fraction
    f = Fraction(x)
    a = abs(f)
    n = int(a)
    if a - n >= Fraction(1, 2): n += 1
    return -n if f < 0 else n


def int2float(v, k):
    if k == 'd': return ('d', b64(float(v)))
    # correct single rounding of an integer to float32
    if v == 0: return ('f', 0)
    s = 0x80000000 if v < 0 else 0
    a = abs(v)
    e = a.bit_length() - 1
    if e > 23:
        sh = e - 23
        m = a >> sh
        rem = a & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if rem > half or (rem == half and m & 1): m += 1
        if m >> 24:
            m >>= 1
            e += 1
    else:
        m = a << (23 - e)
    return ('f', s | ((e + 127) << 23) | (m & 0x7fffff))


def c_str(b): return b.split(b'\0')[0]


def str2int(b, n):
    s = c_str(b)
    i = 0
    while i < len(s) and s[i:i + 1] in b' \t\n\v\f\r': i += 1
    j = i
    if j < len(s) and s[j:j + 1] in b'+-': j += 1
    d = j
    while j < len(s) and 48 <= s[j] <= 57: j += 1
    if d == j: return 0
    v = int(s[i:j])
    if not -(1 << (n - 1)) <= v < 1 << (n - 1): raise Err(ANY_ERR)
    return v


def str2float(b, k):
    s = c_str(b)
    end = ctypes.c_char_p()
    ctypes.set_errno(0)
    buf = ctypes.create_string_buffer(s)
    base = ctypes.addressof(buf)
    p = ctypes.c_void_p()
    f = libc.strtod if k == 'd' else libc.strtof
    f.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_void_p)]
    r = f(base, ctypes.byref(p))
    if p.value == base: return mkf(k, 0.0)
    if ctypes.get_errno() == 34: raise Err(ANY_ERR)
    return mkf(k, r)


def fixed15(x):
    if math.isnan(x) or math.isinf(x): raise Unspecified()
    s = '%.15f' % x
    s = s.rstrip('0')
    if s.endswith('.'): s += '0'
    return s.encode()


def cast(dst, src, v, check):
    if dst == src: return v
    LIM = {'i': 'ExceedsLimits<(unsigned char)1>', 'l': 'ExceedsLimits<(unsigned char)2>'}
    if dst in 'il':
        n = BITS[dst]
        if src == 's': return (dst, str2int(v[1], n))
        if src in 'ilb':
            x = v[1]
        else:
            x = num(v)
            if math.isnan(x) or math.isinf(x):
                if check: raise Err(NS + LIM[dst])
                raise Unspecified()
            x = round_half_away(x)
            if not -(1 << (n - 1)) <= x < 1 << (n - 1):
                if check: raise Err(NS + LIM[dst])
                raise Unspecified()
        if not -(1 << (n - 1)) <= x < 1 << (n - 1):
            if check: raise Err(NS + LIM[dst])
        return (dst, wrap(x, n))
    if dst == 'b':
        if src == 's': raise Unspecified()
        return ('b', int(num(v) != 0))
    if dst in 'fd':
        if src == 's': return str2float(v[1], dst)
        if src in 'ilb': return int2float(v[1], dst)
        if dst == 'f': return ('f', d2f(num(v)))
        return ('d', b64(num(v)))
    if dst == 's':
        if src in 'il': return ('s', str(v[1]).encode())
        if src == 'b': return ('s', b'true' if v[1] else b'false')
        return ('s', fixed15(num(v)))


WS = b' \t\n\v\f\r'


def substr(s, a, b):
    a = max(a, 0)
    b = min(b, len(s))
    return s[a:b] if a < b else b''


def mid(s, p, n):
    L = len(s)
    if n is not None and n <= 0: return b''
    if 0 < p <= L: p -= 1
    elif -L <= p < 0: p += L
    else: return b''
    return s[p:] if n is None else s[p:p + n]


STRFUN = {
    0x21: ('ss', lambda a, b: a + b),
    0x22: ('s', lambda a: bytes(c + 32 if 65 <= c <= 90 else c for c in a)),
    0x23: ('s', lambda a: bytes(c - 32 if 97 <= c <= 122 else c for c in a)),
    0x24: ('si', lambda a, n: a[:max(n, 0)]),
    0x25: ('si', lambda a, n: a[max(len(a) - n, 0):] if n > 0 else b''),
    0x26: ('s', lambda a: a.strip(WS)),
    0x28: ('s', lambda a: a.lstrip(WS)),
    0x2A: ('s', lambda a: a.rstrip(WS)),
    0x2C: ('sii', substr),
    0x2D: ('si', lambda s, a: substr(s, a, len(s))),
    0x2E: ('sii', mid),
    0x2F: ('si', lambda s, p: mid(s, p, None)),
}
MATHFUN = {1: 'ceil', 2: 'floor', 7: 'sin', 8: 'cos', 9: 'tan', 10: 'asin', 11: 'acos', 12: 'atan', 13: 'sinh',
           14: 'cosh', 15: 'tanh', 16: 'exp', 17: 'log'}

AR = {0x81: 'POS', 0x82: 'NEG', 0x83: '+', 0x84: '-', 0x85: '*', 0x86: '/', 0x87: '%'}
CMP = {0x91: 'EQ', 0x92: 'GE', 0x93: 'GT', 0x94: 'LE', 0x95: 'LT', 0x96: 'NE'}
ISX = {0xA1: 'NULL', 0xA2: 'TRUE', 0xA3: 'FALSE'}
MX = {0xB1: 'MIN', 0xB2: 'MAX', 0xB3: 'ABS', 0xB4: 'ABSC'}

# documented opcode tables: which types each two-byte opcode supports
SUPPORT = {0x81: 'ilfd', 0x82: 'ilfd', 0x83: 'ilfds', 0x84: 'ilfds', 0x85: 'ilfd', 0x86: 'ilfd', 0x87: 'il'}
for c in CMP: SUPPORT[c] = 'ilbfds'
for c in ISX: SUPPORT[c] = 'ilbfds'
SUPPORT[0xB1] = SUPPORT[0xB2] = 'ilbfds'
SUPPORT[0xB3] = SUPPORT[0xB4] = 'ilfd'


def cast_supported(d, s):
    if d not in TYPES or s not in TYPES: return False
    return not (TYPES[d] == 'b' and TYPES[s] == 's')


def dec_varint(b, p, n):
    v = sh = 0
    for i in range(10):
        if p >= len(b): raise Err(ANY_ERR)
        c = b[p]
        p += 1
        if sh < n: v |= (c & 0x7f) << sh
        sh += 7
        if not c & 0x80:
            return v & ((1 << n) - 1), p
    raise Err(ANY_ERR)


UNK = NS + 'UnknownCode'


def decode(b):
    """-> (ops, pos, restype); raises Err."""
    ops = []
    p = 0
    while p < len(b):
        c = b[p]
        hi, lo = c >> 4, c & 15
        if c == 0:
            p += 1
            break
        if c in (0x51, 0x52, 0x53):
            ops.append((('NOT', 'AND', 'OR')[c - 0x51], 'b'))
            p += 1
        elif hi == 0 and lo in TYPES:
            ops.append(('CONST', TYPES[lo], NULL))
            p += 1
        elif hi == 1 and lo in TYPES:
            k = TYPES[lo]
            p += 1
            if k == 'b': v = ('b', 1)
            elif k in 'il':
                u, p = dec_varint(b, p, BITS[k])
                v = (k, wrap(u, BITS[k]))
            elif k in 'fd':
                n = 4 if k == 'f' else 8
                if len(b) - p < n: raise Err(ANY_ERR)
                v = (k, int.from_bytes(b[p:p + n], 'big'))
                p += n
            else:
                u, p = dec_varint(b, p, 32)
                if len(b) - p < u: raise Err(ANY_ERR)
                v = ('s', b[p:p + u])
                p += u
            ops.append(('CONST', k, v))
        elif hi == 2 and lo in (1, 2, 3):
            k = TYPES[lo]
            p += 1
            if k == 'b': v = ('b', 0)
            else:
                u, p = dec_varint(b, p, BITS[k])
                v = (k, wrap(-u, BITS[k]))
            ops.append(('CONST', k, v))
        elif hi == 3 and (lo in TYPES or lo == 6):
            u, p = dec_varint(b, p + 1, 32)
            ops.append(('VAR', TYPES.get(lo, 'D'), wrap(u, 32)))
        elif c in SUPPORT:
            if p + 1 >= len(b): raise Err(UNK)
            t = b[p + 1]
            if t not in TYPES or TYPES[t] not in SUPPORT[c]: raise Err(UNK)
            k = TYPES[t]
            if c in AR: ops.append((AR[c], k))
            elif c in CMP: ops.append((CMP[c], k))
            elif c in ISX: ops.append(('IS_' + ISX[c], k))
            else: ops.append((MX[c], k))
            p += 2
        elif c in (0xF0, 0xFC):
            if p + 1 >= len(b): raise Err(UNK)
            d, s = b[p + 1] >> 4, b[p + 1] & 15
            if not cast_supported(d, s): raise Err(UNK)
            if d != s: ops.append(('CAST' if c == 0xF0 else 'CASTC', TYPES[d], TYPES[s]))
            p += 2
        elif c == 0xF1:
            if p + 1 >= len(b): raise Err(UNK)
            f = b[p + 1]
            if f not in STRFUN and f not in MATHFUN: raise Err(UNK)
            ops.append(('FUN', f))
            p += 2
        else:
            raise Err(UNK)
    return ops, p


def op_type(op):
    o = op[0]
    if o in ('CONST', 'VAR', 'CAST', 'CASTC'): return {'D': 6}.get(op[1]) or CODE[op[1]]
    if o in ('NOT', 'AND', 'OR') or o in CMP.values() or o.startswith('IS_'): return 3
    if o == 'FUN': return 5 if op[1] in MATHFUN else 7
    return CODE[op[1]]


def need(v, k):
    if v[0] != k: raise Err(ANY_ERR)


def step(op, st, tup):
    o = op[0]

    def pop():
        if not st: raise Err(ANY_ERR)
        return st.pop()
    if o == 'CONST':
        st.append(op[2])
    elif o == 'VAR':
        if tup is None: raise Err(ANY_ERR)
        if not 0 <= op[2] < len(tup): raise Unspecified()
        st.append(tup[op[2]])
    elif o == 'NOT':
        v = pop()
        if v == NULL: st.append(NULL)
        else:
            need(v, 'b')
            st.append(('b', 1 - v[1]))
    elif o in ('AND', 'OR'):
        v1 = pop()
        v0 = pop()
        for v in (v0, v1):
            if v != NULL and v[0] != 'b': raise Unspecified()
        dom = 0 if o == 'AND' else 1
        if ('b', dom) in (v0, v1): st.append(('b', dom))
        elif NULL in (v0, v1): st.append(NULL)
        else: st.append(('b', 1 - dom))
    elif o.startswith('IS_'):
        v = pop()
        k = op[1]
        if o == 'IS_NULL': st.append(('b', int(v == NULL)))
        elif v == NULL: st.append(('b', 0))
        else:
            if k == 's':
                if v[0] != 's': raise Unspecified()
                st.append(('b', int(o == 'IS_FALSE')))
            else:
                need(v, k)
                st.append(('b', int((num(v) != 0) == (o == 'IS_TRUE'))))
    elif o in ('POS', 'NEG', 'ABS', 'ABSC', 'CAST', 'CASTC'):
        v = pop()
        if v == NULL:
            st.append(NULL)
            return
        k = op[2] if o.startswith('CAST') else op[1]
        need(v, k)
        if o.startswith('CAST'):
            st.append(cast(op[1], op[2], v, o == 'CASTC'))
        elif o == 'POS': st.append(v)
        elif k in 'fd':
            sb = 31 if k == 'f' else 63
            st.append((k, v[1] ^ (1 << sb) if o == 'NEG' else v[1] & ~(1 << sb)))
        else:
            n = BITS[k]
            if o == 'NEG': st.append((k, wrap(-v[1], n)))
            else:
                if o == 'ABSC' and v[1] == -(1 << (n - 1)):
                    raise Err(NS + 'ExceedsLimits<(unsigned char)%d>' % CODE[k])
                st.append((k, wrap(abs(v[1]), n)))
    elif o == 'FUN':
        f = op[1]
        if f in MATHFUN:
            v = pop()
            if v == NULL:
                st.append(NULL)
                return
            need(v, 'd')
            st.append(('d', b64(getattr(libm, MATHFUN[f])(num(v)))))
        else:
            sig, fn = STRFUN[f]
            vs = [pop() for _ in sig][::-1]
            if NULL in vs:
                st.append(NULL)
                return
            for v, k in zip(vs, sig): need(v, k)
            st.append(('s', fn(*[v[1] for v in vs])))
    else:
        v1 = pop()
        v0 = pop()
        k = op[1]
        if NULL in (v0, v1):
            st.append(NULL)
            return
        need(v0, k)
        need(v1, k)
        if o in ('MIN', 'MAX'): st.append(minmax(o, k, v0, v1))
        elif o in CMP.values(): st.append(rel(o, k, v0, v1))
        else:
            if o == '-' and k == 's': raise Unspecified()
            st.append(arith(o, k, v0, v1))


def minmax(o, k, a, b):
    x, y = (a[1], b[1]) if k == 's' else (num(a), num(b))
    if o == 'MIN': return b if y < x else a
    return b if x < y else a


def run(ops, tup):
    st = []
    for op in ops: step(op, st, tup)
    return st


# ---- text form used by the native driver ----
def show(v):
    if v == NULL: return 'n'
    k, x = v
    if k == 'f': return 'f:%08x' % x
    if k == 'd': return 'd:%016x' % x
    if k == 's': return 's:' + x.hex()
    return '%s:%d' % (k, x)


def parse(s):
    if s == 'n': return NULL
    k, x = s[0], s[2:]
    if k in 'fd': return (k, int(x, 16))
    if k == 's': return ('s', bytes.fromhex(x))
    return (k, int(x))


def show_tuple(t): return ','.join(map(show, t)) if t else '-'


def same(a, b):
    """equality of two shown values, any NaN equal to any NaN"""
    if a == b: return True
    try:
        x, y = parse(a), parse(b)
    except Exception:
        return False
    return x[0] == y[0] and isnan(x) and isnan(y)


# ---- relational programs ----
AGGK = {1: 'COUNT', 2: 'SUM', 3: 'MAX', 4: 'MIN'}
AGGS = {'COUNT': 'ilbfds', 'SUM': 'ilfd', 'MAX': 'ilfds', 'MIN': 'ilfds'}


def rel_decode(b):
    ops = []
    p = 0
    while p < len(b):
        c = b[p]
        if c in (0x71, 0x72):
            o, n = decode(b[p + 1:])
            ops.append(('F' if c == 0x71 else 'P', o))
            p += 1 + n
        elif c in (0x73, 0x74):
            p += 1
            idx = []
            if c == 0x73:
                if p >= len(b) or b[p] != 0x61: raise Err(ANY_ERR)
                n, p = dec_varint(b, p + 1, 64)
                if n > len(b) - p: raise Err(ANY_ERR)
                for _ in range(n):
                    if p >= len(b): raise Err(ANY_ERR)
                    u, p = dec_varint(b, p, 32)
                    idx.append(wrap(u, 32))
            n, p = dec_varint(b, p, 64)
            if n > len(b) - p: raise Err(ANY_ERR)
            aggs = []
            for _ in range(n):
                if p >= len(b): raise Err(ANY_ERR)
                a = b[p]
                p += 1
                if a == 0x10: aggs.append(('COUNTALL', None, None))
                else:
                    kk = AGGK.get(a >> 4)
                    t = TYPES.get(a & 15)
                    if kk is None or t is None or t not in AGGS[kk]: raise Err(ANY_ERR)
                    u, p = dec_varint(b, p, 32)
                    aggs.append((kk, t, wrap(u, 32)))
            ops.append(('G' if c == 0x73 else 'U', idx, aggs))
        else:
            raise Err(ANY_ERR)
    return ops, p


def agg_add(agg, var, tup):
    k, t, i = agg
    if k == 'COUNTALL': return ('l', (var[1] if var != NULL else 0) + 1)
    if not 0 <= i < len(tup): raise Unspecified()
    v = tup[i]
    if v == NULL: return var
    if k == 'COUNT': return ('l', (var[1] if var != NULL else 0) + 1)
    need(v, t)
    if var == NULL: return v
    if k == 'SUM': return arith('+', t, var, v)
    return minmax(k, t, var, v)


def keyeq(a, b):
    if a[0] != b[0]: return False
    if a == b: return not isnan(a)
    return a[0] in 'fd' and num(a) == num(b)


class RelOracle:
    """Groups are delivered in an unspecified order: get() returns one group and the caller
    compares the multiset of all outputs of a drain."""

    def __init__(self, ops):
        self.ops = ops
        self.st = [[] if o[0] == 'G' else None for o in ops]

    def put(self, tup, i=0):
        if i == len(self.ops): return tup
        o = self.ops[i]
        if o[0] == 'F':
            st = run(o[1], tup)
            if not st: raise Err(ANY_ERR)
            v = st[-1]
            if v != NULL: need(v, 'b')
            if v != ('b', 1): return None
            return self.put(tup, i + 1)
        if o[0] == 'P': return self.put(run(o[1], tup), i + 1)
        if o[0] == 'U':
            if self.st[i] is None: self.st[i] = [NULL] * len(o[2])
            self.st[i] = [agg_add(a, v, tup) for a, v in zip(o[2], self.st[i])]
            return None
        for x in o[1]:
            if not 0 <= x < len(tup): raise Unspecified()
        key = [tup[x] for x in o[1]]
        for e in self.st[i]:
            if len(e[0]) == len(key) and all(keyeq(x, y) for x, y in zip(e[0], key)): break
        else:
            e = [key, [NULL] * len(o[2])]
            self.st[i].append(e)
        e[1] = [agg_add(a, v, tup) for a, v in zip(o[2], e[1])]
        return None

    def get(self, n=None):
        n = len(self.ops) if n is None else n
        if n == 0: return None
        while True:
            t = self.get(n - 1)
            if t is None: break
            r = self._one(t, n - 1)
            if r is not None: return r
        o = self.ops[n - 1]
        if o[0] == 'U':
            r, self.st[n - 1] = self.st[n - 1], None
            return r
        if o[0] == 'G':
            if not self.st[n - 1]: return None
            e = self.st[n - 1].pop(0)
            return e[0] + e[1]
        return None

    def _one(self, t, i):
        saved = self.ops
        self.ops = saved[:i + 1]
        try:
            return self.put(t, i)
        finally:
            self.ops = saved

"""Bounded native cross-checks: scripts run against the real library (ASan build, allocation
counting), compared with the reference semantics of oracle.py.  Never counted as proved."""
import random, struct, subprocess, os, itertools
import oracle as o

I = [0, 1, -1, 2, 3, 7, -7, 10, 100, 2**31 - 1, -2**31, -2**31 + 1, 2**30, 46341]
L = I + [2**63 - 1, -2**63, -2**63 + 1, 2**32, 2**31, -2**31 - 1, 2**53 + 1, 2**62, 3037000500]
D = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.49999999999999994, 1e10, -3e9, 2147483647.0, 2147483647.5, 2147483646.5,
     -2147483648.0, -2147483648.5, -2147483649.0, 2147483648.0, 2.0**63, -2.0**63, 9223372036854774784.0, 1e300, float('inf'), float('-inf'),
     float('nan'), 1234.5678, 5e-324, 0.1, 4503599627370497.5, 16777217.0, 3.0, 1e15, 123456.0, 100.25]
S = [b'', b' ', b'a', b'abc', b' aB c\t', b'12', b'-3.5e2x', b'\xff\x00z', b'99999999999', b'ABC', b'nanx', b'0x10', b'\x0b\x85 ', b'abd', b'ab',
     b'\x00', b'a\x00b', b'a\x00c', b'\x80', b'\x7f', b' \x00 ', b'\t\n\v\f\r x \t\n\v\f\r', b'[`{@Zz', b'1.5', b'+7', b' 42 ', b'-2147483648', b'2147483648', b'9223372036854775807', b'9223372036854775808',
     b'1e400', b'abcdefghijklmnopqrstuvwxyz0123456789', b'x' * 300, b'.5', b'-', b'1e', b'infinity']


def varint(u):
    r = b''
    while True:
        if u < 128:
            return r + bytes([u])
        r += bytes([u & 127 | 128])
        u >>= 7


def enc_const(v, k=None):
    if v == o.NULL:
        return bytes([o.CODE[k or 'i']])
    k, x = v
    if k == 'b':
        return b'\x13' if x else b'\x23'
    if k in 'il':
        return bytes([(0x10 if x >= 0 else 0x20) | o.CODE[k]]) + varint(abs(x))
    if k == 'f':
        return b'\x14' + x.to_bytes(4, 'big')
    if k == 'd':
        return b'\x15' + x.to_bytes(8, 'big')
    return b'\x17' + varint(len(x)) + x


def var(k, i):
    return bytes([0x30 | o.CODE[k]]) + varint(i)


def rval(rnd, k, null=.12):
    if rnd.random() < null:
        return o.NULL
    if k == 'i':
        return ('i', rnd.choice(I) if rnd.random() < .7 else rnd.randint(-2**31, 2**31 - 1))
    if k == 'l':
        return ('l', rnd.choice(L) if rnd.random() < .7 else rnd.randint(-2**63, 2**63 - 1))
    if k == 'b':
        return ('b', rnd.randint(0, 1))
    if k == 'f':
        return ('f', o.b32(rnd.choice(D)) if rnd.random() < .8 else rnd.getrandbits(32))
    if k == 'd':
        return ('d', o.b64(rnd.choice(D)) if rnd.random() < .8 else rnd.getrandbits(64))
    return ('s', rnd.choice(S) if rnd.random() < .7 else bytes(rnd.choice(b'aAbB z\t \x00\xff09.-') for _ in range(rnd.randint(0, 9))))


class Bat:
    def __init__(self, drv, seed):
        self.drv, self.rnd = drv, random.Random(seed)
        self.lines, self.checks = [], []
        self.bad = []
        self.n = 0
        self.env = None

    def add(self, line, check):
        self.lines.append(line)
        self.checks.append(check)

    def exact(self, line, outs):
        """every statement's output must match (None: anything that is not an exception)"""
        def chk(f):
            if len(f) != len(outs):
                return 'expected %d results, got %d' % (len(outs), len(f))
            for got, e in zip(f, outs):
                m = match(got, e)
                if m:
                    return m
        self.add(line, chk)

    def expr(self, prog, tup, extra=True, bits=False):
        """decode + run one program on one tuple"""
        try:
            ops, pos = o.decode(prog)
        except o.Err as e:
            self.exact('new r;dec r %s' % prog.hex(), ['ok', ('err', e.kind)])
            return
        except o.Unspecified:
            return
        line = 'new r;dec r %s;type r;tup t %s;bind r t;run r' % (prog.hex(), o.show_tuple(tup))
        outs = ['ok', 'pos=%d' % pos, 't=%d' % (o.op_type(ops[-1]) if ops else 0), 'ok', 'ok']
        if any(x[0] == 'VAR' and not 0 <= x[2] < len(tup) for x in ops):
            # the caller's duty: only decode
            self.exact(line.split(';tup')[0], outs[:3])
            return
        try:
            r = o.run(ops, tup)
        except o.Err as e:
            self.exact(line, outs + [('err', e.kind)])
            return
        except o.Unspecified:
            self.exact(line, outs + [None])
            return
        line += ';all r;tupshow t'
        outs += ['ok', ('bits' if bits else 'tup', r), ('bits', tup)]
        if extra and r:
            line += ';get r;all r;run r;all r'
            outs += [('val', r[-1]), ('tup', r), 'ok', ('tup', r)]
        self.exact(line, outs)

    def run(self, jobs=4):
        n = len(self.lines)
        self.n += n
        if not n:
            return
        jobs = max(1, min(jobs, n // 400 + 1))
        step = (n + jobs - 1) // jobs
        ps = []
        for a in range(0, n, step):
            ps.append((a, min(n, a + step)))
        while ps:
            nxt = []
            procs = []
            for a, b in ps:
                p = subprocess.Popen([self.drv], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env)
                procs.append((p, a, b))
            import threading
            res = {}

            def feed(p, a, b):
                try:
                    res[a] = p.communicate(('\n'.join(self.lines[a:b]) + '\n').encode(), timeout=300)
                except subprocess.TimeoutExpired:
                    p.kill()
                    res[a] = p.communicate()
            th = [threading.Thread(target=feed, args=x) for x in procs]
            [t.start() for t in th]
            [t.join() for t in th]
            for p, a, b in procs:
                out = res[a][0].decode('latin1').split('\n')[:-1]
                for i, l in enumerate(out):
                    if a + i >= b:
                        break
                    f = l.split('|')
                    m = None
                    live = f.pop() if f and f[-1].startswith('live=') else 'live=?'
                    tail = None
                    if f and f[-1].startswith('outs='):
                        tail = f.pop()
                    try:
                        m = self.checks[a + i](f)
                    except (ValueError, IndexError, TypeError) as e:
                        m = 'unreadable output'
                    if m is None and live != 'live=0':
                        m = 'objects not released exactly once: ' + live
                    if m is None and tail is not None:
                        stm = self.lines[a + i].split(';')
                        kept = ''.join(x[x.index('['):] for x, y in zip(f, stm) if x.startswith(('same[', 'new[')) and not y.startswith('puts '))
                        if tail[5:] != kept:
                            m = 'a returned tuple changed afterwards'
                    if m:
                        self.bad.append((self.lines[a + i], l, m))
                if len(out) < b - a and len(self.bad) < 40:
                    k = a + len(out)
                    err = res[a][1].decode('latin1')
                    why = [x for x in err.split('\n') if 'ERROR' in x or 'SUMMARY' in x or 'terminate' in x or 'what()' in x][:2]
                    self.bad.append((self.lines[k], '', 'the process ends abnormally (%s) %s' % (p.returncode, ' '.join(why)[:300])))
                    if k + 1 < b:
                        nxt.append((k + 1, b))
            ps = nxt
        self.lines, self.checks = [], []


def match(got, e):
    if e is None:
        return None
    if isinstance(e, str):
        return None if got == e else 'expected %s, got %s' % (e, got)
    k = e[0]
    if k == 'err':
        if not got.startswith('X:'):
            return 'expected an error, got ' + got
        if e[1] != '*' and not got.startswith('X:' + e[1] + ':'):
            return 'expected error %s, got %s' % (e[1], got)
        return None
    if k == 'in':
        return None if got in e[1] else 'expected one of %s, got %s' % (e[1], got)
    if k == 'val':
        return None if o.same(got, o.show(e[1])) else 'expected %s, got %s' % (o.show(e[1]), got)
    if k == 'bits':     # NaNs bit by bit
        return None if got == '[%s]' % ','.join(map(o.show, e[1])) else 'expected [%s], got %s' % (','.join(map(o.show, e[1])), got)
    if k == 'tup':
        return None if tup_same(got, e[1]) else 'expected [%s], got %s' % (','.join(map(o.show, e[1])), got)
    if k == 'row':      # ('row', 'same'|'new', values)
        if e[2] is None:
            return None if got == 'nil' else 'expected no row, got ' + got
        if e[1] == 'new?':              # a released address may be handed out again
            e = (k, got[:got.find('[')] if got.startswith(('new[', 'same[')) else 'new', e[2])
        if not got.startswith(e[1] + '['):
            return 'expected %s row [%s], got %s' % (e[1], ','.join(map(o.show, e[2])), got)
        return None if tup_same(got[len(e[1]):], e[2]) else 'expected [%s], got %s' % (','.join(map(o.show, e[2])), got)
    raise ValueError(k)


def tup_same(s, t):
    if not (s.startswith('[') and s.endswith(']')):
        return False
    x = s[1:-1].split(',') if len(s) > 2 else []
    return len(x) == len(t) and all(o.same(a, o.show(b)) for a, b in zip(x, t))


# ---------------------------------------------------------------- expression operators
def op_shapes(pred):
    """(code bytes, operand kinds) of every supported operator whose decoded form satisfies pred"""
    import spec
    out = []
    for bs, op in spec.all_ops():
        if not pred(op):
            continue
        f = op[0]
        if f in ('NOT',):
            k = 'b'
        elif f in ('AND', 'OR'):
            k = 'bb'
        elif f.startswith('IS_') or f in ('POS', 'NEG', 'ABS', 'ABSC'):
            k = op[1]
        elif f in ('CAST', 'CASTC'):
            k = op[2]
        elif f == 'FUN':
            k = o.STRFUN[op[1]][0] if op[1] in o.STRFUN else 'd'
        else:
            k = op[1] * 2
        out.append((bs, k))
    return out


POOL = {'i': [('i', x) for x in I], 'l': [('l', x) for x in L], 'b': [('b', 0), ('b', 1)], 'f': [('f', o.b32(x)) for x in D],
        'd': [('d', o.b64(x)) for x in D], 's': [('s', x) for x in S]}
SMALLI = [('i', x) for x in (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 2**31 - 1, -2**31)]


def b_op(b, bs, kinds, n):
    """boundary products + random operands; operands taken from variables or constants"""
    rnd = b.rnd
    pools = [(SMALLI if k == 'i' and bs[0] == 0xF1 else POOL[k]) + [o.NULL] for k in kinds]
    if len(kinds) == 3:
        pools[0] = [('s', x) for x in (b'', b'a', b'ab', b'abc', b'abcd', b'x\x00y')] + [o.NULL]
    tups = list(itertools.product(*pools))
    if len(tups) > n:
        tups = [t for t in tups if o.NULL in t and rnd.random() < .3] + rnd.sample(tups, n)
    for _ in range(n // 4 + 4):
        tups.append(tuple(rval(rnd, k) for k in kinds))
    for t in tups:
        m = rnd.random()
        # something below the operands, to see that it stays
        pre = enc_const(('i', 77)) if m < .3 else b''
        if m < .85:
            prog = pre + b''.join(var(k, i) for i, k in enumerate(kinds)) + bs
        else:
            prog = pre + b''.join(enc_const(v, k) for v, k in zip(t, kinds)) + bs
        b.expr(prog, list(t), extra=m < .4)


def ops_battery(pred, scale=1):
    def f(b, tier):
        sh = op_shapes(pred)
        n = max(40, int((9000 if tier == 'quick' else 90000) * scale / max(1, len(sh))))
        for bs, k in sh:
            b_op(b, bs, k, n)
    return f


def nulls(b, tier):
    rnd = b.rnd
    for bs, kinds in op_shapes(lambda op: True):
        for _ in range(30 if tier == 'quick' else 300):
            t = [rval(rnd, k, .4) for k in kinds]
            b.expr(b''.join(var(k, i) for i, k in enumerate(kinds)) + bs, t, False)
        # NULL together with an operand of another type
        if len(kinds) > 1:
            for i in range(len(kinds)):
                for k2 in 'ilbfds':
                    t = [rval(rnd, k2, 0) for k in kinds]
                    t[i] = o.NULL
                    b.expr(b''.join(var(k, j) for j, k in enumerate(kinds)) + bs, t, False)


# ---------------------------------------------------------------- random well-typed programs
class Gen:
    def __init__(self, rnd, cols):
        self.rnd, self.cols = rnd, cols

    def leaf(self, k):
        r = self.rnd
        cs = [i for i, c in enumerate(self.cols) if c == k]
        if cs and r.random() < .6:
            return var(k, r.choice(cs))
        v = rval(r, k)
        return enc_const(v, k)

    def e(self, k, d):
        r = self.rnd
        if d <= 0 or r.random() < .2:
            return self.leaf(k)
        if k == 'b':
            x = r.random()
            if x < .3:
                t = r.choice('ilbfds')
                return self.e(t, d - 1) + self.e(t, d - 1) + bytes([r.choice(list(o.CMP)), o.CODE[t]])
            if x < .5:
                return self.e('b', d - 1) + self.e('b', d - 1) + bytes([r.choice([0x52, 0x53])])
            if x < .6:
                return self.e('b', d - 1) + b'\x51'
            if x < .8:
                t = r.choice('ilbfds')
                return self.e(t, d - 1) + bytes([r.choice([0xA1, 0xA2, 0xA3]), o.CODE[t]])
            t = r.choice('ilfd')
            return self.e(t, d - 1) + bytes([0xF0, 0x30 | o.CODE[t]])
        if k == 's':
            f = r.choice(list(o.STRFUN) + [0] * 4)
            if f == 0:
                t = r.choice('ilb')
                return self.e(t, d - 1) + bytes([0xF0, 0x70 | o.CODE[t]])
            out = b''
            for t in o.STRFUN[f][0]:
                out += self.e('s', d - 1) if t == 's' else enc_const(('i', r.randint(-4, 6)))
            return out + bytes([0xF1, f])
        x = r.random()
        if x < .5:
            c = r.choice([0x83, 0x84, 0x85, 0x86, 0x87] if k in 'il' else [0x83, 0x84, 0x85, 0x86])
            return self.e(k, d - 1) + self.e(k, d - 1) + bytes([c, o.CODE[k]])
        if x < .65:
            return self.e(k, d - 1) + bytes([r.choice([0x81, 0x82, 0xB3]), o.CODE[k]])
        if x < .8:
            return self.e(k, d - 1) + self.e(k, d - 1) + bytes([r.choice([0xB1, 0xB2]), o.CODE[k]])
        t = r.choice([z for z in 'ilb' if z != k])
        return self.e(t, d - 1) + bytes([0xF0, o.CODE[k] << 4 | o.CODE[t]])


def rcols(rnd, n=None):
    return [rnd.choice('ilbfds') for _ in range(n if n is not None else rnd.randint(1, 5))]


def rrow(rnd, cols, null=.2):
    return [rval(rnd, k, null) for k in cols]


def programs(b, tier):
    """random programs: several results, end mark, reuse of one evaluator"""
    rnd = b.rnd
    for _ in range(2500 if tier == 'quick' else 25000):
        cols = rcols(rnd)
        g = Gen(rnd, cols)
        prog = b''.join(g.e(rnd.choice('ilbfds'), 3) for _ in range(rnd.randint(1, 4)))
        if rnd.random() < .3:
            prog += b'\0' + bytes(rnd.getrandbits(8) for _ in range(rnd.randint(0, 4)))
        b.expr(prog, rrow(rnd, cols))


SHARED = [b'\x13', b'\x23', b'\x01', b'\x05', b'\x07', b'\x13\x23\x53', b'\x13\x51', b'\x06', b'\x03\x13\x52']


def session_prog(rnd, cols):
    x = rnd.random()
    if x < .15:         # shared operators only
        prog = b''.join(rnd.choice(SHARED) for _ in range(rnd.randint(1, 3)))
    elif x < .22:       # nothing at all
        prog = b''
    elif x < .28:       # owned operators only
        prog = b''.join(enc_const(rval(rnd, rnd.choice('ilfds'), 0)) for _ in range(rnd.randint(1, 4)))
    else:
        g = Gen(rnd, cols)
        prog = b''.join(g.e(rnd.choice('ilbfds'), 2) for _ in range(rnd.randint(1, 3)))
        if rnd.random() < .3:       # a program that fails at run time
            prog = enc_const(('i', 1)) + enc_const(('i', -2**31)) + b'\xb4\x01' + prog
        if rnd.random() < .1:
            prog += b'\x52'         # possibly too few operands
        if rnd.random() < .06:
            prog += rnd.choice([b'\x99', b'\x17\x05a', b'\x14\0', b'\x83\x99'])
    if rnd.random() < .2:
        prog += b'\0' + bytes(rnd.getrandbits(8) for _ in range(rnd.randint(0, 3)))
    return prog


def sessions(b, tier):
    """interleaved evaluators, re-binding, failed runs, re-decoding"""
    rnd = b.rnd
    for _ in range(1200 if tier == 'quick' else 12000):
        cols = rcols(rnd, 3)
        stm, outs = [], []
        rs = {}
        tups = {}
        for t in 'tuv':
            tups[t] = rrow(rnd, cols)
            stm.append('tup %s %s' % (t, o.show_tuple(tups[t])))
            outs.append('ok')
        for r in 'pq':
            stm.append('new ' + r)
            outs.append('ok')
            rs[r] = dict(ops=None, tup=None, st=None)
        try:
            for _ in range(rnd.randint(4, 14)):
                r = rnd.choice('pq')
                m = rs[r]
                x = rnd.random()
                if m['ops'] is None or x < .15:
                    prog = session_prog(rnd, cols)
                    stm.append('dec %s %s' % (r, prog.hex()))
                    m['st'] = None
                    try:
                        ops, pos = o.decode(prog)
                    except o.Err as e:          # a rejected program: what the evaluator then holds is not specified
                        outs.append(('err', e.kind))
                        m['ops'] = None
                        continue
                    m['ops'] = ops
                    outs.append('pos=%d' % pos)
                    stm.append('type ' + r)
                    outs.append('t=%d' % (o.op_type(ops[-1]) if ops else 0))
                elif x < .4:
                    t = rnd.choice('tuv-')
                    m['tup'] = None if t == '-' else tups[t]
                    stm.append('bind %s %s' % (r, t))
                    outs.append('ok')
                elif x < .75:
                    stm.append('run ' + r)
                    try:
                        m['st'] = o.run(m['ops'], m['tup'])
                        outs.append('ok')
                    except o.Err as e:
                        outs.append(('err', e.kind))
                        m['st'] = None
                elif m['st'] is not None:
                    if not m['st'] or rnd.random() < .5:
                        stm.append('all ' + r)
                        outs.append(('tup', m['st']))
                    else:
                        stm.append('get ' + r)
                        outs.append(('val', m['st'][-1]))
                        v = m['st'][-1]
                        k = {6: None}.get(o.op_type(m['ops'][-1]), o.TYPES.get(o.op_type(m['ops'][-1])))
                        if k and (v == o.NULL or v[0] == k):
                            stm.append('opt %s %s' % (r, k))
                            outs.append('none' if v == o.NULL else ('val', v))
        except (o.Unspecified, o.Err):
            continue
        for t in 'tuv':
            stm.append('tupshow ' + t)
            outs.append(('tup', tups[t]))
        b.exact(';'.join(stm), outs)


def immediates(b, tier):
    rnd = b.rnd
    vals = []
    for k in 'il':
        n = o.BITS[k]
        for i in range(n):
            for d in (-1, 0, 1):
                for s in (1, -1):
                    v = s * ((1 << i) + d)
                    if -(1 << (n - 1)) <= v < 1 << (n - 1):
                        vals.append((k, v))
        vals += [(k, -(1 << (n - 1))), (k, (1 << (n - 1)) - 1)]
    vals += POOL['f'] + POOL['d'] + POOL['s'] + POOL['b']
    for n in (126, 127, 128, 129, 255, 256, 16383, 16384, 20000, 32767, 32768, 65535, 65536, 65543, 131073):
        vals.append(('s', bytes(rnd.getrandbits(8) for _ in range(n))))
    for u in (0x7f800001, 0xff800001, 0x7fbfffff, 0x7fc00001, 0xffc00000, 0xffffffff):
        vals.append(('f', u))
    for u in (0x7ff0000000000001, 0xfff0000000000001, 0x7ff7ffffffffffff, 0x7ff8000000000001, 0xfff8000000000000, 0xffffffffffffffff):
        vals.append(('d', u))
    vals += [rval(rnd, rnd.choice('ilfds'), 0) for _ in range(600 if tier == 'quick' else 20000)]
    for v in vals:
        p = enc_const(v)
        if rnd.random() < .5:
            p += enc_const(rval(rnd, rnd.choice('ilbfds'), 0)) + b'\0\x99'
        b.expr(p, [], bits=True)
    for k in 'ilbfds':
        b.expr(bytes([o.CODE[k]]) + enc_const(('i', 5)), [])
    # forms a canonical encoder does not write
    for c in (0x11, 0x12, 0x21, 0x22, 0x31):
        for _ in range(60 if tier == 'quick' else 2000):
            n = rnd.randint(1, 11)
            bs = bytes([rnd.getrandbits(8) | 128 for _ in range(n - 1)] + [rnd.getrandbits(7)])
            if c == 0x31:
                bs = bytes([128 | rnd.randint(0, 2)] + [128] * (n - 1) + [0])
            b.expr(bytes([c]) + bs + b'\x13', [('i', 4), o.NULL, ('i', -9)], False)
    for c in range(256):     # truncations
        for _ in range(3):
            b.expr(bytes([c]) + bytes(rnd.getrandbits(8) | 128 for _ in range(rnd.randint(0, 4))), [('i', 1)] * 3, False)


def decoding(b, tier):
    rnd = b.rnd
    # every first byte with every second byte, after enough operands
    for c in range(256):
        for d in range(256) if c in (0xF0, 0xFC, 0xF1, 0x71) or tier == 'thorough' or c in o.SUPPORT else list(range(10)) + [0x2a, 0x7f]:
            p = bytes([c, d])
            stm = 'new r;dec r %s' % p.hex()
            try:
                ops, pos = o.decode(p)
                b.exact(stm + ';type r', ['ok', 'pos=%d' % pos, 't=%d' % (o.op_type(ops[-1]) if ops else 0)])
            except o.Err as e:
                b.exact(stm, ['ok', ('err', e.kind)])
    for c in range(256):
        p = bytes([c])
        try:
            ops, pos = o.decode(p)
            b.exact('new r;dec r %s' % p.hex(), ['ok', 'pos=%d' % pos])
        except o.Err as e:
            b.exact('new r;dec r %s' % p.hex(), ['ok', ('err', e.kind)])
    redecoding(b, 500 if tier == 'quick' else 8000, 'dec')
    garbage(b, tier)


def decoding_same(b, tier):
    redecoding(b, 500 if tier == 'quick' else 8000, 'decs')


def redecoding(b, n, dec):
    """several programs into one evaluator: only the last one counts"""
    rnd = b.rnd
    for _ in range(n):
        cols = rcols(rnd, 3)
        row = rrow(rnd, cols)
        stm, outs = ['new r', 'tup t ' + o.show_tuple(row), 'bind r t'], ['ok'] * 3
        last = None
        p = b''
        for _ in range(rnd.randint(2, 4)):
            if rnd.random() < .6 or not p:
                p = session_prog(rnd, cols)
            else:                   # another program of the same length
                q = bytearray(p)
                q[rnd.randrange(len(q))] ^= rnd.choice([1, 2, 4, 0x10, 0x20])
                p = bytes(q)
            try:
                if any(x[0] == 'VAR' and not 0 <= x[2] < len(cols) for x in o.decode(p)[0]):
                    p = p[:0]
            except o.Unspecified:
                p = p[:0]
            except o.Err:
                pass
            stm.append(dec + ' r ' + p.hex())
            try:
                last, pos = o.decode(p)
                outs.append('pos=%d' % pos)
                stm.append('type r')
                outs.append('t=%d' % (o.op_type(last[-1]) if last else 0))
            except o.Err as e:
                last = None
                outs.append(('err', e.kind))
        if last is not None:
            try:
                st = o.run(last, row)
                stm += ['run r', 'all r', 'run r', 'all r']
                outs += ['ok', ('tup', st)] * 2
            except o.Err as e:
                stm += ['run r']
                outs += [('err', e.kind)]
            except o.Unspecified:
                pass
        b.exact(';'.join(stm), outs)


CODEPOOL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x21, 0x22, 0x23, 0x31, 0x51, 0x52, 0x53, 0x81, 0x83, 0x86, 0x91,
            0xa1, 0xb3, 0xf0, 0xf1, 0xfc, 0x21, 0x88, 0x12, 0x33, 0x80, 0xff]


def garbage(b, tier):
    rnd = b.rnd
    for _ in range(6000 if tier == 'quick' else 80000):
        ln = rnd.randint(0, 12)
        b.expr(bytes(rnd.choice(CODEPOOL) if rnd.random() < .9 else rnd.getrandbits(8) for _ in range(ln)), [('i', 3), ('s', b'x')] * 8)
    for _ in range(1500 if tier == 'quick' else 20000):
        cols = rcols(rnd)
        g = Gen(rnd, cols)
        p = bytearray(b''.join(g.e(rnd.choice('ilbfds'), 2) for _ in range(2)))
        for _ in range(rnd.randint(1, 3)):
            x = rnd.random()
            if not p:
                break
            i = rnd.randrange(len(p))
            if x < .4:
                p[i] = rnd.getrandbits(8)
            elif x < .7:
                del p[i:]
            else:
                p.insert(i, rnd.choice(CODEPOOL))
        b.expr(bytes(p), (rrow(rnd, cols) * 12)[:12])


def long_garbage(b, tier):
    """long buffers with something wrong early, in the middle or at the end"""
    rnd = b.rnd
    for n in (60, 127, 128, 255, 256, 257, 300, 511, 512, 513, 600, 1023, 1025, 2048, 4097, 33000, 70000):
        for bad in (b'\x0f', b'\x81\x09', b'\xf1\x7f', b'\xf0\x88', b'\x16\0', b'\x99', b'\x51\xff'):
            k = rnd.choice([0, 0, 1, n // 3, n])
            p = b'\x13' * k + bad + bytes(rnd.getrandbits(8) for _ in range(n))
            b.expr(p, [], False)
            b.exact('rnew q;rdec q ' + (b'\x72\x13\0' * min(k, 9) + bad + p).hex(), ['ok', ('err', '*')])
            b.exact('rnew q;rdec q ' + (b'\x74\x01' + bytes([rnd.choice([0x17, 0x1f, 0x27, 0x99, 0x99])]) + p).hex(), ['ok', ('err', '*')]) if bad == b'\x99' else None


def bad_types(b, tier):
    """operators applied to operands of other types, and to too few operands: an error, never a crash"""
    rnd = b.rnd
    for bs, kinds in op_shapes(lambda op: True):
        for _ in range(6 if tier == 'quick' else 60):
            n = rnd.randint(0, len(kinds))
            ks = [rnd.choice('ilbfds') for _ in range(n)]
            b.expr(b''.join(var(k, i) for i, k in enumerate(ks)) + bs, [rval(rnd, k) for k in ks] or [o.NULL], False)


def variables(b, tier):
    rnd = b.rnd
    for _ in range(800 if tier == 'quick' else 8000):
        n = rnd.choice([1, 2, 3, 5, 130, 200])
        cols = rcols(rnd, n)
        a, c = rrow(rnd, cols), rrow(rnd, cols)
        idx = [rnd.randrange(n) for _ in range(rnd.randint(1, 4))]
        p = b''.join(var(cols[i], i) for i in idx)
        b.exact('new r;dec r %s;run r;tup t %s;tup u %s;bind r t;run r;all r;bind r u;run r;all r;bind r -;run r;bind r t;run r;get r;tupshow t;tupshow u'
                % (p.hex(), o.show_tuple(a), o.show_tuple(c)),
                ['ok', None, ('err', '*'), 'ok', 'ok', 'ok', 'ok', ('bits', [a[i] for i in idx]), 'ok', 'ok', ('bits', [c[i] for i in idx]), 'ok',
                 ('err', '*'), 'ok', 'ok', ('val', a[idx[-1]]), ('bits', a), ('bits', c)])
        # the bound tuple grows and changes in place
        m = min(n, rnd.choice([0, 0, 1, 2]))
        b.exact('new r;dec r %s;tup t %s;bind r t;tupset t %s;run r;all r;tupset t %s;run r;all r'
                % (p.hex(), o.show_tuple(a[:m]), o.show_tuple(a), o.show_tuple(c)),
                ['ok', None, 'ok', 'ok', 'ok', 'ok', ('bits', [a[i] for i in idx]), 'ok', 'ok', ('bits', [c[i] for i in idx])])


def opts(b, tier):
    rnd = b.rnd
    for _ in range(800 if tier == 'quick' else 8000):
        k = rnd.choice('ilbfds')
        v = rval(rnd, k, .3)
        p = enc_const(v, k) if rnd.random() < .5 else var(k, 0)
        p = enc_const(rval(rnd, 'i')) + p
        b.exact('new r;dec r %s;type r;tup t %s;bind r t;run r;opt r %s;get r;opt r %s' % (p.hex(), o.show_tuple([v]), k, k),
                ['ok', None, 't=%d' % o.CODE[k], 'ok', 'ok', 'ok', 'none' if v == o.NULL else ('val', v), ('val', v), 'none' if v == o.NULL else ('val', v)])


def retype(b, tier):
    """the type of each of several programs decoded one after the other"""
    rnd = b.rnd
    for _ in range(300 if tier == 'quick' else 3000):
        stm, outs = ['new r', 'type r'], ['ok', 't=0']
        for _ in range(rnd.randint(2, 4)):
            cols = rcols(rnd)
            k = rnd.choice('ilbfds')
            p = Gen(rnd, cols).e(k, rnd.randint(0, 2)) if rnd.random() < .9 else b''
            try:
                ops, _ = o.decode(p)
            except (o.Err, o.Unspecified):
                continue
            stm.append('dec r ' + p.hex())
            outs.append(None)
            for _ in range(rnd.choice([1, 1, 2])):
                stm.append('type r')
                outs.append('t=%d' % (o.op_type(ops[-1]) if ops else 0))
            if rnd.random() < .5:
                t = rrow(rnd, cols) or [o.NULL]
                x = 't%d' % len(stm)
                stm += ['tup %s %s' % (x, o.show_tuple(t)), 'bind r ' + x, 'run r']
                outs += ['ok', 'ok', None]
        b.exact(';'.join(stm), outs)


def wide(b, tier):
    """variables with large indices"""
    rnd = b.rnd
    for n in (127, 128, 255, 256, 300, 16384, 32767, 32768, 65535, 65536, 65539, 100000):
        for k in 'ils':
            v, w = rval(rnd, k, 0), rval(rnd, k, 0)
            j = n & 255 if n & 255 != n else 0
            st = sorted({j: w, n & 0xFFFF: w, n & 0x7FFF: w, n: v}.items())
            b.exact('new r;dec r %s;tupw t %d %s;bind r t;run r;all r' % (var(k, n).hex(), n + 1, ','.join('%d=%s' % (i, o.show(x)) for i, x in st)),
                    ['ok', None, 'ok', 'ok', 'ok', ('tup', [v])])


def long_programs(b, tier):
    """programs with many operators"""
    rnd = b.rnd
    for n in (30, 33, 64, 65, 100, 129, 200, 257, 300, 600) * (1 if tier == 'quick' else 4):
        cols = rcols(rnd, 3)
        mode = rnd.random()
        k = rnd.choice('ilfds')
        if mode < .4:
            p = b''.join(enc_const(rval(rnd, k, 0)) for _ in range(n))
        elif mode < .6:
            p = b''.join(var(cols[i % 3], i % 3) for i in range(n))
        elif mode < .8:
            p = enc_const(('i', 1)) + (enc_const(('i', 1)) + b'\x83\x01') * n
        else:
            p = b''.join(rnd.choice([enc_const(rval(rnd, rnd.choice('ilfds'), 0)), var(cols[0], 0), b'\x13', b'\x05']) for _ in range(n))
        b.expr(p, rrow(rnd, cols))


# ---------------------------------------------------------------- helpers and operands
def hexes(b, tier):
    rnd = b.rnd
    d = b'0123456789ABCDEF'
    for c in range(-128, 256):
        ch = c & 255
        t = bytes([ch])
        v = int(t, 16) if t in [bytes([x]) for x in b'0123456789abcdefABCDEF'] else -1
        b.exact('h2n %d' % c, [str(v)])
    for n in list(range(-40, 300)) + [2**31 - 1, -2**31, 1 << 20]:
        b.exact('n2h %d' % n, [str(d[n] if 0 <= n < 16 else 0)] if 0 <= n < 16 else [('in', ['0', '255'])])
    for n in list(range(0, 40)) * (3 if tier == 'quick' else 20) + [100, 1000]:
        x = bytes(rnd.getrandbits(8) for _ in range(n))
        h = x.hex().upper().encode()
        b.exact('b2h %s' % x.hex() if n else 'b2h', [h.hex() + '5a/' + x.hex()])
        b.exact('hob %s' % x.hex() if n else 'hob', ['s:' + h.hex()])
        m = bytes(c if rnd.random() < .5 else ord(chr(c).lower()) for c in h)
        b.exact('h2b %s' % m.hex() if n else 'h2b', [x.hex() + '5a/' + m.hex()])
        m += bytes([rnd.choice(b'0aF9')])       # an odd digit at the end is left alone
        b.exact('h2b %s' % m.hex(), [x.hex() + '5a/' + m.hex()])
    for n in (127, 128, 129, 255, 256, 257, 511, 512, 513, 4096, 16384, 32767, 32768, 32770, 65536, 65539, 131075):
        x = bytes(rnd.getrandbits(8) for _ in range(n))
        h = x.hex().upper().encode()
        b.exact('b2h %s' % x.hex(), [h.hex() + '5a/' + x.hex()])
        b.exact('hob %s' % x.hex(), ['s:' + h.hex()])
        b.exact('h2b %s' % h.hex(), [x.hex() + '5a/' + h.hex()])


def operands(b, tier):
    rnd = b.rnd
    n = 1500 if tier == 'quick' else 20000

    def near(v):
        if v == o.NULL:
            return rnd.choice([v, rval(rnd, rnd.choice('ilbfds'))])
        x = rnd.random()
        if x < .4:
            return v
        if x < .6 and v[0] in 'ilb':
            return (rnd.choice('il'), v[1] if v[0] != 'l' else o.wrap(v[1], 32))
        if v[0] in 'fd' and o.num(v) == 0:
            return (v[0], v[1] ^ (1 << (31 if v[0] == 'f' else 63)))
        return rval(rnd, v[0])
    for _ in range(n):
        v = rval(rnd, rnd.choice('ilbfds'), .15)
        w = near(v)
        e = v == o.NULL and w == o.NULL or o.keyeq(v, w)
        sv, sw = o.show(v), o.show(w)
        b.exact('oshow %s' % sv, [('val', v)])
        b.exact('ocopy %s' % sv, [('in', [sv + ',' + sv + ',i:7'])] if not o.isnan(v) else [None])
        b.exact('oeq %s %s' % (sv, sw), ['%d%d%d%d' % (e, not e, v == o.NULL, v != o.NULL)])
        b.exact('ohash %s %s' % (sv, sw), ['1'] if e else [None])
        k = rnd.choice('ilbfds')
        b.exact('oget %s %s' % (sv, k), [('val', v) if v[0] == k else ('err', '*')])
        k = v[0] if v != o.NULL else k
        b.exact('oany %s %s' % (sv, k), [('in', ['v=' + sv])] if v != o.NULL else ['none=n'])
    for _ in range(n // 2):
        t = rrow(rnd, rcols(rnd, rnd.randint(0, 5)))
        u = [near(x) for x in t] if rnd.random() < .5 else [x if not (x[0] in 'fd' and o.num(x) == 0) else (x[0], x[1] ^ (1 << (31 if x[0] == 'f' else 63))) for x in t]
        e = all((x == o.NULL and y == o.NULL) or o.keyeq(x, y) for x, y in zip(t, u))
        if rnd.random() < .1:
            u = u + [o.NULL]
            e = False
        b.exact('thash %s %s' % (o.show_tuple(t), o.show_tuple(u)), ['11'] if e else [('in', ['00', '01'])])


def tuples(b, tier):
    rnd = b.rnd
    for _ in range(600 if tier == 'quick' else 6000):
        t = rrow(rnd, rcols(rnd, rnd.randint(0, 6)))
        u = rrow(rnd, rcols(rnd, rnd.randint(0, 6)))
        s = lambda x: '[' + ','.join(map(o.show, x)) + ']'
        if any(o.isnan(x) for x in t + u):
            continue
        b.exact('concat %s %s' % (o.show_tuple(t), o.show_tuple(u)), [s(t + u) + s(t) + s(u)])
        if t:
            ix = [rnd.randrange(len(t)) for _ in range(rnd.randint(0, 5))]
            b.exact('map %s %s' % (o.show_tuple(t), ','.join(map(str, ix)) or '-'), [s([t[i] for i in ix]) + s(t)])


# ---------------------------------------------------------------- relational programs
class RelGen:
    def __init__(self, rnd, kinds='FPGU', fail=0.0):
        self.rnd, self.kinds, self.fail = rnd, kinds, fail

    def agg(self, cols):
        r = self.rnd
        k = r.choice(['COUNTALL', 'COUNT', 'SUM', 'MIN', 'MAX'])
        if k == 'COUNTALL':
            return b'\x10', 'l'
        c = [i for i, t in enumerate(cols) if t in o.AGGS[k]]
        if not c:
            return b'\x10', 'l'
        i = r.choice(c)
        code = {'COUNT': 1, 'SUM': 2, 'MAX': 3, 'MIN': 4}[k]
        return bytes([code << 4 | o.CODE[cols[i]]]) + varint(i), 'l' if k == 'COUNT' else cols[i]

    def aggs(self, cols):
        l = [self.agg(cols) for _ in range(self.rnd.choice([0, 1, 1, 2, 3, 4]))]
        return varint(len(l)) + b''.join(x for x, _ in l), [t for _, t in l]

    def chain(self, cols, n):
        r = self.rnd
        out, kinds = b'', ''
        for _ in range(n):
            k = r.choice(self.kinds)
            kinds += k
            g = Gen(r, cols)
            if k == 'F':
                out += b'\x71' + g.e('b', 2) + (b'' if self.fail < r.random() else b'\x01\x21' + varint(2**31) + b'\xb4\x01') + b'\0'
            elif k == 'P':
                ks = rcols(r, r.randint(1, 4) if r.random() < .94 else 0)
                out += b'\x72' + b''.join(g.e(t, 2) for t in ks) + b'\0'
                cols = ks
            elif k == 'U':
                e, cols = self.aggs(cols)
                out += b'\x74' + e
            else:
                ix = [r.randrange(len(cols)) for _ in range(r.randint(0 if not cols else 1, 3))] if cols else []
                e, ts = self.aggs(cols)
                out += b'\x73\x61' + varint(len(ix)) + b''.join(varint(i) for i in ix) + e
                cols = [cols[i] for i in ix] + ts
        self.cols = cols
        return out, kinds


SMALLROW = {'i': [('i', x) for x in (0, 1, 2, -3)], 'l': [('l', x) for x in (0, 1, 2, -3)], 'b': [('b', 0), ('b', 1)],
            'f': [('f', o.b32(x)) for x in (0.0, -0.0, 1.5, -2.0)], 'd': [('d', o.b64(x)) for x in (0.0, -0.0, 1.5, -2.0)],
            's': [('s', x) for x in (b'', b'a', b'b', b'ab')]}


def rnd_dec(before):
    return 'rdecs' if any(x.startswith('rdecs') for x in before) else 'rdec'


def rel_case(b, prog, rows, restart=True, put='put', before=None):
    """put the rows, drain; compare with the reference"""
    try:
        ops, pos = o.rel_decode(prog)
    except o.Err as e:
        b.exact('rnew q;rdec q %s' % prog.hex(), ['ok', ('err', '*')])
        return
    except o.Unspecified:
        return
    rel_run(b, prog, ops, pos, [rows, rows[:2]] if restart else [rows], put, before)


def rel_run(b, prog, ops, pos, batches, put='put', before=None):
    R = o.RelOracle(ops)
    stm, outs = ['rnew q', 'rdec q %s' % prog.hex()], ['ok', 'pos=%d' % pos]
    skip = 0
    if before is not None:        # statements run first with the same evaluator (their results do not matter)
        stm = ['rnew q'] + before + ['%s q %s' % (rnd_dec(before), prog.hex())]
        skip = len(before)
    plan = []          # (kind, expected) from index 2
    grouped = any(x[0] == 'G' for x in ops)
    only_f = all(x[0] == 'F' for x in ops)
    stateful = any(x[0] in 'GU' for x in ops)
    err = False
    try:
        for rows in batches:
            for t in rows:
                stm.append(put + ' q ' + o.show_tuple(t))
                try:
                    r = R.put(list(t))
                    plan.append(('row', 'same' if only_f else 'new?' if b.env else 'new', r))
                except o.Err:
                    plan.append(('err', '*'))
                    if stateful:
                        err = True
                        break
            if err:
                break
            want = []
            while True:
                r = R.get()
                if r is None:
                    break
                want.append(r)
                if len(want) > 60:
                    return
            for _ in range(len(want) + 2):
                stm.append('rget q')
            plan.append(('drain', want, len(want) + 2))
    except (o.Unspecified, o.Err):
        return
    if err:
        plan_end = True

    def chk(f):
        f = f[:1] + f[1 + skip:]
        if f[:1] != ['ok'] or match(f[1], outs[1]):
            return match(f[1], outs[1]) or 'session'
        i = 2
        for p in plan:
            if p[0] != 'drain':
                m = match(f[i], p)
                if m:
                    return m
                i += 1
                continue
            got = f[i:i + p[2]]
            i += p[2]
            if not grouped:
                for g, w in zip(got, list(p[1]) + [None, None]):
                    m = match(g, ('row', 'new', w))
                    if m:
                        return m
            else:
                if got[len(p[1]):] != ['nil', 'nil']:
                    return 'expected %d delivered rows, got %s' % (len(p[1]), got)
                left = list(p[1])
                for g in got[:len(p[1])]:
                    for w in left:
                        if match(g, ('row', 'new', w)) is None or keyish(g, w):
                            left.remove(w)
                            break
                    else:
                        return 'unexpected row %s, remaining %s' % (g, [','.join(map(o.show, w)) for w in left])
        if i != len(f):
            return 'too many results'
    b.add(';'.join(stm), chk)


def keyish(g, w):
    """-0 and +0 are equal keys; either may be delivered"""
    if not g.startswith('new['):
        return False
    x = g[4:-1].split(',')
    if len(x) != len(w):
        return False
    for a, v in zip(x, w):
        if o.same(a, o.show(v)):
            continue
        try:
            p = o.parse(a)
        except Exception:
            return False
        if p[0] in 'fd' and p[0] == v[0] and o.num(p) == 0 and o.num(v) == 0:
            continue
        return False
    return True


def rel(kinds, n0, depth=(1, 1), fail=0.0, put='put'):
    def f(b, tier):
        rnd = b.rnd
        for _ in range(n0 if tier == 'quick' else 12 * n0):
            cols = rcols(rnd)
            prog, ks = RelGen(rnd, kinds, fail).chain(cols, rnd.randint(*depth))
            small = rnd.random() < .6 or 'G' in ks
            rows = []
            for _ in range(rnd.choice([0, 1, 2, 3, 5, 9])):
                rows.append([rnd.choice(SMALLROW[k] + [o.NULL]) if small else rval(rnd, k, .15) for k in cols])
            if 'G' in ks and len(ks) > 1 and any(o.isnan(v) for r in rows for v in r):
                continue
            if rows and rnd.random() < .3:      # next to a row one that hardly differs
                for i in sorted({rnd.randrange(len(rows)) for _ in range(2)}, reverse=True):
                    rows.insert(i, twin(rnd, cols, rows[i]))
            if 'G' in ks and len(ks) > 1 and rnd.random() < .05 and cols:       # many groups
                for v in rnd.sample(range(500), rnd.choice([17, 25, 40, 58])):
                    rows.append([(k, v) if k in 'il' else ('s', str(v).encode()) if k == 's' else rnd.choice(SMALLROW[k]) for k in cols])
            if ks == 'G' and rnd.random() < .15 and rows:   # a NaN equals no key
                for r in rows:
                    for i, k in enumerate(cols):
                        if k in 'fd' and rnd.random() < .4:
                            r[i] = rnd.choice([v for v in POOL[k] if o.isnan(v)])
            if 'G' in ks and len(cols) > 1 and rnd.random() < .3:
                rows += collide(rnd, cols, rows)
            rel_case(b, prog, rows, restart=rnd.random() < .5, put=put)
    return f


def twin(rnd, cols, row):
    """a row equal or nearly equal to the given one"""
    q = list(row)
    for i, k in enumerate(cols):
        v = q[i]
        if rnd.random() < .5:
            continue
        zero = {'i': ('i', 0), 'l': ('l', 0), 'b': ('b', 0), 'f': ('f', 0), 'd': ('d', 0), 's': ('s', b'')}[k]
        if v == o.NULL:
            q[i] = zero
        elif k in 'fd' and not o.isnan(v) and o.num(v) == 0:
            q[i] = (k, v[1] ^ (1 << (31 if k == 'f' else 63)))
        elif v == zero:
            q[i] = o.NULL
        elif k == 's':
            q[i] = ('s', v[1] + b'\0')
    return q


def collide(rnd, cols, rows):
    """rows whose neighbouring integer columns differ but combine to the same hash (31 * a + b)"""
    out = []
    for r in rows[:4]:
        for i in range(len(cols) - 1):
            if cols[i] in 'il' and cols[i + 1] in 'il' and r[i] != o.NULL and r[i + 1] != o.NULL:
                d = rnd.choice([1, -1, 2])
                q = list(r)
                q[i] = (cols[i], r[i][1] - d)
                q[i + 1] = (cols[i + 1], r[i + 1][1] + 31 * d)
                out.append(q)
                break
    return out


def group_collisions(b, tier):
    rnd = b.rnd
    for _ in range(300 if tier == 'quick' else 3000):
        cols = [rnd.choice('il') for _ in range(rnd.randint(2, 3))]
        rows = [[rnd.choice(SMALLROW[k]) for k in cols] for _ in range(rnd.randint(1, 4))]
        rows += collide(rnd, cols, rows)
        rnd.shuffle(rows)
        e, _ = RelGen(rnd).aggs(cols)
        rel_case(b, b'\x73\x61' + varint(len(cols)) + bytes(range(len(cols))) + e, rows, False)


def drain(R):
    """everything cached upstream reaches the last operator"""
    while True:
        t = R.get(len(R.ops) - 1)
        if t is None:
            return
        R._one(t, len(R.ops) - 1)


def partial_chain(b, tier):
    partial(b, tier, True)


def partial(b, tier, chained=False):
    """groups fetched one at a time, with more rows of old and new groups in between"""
    rnd = b.rnd
    for _ in range(500 if tier == 'quick' else 6000):
        cols = in_cols = [rnd.choice('ilbs') for _ in range(rnd.randint(1, 3))]    # sums of reals depend on the order
        pre = b''
        if chained:
            g = RelGen(rnd, 'FPGUG')
            pre, _ = g.chain(cols, rnd.randint(1, 2))
            cols = g.cols
            if any(k in 'fd' for k in cols):
                continue
        if not cols:
            continue
        n = rnd.randint(1, 2)
        e, _ = RelGen(rnd).aggs(cols)
        prog = pre + b'\x73\x61' + varint(n) + bytes(rnd.randrange(len(cols)) for _ in range(n)) + e
        try:
            ops, pos = o.rel_decode(prog)
        except (o.Err, o.Unspecified):
            continue
        stm, plan = ['rnew q', 'rdec q ' + prog.hex()], []
        R = o.RelOracle(ops)
        ok = True
        for _ in range(rnd.randint(4, 16)):
            if rnd.random() < .7:
                t = [rnd.choice(SMALLROW[k][:3] + [o.NULL]) for k in in_cols]
                try:
                    R.put(list(t))
                except (o.Err, o.Unspecified):
                    ok = False
                    break
                stm.append('put q ' + o.show_tuple(t))
                plan.append(t)
            else:
                stm.append('rget q')
                plan.append(None)
                try:
                    drain(R)
                except (o.Err, o.Unspecified):
                    ok = False
                    break
        for _ in range(8):
            stm.append('rget q')
            plan.append(None)
        if not ok:
            continue

        def chk(f, ops=ops, plan=plan, pos=pos):
            if f[:2] != ['ok', 'pos=%d' % pos]:
                return 'session'
            R = o.RelOracle(ops)
            for i, (p, g) in enumerate(zip(plan, f[2:])):
                if p is not None:
                    if g != 'nil':
                        return 'Put delivers %s' % g
                    R.put(list(p))
                    continue
                drain(R)
                st = R.st[-1]
                if not st:
                    if g != 'nil':
                        return 'step %d delivers %s, nothing is left' % (i, g)
                    continue
                for e in st:
                    if match(g, ('row', 'new', e[0] + e[1])) is None or keyish(g, e[0] + e[1]):
                        st.remove(e)
                        break
                else:
                    return 'step %d delivers %s, left are %s' % (i, g, [','.join(map(o.show, e[0] + e[1])) for e in st])
            if len(f) != len(plan) + 2:
                return 'too many results'
        b.add(';'.join(stm), chk)


def many_aggs(b, tier):
    """lists of many aggregates"""
    rnd = b.rnd
    for n in (5, 9, 17, 31, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 256, 257, 300):
        for g in (False, True):
            cols = rcols(rnd, 3)
            es = []
            while len(es) < n:
                c = rnd.randrange(3)
                k = cols[c]
                x = rnd.choice([0x10, 0x20, 0x30, 0x40])
                if x == 0x10 and rnd.random() < .3:
                    es.append(b'\x10')
                elif not (x == 0x20 and k in 'bs') and not (x != 0x10 and k == 'b'):
                    es.append(bytes([x | o.CODE[k], c]))
            rows = [[rnd.choice(SMALLROW[k] + [o.NULL]) for k in cols] for _ in range(3)]
            prog = (b'\x73\x61\x01\x00' if g else b'\x74') + varint(n) + b''.join(es)
            rel_case(b, prog, rows, restart=False)


def many_keys(b, tier):
    """lists of many key columns"""
    rnd = b.rnd
    for n in (3, 9, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600):
        cols = rcols(rnd, 5)
        rows = [[rnd.choice(SMALLROW[k] + [o.NULL]) for k in cols] for _ in range(3)]
        rows.append([rnd.choice(SMALLROW[k]) for k in cols])
        rows.append(rows[0][:4] + rows[3][4:])
        prog = b'\x73\x61' + varint(n) + bytes(rnd.randrange(4) for _ in range(n - 1)) + b'\x04\x01\x10'
        rel_case(b, prog, rows, restart=False)


def ladder(rnd):
    """a real whose magnitude is a random power of two, near one, or near where a function overflows, underflows or loses its domain"""
    x = rnd.choice([1, -1]) * rnd.choice([2.0 ** rnd.randint(-1074, 1023) * rnd.uniform(1, 1.999), 2.0 ** rnd.randint(-40, 70) * rnd.uniform(1, 1.999),
                    rnd.uniform(0, 1), rnd.uniform(0.999, 1.001), rnd.uniform(700, 720), rnd.uniform(705, 709.78), rnd.uniform(744, 746), rnd.uniform(0, 800),
                    rnd.uniform(20, 50), float(rnd.randint(0, 1 << 53)), rnd.randint(0, 1 << 24) + .5, rnd.randint(0, 1 << 10) * .25])
    return x


def reals(pred, n0):
    """unary operators on reals over the whole range"""
    def f(b, tier):
        rnd = b.rnd
        for bs, kinds in op_shapes(pred):
            if kinds not in ('d', 'f'):
                continue
            for _ in range(n0 if tier == 'quick' else n0 * 20):
                x = ladder(rnd)
                b.expr(var(kinds, 0) + bs, [(kinds, o.b64(x) if kinds == 'd' else o.b32(x))], False)
    return f


NUMERALS = [b'0', b'-0', b'+0', b'00012', b'+5', b' +5', b'- 5', b'+-5', b'--5', b'5-', b'5 6', b'\t\n12', b'12abc', b'1,000', b'1_0', b'0b1', b'0x1F', b'0X1p3', b'1e5',
            b'1E5', b'1e+5', b'1e-5', b'1e', b'1e+', b'1.', b'.5', b'.', b'-.5e1', b'.e5', b'inf', b'-inf', b'INFINITY', b'nan', b'nan(1)', b'infx', b'1e38', b'3.4028234e38',
            b'3.4028235e38', b'3.4028236e38', b'3.5e38', b'1e39', b'-1e39', b'1e40', b'1e300', b'1.7976931348623157e308', b'1.7976931348623159e308', b'1e309', b'-1e309',
            b'1e-37', b'1e-38', b'1.2e-38', b'1e-40', b'1e-45', b'1e-46', b'1e-60', b'1e-300', b'2.3e-308', b'1e-310', b'1e-330', b'2147483647', b'2147483648', b'-2147483648',
            b'-2147483649', b'4294967295', b'4294967296', b'9223372036854775807', b'9223372036854775808', b'-9223372036854775808', b'-9223372036854775809',
            b'18446744073709551616', b'99999999999999999999999', b'16777217', b'16777216.99', b'9007199254740993', b'0.1', b'0.30000000000000004', b'1.00000005960464477540',
            b'1.0000000596046447753906251', b'7.0064923216240853e-46', b'0' * 40 + b'7', b'1' * 60, b'0.' + b'0' * 50 + b'1', b'\x0b\x0c3', b'\xa05', b'\x005', b'5\x006']


def numerals(b, tier):
    """numerals of every form and size as operands of the casts from STRING"""
    rnd = b.rnd
    for bs, kinds in op_shapes(owned('C05')):
        if kinds != 's':
            continue
        for s in NUMERALS:
            b.expr(var('s', 0) + bs, [('s', s)], False)
            b.expr(var('s', 0) + bs, [('s', rnd.choice([b' ', b'+', b'-', b'\t', b'0', b'x']) + s + rnd.choice([b'', b'0', b'9', b'.5', b'e1', b'x', b' ', b'\0']))], False)
        for _ in range(100 if tier == 'quick' else 5000):
            s = bytes(rnd.choice(b'0123456789+-.eE xX') for _ in range(rnd.randint(0, 12)))
            b.expr(var('s', 0) + bs, [('s', s)], False)
            s = b'%d' % (rnd.choice([2**31, -2**31, 2**63, -2**63, 2**32, 0]) + rnd.randint(-3, 3))
            b.expr(var('s', 0) + bs, [('s', s)], False)


LENS = (14, 15, 16, 17, 22, 23, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 5000)


def long_pair(rnd):
    """two texts that agree but for one place, or but for the length"""
    n = rnd.choice(LENS)
    a = bytearray(rnd.choice([b'x', b'\0', b'\xc3', b'aB', bytes(range(256))]) * n)[:n]
    c = bytearray(a)
    i = rnd.choice([0, 1, n // 2, n - 2, n - 1, rnd.randrange(n)])
    x = rnd.random()
    if x < .65:
        c[i] = rnd.choice([c[i] ^ 0x20, c[i] ^ 0x80, (c[i] + 1) & 255, 0])
    elif x < .8:
        c += rnd.choice([b'\0', b' ', b'\xff', b'a' * n])
    elif x < .9:
        del c[i:]
    return (bytes(a), bytes(c)) if rnd.random() < .5 else (bytes(c), bytes(a))


def long_texts(pred):
    def f(b, tier):
        rnd = b.rnd
        for bs, kinds in op_shapes(pred):
            if 's' not in kinds:
                continue
            for _ in range(120 if tier == 'quick' else 3000):
                p = long_pair(rnd)
                n = len(p[0])
                t = []
                for j, k in enumerate(kinds):
                    t.append(('s', p[j]) if k == 's' else rnd.choice([('i', v) for v in (0, 1, -1, n, -n, n - 1, 1 - n, n + 1, n // 2, 100000)]) if k == 'i' else rval(rnd, k))
                b.expr(b''.join(var(k, j) for j, k in enumerate(kinds)) + bs, t, False)
    return f


def long_operands(b, tier):
    rnd = b.rnd
    for _ in range(400 if tier == 'quick' else 6000):
        x, y = long_pair(rnd)
        v, w = ('s', x), ('s', y)
        sv, sw = o.show(v), o.show(w)
        e = x == y
        b.exact('oeq %s %s' % (sv, sw), ['%d%d01' % (e, not e)])
        b.exact('ohash %s %s' % (sv, sw), ['1'] if e else [None])
        b.exact('oget %s s;oany %s s;ocopy %s' % (sv, sv, sv), [('val', v), ('in', ['v=' + sv]), ('in', [sv + ',' + sv + ',i:7'])])


def long_rows(shape):
    """rows with long texts that differ in one place: as grouping keys, or under MIN and MAX"""
    def f(b, tier):
        rnd = b.rnd
        for _ in range(150 if tier == 'quick' else 3000):
            p = long_pair(rnd)
            rows = [[('s', rnd.choice(p)), ('i', rnd.randint(-3, 3))] for _ in range(rnd.randint(2, 6))]
            rel_case(b, b'\x73\x61\x01\0\x02\x10\x21\x01' if shape == 'G' else b'\x74\x03\x47\0\x37\0\x17\0', rows)
    return f


def deep(b, tier):
    """thousands of operators and of operands on the stack"""
    rnd = b.rnd
    for n in (1023, 1025, 2048, 4095, 4097, 4200, 8192, 17000, 32768, 65534, 65537, 66001):
        b.expr(b''.join(rnd.choice([b'\x13', b'\x23', b'\x03', b'\x11\x07']) for _ in range(n)), [], False)
    for n in (1024, 4097, 16385, 32768, 65535, 65536, 65537, 66001, 70002):
        b.expr(b'\x13' + b'\x51' * n, [], False)
        b.expr(b'\x13' + b'\x51' * (n + 1), [], False)
        b.expr(b'\x11\x00' + b'\x11\x01\x83\x01' * (n // 2), [], False)


def long_codes(b, tier):
    """announced lengths and counts beyond every integer type"""
    rnd = b.rnd
    for n in [2**k + d for k in (7, 8, 15, 16, 24, 30, 31, 32, 33, 48, 62, 63, 64) for d in (-2, -1, 0, 1, 5)]:
        v = varint(n & 2**64 - 1)
        for tail in (b'', b'A', b'ABCDE\0', b'\x13' * 300):
            b.expr(b'\x17' + v + tail, [], False)
            b.exact('new r;dec r ' + (b'\x13\x17' + v + tail).hex(), ['ok', None])
            for h in (b'\x74', b'\x73\x61', b'\x73\x61\x01\0', b'\x73\x61\0'):
                b.exact('rnew q;rdec q ' + (h + v + tail).hex(), ['ok', None])


def drain_errors(b, tier):
    """an error raised downstream while cached rows are fetched: it reaches the caller, the other rows come later"""
    rnd = b.rnd
    for _ in range(120 if tier == 'quick' else 2000):
        n = rnd.randint(1, 6)
        keys = rnd.sample(range(-50, 50), n)
        bad = rnd.choice([b'\x72\x31\0\x32\x01\x83\x02\0', b'\x71\x31\0\x32\x01\x91\x01\0', b'\x72\x37\0\xf1\x22\0'])
        post = rnd.choice([b'', b'\x74\x01\x10', b'\x71\x13\0'])
        rows = [('i', k) for k in keys for _ in range(rnd.randint(1, 2))]
        stm = ['rnew q', 'rdec q ' + (b'\x73\x61\x01\0\x01\x10' + bad + post).hex()] + ['put q ' + o.show_tuple([r]) for r in rows] + ['rget q'] * (n + 2)
        b.exact(';'.join(stm), ['ok', None] + ['nil'] * len(rows) + [('err', '*')] * n + ['nil'] * 2)


def rel_redecode(b, tier):
    """several relational programs, one after the other, in one evaluator: only the last one counts"""
    rnd = b.rnd
    for _ in range(500 if tier == 'quick' else 6000):
        cols = rcols(rnd)
        before = []
        dec = rnd.choice(['rdec', 'rdecs'])
        n = rnd.randint(1, 2)
        prog, ks = RelGen(rnd, 'FPGU').chain(cols, rnd.randint(1, 3))
        progs = [prog if rnd.random() < .7 else b'' for _ in range(n)]
        if rnd.random() < .3:
            progs.append(rnd.choice([b'\x99', b'\x71\x13\0\x74\x01', b'\x74\x02\x10', b'\x72']))
        ok = True
        for p in progs:
            before.append('%s q %s' % (dec, p.hex()))
            try:
                ops, _ = o.rel_decode(p)
                if not in_range(ops, len(cols)):
                    ok = False
                    break
                for _ in range(rnd.randint(0, 2)):
                    before.append('puts q ' + o.show_tuple([rnd.choice(SMALLROW[k]) for k in cols]))
                    if rnd.random() < .2:
                        before.append('rget q')
            except o.Err:
                pass
            except o.Unspecified:
                ok = False
                break
        if not ok:
            continue
        last = prog
        if rnd.random() < .3:
            last = b''
        elif rnd.random() < .6:
            # a program of the same length that differs
            last = bytearray(prog)
            for i in rnd.sample(range(len(last)), min(2, len(last))):
                last[i] ^= rnd.choice([1, 2, 3])
            last = bytes(last)
        try:
            ops, _ = o.rel_decode(last)
            if not in_range(ops, len(cols)):
                continue
        except o.Unspecified:
            continue
        except o.Err:
            b.add(';'.join(['rnew q'] + before + ['%s q %s' % (dec, last.hex())]), lambda f: match(f[-1], ('err', '*')))
            continue
        rows = [[rnd.choice(SMALLROW[k] + [o.NULL]) for k in cols] for _ in range(rnd.randint(0, 4))]
        if any('G' == x[0] for x in ops) and any(o.isnan(v) for r in rows for v in r):
            continue
        rel_case(b, last, rows, False, 'put', before)


def rel_codes(b, tier):
    rnd = b.rnd
    for c in range(256):
        for t in ([], [0], [1], [0x10], [0x61, 0, 0], [0x61, 1, 0, 1, 0x10], [1, 0x10], [2, 0x11, 0, 0x10], [0x13, 0], [0x13]):
            rel_case(b, bytes([c] + t), [[('i', 1), ('i', 2)]])
    for a in range(256):
        rel_case(b, bytes([0x74, 1, a, 0, 0x71, 0x13]), [])
        rel_case(b, bytes([0x74, 1, a, 0]), [[o.NULL]])
        rel_case(b, bytes([0x74, 1, a]), [])
        rel_case(b, bytes([0x73, 0x61, 1, 0, 1, a, 1]), [])
    for n in (0, 1, 2, 3, 127, 128, 300):
        rel_case(b, b'\x74' + varint(n) + b'\x10' * n, [[o.NULL]] * 2)
        rel_case(b, b'\x73\x61' + varint(n) + b''.join(varint(i) for i in range(n)) + b'\x01\x10', [])
    for _ in range(1500 if tier == 'quick' else 20000):
        cols = rcols(rnd)
        prog, ks = RelGen(rnd).chain(cols, rnd.randint(1, 4))
        p = bytearray(prog)
        for _ in range(rnd.randint(0, 2)):
            if not p:
                break
            x, i = rnd.random(), rnd.randrange(len(p))
            if x < .4:
                p[i] = rnd.getrandbits(8)
            elif x < .8:
                del p[i:]
            else:
                p.insert(i, rnd.choice([0, 1, 0x10, 0x71, 0x72, 0x73, 0x74, 0x61, 0xff, 0x80]))
        rel_case(b, bytes(p), [])
    # complete programs on wide rows: indices that need more than one byte, several operators
    for _ in range(250 if tier == 'quick' else 4000):
        n = rnd.choice([3, 127, 128, 129, 130, 200, 256, 300])
        cols = rcols(rnd, n)
        prog, ks = RelGen(rnd).chain(cols, rnd.randint(1, 3))
        rows = [[rnd.choice(SMALLROW[k] + [o.NULL]) for k in cols] for _ in range(rnd.randint(1, 3))]
        rel_case(b, prog, rows, restart=False)
    for n in (2**31, 2**32, 2**60, 2**62, 2**63, 2**64 - 1, 100):
        rel_case(b, b'\x74' + varint(n) + b'\x10', [])
        rel_case(b, b'\x73\x61' + varint(n) + b'\x01\x01\x10', [])
        rel_case(b, b'\x73\x61\x01\0' + varint(n) + b'\x10', [])


def rel_release(b, tier):
    """errors while putting, early destruction, re-decoding: everything released exactly once"""
    rnd = b.rnd
    for _ in range(900 if tier == 'quick' else 12000):
        cols = rcols(rnd)
        prog, ks = RelGen(rnd, 'FPGU', .3).chain(cols, rnd.randint(1, 3))
        rows = [[rnd.choice(SMALLROW[k] + [o.NULL]) if rnd.random() < .9 else ('s', b'zz') for k in cols] for _ in range(rnd.randint(0, 5))]
        stm = ['rnew q', 'rdec q ' + prog.hex()]
        for t in rows:
            stm.append('put q ' + o.show_tuple(t))
            if rnd.random() < .2:
                stm.append('rget q')
        x = rnd.random()
        if x < .3:
            stm += ['rdel q', 'outs']
        elif x < .6:
            # decode again (also something invalid) with cached results inside
            stm += ['rdec q ' + rnd.choice([prog, b'\x74\x01\x10', b'\x71\x13\0', b'\x99', b'\x74\x02\x10', b'\x73\x61\x01']).hex()]
            if rnd.random() < .5:
                stm += ['put q ' + o.show_tuple(rows[0])] if rows and False else []
        try:
            ops, _ = o.rel_decode(prog)
        except (o.Err, o.Unspecified):
            continue
        if not in_range(ops, len(cols)):
            continue
        b.add(';'.join(stm), lambda f: None)
    for _ in range(300 if tier == 'quick' else 3000):
        p1 = bytes(rnd.choice(CODEPOOL) for _ in range(rnd.randint(0, 8)))
        p2 = bytes(rnd.choice(CODEPOOL) for _ in range(rnd.randint(0, 8)))
        b.add('new r;dec r %s;dec r %s;del r' % (p1.hex(), p2.hex()), lambda f: None)


def in_range(ops, n):
    """column indices inside the row at every stage"""
    for op in ops:
        if op[0] == 'F':
            if any(x[0] == 'VAR' and not 0 <= x[2] < n for x in op[1]):
                return False
        elif op[0] == 'P':
            if any(x[0] == 'VAR' and not 0 <= x[2] < n for x in op[1]):
                return False
            n = 0
            for x in op[1]:
                n += {'CONST': 1, 'VAR': 1}.get(x[0], 0)
                import spec
                if x[0] not in ('CONST', 'VAR'):
                    n += 1 - spec.of(x)[0]
        else:
            if any(not 0 <= x < n for x in (op[1] or [])) or any(a[2] is not None and not 0 <= a[2] < n for a in op[2]):
                return False
            n = len(op[1] or []) + len(op[2])
    return True


def owned(p):
    def f(op):
        import spec
        return spec.owner(op) == p
    return f


TABLE = {
    'C01': [ops_battery(owned('C01')), long_texts(owned('C01'))], 'C02': [ops_battery(owned('C02')), long_texts(owned('C02'))], 'C03': [ops_battery(owned('C03'))],
    'C04': [nulls], 'C05': [ops_battery(owned('C05')), numerals, reals(owned('C05'), 150)], 'C06': [ops_battery(owned('C06')), reals(owned('C06'), 150)], 'C07': [ops_battery(owned('C07')), long_texts(owned('C07'))],
    'C08': [ops_battery(owned('C08')), long_texts(owned('C08')), reals(owned('C08'), 150)], 'C09': [immediates], 'C10': [decoding, programs, decoding_same, deep], 'C11': [sessions, programs, long_programs, deep],
    'C12': [variables, sessions, wide], 'C13': [opts, programs, retype], 'C14': [rel('F', 1500, (1, 2))], 'C15': [rel('P', 1500, (1, 2)), rel('FP', 300, (1, 3), .2)],
    'C16': [rel('U', 2500), many_aggs, long_rows('U')], 'C17': [rel('G', 2500), tuples, group_collisions, partial, many_keys, long_rows('G')], 'C18': [rel('FPGU', 2500, (2, 4)), rel('FP', 800, (2, 5)), partial_chain, drain_errors],
    'C19': [rel_release, long_programs, rel('FPGU', 1000, (1, 3), .2)], 'C20': [rel_codes, rel_redecode, many_aggs, many_keys], 'C21': [garbage, immediates, rel_codes, bad_types, long_garbage, long_codes],
    'C22': [hexes], 'C23': [operands, tuples, long_operands],
}


REUSE = {
    'C10': [decoding_same], 'C11': [sessions], 'C12': [variables], 'C14': [rel('F', 500, (1, 2), 0, 'puts'), rel('F', 300, (1, 2))],
    'C15': [rel('P', 300, (1, 2)), rel('FP', 300, (1, 3), 0, 'puts')], 'C16': [rel('U', 300, (1, 2))], 'C17': [rel('G', 300, (1, 2))],
    'C18': [rel('FPGU', 500, (2, 4))], 'C20': [rel_redecode],
}


def battery(drv, prop, tier, seed, jobs=4):
    b = Bat(drv, seed * 1000003 + int(prop[1:]))
    for f in TABLE[prop]:
        f(b, tier)
    b.run(jobs)
    if prop in REUSE:
        # the same with an allocator that hands out released addresses again
        b.env = dict(os.environ, ASAN_OPTIONS='quarantine_size_mb=0:thread_local_quarantine_size_kb=0')
        for f in REUSE[prop]:
            f(b, 'quick')
        b.run(jobs)
        b.env = None
    return b


if __name__ == '__main__':
    import sys, time
    for p in sys.argv[2:] or sorted(TABLE):
        t = time.time()
        b = battery(sys.argv[1], p, 'quick', 1)
        print(p, b.n, 'cases', len(b.bad), 'bad', '%.1fs' % (time.time() - t))
        for x in b.bad[:3]:
            print('    ', *[y[:600] for y in x], sep='\n      ')

"""Symbolic specification of the operators (postconditions), mirroring oracle.py.

A specification is a list of mutually exclusive cases (condition, outcome):
  ('val', OV)        the operator pushes exactly this value
  ('err', kind)      it raises; kind None: any error, 1/2: limits-exceeded error of INT32/INT64
  ('any',)           left unspecified
"""
import z3
from vals import *
import models as M
import oracle as O

K2T = {'i': 1, 'l': 2, 'b': 3, 'f': 4, 'd': 5, 's': 6}
BV = z3.BitVecVal


def t_and(*cs):
    cs = [c for c in cs if not z3.is_true(c)]
    return z3.And(*cs) if cs else z3.BoolVal(True)


def strict(kinds, body, null_cases=True):
    """NULL as soon as one operand is NULL, an error when an operand has another type"""
    def f(vs):
        isnull = [v.is_(0) for v in vs]
        anynull = z3.Or(isnull) if isnull else z3.BoolVal(False)
        good = z3.And([v.is_(K2T[k]) for v, k in zip(vs, kinds)])
        out = [(anynull, ('val', OV.null()), 'null'),
               (z3.And(z3.Not(anynull), z3.Not(good)), ('err', None), 'mismatch')]
        for c, o, *t in body(*[v.pay(K2T[k]) for v, k in zip(vs, kinds)]):
            out.append((z3.And(good, c), o, t[0] if t else 'value'))
        return out
    return len(kinds), f


TRUE = z3.BoolVal(True)


def val(k, v):
    return ('val', OV.of(K2T[k], v))


def zero(k):
    return z3.FPVal(0.0, F32 if k == 'f' else F64)


def arith(op, k):
    def body(a, b):
        if k == 's':
            if op == '+':
                return [(TRUE, val('s', a.concat(b)))]
            return [(TRUE, ('any',))]
        if k in 'il':
            n = O.BITS[k]
            if op in '+-*':
                return [(TRUE, val(k, {'+': a + b, '-': a - b, '*': a * b}[op]))]
            # z3's bvsdiv / bvsrem: truncating, remainder with the sign of the dividend;
            # the most negative value by -1 wraps, with remainder 0
            return [(b == 0, ('val', OV.null()), 'divzero'),
                    (b != 0, val(k, a / b if op == '/' else z3.SRem(a, b)))]
        f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
        r = f(RNE, a, b)
        if op == '/':
            return [(z3.fpIsZero(b), ('val', OV.null()), 'divzero'), (z3.Not(z3.fpIsZero(b)), val(k, r))]
        return [(TRUE, val(k, r))]
    return strict(k + k, body)


def lt(k, a, b):
    if k in 'il':
        return a < b
    if k == 'b':
        return z3.And(z3.Not(M.boolt(a)), M.boolt(b))
    if k in 'fd':
        return z3.fpLT(a, b)
    return M.str_lt(a, b)


def eq(k, a, b):
    if k in 'fd':
        return z3.fpEQ(a, b)
    if k == 's':
        return M.str_eq(a, b)
    if k == 'b':
        return M.boolt(a) == M.boolt(b)
    return a == b


def rel(op, k):
    def body(a, b):
        l, e, g = lt(k, a, b), eq(k, a, b), lt(k, b, a)
        r = {'EQ': e, 'NE': z3.Not(e), 'LT': l, 'GT': g, 'LE': z3.Or(l, e), 'GE': z3.Or(g, e)}[op]
        return [(TRUE, val('b', r))]
    return strict(k + k, body)


def minmax(op, k):
    def body(a, b):
        c = lt(k, b, a) if op == 'MIN' else lt(k, a, b)
        return [(c, val(k, b)), (z3.Not(c), val(k, a))]
    return strict(k + k, body)


def unary(op, k):
    def body(a):
        if op == 'POS':
            return [(TRUE, val(k, a))]
        if k in 'fd':
            return [(TRUE, val(k, z3.fpNeg(a) if op == 'NEG' else z3.fpAbs(a)))]
        if op == 'NEG':
            return [(TRUE, val(k, -a))]
        n = O.BITS[k]
        r = z3.If(a < 0, -a, a)
        if op == 'ABSC':
            m = a == BV(1 << (n - 1), n)
            return [(m, ('err', K2T[k])), (z3.Not(m), val(k, r))]
        return [(TRUE, val(k, r))]
    return strict(k, body)


def i2f(v, k):
    return z3.fpSignedToFP(RNE, v, F32 if k == 'f' else F64)


def cast(d, s, chk):
    def body(v):
        if d in 'il':
            n = O.BITS[d]
            if s == 's':
                kind = 'stoi' if d == 'i' else 'stoll'
                st, x = M.sto(kind, v)
                return [(st == 0, val(d, x)), (st == 1, val(d, BV(0, n))), (st == 2, ('err', None)), (z3.UGT(st, 2), ('any',))]
            if s == 'b':
                return [(TRUE, val(d, z3.If(M.boolt(v), BV(1, n), BV(0, n))))]
            if s == 'i':
                return [(TRUE, val(d, z3.SignExt(32, v)))]
            if s == 'l':
                r = z3.Extract(31, 0, v)
                if chk:
                    fit = z3.SignExt(32, r) == v
                    return [(fit, val('i', r)), (z3.Not(fit), ('err', 1))]
                return [(TRUE, val('i', r))]
            x = v if s == 'd' else M.to_f64(v)
            rr = z3.fpRoundToIntegral(z3.RNA(), x)
            lo, hi = z3.FPVal(-float(1 << (n - 1)), F64), z3.FPVal(float(1 << (n - 1)), F64)
            fit = z3.And(z3.fpGEQ(rr, lo), z3.fpLT(rr, hi))
            r64 = z3.fpToSBV(z3.RNA(), x, z3.BitVecSort(64))
            r = r64 if n == 64 else z3.Extract(31, 0, r64)
            if chk:
                return [(fit, val(d, r)), (z3.Not(fit), ('err', K2T[d]))]
            return [(fit, val(d, r)), (z3.Not(fit), ('any',), 'unfit')]
        if d == 'b':
            if s in 'il':
                return [(TRUE, val('b', v != 0))]
            return [(TRUE, val('b', z3.Not(z3.fpIsZero(v))))]
        if d in 'fd':
            so = F32 if d == 'f' else F64
            if s == 's':
                st, x = M.sto('stof' if d == 'f' else 'stod', v)
                return [(st == 0, val(d, x)), (st == 1, val(d, zero(d))), (st == 2, ('err', None)), (z3.UGT(st, 2), ('any',))]
            if s == 'b':
                return [(TRUE, val(d, z3.If(M.boolt(v), z3.FPVal(1.0, so), z3.FPVal(0.0, so))))]
            if s in 'il':
                return [(TRUE, val(d, i2f(v, d)))]
            return [(TRUE, val(d, z3.fpFPToFP(RNE, v, so)))]
        # text
        if s in 'il':
            return [(TRUE, val('s', M.tostr('i32' if s == 'i' else 'i64', v)))]
        if s == 'b':
            b = M.boolt(v)
            return [(b, val('s', Str.lit_(b'true'))), (z3.Not(b), val('s', Str.lit_(b'false')))]
        x = v if s == 'd' else M.to_f64(v)
        fin = z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
        t = M.tostr('f64.floatfixed_prec15', x)
        return [(fin, ('fixed', t)), (z3.Not(fin), ('any',))]
    return strict(s, body)


def substr_n(s, pos, n):
    return s.substr(norm(pos), norm(n))


def sx(v):
    return z3.SignExt(32, v)


def umin(a, b):
    return z3.If(z3.ULE(a, b), a, b)


EMPTY = Str.lit_(b'')


def strfun(f):
    sig = O.STRFUN[f][0]

    def body(*a):
        s = a[0]
        L = i64(s.n)
        if f == 0x21:
            return [(TRUE, val('s', s.concat(a[1])))]
        if f in (0x22, 0x23):
            lo, hi, d = (65, 90, 32) if f == 0x22 else (97, 122, -32)
            return [(TRUE, val('s', Str(s.n, lambda i: _case(bv(s.at(i), 8), lo, hi, d))))]
        if f in (0x24, 0x25):
            n = sx(a[1])
            c = n <= 0
            m = umin(n, L)
            return [(c, val('s', EMPTY)), (z3.Not(c), val('s', substr_n(s, BV(0, 64) if f == 0x24 else L - m, m)))]
        if f in (0x26, 0x28, 0x2A):
            return [(TRUE, ('trim', s, f != 0x2A, f != 0x28))]
        if f in (0x2C, 0x2D):
            x = sx(a[1])
            x = z3.If(x < 0, BV(0, 64), x)
            y = L if f == 0x2D else sx(a[2])
            y = z3.If(y > L, L, y)
            c = x < y
            return [(c, val('s', substr_n(s, x, y - x))), (z3.Not(c), val('s', EMPTY))]
        if f in (0x2E, 0x2F):
            p = sx(a[1])
            ok = z3.Or(z3.And(p > 0, p <= L), z3.And(p < 0, -L <= p))
            if f == 0x2E:
                ok = z3.And(ok, sx(a[2]) > 0)
            b = z3.If(p > 0, p - 1, p + L)
            n = L - b if f == 0x2F else umin(sx(a[2]), L - b)
            return [(ok, val('s', substr_n(s, b, n))), (z3.Not(ok), val('s', EMPTY))]
    return strict(sig, body)


def _case(x, lo, hi, d):
    return norm(z3.If(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)), x + d, x))


def mathfun(f):
    n = O.MATHFUN[f]

    def body(v):
        if n == 'ceil':
            r = z3.fpRoundToIntegral(z3.RTP(), v)
        elif n == 'floor':
            r = z3.fpRoundToIntegral(z3.RTN(), v)
        else:
            r = M.libm(n, F64, F64)(v)
        return [(TRUE, val('d', r))]
    return strict('d', body)


def logic(o):
    def f(vs):
        for v in vs:
            v.pay(3)
        N = [v.is_(0) for v in vs]
        B = [v.is_(3) for v in vs]
        P = [M.boolt(v.pay(3)) if v.pay(3) is not None else z3.BoolVal(False) for v in vs]
        bad = z3.Not(z3.And([z3.Or(n, b) for n, b in zip(N, B)]))
        if o == 'NOT':
            return [(N[0], ('val', OV.null()), 'value'), (B[0], val('b', z3.Not(P[0])), 'value'), (bad, ('err', None), 'mismatch')]
        d = o == 'OR'
        dom = z3.And(z3.Not(bad), z3.Or([z3.And(b, p if d else z3.Not(p)) for b, p in zip(B, P)]))
        unk = z3.And(z3.Not(bad), z3.Not(dom), z3.Or(N))
        rest = z3.And(z3.Not(bad), z3.Not(dom), z3.Not(unk))
        return [(dom, val('b', z3.BoolVal(d)), 'value'), (unk, ('val', OV.null()), 'value'), (rest, val('b', z3.BoolVal(not d)), 'value'),
                (bad, ('any',), 'mismatch')]
    return (1 if o == 'NOT' else 2), f


def isx(o, k):
    def f(vs):
        v = vs[0]
        n = v.is_(0)
        if o == 'NULL':
            return [(TRUE, val('b', n), 'value')]
        g = v.is_(K2T[k])
        out = [(n, val('b', z3.BoolVal(False)), 'value')]
        if k == 's':
            out += [(g, val('b', z3.BoolVal(o == 'FALSE')), 'value'), (z3.And(z3.Not(n), z3.Not(g)), ('any',), 'mismatch')]
            return out
        x = v.pay(K2T[k])
        nz = M.boolt(x) if k == 'b' else (x != 0 if k in 'il' else z3.Not(z3.fpIsZero(x)))
        out += [(g, val('b', nz if o == 'TRUE' else z3.Not(nz)), 'value'), (z3.And(z3.Not(n), z3.Not(g)), ('err', None), 'mismatch')]
        return out
    return 1, f


def of(op):
    """(arity, function from operands to cases) of a decoded operator of oracle.py"""
    o = op[0]
    if o in ('NOT', 'AND', 'OR'):
        return logic(o)
    if o.startswith('IS_'):
        return isx(o[3:], op[1])
    if o in ('CAST', 'CASTC'):
        return cast(op[1], op[2], o == 'CASTC')
    if o in ('POS', 'NEG', 'ABS', 'ABSC'):
        return unary(o, op[1])
    if o in ('MIN', 'MAX'):
        return minmax(o, op[1])
    if o in O.CMP.values():
        return rel(o, op[1])
    if o == 'FUN':
        return mathfun(op[1]) if op[1] in O.MATHFUN else strfun(op[1])
    return arith(o, op[1])


def tname(op):
    return ' '.join(hex(x) if isinstance(x, int) else str(x) for x in op)


# property responsible for the values of an operator
def owner(op):
    o = op[0]
    if o in ('NOT', 'AND', 'OR') or o.startswith('IS_'):
        return 'C03'
    if o == 'CAST':
        return 'C05'
    if o == 'CASTC':
        return 'C06' if op[1] in 'il' else 'C05'
    if o in ('ABS', 'ABSC'):
        return 'C06'
    if o in ('MIN', 'MAX'):
        return 'C08'
    if o in O.CMP.values():
        return 'C02'
    if o == 'FUN':
        return 'C08' if op[1] in O.MATHFUN else 'C07'
    return 'C01'


def all_ops():
    """(code bytes, decoded operator) of every operator without immediates"""
    out = []
    for c in (0x51, 0x52, 0x53):
        out.append((bytes([c]), O.decode(bytes([c]))[0][0]))
    for c in sorted(O.SUPPORT):
        for t in sorted(O.TYPES):
            b = bytes([c, t])
            try:
                out.append((b, O.decode(b)[0][0]))
            except O.Err:
                pass
    for c in (0xF0, 0xFC):
        for d in sorted(O.TYPES):
            for s in sorted(O.TYPES):
                if d != s and O.cast_supported(d, s):
                    out.append((bytes([c, d << 4 | s]), O.decode(bytes([c, d << 4 | s]))[0][0]))
    for f in sorted(list(O.STRFUN) + list(O.MATHFUN)):
        out.append((bytes([0xF1, f]), ('FUN', f)))
    return out

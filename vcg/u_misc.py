"""Contracts of the helper functions: hexadecimal text, operand access, equality, hashing, optional holders."""
import z3
from vals import *
from env import *
import models as M

V = z3.BitVecVal


def is_hex(c):
    return z3.Or(*[z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b))) for a, b in ('09', 'af', 'AF')])


def hexval(c, n=8):
    e = lambda x: z3.ZeroExt(n - 8, x) if n > 8 else x
    return z3.If(z3.ULE(c, ord('9')), e(c - 48), z3.If(z3.ULE(c, ord('F')), e(c - 55), e(c - 87)))


def digit(x):
    return z3.If(z3.ULE(x, 9), x + 48, x + 55)


def outcomes(env, rs, what):
    """every call must return normally"""
    out = []
    for s, k, v in rs:
        if k != 'ret':
            env.prove(s, [], z3.BoolVal(False), 'value', '%s raises an error' % what)
        else:
            out.append((s, v))
    if not out and not env.ex.failures:
        raise Unsupported('no outcome')
    return out


def run_nibbles(env):
    st = env.fresh()
    c = z3.BitVec('c', 8)
    for s, v in outcomes(env, env.call(st, 'vh_hex_nibble', [c]), 'HexToNibble'):
        env.prove(s, [], bv(v, 32) == z3.If(is_hex(c), hexval(c, 32), V(-1, 32)), 'value', 'HexToNibble: value of a hexadecimal digit, -1 otherwise')
    n = z3.BitVec('n', 32)
    for s, v in outcomes(env, env.call(env.fresh(), 'vh_nibble_hex', [n]), 'NibbleToHex'):
        env.prove(s, [], bv(v, 8) == z3.If(z3.ULE(n, 15), digit(z3.Extract(7, 0, n)), V(-1, 8)), 'value', 'NibbleToHex: upper-case digit, -1 otherwise')


def rw_buf(env, st, n, name):
    f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8))
    p = env.ex.new_obj(st, 'buf', n, name)
    st.mem[p.base].arr = Seq(1, 8, nb=i64(n), bat=lambda i: f(i64(i)), ident=name)
    return p


LIM31 = 1 << 31


def run_hex_to_bytes(env):
    st = env.fresh()
    h, n, f = env.symcode(st, 'hex')
    b = rw_buf(env, st, norm(z3.LShR(n, 1)), 'out')
    for s, _ in outcomes(env, env.call(st, 'vh_hex_bytes', [b, h, n]), 'HexToBytes'):
        j = fresh_bv('j', 64)
        hi, lo = f(2 * j), f(2 * j + 1)
        s.pc += [z3.ULT(j, z3.LShR(n, 1)), is_hex(hi), is_hex(lo)]
        got = s.mem[b.base].arr.at(j)
        env.prove(s, [], bv(got, 8) == (hexval(hi) << 4 | hexval(lo)), 'value', 'HexToBytes: byte j comes from digits 2j and 2j+1')


def run_bytes_to_hex(env):
    st = env.fresh()
    d, n, f = env.symcode(st, 'data')
    b = rw_buf(env, st, norm(2 * n), 'out')
    for s, _ in outcomes(env, env.call(st, 'vh_bytes_hex', [b, d, n]), 'BytesToHex'):
        j = fresh_bv('j', 64)
        s.pc += [z3.ULT(j, n)]
        a = s.mem[b.base].arr
        env.prove(s, [], bv(a.at(2 * j), 8) == digit(z3.LShR(f(j), 4)), 'value', 'BytesToHex: high digit of byte j')
        env.prove(s, [], bv(a.at(2 * j + 1), 8) == digit(f(j) & 15), 'value', 'BytesToHex: low digit of byte j')


def run_hex_of(env):
    st = env.fresh()
    d, n, f = env.symcode(st, 'data')
    o = env.obj(st, 32, 'result')
    for s, _ in outcomes(env, env.call(st, 'vh_hex_of', [o, d, n]), 'HexOfBytes'):
        r = env.ex.get_abs(s, o)
        if not isinstance(r, Str):
            raise Unsupported('result string')
        j = fresh_bv('j', 64)
        env.prove(s, [], i64(r.n) == 2 * n, 'value', 'HexOfBytes: two digits per byte')
        s.pc += [z3.ULT(j, n)]
        env.prove(s, [], bv(r.at(2 * j), 8) == digit(z3.LShR(f(j), 4)), 'value', 'HexOfBytes: high digit of byte j')
        env.prove(s, [], bv(r.at(2 * j + 1), 8) == digit(f(j) & 15), 'value', 'HexOfBytes: low digit of byte j')
        live = [o for i, o in s.mem.items() if i not in st.mem and o.kind == 'heap' and o.alive]
        env.prove(s, [], z3.BoolVal(not live), 'leak', 'HexOfBytes releases its buffer')


# ---------------------------------------------------------------- operands
NAMES = {1: 'i32', 2: 'i64', 3: 'bool', 4: 'f32', 5: 'f64', 6: 'str'}


def operand(env, st, v, name='operand'):
    p = env.obj(st, 64, name)
    env.ex.put_abs(st, p, v)
    return p


def string(env, st, s, name='string'):
    p = env.obj(st, 32, name)
    env.ex.put_abs(st, p, s)
    return p


def sym_val(t, name):
    if t == 6:
        return Str.of_term(z3.Const(name, StrSort))
    if t == 3:
        return z3.Bool(name)
    if t in (4, 5):
        return z3.fpBVToFP(z3.BitVec(name, 32 if t == 4 else 64), F32 if t == 4 else F64)
    return z3.BitVec(name, 32 if t == 1 else 64)


def arg(env, st, t, v):
    return string(env, st, v) if t == 6 else v


def check_ov(env, s, p, v, kind, msg):
    got = env.ex.get_abs(s, p)
    if not isinstance(got, OV):
        raise Unsupported('operand')
    asm, g = env.same_goal(s, got, v)
    env.prove(s, asm, g, kind, msg)


def is_null_goal(v, r):
    return boolt(r) == v.is_(0)


def in_types(v):
    return z3.ULE(tag_bv(v.tag), 6)


def run_operand_access(env):
    """construction, typed access, NULL test, copies"""
    ex = env.ex
    for t, n in NAMES.items():
        st = env.fresh()
        v = sym_val(t, 'v')
        o = env.obj(st, 64, 'operand')
        for s, _ in outcomes(env, env.call(st, 'vh_od_of_' + n, [o, arg(env, st, t, v)]), 'Operand(%s)' % n):
            check_ov(env, s, o, OV.of(t, v), 'value', 'Operand(%s) holds the value' % n)
            for fn, want in (('vh_od_eqnull', 0), ('vh_od_nenull', 1)):
                for s2, r in outcomes(env, env.call(s.fork(), fn, [o]), fn):
                    env.prove(s2, [], boolt(r) == bool(want), 'value', 'an operand built from a value is not NULL')
    for fn in ('vh_od_null', 'vh_od_default'):
        st = env.fresh()
        o = env.obj(st, 64, 'operand')
        for s, _ in outcomes(env, env.call(st, fn, [o]), fn):
            check_ov(env, s, o, OV.null(), 'value', 'Operand(nullptr) and Operand() are NULL')
    a = OV.sym('a')
    for fn in ('vh_od_eqnull', 'vh_od_nenull'):
        st = env.fresh()
        st.pc.append(in_types(a))
        p = operand(env, st, a)
        for s, r in outcomes(env, env.call(st, fn, [p]), fn):
            env.prove(s, [], boolt(r) == (a.is_(0) if fn == 'vh_od_eqnull' else z3.Not(a.is_(0))), 'value', 'comparison with nullptr tells NULL')
            check_ov(env, s, p, a, 'frame', 'a NULL test changes nothing')
    for t, n in NAMES.items():
        st = env.fresh()
        st.pc.append(in_types(a))
        p = operand(env, st, a)
        if t == 6:
            o = env.obj(st, 32, 'result')
            rs = env.call(st, 'vh_od_get_str', [o, p])
        else:
            rs = env.call(st, 'vh_od_get_' + n, [p])
        seen = set()
        for s, k, r in rs:
            seen.add(k)
            if k == 'exc':
                env.prove(s, [], z3.Not(a.is_(t)), 'value', 'reading an operand with its own type (%s) must not fail' % n)
                continue
            env.prove(s, [], a.is_(t), 'value', 'reading an operand as %s when it has another type must fail' % n)
            s.pc.append(a.is_(t))
            if t == 6:
                x = ex.get_abs(s, o)
                asm, g = env.str_goal(s, x, a.pay(6))
                env.prove(s, asm, g, 'value', 'reading a string operand yields its value')
            else:
                x = OV.of(t, r)
                asm, g = env.same_goal(s, x, OV.of(t, a.pay(t)))
                env.prove(s, asm, g, 'value', 'reading an operand as %s yields its value' % n)
        if seen != {'ret', 'exc'} and not ex.failures:
            raise Unsupported('outcomes of GetValue')
    st = env.fresh()
    st.pc.append(in_types(a))
    p, o = operand(env, st, a), env.obj(st, 64, 'copy')
    for s, _ in outcomes(env, env.call(st, 'vh_od_copy', [o, p]), 'copy'):
        check_ov(env, s, o, a, 'value', 'a copy is equal')
        check_ov(env, s, p, a, 'frame', 'copying leaves the source')


def equal_goal(a, b):
    """same type and equal values"""
    cs = [z3.And(a.is_(0), b.is_(0))]
    for t in range(1, 7):
        x, y = a.pay(t), b.pay(t)
        if t == 6:
            e = M.str_eq(x, y)
        elif t in (4, 5):
            e = z3.fpEQ(x, y)
        elif t == 3:
            e = boolt(x) == boolt(y)
        else:
            e = bv(x, 32 * t) == bv(y, 32 * t)
        cs.append(z3.And(a.is_(t), b.is_(t), e))
    return z3.Or(cs)


def run_operand_equality(env):
    a, b = OV.sym('a'), OV.sym('b')
    for fn in ('vh_od_eq', 'vh_od_ne'):
        st = env.fresh()
        st.pc += [in_types(a), in_types(b)]
        p, q = operand(env, st, a), operand(env, st, b)
        for s, r in outcomes(env, env.call(st, fn, [p, q]), fn):
            g = equal_goal(a, b)
            env.prove(s, [], boolt(r) == (g if fn == 'vh_od_eq' else z3.Not(g)), 'value', 'operands are equal exactly when types and values are')
            check_ov(env, s, p, a, 'frame', 'comparing changes nothing')
            check_ov(env, s, q, b, 'frame', 'comparing changes nothing')
    # String: the members the variant's comparison and hash rely on
    x, y = Str.of_term(z3.Const('x', StrSort)), Str.of_term(z3.Const('y', StrSort))
    for n, o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
        st = env.fresh()
        p, q = string(env, st, x), string(env, st, y)
        for s, r in outcomes(env, env.call(st, 'vh_s_' + n, [p, q]), n):
            env.prove(s, [], boolt(r) == M.rel_op(o, x, y), 'value', 'String %s compares the contents' % o)


def run_operand_hash(env):
    a, b = OV.sym('a'), OV.sym('b')
    st = env.fresh()
    st.pc += [in_types(a), in_types(b), equal_goal(a, b)]
    p, q = operand(env, st, a), operand(env, st, b)
    for s, r in outcomes(env, env.call(st, 'vh_od_hash', [p]), 'hash'):
        for s2, r2 in outcomes(env, env.call(s, 'vh_od_hash', [q]), 'hash'):
            asm = [z3.Implies(z3.And(a.is_(6), b.is_(6)), a.pay(6).term == b.pay(6).term)]
            env.prove(s2, asm, bv(r, 64) == bv(r2, 64), 'value', 'equal operands have equal hashes')
            check_ov(env, s2, p, a, 'frame', 'hashing changes nothing')
    x = Str.of_term(z3.Const('x', StrSort))
    st = env.fresh()
    p, q = string(env, st, x), string(env, st, x)
    for s, r in outcomes(env, env.call(st, 'vh_s_hash', [p]), 'hash'):
        for s2, r2 in outcomes(env, env.call(s, 'vh_s_hash', [q]), 'hash'):
            env.prove(s2, [], bv(r, 64) == bv(r2, 64), 'value', 'equal strings have equal hashes')


def run_any(env):
    for t, n in NAMES.items():
        a = OV.sym('a')
        st = env.fresh()
        st.pc.append(z3.Or(a.is_(0), a.is_(t)))
        p, o = operand(env, st, a), env.obj(st, 64, 'result')
        for s, _ in outcomes(env, env.call(st, 'vh_any_rt_' + n, [o, p]), 'FromOperand/ToOperand<%s>' % n):
            check_ov(env, s, o, a, 'value', 'operand -> holder -> operand keeps the value (%s)' % n)
            check_ov(env, s, p, a, 'frame', 'conversion leaves the source (%s)' % n)


def run_tuple_hash(env):
    """std::hash<Tuple> is a fold of the elements' hashes: equal element by element implies equal hashes"""
    ex = env.ex
    st = env.fresh()
    A, B = OV.family('A'), OV.family('B')
    p, n = env.tuple(st, 'A')
    q, _ = env.tuple(st, 'B', n)
    for s, r1 in outcomes(env, env.call(st, 'vh_tp_hash', [p]), 'hash'):
        for s2, r2 in outcomes(env, env.call(s, 'vh_tp_hash', [q]), 'hash'):
            if not env.loops(s2):
                # every path unrolled: lengths are concrete on this path
                asm = []
                for j in range(13):
                    a, b = A(j), B(j)
                    asm += [z3.Implies(z3.UGT(n, j), z3.And(in_types(a), in_types(b), equal_goal(a, b))),
                            z3.Implies(z3.And(a.is_(6), b.is_(6), equal_goal(a, b)), a.pay(6).term == b.pay(6).term)]
                env.prove(s2, asm, bv(r1, 64) == bv(r2, 64), 'value', 'equal tuples have equal hashes')
                continue
            L1, L2 = (env.loops(s2) + [None, None])[:2]
            if L2 is None or len(env.loops(s2)) != 2:
                raise Unsupported('shape of the tuple hash')
            k1, k2 = L1.k, L2.k
            v1, v2 = [[x for x in L.slots.values() if x.kind == 'any'] for L in (L1, L2)]
            if len(v1) != len(v2) or any(x.kind not in ('any', 'ind', 'pind', 'junk', 'it') for L in (L1, L2) for x in L.slots.values()):
                raise Unsupported('shape of the tuple hash')
            a, b = A(k1), B(k1)
            eqs = [k1 == k2] + [x.sym == y.sym for x, y in zip(v1, v2)]
            base = [in_types(a), in_types(b), equal_goal(a, b), z3.Implies(z3.And(a.is_(6), b.is_(6)), a.pay(6).term == b.pay(6).term)]
            for x, y in zip(v1, v2):
                env.prove(L1.entry.fork(), [], x.v0 == y.v0 if z3.is_expr(x.v0) or z3.is_expr(y.v0) else z3.BoolVal(x.v0 == y.v0), 'value', 'the fold starts from a constant')
            for b1, h1 in L1.backs:
                for b2, h2 in L2.backs:
                    s3 = b2.fork()
                    s3.pc = b1.pc + b2.pc + eqs
                    if not ex.feasible(s3):
                        continue
                    for x, y in zip(v1, v2):
                        c1, c2 = b1.mem[x.key[0]].cells[x.key[1]][1], b2.mem[y.key[0]].cells[y.key[1]][1]
                        env.prove(s3, base, bv(c1, 64) == bv(c2, 64), 'value', 'the hash of a tuple folds only the hashes of its elements')
            if not ex.valid(s2, z3.And(k1 == n, k2 == n)):
                raise Unsupported('the hash of a tuple does not visit every element')
            env.prove(s2, eqs[1:], bv(r1, 64) == bv(r2, 64), 'value', 'equal folds give equal hashes')


# ---------------------------------------------------------------- tuples
def index_array(env, st, name, n, srclen):
    """array of n column numbers, each inside a tuple of srclen elements"""
    f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(32))

    def at(i):
        x = f(i64(i))
        return z3.If(z3.And(x >= 0, z3.ULT(z3.SignExt(32, x), srclen)), x, z3.BitVecVal(0, 32))
    p = env.ex.new_obj(st, 'heap', norm(n * 4), name, 'new[]')
    st.mem[p.base].arr = Seq(4, 32, nb=i64(n), bat=at, ident=name)
    return p, at


def run_map_tuple(env):
    st = env.fresh()
    src, n = env.tuple(st, 'src')
    m = z3.BitVec('cols', 64)
    st.pc += [z3.ULT(m, LIM31), z3.Or(m == 0, z3.UGT(n, 0))]
    ix, at = index_array(env, st, 'index', m, n)
    before = dict(st.mem)
    for s, r in outcomes(env, env.call(st, 'vh_map', [src, ix, m]), 'MapTuple'):
        q = env.tuple_seq(s, r)
        if q is None:
            env.prove(s, [], z3.BoolVal(False), 'value', 'MapTuple returns a new tuple')
            continue
        env.prove(s, [], i64(q.n) == m, 'value', 'MapTuple: one element per column')
        j = fresh_bv('j', 64)
        s.pc.append(z3.ULT(j, m))
        asm, g = env.same_goal(s, q.at(j), OV.family('src')(z3.SignExt(32, at(j))))
        env.prove(s, asm, g, 'value', 'MapTuple: element j is the column index[j]')
        env.prove(s, [], z3.BoolVal(set(env.live(s, before)) == {r.base}), 'leak', 'MapTuple allocates only its result')
        check_tuple_same(env, s, src, 'src', n, 'MapTuple leaves its source')


def check_tuple_same(env, s, p, name, n, msg, kind='frame'):
    q = env.tuple_seq(s, p)
    if q is None:
        env.prove(s, [], z3.BoolVal(False), kind, msg)
        return
    if q.ident == name and not q.upd and not q.tail:
        env.ex.stats.obl += 1
        env.ex.stats.disch += 1
        return
    j = fresh_bv('j', 64)
    s = s.fork()
    env.prove(s, [], i64(q.n) == n, kind, msg)
    s.pc.append(z3.ULT(j, n))
    asm, g = env.same_goal(s, q.at(j), OV.family(name)(j))
    env.prove(s, asm, g, kind, msg)


def run_concat_tuple(env):
    st = env.fresh()
    a, n = env.tuple(st, 'a')
    b, m = env.tuple(st, 'b')
    before = dict(st.mem)
    for s, r in outcomes(env, env.call(st, 'vh_concat', [a, b]), 'ConcatTuple'):
        q = env.tuple_seq(s, r)
        if q is None:
            env.prove(s, [], z3.BoolVal(False), 'value', 'ConcatTuple returns a new tuple')
            continue
        env.prove(s, [], i64(q.n) == n + m, 'value', 'ConcatTuple: length')
        j = fresh_bv('j', 64)
        s1 = s.fork()
        s1.pc.append(z3.ULT(j, n))
        asm, g = env.same_goal(s1, q.at(j), OV.family('a')(j))
        env.prove(s1, asm, g, 'value', 'ConcatTuple: first part')
        s1 = s.fork()
        s1.pc.append(z3.ULT(j, m))
        asm, g = env.same_goal(s1, q.at(norm(n + j)), OV.family('b')(j))
        env.prove(s1, asm, g, 'value', 'ConcatTuple: second part')
        env.prove(s, [], z3.BoolVal(set(env.live(s, before)) == {r.base}), 'leak', 'ConcatTuple allocates only its result')
        check_tuple_same(env, s, a, 'a', n, 'ConcatTuple leaves its sources')
        check_tuple_same(env, s, b, 'b', m, 'ConcatTuple leaves its sources')

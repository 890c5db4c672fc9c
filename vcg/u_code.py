"""Contracts of the decoders: immediates (DecodeValue), lists (DecodeArray, DecodeVector), programs (OperatorVector)."""
import z3
from vals import *
from env import *
from u_misc import outcomes, check_ov, check_tuple_same
import models as M
from irparse import I, FLOAT, DOUBLE

V = z3.BitVecVal
TRUNC = '_ZTIN7dingodb4expr13TruncatedCodeE'
UNKNOWN = '_ZTIN7dingodb4expr11UnknownCodeE'
INT = {'i32': 32, 'i64': 64, 'll': 64, 'u32': 32, 'u64': 64, 'ull': 64}
CPP = {'int': 32, 'long': 64, 'long long': 64, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64}


def varint(f, pos, end, w):
    """the encodings of an integer of w bits: [(condition on the bytes from pos, number of bytes, value)]"""
    pos, end = i64(pos), i64(end)
    out = []
    m = (w + 6) // 7
    for n in range(1, m + 1):
        b = [bv(f(norm(pos + j)), 8) for j in range(n)]
        c = [z3.ULE(V(n, 64), end - pos)] + [z3.UGE(x, 0x80) for x in b[:-1]] + [z3.ULT(b[-1], 0x80)]
        if n > 1:
            c.append(b[-1] != 0)
        if n == m:
            c.append(z3.ULT(b[-1], 1 << (w - 7 * (m - 1))))
        val = V(0, w)
        for j, x in enumerate(b):
            val = val | z3.ZeroExt(w - 8, x & 0x7f) << (7 * j)
        out.append((z3.And(c), n, val))
    return out


def incomplete(f, pos, end, m):
    """the buffer ends inside the integer: every byte left announces another one"""
    pos, end = i64(pos), i64(end)
    left = end - pos
    return z3.Or([z3.And(left == n, *[z3.UGE(bv(f(norm(pos + j)), 8), 0x80) for j in range(n)]) for n in range(m)])


def cell(env, st, size, name):
    return env.obj(st, size, name)


def run_varint(env):
    for nm, w in INT.items():
        st = env.fresh()
        p, n, f = env.symcode(st, 'code')
        o = cell(env, st, w // 8, 'value')
        bad = incomplete(f, 0, n, (w + 6) // 7)
        cases = varint(f, 0, n, w)
        seen = set()
        before = dict(st.mem)
        for s, k, v in env.call(st, 'vh_dec_' + nm, [o, p, z_end(p, n)]):
            seen.add(k)
            env.prove(s, [], z3.BoolVal(not env.live(s, before)), 'leak', 'decoding an integer keeps no memory')
            if k == 'exc':
                for c, l, val in cases:
                    env.prove(s, [], z3.Not(c), 'imm', 'an integer of %d bytes is rejected (%s)' % (l, nm))
                continue
            env.prove(s, [], z3.Not(bad), 'trunc', 'an incomplete integer is accepted (%s)' % nm)
            used = end_of(env, s, p, v)
            if used is None:
                continue
            env.prove(s, [], z3.And(used != 0, z3.ULE(used, n)), 'consume', 'decoding an integer ends outside the buffer (%s)' % nm)
            got = s.mem[o.base].cells.get(0)
            if got is None:
                raise Unsupported('decoded value')
            for c, l, val in cases:
                s2 = s.fork()
                s2.pc.append(c)
                if not env.ex.feasible(s2):
                    continue
                env.prove(s2, [], used == l, 'imm', 'decoding an integer consumes its bytes (%s)' % nm)
                env.prove(s2, [], bv(got[1], w) == val, 'imm', 'decoding an integer yields its value (%s)' % nm)
        if seen != {'ret', 'exc'} and not env.ex.failures:
            raise Unsupported('outcomes of DecodeValue')


def z_end(p, n):
    return Ptr(p.base, Lin.of(n))


def end_of(env, s, p, v, kind='consume'):
    """offset of a returned position in the buffer of p"""
    if not isinstance(v, Ptr) or v.base != p.base:
        env.prove(s, [], z3.BoolVal(False), kind, 'the position returned is not in the buffer')
        return None
    return i64(norm(Lin.of(v.off).bv()))


def run_real(env):
    for nm, w, srt in (('f32', 32, F32), ('f64', 64, F64)):
        st = env.fresh()
        p, n, f = env.symcode(st, 'code')
        o = cell(env, st, w // 8, 'value')
        bits = z3.Concat(*[f(V(i, 64)) for i in range(w // 8)])
        seen = set()
        for s, k, v in env.call(st, 'vh_dec_' + nm, [o, p, z_end(p, n)]):
            seen.add(k)
            env.prove(s, [], z3.ULT(n, w // 8) if k == 'exc' else z3.UGE(n, w // 8), 'imm' if k == 'exc' else 'trunc',
                      'a %s is decoded exactly when its bytes are there' % nm)
            if k == 'exc':
                continue
            used = end_of(env, s, p, v)
            if used is None:
                continue
            env.prove(s, [], used == w // 8, 'imm', 'decoding a %s consumes its bytes' % nm)
            got = s.mem[o.base].cells.get(0)
            if got is None:
                raise Unsupported('decoded value')
            g = got[1]
            if z3.is_expr(g) and z3.is_fp(g):
                env.prove(s, [], same_real(g, z3.fpBVToFP(bits, srt)), 'imm', 'a %s has the big-endian bit pattern' % nm)
            else:
                env.prove(s, [], bv(g, w) == bits, 'imm', 'a %s has the big-endian bit pattern' % nm)
        if seen != {'ret', 'exc'} and not env.ex.failures:
            raise Unsupported('outcomes of DecodeValue')


# ------------------------------------------------------------------ contracts for callers
def byte_fn(ex, st, p):
    o = st.mem.get(p.base)
    if o is None or o.arr is None or not o.alive:
        raise Unsupported('decoding from something else than a buffer')
    return o.arr.at


def decode_contract(env, w):
    """DecodeValue<integer>: proved by codec/varint"""
    def c(ex, st, args, name):
        v, p, e = args
        if not (isinstance(p, Ptr) and isinstance(e, Ptr) and p.base == e.base and isinstance(v, Ptr)):
            return NotImplemented
        f = byte_fn(ex, st, p)
        pos, end = i64(Lin.of(p.off).bv()), i64(Lin.of(e.off).bv())
        n = st.mem[p.base].size
        ex.obl(st.fork(), z3.And(z3.ULE(pos, end), z3.ULE(end, i64(n))), 'memory', 'decoding reads past the end of the code buffer')
        st.pc += [z3.ULE(pos, end), z3.ULE(end, i64(n))]
        who = str(st.mem[p.base].arr.ident)
        nxt = z3.Function('next%d.%s' % (w, who), *[z3.BitVecSort(64)] * 3)(pos, end)
        val = z3.Function('val%d.%s' % (w, who), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(w))(pos, end)
        a, b = st.fork(), st.fork()
        a.pc += [z3.ULT(pos, nxt), z3.ULE(nxt, end)]
        a.events.append(('dec', w, f, pos, end, nxt - pos, val))
        ex.store(a, v, val, I[w])
        b.events.append(('dec', w, f, pos, end, None, None))
        ex.store(b, v, val, I[w])
        return [(a, 'ret', Ptr(p.base, Lin.of(nxt))), ex.throw(b, TRUNC)]
    return c


def recall(st, nev=0):
    """the postconditions of the integers decoded on the way (kept out of the path condition until needed)"""
    s = st.fork()
    for e in s.events[nev:]:
        if e[0] != 'dec':
            continue
        _, w, f, pos, end, used, val = e
        cases = varint(f, pos, end, w)
        if used is None:
            s.pc += [z3.Not(c) for c, l, x in cases]
        else:
            s.pc.append(z3.Not(incomplete(f, pos, end, (w + 6) // 7)))
            s.pc += [z3.Implies(c, z3.And(used == l, val == x)) for c, l, x in cases]
    return s


def real_contract(env, w, srt):
    """DecodeValue<float>, DecodeValue<double>: proved by codec/real"""
    def c(ex, st, args, name):
        v, p, e = args
        if not (isinstance(p, Ptr) and isinstance(e, Ptr) and p.base == e.base and isinstance(v, Ptr)):
            return NotImplemented
        f = byte_fn(ex, st, p)
        pos, end = i64(Lin.of(p.off).bv()), i64(Lin.of(e.off).bv())
        n = st.mem[p.base].size
        ex.obl(st.fork(), z3.And(z3.ULE(pos, end), z3.ULE(end, i64(n))), 'memory', 'decoding reads past the end of the code buffer')
        st.pc += [z3.ULE(pos, end), z3.ULE(end, i64(n))]
        k = w // 8
        bits = z3.Concat(*[bv(f(norm(pos + i)), 8) for i in range(k)])
        a, b = st.fork(), st.fork()
        a.pc.append(z3.UGE(end - pos, k))
        ex.store(a, v, z3.fpBVToFP(bits, srt), FLOAT if w == 32 else DOUBLE)
        b.pc.append(z3.ULT(end - pos, k))
        return [(a, 'ret', Ptr(p.base, Lin.of(norm(pos + k)))), ex.throw(b, TRUNC)]
    return c


def hexof_contract(env):
    """HexOfBytes: proved by hex/of"""
    def c(ex, st, args, name):
        o, p, n = args
        if not (isinstance(o, Ptr) and isinstance(p, Ptr)):
            return NotImplemented
        size = i64(st.mem[p.base].size)
        pos, n = i64(Lin.of(p.off).bv()), i64(n)
        ex.obl(st.fork(), z3.And(z3.ULE(pos, size), z3.ULE(n, size - pos)), 'memory', 'the message reads past the end of the code buffer')
        ex.put_abs(st, o, Str.of_term(fresh('hex', StrSort)))
        return [(st, 'ret', None)]
    return c


def use_contracts(env):
    pre = 'unsigned char const* dingodb::expr::DecodeValue<%s>'
    for t, w in CPP.items():
        env.ex.contracts[pre % t] = decode_contract(env, w)
    env.ex.contracts[pre % 'float'] = real_contract(env, 32, F32)
    env.ex.contracts[pre % 'double'] = real_contract(env, 64, F64)
    env.ex.contracts['dingodb::expr::HexOfBytes[abi:cxx11]'] = hexof_contract(env)
    env.ex.contracts['dingodb::expr::HexOfBytes'] = hexof_contract(env)
    optype(env)


def optype(env):
    """an operator that is not known here reports some type, always the same one (ops/type: it is one of the types)"""
    def gt(ex, st, h, args):
        i = i64(h.idx) if h.idx is not None else z3.BitVecVal(0, 64)
        return [(st, 'ret', z3.Function('optype', z3.IntSort(), z3.BitVecSort(64), z3.BitVecSort(8))(z3.IntVal(h.id if isinstance(h.id, int) else hash(str(h.id))), i))]
    env.ex.vhandlers[('dingodb::expr::Operator', 'GetType')] = gt


def run_string(env):
    use_contracts(env)
    st = env.fresh()
    p, n, f = env.symcode(st, 'code')
    o = cell(env, st, 64, 'value')
    st, _ = env.call1(st, 'vh_str_new', [o])
    bad = incomplete(f, 0, n, 5)
    cases = varint(f, 0, n, 32)
    seen = set()
    for s, k, v in env.call(st, 'vh_dec_str', [o, p, z_end(p, n)]):
        seen.add(k)
        s = recall(s)
        if k == 'ret':
            env.prove(s, [], z3.Not(bad), 'trunc', 'an incomplete length is accepted')
            used = end_of(env, s, p, v)
            if used is None:
                continue
            env.prove(s, [], z3.ULE(used, n), 'consume', 'decoding a string ends outside the buffer')
        for c, l, ln in cases:
            ln = z3.ZeroExt(32, ln)
            s2 = s.fork()
            s2.pc.append(c)
            if not env.ex.feasible(s2):
                continue
            fits = z3.ULE(ln, n - l)
            if k == 'exc':
                env.prove(s2, [], z3.Not(fits), 'imm', 'a complete string is rejected')
                continue
            env.prove(s2, [], fits, 'trunc', 'a string longer than the buffer is accepted')
            env.prove(s2, [], used == ln + l, 'imm', 'decoding a string consumes its bytes')
            got = str_at(env, s2, o)
            j = fresh_bv('j', 64)
            env.prove(s2, [], i64(got.n) == ln, 'imm', 'a decoded string has the length announced')
            s2.pc.append(z3.ULT(j, ln))
            env.prove(s2, [], bv(got.at(j), 8) == f(j + l), 'imm', 'a decoded string has the bytes of the buffer')
    if seen != {'ret', 'exc'} and not env.ex.failures:
        raise Unsupported('outcomes of DecodeValue<String>')


def str_at(env, st, o):
    """content of a String object"""
    d = env.obj(st, 64, 'content')
    s, _ = env.call1(st.fork(), 'vh_str_get', [d, o])
    return env.ex.get_abs(s, d)


# ------------------------------------------------------------------ programs
TYPES = (1, 2, 3, 4, 5, 7)
OVT = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 7: 6}


def ov_info(env):
    """offsets of the program and of the owned operators in an OperatorVector (found by running the real code)"""
    st = env.fresh()
    v = env.obj(st, 256, 'operator vector')
    st, _ = env.call1(st, 'vh_ov_new', [v])
    seqs = [k for k, (z, x) in st.mem[v.base].cells.items() if isinstance(x, Seq)]
    c = env.code(st, bytes.fromhex('8101'))
    s1, _ = env.call1(st.fork(), 'vh_ov_decode', [v, c, 2])
    prog = [k for k in seqs if s1.mem[v.base].cells[k][1].n == 1]
    if len(prog) != 1 or any(st.mem[v.base].cells[k][1].ety != 'ptr' for k in seqs):
        raise Unsupported('layout of OperatorVector')
    own = [k for k in seqs if k != prog[0]]
    if len(own) > 1:
        raise Unsupported('layout of OperatorVector')
    env.frames['operator vector'] = set(seqs)
    return prog[0], own[0] if own else None


def table(env):
    """encodings without immediates: bytes -> operators (as decoded, concretely, by the real code)"""
    out = {}
    st = env.fresh()
    todo = [bs for bs, op in S.all_ops()] + [bytes([c, t << 4 | t]) for c in (0xf0, 0xfc) for t in TYPES]
    for bs in todo:
        s, v, ops, pos = env.ops(st.fork(), bs)
        if pos != len(bs) or len(ops) != (0 if bs[0] in (0xf0, 0xfc) and bs[1] >> 4 == bs[1] & 15 else 1):
            env.ex.stats.obl += 1
            env.ex.fail(s, 'decode', 'the encoding %s decodes into %d operators, %d bytes' % (bs.hex(), len(ops), pos))
            continue
        out[bs] = [(o, vtab(env, s, o)) for o in ops]
    return out


def vtab(env, s, o):
    """class of a stateless object"""
    if not isinstance(o, Ptr) or not isinstance(o.base, int) or o.off != 0:
        return None
    b = s.mem[o.base]
    c = b.cells.get(0)
    if c is None or not isinstance(c[1], Ptr) or set(b.cells) != {0} or b.arr is not None:
        return None
    return (c[1].base, c[1].off)


class Iteration:
    """one generic step of the decoding loop"""
    def __init__(self, s, pos, npos, added, owned):
        self.s, self.pos, self.npos, self.added, self.owned = s, pos, npos, added, owned


def seq_added(q, h):
    """elements appended to h to get q, or None"""
    import loops
    if q is h:
        return []
    n = len(h.tail)
    if q.upd or h.upd or len(q.tail) < n:
        return None
    cut = q.but(tail=q.tail[:n])
    if not loops.seq_eq(cut.but(gen=0), h.but(gen=0)):
        return None
    return list(q.tail[n:])


def supported(f, pos, end, tab):
    """some documented encoding without immediates starts at pos, completely inside the buffer"""
    return z3.Or([at(f, pos, end, bs) for bs in tab])


def at(f, pos, end, bs):
    return z3.And(z3.ULE(V(len(bs), 64), end - pos), *[bv(f(norm(pos + i)), 8) == b for i, b in enumerate(bs)])


IMM = [0x10 | t for t in (1, 2, 4, 5, 7)] + [0x21, 0x22] + [0x30 | t for t in range(1, 8)]
PLAIN = [0x13, 0x23] + [t for t in TYPES]


def run_program(env):
    use_contracts(env)
    ex = env.ex
    prog, own = ov_info(env)
    tab = table(env)
    st = env.fresh()
    v = env.obj(st, 256, 'operator vector')
    st, _ = env.call1(st, 'vh_ov_new', [v])
    p, n, f = env.symcode(st, 'code')
    before = dict(st.mem)
    rs = env.call(st, 'vh_ov_decode', [v, p, n])
    ls = {}
    for s, k, r in rs:
        for e in s.events:
            if e[0] == 'loop':
                ls[id(e[1])] = e[1]
    if len(ls) != 1:
        raise Unsupported('loops of Decode')
    L = list(ls.values())[0]
    if len(L.heads) != 1:
        raise Unsupported('loops of Decode')
    head = L.heads[0]
    hq = head.mem[v.base].cells[prog][1]
    ho = head.mem[v.base].cells[own][1] if own is not None else None
    eq0 = L.entry.mem[v.base].cells[prog][1]
    env.prove(L.entry, [], i64(eq0.n) == 0, 'decode', 'decoding starts from an empty program')
    cands = []
    for key, slot in L.slots.items():
        o = head.mem.get(key[0])
        c = o.cells.get(key[1]) if o is not None and key[1] != 'arr' else None
        if c is None:
            continue
        x = c[1]
        if isinstance(x, Ptr) and x.base == p.base:
            x = Lin.of(x.off).bv()
        if z3.is_expr(x) and z3.is_bv(x) and x.size() == 64 and not x.eq(L.k):
            cands.append((key, i64(x)))
    if not cands:
        raise Unsupported('position of the decoder')
    rets = [(s, r) for s, k, r in rs if k == 'ret']

    def ret_goal(pos, r):
        e = i64(Lin.of(r.off).bv())
        return z3.Or(z3.And(pos == n, e == pos), z3.And(z3.ULT(pos, n), f(pos) == 0, e == pos + 1))
    pick = None
    for key, pos in cands:
        if all(isinstance(r, Ptr) and r.base == p.base and ex.valid(s, ret_goal(pos, r)) for s, r in rets):
            pick = (key, pos)
            break
    if pick is None:
        if len(cands) > 1:
            raise Unsupported('position of the decoder')
        pick = cands[0]
    key, pos = pick
    for s, r in rets:
        if end_of(env, s, p, r, 'decode') is None:
            continue
        env.prove(s, [], ret_goal(pos, r), 'decode', 'decoding stops right after the first end mark or at the end of the buffer')
        a = seq_added(s.mem[v.base].cells[prog][1], hq)
        if a is None:
            raise Unsupported('program after decoding')
        env.prove(s, [], z3.BoolVal(not a), 'decode', 'decoding ends with a program that was not encoded')
        leak(env, s, head, [], 'decoding keeps memory it does not own')
    imm_here = z3.Or([f(pos) == b for b in IMM])
    plain_here = z3.Or([f(pos) == b for b in PLAIN])
    two = [0x81 + i for i in range(7)] + [0x91 + i for i in range(6)] + [0xa1, 0xa2, 0xa3, 0xb1, 0xb2, 0xb3, 0xb4, 0xf0, 0xfc, 0xf1]
    two_here = z3.Or([f(pos) == b for b in two])
    known = supported(f, pos, n, tab)
    cut = z3.And(two_here, n - pos == 1)
    for s, k, r in rs:
        if k != 'exc':
            continue
        env.prove(s, [], z3.Not(known), 'decode', 'a documented operator is rejected')
        env.prove(s, [], z3.And(f(pos) != 0, z3.ULT(pos, n)), 'decode', 'the end of the program is rejected')
        env.prove(s, [], z3.Not(plain_here), 'imm', 'a NULL or BOOL constant is rejected')
        if r[1] != UNKNOWN:
            env.prove(s, [], z3.Or(imm_here, cut), 'decode', 'an unknown code is rejected with another error (%s)' % r[1])
        leak(env, s, head, [], 'a rejected program leaves memory behind')
        s = recall(s)
        s.pc.append(imm_here)
        if not ex.feasible(s):
            continue
        ints = varint(f, pos + 1, n, 32)
        env.prove(s, [], z3.Not(z3.And(z3.Or([f(pos) == b for b in (0x11, 0x21, 0x31, 0x32, 0x33, 0x34, 0x35, 0x37)]), z3.Or([c for c, l, x in ints]))),
                  'imm', 'an encoded INT32 or variable is rejected')
        env.prove(s, [], z3.Not(z3.And(z3.Or([f(pos) == b for b in (0x12, 0x22)]), z3.Or([c for c, l, x in varint(f, pos + 1, n, 64)]))),
                  'imm', 'an encoded INT64 is rejected')
        env.prove(s, [], z3.Not(z3.And(f(pos) == 0x14, z3.UGE(n - pos, 5))), 'imm', 'an encoded FLOAT is rejected')
        env.prove(s, [], z3.Not(z3.And(f(pos) == 0x15, z3.UGE(n - pos, 9))), 'imm', 'an encoded DOUBLE is rejected')
        for c, l, x in ints:
            env.prove(s, [], z3.Not(z3.And(f(pos) == 0x17, c, z3.ULE(z3.ZeroExt(32, x), n - pos - 1 - l))), 'imm', 'an encoded STRING is rejected')
    for b, hi in L.backs:
        o = b.mem[key[0]].cells[key[1]][1]
        npos = i64(Lin.of(o.off).bv()) if isinstance(o, Ptr) else i64(o)
        a = seq_added(b.mem[v.base].cells[prog][1], hq)
        if a is None:
            raise Unsupported('program after a step')
        w = seq_added(b.mem[v.base].cells[own][1], ho) if own is not None else []
        if w is None:
            raise Unsupported('owned operators after a step')
        env.prove(b, [], z3.ULT(pos, n), 'decode', 'a step of decoding without a code byte')
        if len(a) > 1:
            env.prove(b, [], z3.BoolVal(False), 'decode', 'one code adds several operators')
            continue
        x = a[0] if a else None
        heap = x is not None and isinstance(x.base, int) and x.base not in head.mem
        env.prove(b, [], z3.BoolVal(len(w) == (1 if heap else 0) and all(isinstance(y, Ptr) and y.base == x.base for y in w)), 'own',
                  'an operator is owned exactly when it was allocated for this program')
        leak(env, b, head, [x] if heap else [], 'decoding a step leaves memory behind')
        # which encodings lead here
        good = []
        for bs, ops in tab.items():
            if (not a and not ops) or (a and ops and same_op(env, b, x, ops[0])):
                good.append(z3.And(at(f, pos, n, bs), npos == pos + len(bs)))
        s = b
        c = imm_here if x is not None else z3.BoolVal(False)
        c2 = plain_here if x is not None else z3.BoolVal(False)
        env.prove(s, [], z3.Or(c, c2, *good), 'decode', 'a code adds the operator it encodes and is consumed completely')
        if x is None:
            continue
        s = b.fork()
        s.pc.append(z3.Or(c, c2))
        if ex.feasible(s):
            check_const(env, recall(s, L.nev), x, f, pos, npos, n)


def leak(env, s, head, keep, msg):
    ids = {x.base for x in keep}
    live = [i for i, o in s.mem.items() if i not in head.mem and o.kind == 'heap' and o.alive and i not in ids]
    env.prove(s, [], z3.BoolVal(not live), 'leak', msg)


def same_op(env, s, x, y):
    o, vt = y
    if x.base == o.base and ptr_same(x, o):
        return True
    return vt is not None and isinstance(x.base, int) and vtab(env, s, x) == vt


def check_const(env, s, x, f, pos, npos, n):
    """the operator object added for a constant, a variable or a NULL: what applying it does"""
    ex = env.ex
    ints = lambda w: varint(f, pos + 1, n, w)
    one = lambda c, t, val, l: (f(pos) == c, t, val, l)
    for t in TYPES:
        k = OVT[t]
        s1 = s.fork()
        s1.pc.append(z3.Or(*[f(pos) == c for c in ([t, 0x10 | t, 0x20 | t, 0x30 | t])]))
        if not ex.feasible(s1):
            continue
        ty = env.call(s1.fork(), 'vh_op_type', [x])
        for s2, kk, r in ty:
            env.prove(s2, [], bv(r, 8) == t if kk == 'ret' else z3.BoolVal(False), 'rtype', 'a constant or variable reports its encoded type')
        # constants
        exp = []
        exp.append((f(pos) == t, OV.null(), 1))
        if t == 3:
            exp += [(f(pos) == 0x13, OV.of(3, z3.BoolVal(True)), 1), (f(pos) == 0x23, OV.of(3, z3.BoolVal(False)), 1)]
        elif t in (1, 2):
            for c, l, val in ints(32 * t):
                exp.append((z3.And(c, f(pos) == (0x10 | t)), OV.of(k, val), 1 + l))
                exp.append((z3.And(c, f(pos) == (0x20 | t)), OV.of(k, -val), 1 + l))
        elif t in (4, 5):
            w = 4 if t == 4 else 8
            bits = z3.Concat(*[f(pos + 1 + i) for i in range(w)])
            exp.append((z3.And(f(pos) == (0x10 | t), z3.UGE(n - pos, 1 + w)), OV.of(k, z3.fpBVToFP(bits, F32 if t == 4 else F64)), 1 + w))
        else:
            for c, l, val in ints(32):
                ln = z3.ZeroExt(32, val)
                exp.append((z3.And(c, f(pos) == 0x17, z3.ULE(ln, n - pos - 1 - l)),
                            OV.of(6, Str(ln, lambda i, l=l: f(norm(pos + 1 + l + i64(i))))), 1 + l + ln))
        cs = [z3.And(f(pos) == c) for c in (t, 0x10 | t, 0x20 | t)]
        s2 = s1.fork()
        s2.pc.append(z3.Or(cs))
        if ex.feasible(s2):
            s3, stk, off = env.stack(s2)
            s3, tp, tn = bound(env, s3, stk)
            for s4, kk, r in env.call(s3, 'vh_op_apply', [x, stk]):
                env.prove(s4, [], z3.BoolVal(kk == 'ret'), 'imm', 'evaluating a constant raises an error')
                if kk != 'ret':
                    continue
                top = pushed(env, s4, stk, off, 'imm')
                for c, ov, l in exp:
                    s5 = s4.fork()
                    s5.pc.append(c)
                    if not ex.feasible(s5):
                        continue
                    env.prove(s5, [], npos == pos + l, 'imm', 'a constant is consumed completely')
                    if top is not None:
                        a, g = env.same_goal(s5, top, ov)
                        env.prove(s5, a, g, 'imm', 'a constant yields the encoded value')
        # variables
        s2 = s1.fork()
        s2.pc.append(f(pos) == (0x30 | t))
        if ex.feasible(s2):
            for c, l, val in ints(32):
                s3 = s2.fork()
                s3.pc.append(c)
                if not ex.feasible(s3):
                    continue
                env.prove(s3, [], npos == pos + 1 + l, 'imm', 'a variable is consumed completely')
                s3, stk, off = env.stack(s3)
                unbound(env, s3.fork(), x, stk, off)
                s3, tp, tn = bound(env, s3, stk)
                ix = z3.ZeroExt(32, val)
                s3.pc.append(z3.ULT(ix, tn))
                for s4, kk, r in env.call(s3, 'vh_op_apply', [x, stk]):
                    env.prove(s4, [], z3.BoolVal(kk == 'ret'), 'var', 'evaluating a variable of the tuple raises an error')
                    if kk != 'ret':
                        continue
                    top = pushed(env, s4, stk, off, 'var')
                    if top is not None:
                        a, g = env.same_goal(s4, top, OV.family('row')(ix))
                        env.prove(s4, a, g, 'var', 'a variable yields the element of the bound tuple')
                    check_tuple_same(env, s4, tp, 'row', tn, 'a variable leaves the tuple alone')


def bound(env, st, stk):
    tp, tn = env.tuple(st, 'row0')
    st, _ = env.call1(st, 'vh_st_bind', [stk, tp])
    tn = env.retuple(st, tp, 'row')  # the caller may change the tuple after it was bound
    return st, tp, tn


def unbound(env, st, x, stk, off):
    for s, k, r in env.call(st, 'vh_op_apply', [x, stk]):
        env.prove(s, [], z3.BoolVal(k == 'exc'), 'var', 'a variable without a bound tuple must raise an error')


def pushed(env, s, stk, off, kind):
    """the value pushed; exactly one, everything below as before"""
    c = s.mem[stk.base].cells.get(off)
    q = c[1] if c is not None else None
    if not isinstance(q, Seq):
        raise Unsupported('operand stack')
    depth = z3.BitVec('stk.depth', 64)
    env.prove(s, [], i64(q.n) == depth + 1, kind, 'a constant or variable pushes exactly one value')
    if not (q.ident == 'stk' and not q.upd and len(q.tail) == 1):
        j = fresh_bv('below', 64)
        s3 = s.fork()
        s3.pc.append(z3.ULT(j, depth))
        a, g = env.same_goal(s3, q.at(j), OV.family('stk')(j))
        env.prove(s3, a, g, kind, 'a constant or variable changes operands below')
    return q.at(depth)


def run_release(env):
    """decoding again and destroying: every owned operator is released exactly once, nothing else"""
    prog, own = ov_info(env)
    if own is None:
        raise Unsupported('owned operators')
    use_contracts(env)
    for what in ('del', 'decode', 'runner'):
        st = env.fresh()
        if what == 'runner':
            release_runner(env)
            continue
        v = env.obj(st, 256, 'operator vector')
        st, _ = env.call1(st, 'vh_ov_new', [v])
        np_, no = z3.BitVec('prog.n', 64), z3.BitVec('own.n', 64)
        st.pc += [z3.ULT(np_, 1 << 31), z3.ULT(no, 1 << 31)]
        fid, gid = fresh_id(), fresh_id()
        o = st.mem[v.base] = st.mem[v.base].copy()
        for off, n, i in ((prog, np_, fid), (own, no, gid)):
            o.cells[off] = (o.cells[off][0], o.cells[off][1].but(nb=n, bat=fam(i), ident=('family', i)))
        if what == 'del':
            rs = env.call(st, 'vh_ov_del', [v])
        else:
            c = env.code(st, b'')
            rs = env.call(st, 'vh_ov_decode', [v, c, 0])
        for s, r in outcomes(env, rs, what):
            released(env, s, gid, no, 'own')
            env.prove(s, [], z3.BoolVal(not any(h.id == fid for h in deleted(s))), 'own', 'an operator that is not owned is released')
            if what == 'decode':
                for off, w in ((prog, 'program'), (own, 'list of owned operators')):
                    q = s.mem[v.base].cells[off][1]
                    env.prove(s, [], i64(q.n) == 0, 'own', 'decoding again keeps the previous %s' % w)


def fam(i):
    return lambda j: Ptr(Handle('dingodb::expr::Operator', i, i64(norm(i64(j)))))


def deleted(s):
    out = []
    for e in s.events:
        if e[0] == 'delete':
            out.append(e[1])
        elif e[0] == 'loop':
            for b, hi in e[1].backs:
                out += [x[1] for x in b.events[e[1].nev:] if x[0] == 'delete']
    return out


def released(env, s, gid, n, kind, msg='every owned object is released'):
    """all objects 0..n-1 of the family are freed (double frees are memory obligations of their own)"""
    j = fresh_bv('j', 64)
    cs = []
    for f in s.hfreed:
        if f[1] != gid:
            continue
        if f[0] == 'one':
            cs.append(z3.BoolVal(True) if f[2] is None else i64(f[2]) == j)
        else:
            cs.append(z3.And(z3.UGE(j, i64(f[2])), z3.ULT(j, i64(f[3]))))
    s = s.fork()
    s.pc.append(z3.ULT(j, n))
    env.prove(s, [], z3.Or(cs) if cs else z3.BoolVal(False), kind, msg)


def release_runner(env):
    import u_run
    ri = u_run.runner_info(env)
    if len(ri.owned) != 1:
        raise Unsupported('owned operators')
    st = env.fresh()
    st, r, n, fid = u_run.make_runner(env, st)
    t, tn = env.tuple(st, 'row')
    st, _ = env.call1(st, 'vh_rn_bind', [r, t])
    gid, no = fresh_id(), z3.BitVec('own.n', 64)
    st.pc.append(z3.ULT(no, 1 << 31))
    q = st.mem[r.base].cells[ri.owned[0]][1]
    u_run.set_cell(st, r, ri.owned[0], q.but(nb=no, bat=fam(gid), ident=('family', gid)))
    for s, x in outcomes(env, env.call(st, 'vh_rn_del', [r]), '~Runner'):
        released(env, s, gid, no, 'own')
        env.prove(s, [], z3.BoolVal(not any(h.id == fid for h in deleted(s))), 'own', 'an operator that is not owned is released')
        check_tuple_same(env, s, t, 'row', tn, 'destroying a runner leaves the bound tuple alone')

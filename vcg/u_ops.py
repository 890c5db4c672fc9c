"""Operators without immediates: contract of operator()(OperandStack&) against the specification."""
import z3
from vals import *
from env import *
import spec as S
import oracle as O


def check_apply(env, st, op, optr, owner, data):
    """apply the operator object to an arbitrary operand stack"""
    ex = env.ex
    ar, f = S.of(op)
    st, s, off = env.stack(st)
    depth = z3.BitVec('stk.depth', 64)
    vs = [OV.family('stk')(depth - (ar - j)) for j in range(ar)]
    # C07: strings of at most 2^31-1 bytes (positions are INT32)
    for v in vs:
        t = v.pay(6)
        st.pc.append(z3.ULT(t.n, z3.BitVecVal(1 << 31, 64)))
    enough = z3.UGE(depth, ar)
    cases = f(vs)
    r, _ = ex.check(st.pc, enough, None)
    if r != 'sat':
        raise Unsupported('precondition not satisfiable')
    rs = env.call(st, 'vh_op_apply', [optr, s])
    rs2 = []
    for r in rs:
        rs2.append(r)
    if not rs2 and not ex.failures:
        raise Unsupported('no outcome')
    nm = S.tname(op)
    for s2, kind, v in rs2:
        hint = dict(data, depth=depth, vs=vs)
        if kind == 'exc':
            ti = v[1]
            # with enough operands of the right types an error is raised only where specified
            for c, o, tag in cases:
                if tag == 'mismatch' or o[0] == 'any' or o == ('err', None):
                    continue
                if o[0] == 'err' and ti == LIM[o[1]]:
                    continue
                k = 'null' if tag == 'null' else 'value'
                env.prove(s2, [], z3.Not(z3.And(enough, c)), k, '%s raises %s where %s' % (nm, ti, describe(o, tag)), hint)
            continue
        # normal return: exactly ar operands consumed and one result pushed
        try:
            q = s2.mem[s.base].cells[off][1]
        except KeyError:
            raise Unsupported('operand stack not found after the call')
        if not isinstance(q, Seq):
            raise Unsupported('operand stack')
        env.prove(s2, [], enough, 'stack', '%s succeeds with fewer than %d operands' % (nm, ar), hint)
        s2.pc.append(enough)
        env.prove(s2, [], i64(q.n) == depth - ar + 1, 'stack', '%s must replace %d operand(s) by one result' % (nm, ar), hint)
        j = fresh_bv('below', 64)
        if q.ident == 'stk' and not q.upd and ex.valid(s2, i64(q.nb) == depth - ar):
            ex.stats.obl += 1
            ex.stats.disch += 1
            below_ok = True
        else:
            a, g = env.same_goal(s2, q.at(j), OV.family('stk')(j))
            s3 = s2.fork()
            s3.pc.append(z3.ULT(j, depth - ar))
            env.prove(s3, a, g, 'stack', '%s changes operands below its own' % nm, hint)
        got = q.at(norm(i64(q.n) - 1))
        if not isinstance(got, OV):
            raise Unsupported('result on the stack')
        for c, o, tag in cases:
            if tag == 'mismatch' or o[0] == 'any':
                if tag == 'unfit' or o[0] == 'any' and tag != 'mismatch':
                    s3 = s2.fork()
                    s3.pc.append(c)
                    if ex.feasible(s3):
                        env.prove(s3, [], z3.Not(got.is_(0)), 'nonnull', '%s yields NULL for non-NULL operands' % nm, hint)
                continue
            cn = norm(c)
            if isinstance(cn, int) and not cn:
                continue
            s3 = s2.fork()
            if not isinstance(cn, int):
                s3.pc.append(cn)
            if not ex.feasible(s3):
                continue
            if o[0] == 'err':
                env.prove(s3, [], z3.BoolVal(False), 'value', '%s yields a value where %s' % (nm, describe(o, tag)), hint)
                continue
            if tag == 'null':
                env.prove(s3, [], got.is_(0), 'null', '%s must yield NULL when an operand is NULL' % nm, hint)
                continue
            if o[0] == 'val' and o[1].tag == 0:
                env.prove(s3, [], got.is_(0), 'value', '%s must yield NULL here (%s)' % (nm, tag), hint)
                continue
            if owner != 'C03':
                env.prove(s3, [], z3.Not(got.is_(0)), 'nonnull', '%s yields NULL for non-NULL operands' % nm, hint)
            t = o[1].tag if o[0] == 'val' else 6
            env.prove(s3, [], got.is_(t), 'rtype', '%s yields a value of the wrong type' % nm, hint)
            s3.pc.append(got.is_(t))
            asm, goal = case_goal(env, s3, got, o)
            env.prove(s3, asm, goal, 'value', '%s yields a wrong value' % nm, hint)


def describe(o, tag):
    if o[0] == 'err':
        return 'an error is specified'
    if tag == 'null':
        return 'NULL is specified'
    return 'a value is specified'


def kinds(owner):
    """properties concerned by a failed obligation of each kind"""
    mem = ['C21', owner]
    m = {'value': [owner], 'null': ['C04'], 'nonnull': ['C04'], 'stack': ['C11'], 'rtype': ['C13', owner], 'type': ['C13'],
         'memory': mem, 'trap': mem, 'arith': mem, 'unreachable': mem, 'frame': ['C11', owner], 'decode': [owner, 'C10', 'C04', 'C13']}
    return m


def run_op(env, bs):
    op = O.decode(bytes(bs))[0][0]
    owner = S.owner(op)
    data = {'op': bytes(bs), 'decoded': op}
    st = env.fresh()
    ex = env.ex
    st, v, ops, pos = env.ops(st, bs)
    ex.stats.obl += 1
    if len(ops) != 1 or pos != len(bs):
        ex.fail(st, 'decode', 'the encoding %s decodes into %d operators, %d bytes' % (bytes(bs).hex(), len(ops), pos), None, data)
        return
    ex.stats.disch += 1
    st, ty = env.call1(st, 'vh_op_type', [ops[0]])
    env.prove(st, [], bv(ty, 8) == O.op_type(op), 'type', '%s reports a wrong result type' % S.tname(op), dict(data, reported=True))
    st, ty = env.call1(st, 'vh_ov_type', [v])
    env.prove(st, [], bv(ty, 8) == O.op_type(op), 'type', 'program ending with %s reports a wrong result type' % S.tname(op),
              dict(data, reported=True))
    check_apply(env, st, op, ops[0], owner, data)

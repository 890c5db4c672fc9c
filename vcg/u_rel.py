"""Contracts of the relational operators, aggregates and the relational runner."""
import z3
from vals import *
from env import *
from u_misc import outcomes, check_ov, check_tuple_same
import u_run as R
import u_code as C
import models as M

V = z3.BitVecVal
LIM31 = 1 << 31


def freed(s, p):
    o = s.mem.get(p.base)
    return o is None or not o.alive


def heap_left(env, s, before, keep, msg, kind='own'):
    """nothing allocated since stays allocated, except the objects in keep"""
    ids = {p.base for p in keep}
    env.prove(s, [], z3.BoolVal(not [i for i in env.live(s, before) if i not in ids]), kind, msg)


def is_null(v):
    return isinstance(v, Ptr) and v.base is None and v.off == 0 or v == 0


def evaluator(env, entry):
    ri = R.runner_info(env)
    st = env.fresh()
    st, r, n, fid = R.make_runner(env, st, heap=True)
    t, tn = env.tuple(st, 'row')
    st, op = env.call1(st, entry, [r])
    R.op_apply_contract(env)
    return ri, st, r, n, fid, t, tn, op


def run_filter(env):
    ri, st, r, n, fid, t, tn, op = evaluator(env, 'vh_filter_new')
    before = dict(st.mem)
    seen = set()
    for s, k, v in env.call(st, 'vh_ro_put', [op, t]):
        q = R.cell_of(s.mem[r.base], ri.stack)
        top = q.at(norm(i64(q.n) - 1))
        bad = lambda q: z3.Or(i64(q.n) == 0, z3.Not(z3.Or(top.is_(0), top.is_(3))))
        R.check_run(env, s, k, v, ri, r, n, fid, t, 'filter', bad)
        heap_left(env, s, before, [], 'filtering a row keeps memory')
        if k == 'exc':
            seen.add('exc')
            env.prove(s, [], z3.BoolVal(freed(s, t)), 'own', 'a row whose evaluation fails is not released')
            continue
        true = z3.And(i64(q.n) != 0, top.is_(3), boolt(top.pay(3)))
        if is_null(v):
            seen.add('drop')
            env.prove(s, [], z3.Not(true), 'filter', 'a row whose predicate is true is dropped')
            env.prove(s, [], z3.BoolVal(freed(s, t)), 'own', 'a row filtered out is not released')
            continue
        seen.add('pass')
        env.prove(s, [], true, 'filter', 'a row whose predicate is not true passes')
        same = isinstance(v, Ptr) and v.base == t.base and v.off == 0
        env.prove(s, [], z3.BoolVal(same), 'filter', 'the row returned is the row put in')
        env.prove(s, [], z3.BoolVal(not freed(s, t)), 'own', 'the row returned has been released')
        if same and not freed(s, t):
            check_tuple_same(env, s, t, 'row', tn, 'the row returned is unchanged', 'filter')
    if seen != {'exc', 'drop', 'pass'} and not env.ex.failures:
        raise Unsupported('outcomes of FilterOp::Put')
    get_nothing(env, st, op, 'filter')


def get_nothing(env, st, op, kind):
    before = dict(st.mem)
    for s, k, v in env.call(st, 'vh_ro_get', [op]):
        env.prove(s, [], z3.BoolVal(k == 'ret' and is_null(v)), kind, 'there is nothing to fetch from an operator without cache')


def run_project(env):
    ri, st, r, n, fid, t, tn, op = evaluator(env, 'vh_project_new')
    before = dict(st.mem)
    seen = set()
    for s, k, v in env.call(st, 'vh_ro_put', [op, t]):
        seen.add(k)
        R.check_run(env, s, k, v, ri, r, n, fid, t, 'project')
        env.prove(s, [], z3.BoolVal(freed(s, t)), 'own', 'the row put into a projection is not released')
        if k == 'exc':
            heap_left(env, s, before, [], 'a failed projection keeps memory')
            continue
        q = R.cell_of(s.mem[r.base], ri.stack)
        res = env.tuple_seq(s, v)
        if res is None or v.base in before:
            env.prove(s, [], z3.BoolVal(False), 'project', 'a projection returns a new tuple')
            continue
        heap_left(env, s, before, [v], 'a projection keeps memory')
        env.prove(s, [], i64(res.n) == i64(q.n), 'project', 'a projection returns one value per result')
        j = fresh_bv('j', 64)
        s1 = s.fork()
        s1.pc.append(z3.ULT(j, i64(q.n)))
        a, g = env.same_goal(s1, res.at(j), q.at(j))
        env.prove(s1, a, g, 'project', 'a projection returns the results in encoded order')
    if seen != {'exc', 'ret'} and not env.ex.failures:
        raise Unsupported('outcomes of ProjectOp::Put')
    get_nothing(env, st, op, 'project')


def run_eval_delete(env):
    """destroying a filter or projection releases its evaluator and the operators that one owns"""
    for entry in ('vh_filter_new', 'vh_project_new'):
        ri = R.runner_info(env)
        if len(ri.owned) != 1:
            raise Unsupported('owned operators')
        st = env.fresh()
        before = dict(st.mem)
        st, r, n, fid = R.make_runner(env, st, heap=True)
        gid, no = fresh_id(), z3.BitVec('own.n', 64)
        st.pc.append(z3.ULT(no, LIM31))
        q = st.mem[r.base].cells[ri.owned[0]][1]
        R.set_cell(st, r, ri.owned[0], q.but(nb=no, bat=C.fam(gid), ident=('family', gid)))
        st, op = env.call1(st, entry, [r])
        for s, x in outcomes(env, env.call(st, 'vh_ro_del', [op]), '~RelOp'):
            C.released(env, s, gid, no, 'own')
            env.prove(s, [], z3.BoolVal(not any(h.id == fid for h in C.deleted(s))), 'own', 'an operator that is not owned is released')
            heap_left(env, s, before, [], 'destroying a filter or projection keeps memory')


# ---------------------------------------------------------------- chains
OPC = 'dingodb::rel::RelOp'


def fresh_tuple(env, st, name):
    p, n = env.tuple(st, '%s!%d' % (name, fresh_id()))
    return p


def relop_contract(env):
    """a relational operator: Put consumes its tuple (returns it, or releases it and returns another one or nothing);
    Get returns a tuple or nothing; both may raise an error"""
    ex = env.ex

    def put(ex, st, h, args):
        t = args[1]
        ok = isinstance(t, Ptr) and isinstance(t.base, int) and t.off == 0 and t.base in st.mem and st.mem[t.base].kind == 'heap'
        ex.stats.obl += 1
        if not ok or not st.mem[t.base].alive:
            ex.fail(st, 'own', 'a tuple already released (or none) is put into an operator')
            return []
        ex.stats.disch += 1
        out = []
        a = st.fork()
        a.events.append(('put', h, t, t))
        out.append((a, 'ret', t))
        st = st.fork()
        o = st.mem[t.base] = st.mem[t.base].copy()
        o.alive = False
        b = st.fork()
        b.events.append(('put', h, t, None))
        out.append((b, 'ret', NULL))
        c = st.fork()
        y = fresh_tuple(env, c, 'out')
        c.events.append(('put', h, t, y))
        out.append((c, 'ret', y))
        d = st.fork()
        d.events.append(('put', h, t, 'exc'))
        out.append(ex.throw(d, R.THROWN[0]))
        return out

    def get(ex, st, h, args):
        a = st.fork()
        a.events.append(('get', h, None, None))
        b = st.fork()
        y = fresh_tuple(env, b, 'cached')
        b.events.append(('get', h, None, y))
        d = st.fork()
        d.events.append(('get', h, None, 'exc'))
        return [(a, 'ret', NULL), (b, 'ret', y), ex.throw(d, R.THROWN[0])]
    ex.vhandlers[(OPC, 'Put')] = put
    ex.vhandlers[(OPC, 'Get')] = get


def handle(cls, idx=0):
    return Ptr(Handle(cls, fresh_id(), idx))


def samep(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base and a.off == b.off == 0


def run_tandem_put(env):
    relop_contract(env)
    st = env.fresh()
    a, b = handle(OPC), handle(OPC)
    st, op = env.call1(st, 'vh_tandem_new', [a, b])
    t, tn = env.tuple(st, 'row')
    before = dict(st.mem)
    seen = set()
    for s, k, v in env.call(st, 'vh_ro_put', [op, t]):
        ev = [e for e in s.events if e[0] in ('put', 'get')]
        if any(e[0] == 'loop' for e in s.events):
            raise Unsupported('loop in TandemOp::Put')
        P = lambda g, msg, kd='chain': env.prove(s, [], z3.BoolVal(bool(g)), kd, msg)
        first = ev[0] if ev else None
        P(first is not None and first[0] == 'put' and first[1] is a.base and samep(first[2], t), 'a row put into a chain is put into the upstream part first')
        if first is None:
            continue
        x = first[3]
        if x is None or x == 'exc':
            P(len(ev) == 1, 'the downstream part is used although the upstream part emitted nothing')
            P((k == 'exc') == (x == 'exc') and (k == 'exc' or is_null(v)), 'a chain returns nothing when the upstream part emits nothing')
            seen.add((k, 1))
        else:
            P(len(ev) == 2 and ev[1][0] == 'put' and ev[1][1] is b.base and samep(ev[1][2], x), 'what the upstream part emits is put into the downstream part, once')
            if len(ev) != 2:
                continue
            y = ev[1][3]
            P((k == 'exc') == (y == 'exc') and (k == 'exc' or (is_null(v) if y is None else samep(v, y))), 'a chain returns the output of the downstream part')
            seen.add((k, 2, y is None))
        heap_left(env, s, before, [v] if k == 'ret' and not is_null(v) else [], 'a chain keeps a tuple')
        if k == 'ret' and not is_null(v):
            P(not freed(s, v), 'the tuple returned has been released', 'own')
    if len(seen) < 5 and not env.ex.failures:
        raise Unsupported('outcomes of TandemOp::Put')


def run_tandem_get(env):
    relop_contract(env)
    st = env.fresh()
    a, b = handle(OPC), handle(OPC)
    st, op = env.call1(st, 'vh_tandem_new', [a, b])
    before = dict(st.mem)
    seen = set()

    def walk(s, evs, state):
        """follow the calls: 'drain', ('emit', tuple), ('ret', value) or 'exc'"""
        P = lambda g, msg: env.prove(s, [], z3.BoolVal(bool(g)), 'chain', msg)
        for e in evs:
            if e[0] == 'loop':
                L = e[1]
                if state != 'drain':
                    raise Unsupported('shape of TandemOp::Get')
                for q, hi in L.backs:
                    P(walk(q, q.events[L.nev:], 'drain') == 'drain', 'fetching goes on although a result was emitted, or without draining')
                    heap_left(env, q, L.entry.mem, [], 'draining a chain keeps a tuple')
                continue
            if e[0] not in ('put', 'get'):
                continue
            if state == 'drain':
                P(e[0] == 'get' and e[1] is a.base, 'fetching from a chain drains the upstream part first')
                if e[0] != 'get' or e[1] is not a.base:
                    return None
                state = 'exc' if e[3] == 'exc' else ('tail' if e[3] is None else ('emit', e[3]))
            elif isinstance(state, tuple) and state[0] == 'emit':
                P(e[0] == 'put' and e[1] is b.base and samep(e[2], state[1]), 'what is fetched upstream is put into the downstream part, once')
                if e[0] != 'put' or e[1] is not b.base:
                    return None
                state = 'exc' if e[3] == 'exc' else ('drain' if e[3] is None else ('ret', e[3]))
            elif state == 'tail':
                P(e[0] == 'get' and e[1] is b.base, 'an empty upstream part leads to fetching from the downstream part')
                if e[0] != 'get' or e[1] is not b.base:
                    return None
                state = 'exc' if e[3] == 'exc' else ('ret', e[3])
            else:
                P(False, 'a part of the chain is used after the result is known')
                return None
        return state
    for s, k, v in env.call(st, 'vh_ro_get', [op]):
        w = walk(s, s.events, 'drain')
        P = lambda g, msg, kd='chain': env.prove(s, [], z3.BoolVal(bool(g)), kd, msg)
        if k == 'exc':
            P(w == 'exc', 'fetching raises an error no part raised')
            heap_left(env, s, before, [], 'a chain keeps a tuple')
            continue
        P(isinstance(w, tuple) and w[0] == 'ret' and (is_null(v) if w[1] is None else samep(v, w[1])), 'fetching returns the output of the downstream part')
        seen.add(is_null(v))
        heap_left(env, s, before, [] if is_null(v) else [v], 'a chain keeps a tuple')
        if not is_null(v):
            P(not freed(s, v), 'the tuple returned has been released', 'own')
    if len(seen) != 2 and not env.ex.failures:
        raise Unsupported('outcomes of TandemOp::Get')


def run_tandem_delete(env):
    st = env.fresh()
    before = dict(st.mem)
    a, b = handle(OPC), handle(OPC)
    st, op = env.call1(st, 'vh_tandem_new', [a, b])
    for s, x in outcomes(env, env.call(st, 'vh_ro_del', [op]), '~TandemOp'):
        d = C.deleted(s)
        env.prove(s, [], z3.BoolVal(len(d) == 2 and {id(x) for x in d} == {id(a.base), id(b.base)}), 'own', 'a chain releases both parts exactly once')
        heap_left(env, s, before, [], 'destroying a chain keeps memory')

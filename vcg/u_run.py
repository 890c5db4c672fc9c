"""Contracts of the expression runner: Run, Get, GetAll, GetOptional, GetType, BindTuple.

A program is an arbitrary sequence of operator objects (a family of abstract objects indexed by position);
applying one may do anything to the operand stack or raise an error.  The operators' own contracts are the
op/* units."""
import z3
from vals import *
from env import *
from u_misc import outcomes, check_tuple_same
import models as M

OPCLS = 'dingodb::expr::Operator'
THROWN = ['_ZTISt13runtime_error', '_ZTISt18bad_variant_access']
LIM31 = 1 << 31


def snapshot(st, p):
    return st.mem[p.base]


def cell_of(o, off):
    c = o.cells.get(off)
    return None if c is None else c[1]


class RunnerInfo:
    """where a Runner keeps its operand stack, program and bound tuple (found by running the real code)"""
    pass


def runner_info(env):
    if getattr(env, '_ri', None) is not None:
        return env._ri
    ri = RunnerInfo()
    st = env.fresh()
    r = env.obj(st, 512, 'runner')
    st, _ = env.call1(st, 'vh_rn_new', [r])
    empty = st.mem[r.base].cells
    seqs = {k: v for k, (z, v) in empty.items() if isinstance(v, Seq)}
    c = env.code(st, bytes.fromhex('8101'))
    st2, _ = env.call1(st.fork(), 'vh_rn_decode', [r, c, 2])
    after = st2.mem[r.base].cells
    prog = [k for k, v in seqs.items() if isinstance(after[k][1], Seq) and after[k][1].n == 1]
    stk = [k for k, v in seqs.items() if v.ety == 'ov']
    if len(prog) != 1 or len(stk) != 1 or seqs[prog[0]].ety != 'ptr':
        raise Unsupported('layout of Runner')
    ri.prog, ri.stack = prog[0], stk[0]
    ri.owned = [k for k, v in seqs.items() if v.ety == 'ptr' and k != prog[0]]
    t, _ = env.tuple(st, 'probe')
    st3, _ = env.call1(st.fork(), 'vh_rn_bind', [r, t])
    d = [k for k, (z, v) in st3.mem[r.base].cells.items() if isinstance(v, Ptr) and v.base == t.base]
    if len(d) != 1:
        raise Unsupported('layout of Runner (bound tuple)')
    ri.bound = d[0]
    env._ri = ri
    env.frames['runner'] = {ri.prog, ri.stack, ri.bound, *ri.owned}
    return ri


def set_cell(st, p, off, v):
    o = st.mem[p.base] = st.mem[p.base].copy()
    o.cells[off] = (o.cells[off][0] if off in o.cells else 'abs', v)


def family(cls, fid):
    return lambda i: Ptr(Handle(cls, fid, i64(norm(i64(i)))))


def make_runner(env, st, name='prog', n=None, heap=False, dirty=True):
    """a runner holding an arbitrary program of n operators, with arbitrary left-overs of earlier runs on its stack"""
    ri = runner_info(env)
    if heap:
        r = env.ex.new_obj(st, 'heap', 512, 'runner', 'new')
    else:
        r = env.obj(st, 512, 'runner')
    st, _ = env.call1(st, 'vh_rn_new', [r])
    fid = fresh_id()
    if n is None:
        n = z3.BitVec(name + '.n', 64)
        st.pc.append(z3.ULT(n, LIM31))
    q = st.mem[r.base].cells[ri.prog][1]
    set_cell(st, r, ri.prog, q.but(nb=n, bat=family(OPCLS, fid), ident=('family', fid)))
    if dirty:
        q = st.mem[r.base].cells[ri.stack][1]
        d = z3.BitVec(name + '.old', 64)
        st.pc.append(z3.ULE(d, 1 << 40))
        set_cell(st, r, ri.stack, q.but(nb=d, bat=OV.family(name + '.left'), ident=name + '.left'))
    return st, r, n, fid


def op_apply_contract(env, throws=True):
    """operator(): anything may happen to the stack, nothing else changes"""
    def apply(ex, st, h, args):
        s = args[1]
        o = ex.wobj(st, s)
        if o is None:
            return []
        offs = [k for k, (z, v) in o.cells.items() if isinstance(v, Seq) and v.ety == 'ov' and (not isinstance(s.off, int) or k >= s.off)]
        if not offs:
            raise Unsupported('operand stack')
        off = min(offs)
        before = o.cells[off][1]
        dead = {v.base for z, v in o.cells.values() if isinstance(v, Ptr) and isinstance(v.base, int) and v.base in st.mem and not st.mem[v.base].alive}
        out = []
        i = fresh_id()
        nb = z3.BitVec('res!%d.n' % i, 64)
        st2 = st.fork()
        st2.pc.append(z3.ULE(nb, 1 << 40))
        o2 = st2.mem[s.base] = st2.mem[s.base].copy()
        after = before.but(nb=nb, bat=OV.family('res!%d' % i), ident='res!%d' % i, tail=(), upd=(), gen=before.gen + 1)
        o2.cells[off] = (o2.cells[off][0], after)
        st2.events.append(('apply', h, before, after, o, s, 'ret', dead))
        out.append((st2, 'ret', None))
        if throws:
            for ti in THROWN:
                st3 = st.fork()
                st3.events.append(('apply', h, before, None, o, s, 'exc', dead))
                o3 = st3.mem[s.base] = st3.mem[s.base].copy()
                o3.cells[off] = (o3.cells[off][0], after)
                st3.pc.append(z3.ULE(nb, 1 << 40))
                out.append(ex.throw(st3, ti))
        return out
    env.ex.vhandlers[(OPCLS, 'operator()')] = apply


def applies(events):
    return [e for e in events if e[0] == 'apply']


def empty_goal(q):
    return i64(q.n) == 0


def check_run(env, s, kind, v, ri, r, n, fid, tup, kd='run', after=None):
    """one outcome of Runner::Run: the operators were applied one after the other, from the first to the last"""
    ex = env.ex
    P = lambda st, g, msg: env.prove(st.fork(), [], g, kd, msg)
    cnt = z3.BitVecVal(0, 64)        # operators applied so far
    last = None                       # stack after the last application (None: not started)
    seen_exc = False

    def one(st, e, idx, last, asm=()):
        """event e must be the application of operator idx to the stack `last`"""
        h, before = e[1], e[2]
        s2 = st.fork()
        s2.pc += list(asm)
        if h.id != fid:
            raise Unsupported('operator of another program')
        P(s2, i64(h.idx) == idx, 'operator applied out of order')
        if last is None:
            P(s2, i64(before.n) == 0, 'a run starts from an empty stack')
        else:
            P(s2, z3.BoolVal(same_seq(before, last)) if same_seq(before, last) is not None else z3.BoolVal(False),
              'the operand stack changes between two operators')
        b = cell_of(e[4], ri.bound) if e[5].base == r.base else None
        P(s2, z3.BoolVal(isinstance(b, Ptr) and b.base == tup.base and b.off == 0), 'operators see the tuple most recently bound')
        P(s2, z3.BoolVal(tup.base not in e[7]), 'operators see a tuple already released')

    for e in s.events:
        if e[0] == 'loop':
            L = e[1]
            ms = set()
            for b, hi in L.backs:
                ms.add(len(applies(b.events[L.nev:])))
            if ms == {0}:
                continue
            if any(x[0] == 'loop' for b, hi in L.backs for x in b.events[L.nev:]):
                raise Unsupported('nested loops in Run')
            if len(ms) != 1:
                P(s, z3.BoolVal(False), 'an operator is skipped or applied twice')
                return
            m = ms.pop()
            hq = [cell_of(h.mem[r.base], ri.stack) for h in L.heads]
            if last is None:
                q0 = cell_of(L.entry.mem[r.base], ri.stack)
                P(L.entry, i64(q0.n) == 0, 'a run starts from an empty stack')
            for b, hi in L.backs:
                cur = hq[hi]
                for j, a in enumerate(applies(b.events[L.nev:])):
                    one(b, a, cnt + L.k * m + j, cur)
                    cur = a[3]
                q1 = cell_of(b.mem[r.base], ri.stack)
                P(b, z3.BoolVal(bool(same_seq(q1, cur))), 'the operand stack changes between two operators')
            cnt = cnt + L.k * m
            last = hq[0] if len(hq) == 1 else None
            if last is None:
                raise Unsupported('shape of Run')
        elif e[0] == 'apply':
            one(s, e, cnt, last)
            cnt = cnt + 1
            last = e[3]
            if e[6] == 'exc':
                seen_exc = True
    if kind == 'ret' or after is not None and not seen_exc:
        P(s, z3.BoolVal(not seen_exc), 'an error raised by an operator is swallowed')
        P(s, cnt == n, 'a run applies every operator of the program')
        q = cell_of(s.mem[r.base], ri.stack)
        if last is None:
            P(s, i64(q.n) == 0, 'a run starts from an empty stack')
        else:
            P(s, z3.BoolVal(bool(same_seq(q, last))), 'the operand stack changes after the last operator')
        if kind != 'ret':
            P(s, after(q), 'an error is raised although the evaluation succeeds')
    else:
        P(s, z3.BoolVal(seen_exc), 'Run raises an error no operator raised')


def same_seq(a, b):
    import loops
    if a is None or b is None:
        return False
    return loops.seq_eq(a.but(gen=0), b.but(gen=0))


def run_run(env):
    ri = runner_info(env)
    st = env.fresh()
    st, r, n, fid = make_runner(env, st)
    t, tn = env.tuple(st, 't0')
    st, _ = env.call1(st, 'vh_rn_bind', [r, t])
    tn = env.retuple(st, t, 't')
    op_apply_contract(env)
    before = dict(st.mem)
    prog = cell_of(st.mem[r.base], ri.prog)
    seen = set()
    for s, k, v in env.call(st, 'vh_rn_run', [r]):
        seen.add(k)
        check_run(env, s, k, v, ri, r, n, fid, t)
        env.prove(s, [], z3.BoolVal(bool(same_seq(cell_of(s.mem[r.base], ri.prog), prog))), 'frame', 'a run leaves the program alone')
        check_tuple_same(env, s, t, 't', tn, 'a run leaves the bound tuple alone')
        env.prove(s, [], z3.BoolVal(not env.live(s, before)), 'leak', 'a run keeps no memory')
    if seen != {'ret', 'exc'} and not env.ex.failures:
        raise Unsupported('outcomes of Run')


def stacked(env, name='left'):
    """runner with an arbitrary operand stack"""
    st = env.fresh()
    st, r, n, fid = make_runner(env, st)
    return st, r, z3.BitVec('prog.old', 64), OV.family('prog.left'), n, fid


def run_get(env):
    ri = runner_info(env)
    st, r, d, fam, n, fid = stacked(env)
    q0 = cell_of(st.mem[r.base], ri.stack)
    o = env.obj(st, 64, 'result')
    for s, k, v in env.call(st, 'vh_rn_get', [o, r]):
        env.prove(s, [], (d == 0) if k == 'exc' else (d != 0), 'run', 'Get raises an error exactly when there is no result')
        if k == 'ret':
            got = env.ex.get_abs(s, o)
            a, g = env.same_goal(s, got, fam(d - 1))
            env.prove(s, a, g, 'run', 'Get returns the last result')
        env.prove(s, [], z3.BoolVal(bool(same_seq(cell_of(s.mem[r.base], ri.stack), q0))), 'run', 'reading the result does not change it')


def run_get_all(env):
    ri = runner_info(env)
    st, r, d, fam, n, fid = stacked(env)
    q0 = cell_of(st.mem[r.base], ri.stack)
    before = dict(st.mem)
    for s, v in outcomes(env, env.call(st, 'vh_rn_all', [r]), 'GetAll'):
        q = env.tuple_seq(s, v)
        if q is None:
            env.prove(s, [], z3.BoolVal(False), 'run', 'GetAll returns a new tuple')
            continue
        env.prove(s, [], i64(q.n) == d, 'run', 'GetAll returns every result')
        j = fresh_bv('j', 64)
        s1 = s.fork()
        s1.pc.append(z3.ULT(j, d))
        a, g = env.same_goal(s1, q.at(j), fam(j))
        env.prove(s1, a, g, 'run', 'GetAll returns the results bottom to top')
        env.prove(s, [], z3.BoolVal(bool(same_seq(cell_of(s.mem[r.base], ri.stack), q0))), 'run', 'reading the results does not change them')
        env.prove(s, [], z3.BoolVal(set(env.live(s, before)) == {v.base}), 'leak', 'GetAll allocates only its result')


OPT = {'i32': 1, 'i64': 2, 'bool': 3, 'f32': 4, 'f64': 5, 'str': 6}


def run_optional(env):
    for nm, t in OPT.items():
        ri = runner_info(env)
        st, r, d, fam, n, fid = stacked(env)
        q0 = cell_of(st.mem[r.base], ri.stack)
        top = fam(d - 1)
        st.pc += [z3.UGT(d, 0), z3.ULE(top.tag, 6)]
        o = env.obj(st, 64, 'result')
        kinds = set()
        for s, k, v in env.call(st, 'vh_rn_opt_' + nm, [o, r]):
            kinds.add(k)
            if k == 'exc':
                env.prove(s, [], z3.Not(z3.Or(top.is_(0), top.is_(t))), 'opt', 'optional access fails although the type is right (%s)' % nm)
                continue
            env.prove(s, [], z3.Or(top.is_(0), top.is_(t)), 'opt', 'optional access yields a value of another type (%s)' % nm)
            env.prove(s, [], boolt(v) == top.is_(t), 'opt', 'optional access is empty exactly for NULL (%s)' % nm)
            s1 = s.fork()
            s1.pc += [top.is_(t), boolt(v)]
            if env.ex.feasible(s1):
                c = s1.mem[o.base].cells.get(0)
                x = c[1] if c is not None else None
                if x is None:
                    raise Unsupported('optional result')
                if t == 3 and isinstance(x, (int, z3.BitVecRef)):
                    x = boolt(norm(bv(x, 8) != 0))
                a, g = env.same_goal(s1, OV.of(t, x), OV.of(t, top.pay(t)))
                env.prove(s1, a, g, 'opt', 'optional access yields the value (%s)' % nm)
            env.prove(s, [], z3.BoolVal(bool(same_seq(cell_of(s.mem[r.base], ri.stack), q0))), 'run', 'reading the result does not change it')
        if 'ret' not in kinds and not env.ex.failures:
            raise Unsupported('outcomes of GetOptional')


def run_type(env):
    ri = runner_info(env)
    ty = z3.Function('optype', z3.BitVecSort(64), z3.BitVecSort(8))

    def gt(ex, st, h, args):
        if h.id != cur[0]:
            raise Unsupported('operator of another program')
        return [(st, 'ret', ty(i64(h.idx)))]
    cur = [None]
    env.ex.vhandlers[(OPCLS, 'GetType')] = gt
    st, r, d, fam, n, fid = stacked(env)
    cur[0] = fid
    for s, v in outcomes(env, env.call(st, 'vh_rn_type', [r]), 'GetType'):
        env.prove(s, [], bv(v, 8) == z3.If(n == 0, z3.BitVecVal(0, 8), ty(n - 1)), 'type', 'the reported type is that of the last operator')
        check_quiet(env, s, st, r)


def check_quiet(env, s, st, r):
    a, b = s.mem[r.base], st.mem[r.base]
    ok = a is b or all(k in b.cells and (b.cells[k][1] is v or isinstance(v, Seq) and same_seq(v, b.cells[k][1])) for k, (z, v) in a.cells.items())
    env.prove(s, [], z3.BoolVal(ok), 'frame', 'reading changes the runner')

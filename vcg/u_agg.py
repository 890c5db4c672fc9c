"""Contracts of the aggregates and the aggregating operators."""
import z3
from vals import *
from env import *
from u_misc import outcomes, check_ov, check_tuple_same, operand
import u_code as C
import u_rel as U
import spec as S
import models as M
from irparse import PTR

V = z3.BitVecVal
LIM31 = 1 << 31
AGG = 'dingodb::rel::op::Agg'
OPND = {1: 'i', 2: 'l', 3: 'b', 4: 'f', 5: 'd', 7: 's'}
CODES = {0x10: ('COUNT', None)}
CODES.update({0x10 | t: ('COUNT', t) for t in OPND})
CODES.update({0x20 | t: ('+', t) for t in (1, 2, 4, 5)})
CODES.update({0x30 | t: ('MAX', t) for t in (1, 2, 4, 5, 7)})
CODES.update({0x40 | t: ('MIN', t) for t in (1, 2, 4, 5, 7)})


def run_agg(env):
    """decoding an aggregate, for every code and column; what adding a row to it does; releasing it"""
    C.use_contracts(env)
    ex = env.ex
    st = env.fresh()
    p, n, f = env.symcode(st, 'code')
    st.pc.append(n != 0)
    o = env.obj(st, 8, 'aggregate')
    st, = ex.store(st, o, NULL, PTR)
    before = dict(st.mem)
    b0 = bv(f(V(0, 64)), 8)
    known = z3.Or([b0 == c for c in CODES])
    seen = set()
    for s, k, v in env.call(st, 'vh_agg_decode', [o, p, C.z_end(p, n)]):
        s0, s = s, C.recall(s)
        if k == 'exc':
            seen.add('exc')
            env.prove(s, [], z3.BoolVal(not env.live(s, before)), 'own', 'a rejected aggregate leaves memory behind')
            c = s.mem[o.base].cells.get(0)
            env.prove(s, [], z3.BoolVal(c is not None and U.is_null(c[1])), 'own', 'a rejected aggregate leaves a pointer behind')
            env.prove(s, [], b0 != 0x10, 'rdec', 'the aggregate COUNT() is rejected')
            s.pc.append(known)
            if ex.feasible(s):
                for c, l, val in C.varint(f, 1, n, 32):
                    env.prove(s, [], z3.Not(c), 'rdec', 'an aggregate with a column of %d bytes is rejected' % l)
            continue
        env.prove(s, [], known, 'rdec', 'an unknown aggregate code is accepted')
        used = C.end_of(env, s, p, v, 'rdec')
        if used is None:
            continue
        env.prove(s, [], z3.And(used != 0, z3.ULE(used, n)), 'rdec', 'decoding an aggregate ends outside the buffer')
        c = s.mem[o.base].cells.get(0)
        x = c[1] if c is not None else None
        if not isinstance(x, Ptr) or x.base not in s.mem or x.base in before:
            env.prove(s, [], z3.BoolVal(False), 'rdec', 'decoding yields a new aggregate')
            continue
        env.prove(s, [], z3.BoolVal(set(env.live(s, before)) == {x.base}), 'own', 'decoding an aggregate leaves other memory behind')
        env.prove(s, [], z3.Implies(b0 != 0x10, z3.Not(C.incomplete(f, 1, n, 5))), 'rdec', 'an incomplete column is accepted')
        for code, (kind, t) in CODES.items():
            s1 = s.fork()
            s1.pc.append(b0 == code)
            if not ex.feasible(s1):
                continue
            seen.add(code)
            if kind == 'COUNT' and t is None:
                env.prove(s1, [], used == 1, 'rdec', 'COUNT() consumes its code')
                add_row(env, s1, x, kind, t, None)
                continue
            for cnd, l, val in C.varint(f, 1, n, 32):
                s2 = s1.fork()
                s2.pc.append(cnd)
                if not ex.feasible(s2):
                    continue
                env.prove(s2, [], used == 1 + l, 'rdec', 'an aggregate consumes its code and column')
            # the column as decoded: any encoding of val
            dec = [e[6] for e in s0.events if e[0] == 'dec' and e[1] == 32 and e[5] is not None]
            ix = dec[0] if len(dec) == 1 else z3.BitVec('column', 32)
            s2 = s1.fork()
            s2.pc.append(z3.Or([z3.And(cnd, val == ix) for cnd, l, val in C.varint(f, 1, n, 32)]))
            s2.pc.append(ix >= 0)
            if ex.feasible(s2):
                add_row(env, s2, x, kind, t, z3.ZeroExt(32, ix))
        for s3, _ in outcomes(env, env.call(s0.fork(), 'vh_agg_del', [x]), '~Agg'):
            env.prove(s3, [], z3.BoolVal(not env.live(s3, before)), 'own', 'releasing an aggregate leaves memory behind')
    if seen != {'exc'} | set(CODES) and not ex.failures:
        raise Unsupported('outcomes of decoding an aggregate')


def add_row(env, s, x, kind, t, ix):
    """Agg::Add: the new running value"""
    ex = env.ex
    tp, tn = env.tuple(s, 'row')
    var = OV.sym('var')
    tag = 6 if t == 7 else t
    vt = 2 if kind == 'COUNT' else tag
    s.pc.append(z3.Or(var.is_(0), var.is_(vt)))
    if ix is not None:
        e = OV.family('row')(ix)
        s.pc += [z3.ULT(ix, tn), z3.Or(e.is_(0), e.is_(tag))]
    pv, out = operand(env, s, var, 'running value'), env.obj(s, 64, 'new value')
    before = dict(s.mem)
    nm = '%s %s' % (kind, t)
    if kind == 'COUNT':
        skip = z3.BoolVal(False) if ix is None else e.is_(0)
        one = z3.If(var.is_(0), V(1, 64), bv(var.pay(2), 64) + 1)
        cases = [(z3.Not(skip), OV.of(2, one)), (skip, var)]
    else:
        cases = [(e.is_(0), var), (z3.And(z3.Not(e.is_(0)), var.is_(0)), e)]
        for c, o, tg in S.of((kind, OPND[t]))[1]([var, e]):
            if tg == 'value':
                cases.append((z3.And(c, var.is_(tag), e.is_(tag)), o[1]))
    for s1, _ in outcomes(env, [r for r in env.call(s, 'vh_agg_add', [out, x, pv, tp])], 'Agg::Add (%s)' % nm):
        got = ex.get_abs(s1, out)
        for c, want in cases:
            s2 = s1.fork()
            s2.pc.append(c)
            if not ex.feasible(s2):
                continue
            if kind in ('MIN', 'MAX') and t in (4, 5) and want is not var and want is not e:
                a, b, g = var.pay(tag), e.pay(tag), got.pay(tag)
                s2.pc += [z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b))]
                env.prove(s2, [], z3.And(got.is_(tag), z3.fpEQ(g, want.pay(tag))) if g is not None else z3.BoolVal(False), 'agg', 'the running value of %s' % nm)
                continue
            a, g = env.same_goal(s2, got, want)
            env.prove(s2, a, g, 'agg', 'the running value of %s' % nm)
        check_ov(env, s1, pv, var, 'agg', 'an aggregate changes the old running value')
        check_tuple_same(env, s1, tp, 'row', tn, 'an aggregate changes the row', 'agg')
        env.prove(s1, [], z3.BoolVal(not env.live(s1, before)), 'own', 'an aggregate keeps memory')


# ---------------------------------------------------------------- aggregating operators
def agg_contract(env):
    """Agg::Add (proved by rel/agg): a new running value, or an error; the old one and the row stay as they are"""
    def add(ex, st, h, args):
        out, this, var, tup = args
        v = M.oget(ex, st, var)
        if v is None:
            return []
        ok = isinstance(tup, Ptr) and isinstance(tup.base, int) and tup.off == 0 and tup.base in st.mem
        ex.stats.obl += 1
        if not ok or not st.mem[tup.base].alive:
            ex.fail(st, 'own', 'an aggregate sees a row already released')
            return []
        ex.stats.disch += 1
        a = st.fork()
        a.events.append(('add', h, v, tup))
        r = ex.put_abs(a, out, OV.family('res!%s' % h.id)(i64(h.idx)))
        b = st.fork()
        b.events.append(('add', h, v, tup))
        return ([(a, 'ret', None)] if r else []) + [ex.throw(b, U.R.THROWN[0])]
    env.ex.vhandlers[(AGG, 'Add')] = add


def make_aggs(env, st):
    """a list of arbitrarily many aggregates"""
    st, p = env.call1(st, 'vh_aggs_new', [1])
    o = st.mem[p.base] = st.mem[p.base].copy()
    offs = [k for k, (z, x) in o.cells.items() if isinstance(x, Seq)]
    if len(offs) != 1 or o.cells[offs[0]][1].ety != 'ptr':
        raise Unsupported('list of aggregates')
    gid, n = fresh_id(), z3.BitVec('aggs', 64)
    st.pc.append(z3.ULT(n, LIM31))
    at = lambda j: Ptr(Handle(AGG, gid, i64(norm(i64(j)))))
    o.cells[offs[0]] = (o.cells[offs[0]][0], Seq(8, 'ptr', nb=n, bat=at, ident=('family', gid)))
    return st, p, gid, n


def adds(s):
    """applications of aggregates, those of the loops' generic iterations included: [(state, event)]"""
    out = []
    for e in s.events:
        if e[0] == 'add':
            out.append((s, e))
        elif e[0] == 'loop':
            for b, hi in e[1].backs:
                out += [(b, x) for x in b.events[e[1].nev:] if x[0] == 'add']
                if any(x[0] == 'loop' for x in b.events[e[1].nev:]):
                    raise Unsupported('nested loops in AddToCache')
    return out


def check_fold(env, s, k, cp, gid, n, old, tup, kind='agg'):
    """the running values of cp after a row: element j is what aggregate j made of the old element j"""
    for b, e in adds(s):
        h = e[1]
        if h.id != gid:
            raise Unsupported('aggregate of another list')
        env.prove(b, [], z3.BoolVal(U.samep(e[3], tup)), kind, 'an aggregate is applied to another row')
        a, g = env.same_goal(b, e[2], old(h.idx))
        env.prove(b, a, g, kind, 'an aggregate continues from its own running value')
    q = env.tuple_seq(s, cp)
    if q is None:
        env.prove(s, [], z3.BoolVal(False), kind, 'the running values are kept')
        return
    env.prove(s, [], i64(q.n) == n, kind, 'there is one running value per aggregate')
    if k == 'exc':
        return
    j = fresh_bv('j', 64)
    s = s.fork()
    s.pc.append(z3.ULT(j, n))
    a, g = env.same_goal(s, q.at(j), OV.family('res!%s' % gid)(j))
    env.prove(s, a, g, kind, 'every aggregate is applied to the row and keeps its own place')


def others_same(env, s, op, before, skip, kind):
    a, b = s.mem[op.base].cells, before[op.base].cells
    for off in set(a) | set(b):
        if off in skip:
            continue
        x, y = a.get(off), b.get(off)
        if x is None or y is None or not (x[1] is y[1] or isinstance(x[1], Ptr) and isinstance(y[1], Ptr) and U.samep(x[1], y[1]) or isinstance(x[1], int) and x[1] == y[1]
                                          or z3.is_expr(x[1]) and z3.is_expr(y[1]) and x[1].eq(y[1])):
            raise Unsupported('further state of an aggregation')


def same_aggs(env, s, aggs, before, kind):
    a, b = s.mem[aggs.base], before[aggs.base]
    ok = a.alive and a.cells.keys() == b.cells.keys() and all(a.cells[k][1] is b.cells[k][1] or isinstance(a.cells[k][1], Seq) and U.R.same_seq(a.cells[k][1], b.cells[k][1]) for k in a.cells)
    env.prove(s, [], z3.BoolVal(bool(ok)), kind, 'the list of aggregates stays as it is')


def ungrouped(env):
    """-> state, operator, aggs, family, n, offset of the running values"""
    agg_contract(env)
    st = env.fresh()
    empty = set(st.mem)
    st, aggs, gid, n = make_aggs(env, st)
    st, op = env.call1(st, 'vh_ungrouped_new', [aggs])
    sp = st.fork()
    t, tn = env.tuple(sp, 'probe')
    offs, env.owners[op.base] = set(), range(1 << 20)
    for s, k, v in env.call(sp, 'vh_ro_put', [op, t]):
        if k != 'ret':
            continue
        offs |= {o for o, (z, x) in s.mem[op.base].cells.items() if isinstance(x, Ptr) and x.base not in st.mem and env.tuple_seq(s, x) is not None}
    if len(offs) != 1:
        raise Unsupported('running values of an aggregation')
    env.owners[op.base] = offs
    return st, op, aggs, gid, n, min(offs), empty


def with_values(env, st, op, n, off, name):
    s = st.fork()
    cp, _ = env.tuple(s, name, n)
    U.R.set_cell(s, op, off, cp)
    return s, cp


def run_ungrouped_put(env):
    st, op, aggs, gid, n, off, empty = ungrouped(env)
    s1, cp = with_values(env, st, op, n, off, 'run')
    for s0, c0, old in ((st, None, lambda j: OV.null()), (s1, cp, OV.family('run'))):
        s0 = s0.fork()
        t, tn = env.tuple(s0, 'row')
        before = dict(s0.mem)
        seen = set()
        for s, k, v in env.call(s0, 'vh_ro_put', [op, t]):
            seen.add(k)
            env.prove(s, [], z3.BoolVal(k == 'exc' or U.is_null(v)), 'group', 'nothing is delivered while rows are put in')
            env.prove(s, [], z3.BoolVal(U.freed(s, t)), 'own', 'the row put into an aggregation is not released')
            c = s.mem[op.base].cells.get(off)
            c = c[1] if c is not None else None
            if k == 'exc' and U.is_null(c) and c0 is None:
                U.heap_left(env, s, before, [], 'an aggregation keeps memory it does not own')
                continue
            if not isinstance(c, Ptr) or c0 is not None and not U.samep(c, c0):
                if not isinstance(c, Ptr) or env.tuple_seq(s, c) is None:
                    env.prove(s, [], z3.BoolVal(False), 'agg', 'the running values are kept')
                    continue
                if c0 is not None:
                    env.prove(s, [], z3.BoolVal(U.freed(s, c0)), 'own', 'an aggregation keeps memory it does not own')
            U.heap_left(env, s, before, [c], 'an aggregation keeps memory it does not own')
            check_fold(env, s, k, c, gid, n, old, t)
            others_same(env, s, op, before, {off}, 'agg')
            same_aggs(env, s, aggs, before, 'agg')
        if seen != {'ret', 'exc'} and not env.ex.failures:
            raise Unsupported('outcomes of UngroupedAggOp::Put')


def run_ungrouped_get(env):
    st, op, aggs, gid, n, off, empty = ungrouped(env)
    s1, cp = with_values(env, st, op, n, off, 'run')
    before = dict(st.mem)
    for s, v in outcomes(env, env.call(st.fork(), 'vh_ro_get', [op]), 'Get'):
        env.prove(s, [], z3.BoolVal(U.is_null(v)), 'group', 'something is delivered although no row was put in')
        others_same(env, s, op, before, set(), 'group')
        U.heap_left(env, s, before, [], 'fetching keeps memory')
    before = dict(s1.mem)
    for s, v in outcomes(env, env.call(s1, 'vh_ro_get', [op]), 'Get'):
        if env.tuple_seq(s, v) is None:
            env.prove(s, [], z3.BoolVal(False), 'group', 'the running values are delivered')
            continue
        check_tuple_same(env, s, v, 'run', n, 'the running values are delivered', 'group')
        c = s.mem[op.base].cells.get(off)
        env.prove(s, [], z3.BoolVal(c is not None and U.is_null(c[1])), 'group', 'after delivery an aggregation starts afresh')
        env.prove(s, [], z3.BoolVal(not U.freed(s, v) and (U.samep(v, cp) or U.freed(s, cp))), 'own', 'the tuple delivered belongs to the caller alone')
        U.heap_left(env, s, before, [v], 'fetching keeps memory')
        others_same(env, s, op, before, {off}, 'group')
        same_aggs(env, s, aggs, before, 'group')


def run_ungrouped_delete(env):
    st, op, aggs, gid, n, off, empty = ungrouped(env)
    s1, cp = with_values(env, st, op, n, off, 'run')
    for s0 in (st, s1):
        for s, v in outcomes(env, env.call(s0, 'vh_ro_del', [op]), '~UngroupedAggOp'):
            C.released(env, s, gid, n, 'own', 'every aggregate is released')
            env.prove(s, [], z3.BoolVal(not [i for i, o in s.mem.items() if i not in empty and o.kind == 'heap' and o.alive]), 'own', 'destroying an aggregation keeps memory')


# ---------------------------------------------------------------- grouping
TUP = 'std::vector<dingodb::expr::Operand>'


class Groups:
    """the groups so far: any number of entries, each with a key and a tuple of running values of its own"""
    def __init__(self, env, cols, n):
        self.env, self.cols, self.n, self.id = env, cols, n, fresh_id()
        self.f = {}
        for k in ('key', 'val'):
            self.f[k] = 'grp.%s!%d' % (k, self.id)
        env.ex.habs[TUP] = self.content

    def family(self, k, i):
        """elements of the key / values of group i"""
        return fam2(self.f[k], i64(norm(i64(i))))

    def key(self, i):
        return Seq(24, 'ov', nb=self.cols, bat=self.family('key', i), ident=('grpkey', self.id, str(z3.simplify(i64(i)))))

    def val(self, i):
        return Ptr(Handle(TUP, self.id, i64(norm(i64(i)))))

    def content(self, h):
        if h.id != self.id:
            raise Unsupported('tuple of unknown content')
        return Seq(24, 'ov', nb=self.n, bat=self.family('val', h.idx), ident=('grpval', self.id, str(h.idx)))

    def present(self, ex, st, key):
        p, _ = self.env.tuple(st, 'old', self.n)
        st.ghost['old'] = p
        return p


def fam2(name, i):
    """family of operands indexed by (i, j)"""
    fs = {}
    S64 = z3.BitVecSort(64)
    def at(j):
        j = i64(norm(i64(j)))
        def pay(t):
            if t == 0:
                return None
            f = z3.Function('%s.p%d' % (name, t), S64, S64, SORTS[t])(i, j)
            return Str.of_term(f) if t == 6 else f
        return OV(z3.Function(name + '.tag', S64, S64, z3.BitVecSort(8))(i, j), pay, '%s[%s,%s]' % (name, i, j))
    return at


def tuple_contracts(env):
    """MapTuple and ConcatTuple: proved by tuple/map and tuple/concat"""
    ex = env.ex

    def content(st, p):
        v = ex.get_abs(st, p)
        if isinstance(v, str):
            return None
        if not isinstance(v, Seq) or v.ety != 'ov':
            raise Unsupported('tuple expected')
        return v

    def new(st, n, at):
        p = ex.new_obj(st, 'heap', 24, 'tuple', 'new')
        st.mem[p.base].cells[0] = ('abs', Seq(24, 'ov', nb=i64(n), bat=at, ident=('tuple', p.base)))
        return p

    def mapt(ex, st, args, name):
        t, ix, n = args
        q = content(st, t)
        if q is None:
            return []
        n = i64(n)
        o = ex.getobj(st, ix, 'read') if isinstance(ix, Ptr) and not isinstance(ix.base, (tuple, Handle)) else None
        if o is None or o.arr is None or ix.off != 0 or o.arr.es != 4:
            return NotImplemented
        ex.obl(st.fork(), z3.ULE(4 * n, i64(o.size)), 'memory', 'more columns than there are')
        j = fresh_bv('j', 64)
        s2 = st.fork()
        s2.pc.append(z3.ULT(j, n))
        at = lambda i: z3.SignExt(32, bv(o.arr.at(norm(i64(i))), 32))
        ex.obl(s2, z3.ULT(at(j), i64(q.n)), 'memory', 'a column outside the row')
        return [(st, 'ret', new(st, n, lambda i: q.at(norm(at(i)))))]

    def concat(ex, st, args, name):
        a, b = content(st, args[0]), content(st, args[1])
        if a is None or b is None:
            return []
        n, m = i64(a.n), i64(b.n)

        def at(i):
            i = i64(i)
            return val_ite(z3.ULT(i, n), a.at(norm(i)), b.at(norm(i - n)))
        p = new(st, n + m, at)
        st.events.append(('concat', p.base, a, b))
        return [(st, 'ret', p)]
    ex.contracts['dingodb::expr::MapTuple'] = mapt
    ex.contracts['dingodb::expr::ConcatTuple'] = concat


def grouped(env, started=True):
    agg_contract(env)
    tuple_contracts(env)
    st = env.fresh()
    empty = set(st.mem)
    st, aggs, gid, n = make_aggs(env, st)
    m, rl = z3.BitVec('cols', 64), z3.BitVec('row.len', 64)
    st.pc += [z3.ULT(m, LIM31), z3.ULT(rl, LIM31), z3.Or(m == 0, z3.UGT(rl, 0))]
    from u_misc import index_array
    ix, at = index_array(env, st, 'index', m, rl)
    st, op = env.call1(st, 'vh_grouped_new', [ix, m, aggs])
    offs = [o for o, (z, x) in st.mem[op.base].cells.items() if isinstance(x, M.MapVal)]
    if len(offs) != 1:
        raise Unsupported('groups of an aggregation')
    off = offs[0]
    env.owners[op.base] = {off}
    g = Groups(env, m, n)
    n0 = z3.BitVec('groups', 64)
    st.pc.append(z3.ULT(n0, LIM31))
    if started:
        U.R.set_cell(st, op, off, M.MapVal(rest=g, n0=n0))
    else:
        v = st.mem[op.base].cells[off][1]
        env.prove(st, [], z3.BoolVal(not v.ents and v.rest is None), 'group', 'an aggregation starts without groups')
    return st, op, aggs, gid, n, ix, at, m, rl, off, g, n0, empty


def run_grouped_put(env):
    st, op, aggs, gid, n, ix, at, m, rl, off, g, n0, empty = grouped(env)
    t, _ = env.tuple(st, 'row', rl)
    before = dict(st.mem)
    seen = set()
    for s, k, v in env.call(st, 'vh_ro_put', [op, t]):
        env.prove(s, [], z3.BoolVal(k == 'exc' or U.is_null(v)), 'group', 'nothing is delivered while rows are put in')
        env.prove(s, [], z3.BoolVal(U.freed(s, t)), 'own', 'the row put into an aggregation is not released')
        mv = s.mem[op.base].cells[off][1]
        keys = [e for e in s.events if e[0] == 'mapkey']
        if not isinstance(mv, M.MapVal) or mv.rest is not g or mv.erased:
            env.prove(s, [], z3.BoolVal(False), 'group', 'putting a row removes groups')
            continue
        if k == 'exc' and not mv.ents:
            U.heap_left(env, s, before, [], 'an aggregation keeps memory it does not own')
            continue
        env.prove(s, [], z3.BoolVal(len(mv.ents) == 1), 'group', 'a row belongs to exactly one group')
        if len(mv.ents) != 1:
            continue
        eid, key, val = mv.ents[0]
        new = [e for e in keys if e[3] == eid and e[4]]
        seen.add((k, bool(new)))
        for e in keys:
            q = e[2]
            env.prove(s, [], i64(q.n) == m, 'group', 'the group of a row is found by one value per key column')
            j = fresh_bv('j', 64)
            s1 = s.fork()
            s1.pc.append(z3.ULT(j, m))
            a, gl = env.same_goal(s1, q.at(j), OV.family('row')(z3.SignExt(32, at(j))))
            env.prove(s1, a, gl, 'group', 'the group of a row is found by its key columns')
        old = s.ghost.get('old')
        if new:
            was, c0 = (lambda j: OV.null()), None
        else:
            was, c0 = OV.family('old'), old
        if not isinstance(val, Ptr) or env.tuple_seq(s, val) is None:
            env.prove(s, [], z3.BoolVal(False), 'group', 'a group has running values')
            continue
        if c0 is not None and not U.samep(val, c0):
            env.prove(s, [], z3.BoolVal(U.freed(s, c0)), 'own', 'an aggregation keeps memory it does not own')
        U.heap_left(env, s, before, [val], 'an aggregation keeps memory it does not own')
        env.prove(s, [], z3.BoolVal(not s.hfreed), 'own', 'putting a row releases running values of a group')
        check_fold(env, s, k, val, gid, n, was, t, 'group')
        others_same(env, s, op, before, {off}, 'group')
        same_aggs(env, s, aggs, before, 'group')
        a, b = s.mem[ix.base], before[ix.base]
        env.prove(s, [], z3.BoolVal(a.alive and a.arr is b.arr), 'group', 'the key columns stay as they are')
    if not seen >= {('ret', True), ('ret', False), ('exc', True), ('exc', False)} and not env.ex.failures:
        raise Unsupported('outcomes of GroupedAggOp::Put')


def run_grouped_get(env):
    st, op, aggs, gid, n, ix, at, m, rl, off, g, n0, empty = grouped(env)
    before = dict(st.mem)
    seen = set()
    for s, v in outcomes(env, env.call(st, 'vh_ro_get', [op]), 'Get'):
        mv = s.mem[op.base].cells[off][1]
        if not isinstance(mv, M.MapVal) or mv.rest is not g or mv.ents:
            raise Unsupported('groups after fetching')
        others_same(env, s, op, before, {off}, 'group')
        same_aggs(env, s, aggs, before, 'group')
        if U.is_null(v):
            seen.add(None)
            env.prove(s, [], n0 == 0, 'group', 'nothing is delivered although there are groups left')
            env.prove(s, [], z3.BoolVal(not mv.erased and not s.hfreed), 'group', 'a group is lost')
            U.heap_left(env, s, before, [], 'fetching keeps memory')
            continue
        seen.add(1)
        q = env.tuple_seq(s, v)
        env.prove(s, [], z3.BoolVal(q is not None and len(mv.erased) == 1), 'group', 'fetching delivers one group and forgets it')
        if q is None or len(mv.erased) != 1:
            continue
        i = mv.erased[0]
        env.prove(s, [], z3.ULT(i, n0), 'group', 'fetching delivers one of the groups')
        j = fresh_bv('j', 64)
        env.prove(s, [], i64(q.n) == m + n, 'group', 'a group is delivered as key columns followed by aggregates')
        s1 = s.fork()
        s1.pc.append(z3.ULT(j, m))
        a, gl = env.same_goal(s1, q.at(j), g.family('key', i)(j))
        env.prove(s1, a, gl, 'group', 'the key columns of the group forgotten are delivered first')
        s1 = s.fork()
        s1.pc.append(z3.ULT(j, n))
        a, gl = env.same_goal(s1, q.at(norm(m + j)), g.family('val', i)(j))
        env.prove(s1, a, gl, 'group', 'the aggregates of the group forgotten are delivered')
        kept = U.samep(v, g.val(i))
        cs = [i64(f[2]) == i if f[0] == 'one' else z3.BoolVal(False) for f in s.hfreed if f[1] == g.id]
        env.prove(s, [], z3.And(z3.BoolVal(len(cs) == 1), *cs), 'own', 'exactly the running values of the group delivered are released')
        U.heap_left(env, s, before, [v], 'fetching keeps memory')
        env.prove(s, [], z3.BoolVal(not U.freed(s, v)), 'own', 'the tuple delivered has been released')
    if seen != {None, 1} and not env.ex.failures:
        raise Unsupported('outcomes of GroupedAggOp::Get')


def run_grouped_delete(env):
    st, op, aggs, gid, n, ix, at, m, rl, off, g, n0, empty = grouped(env)
    for s, v in outcomes(env, env.call(st, 'vh_ro_del', [op]), '~GroupedAggOp'):
        C.released(env, s, gid, n, 'own', 'every aggregate is released')
        C.released(env, s, g.id, n0, 'own', 'the running values of every group are released')
        env.prove(s, [], z3.BoolVal(not [i for i, o in s.mem.items() if i not in empty and o.kind == 'heap' and o.alive]), 'own', 'destroying an aggregation keeps memory')


def run_grouped_new(env):
    grouped(env, False)


# ---------------------------------------------------------------- lists in code
def loops_of(rs):
    ls = {}
    for s, k, r in rs:
        for e in s.events:
            if e[0] == 'loop':
                ls[id(e[1])] = e[1]
    return list(ls.values())


def run_array(env):
    """DecodeArray<int32_t>: count, then count integers one after the other; nothing is kept on errors"""
    C.use_contracts(env)
    ex = env.ex
    st = env.fresh()
    p, n, f = env.symcode(st, 'code')
    pa, pc = env.obj(st, 8, 'array'), env.obj(st, 8, 'count')
    before = dict(st.mem)
    seen = set()
    rs = env.call(st, 'vh_dec_array', [pa, pc, p, n])
    for s, k, r in rs:
        seen.add(k)
        first = [e for e in s.events if e[0] == 'dec'][:1]
        if not first or first[0][1] != 64:
            raise Unsupported('count of a list')
        d = first[0]
        env.prove(s, [], z3.And(d[3] == 0, d[4] == n), 'rdec', 'the count comes first')
        if k == 'exc':
            env.prove(s, [], z3.BoolVal(not env.live(s, before)), 'own', 'a rejected list leaves memory behind')
            check_reject(env, s, p, n, d)
            continue
        a, c = s.mem[pa.base].cells.get(0), s.mem[pc.base].cells.get(0)
        if a is None or c is None:
            raise Unsupported('list decoded')
        a, c = a[1], i64(c[1])
        env.prove(s, [], c == d[6], 'rdec', 'a list has the number of elements announced')
        o = s.mem.get(a.base) if isinstance(a, Ptr) else None
        env.prove(s, [], z3.BoolVal(o is not None and o.alive and o.kind == 'heap' and o.how == 'new[]' and a.base not in before and set(env.live(s, before)) == {a.base}), 'own',
                  'a list is an array of its own')
        if o is None or o.arr is None:
            continue
        check_elements(env, s, p, r, n, d, c, f, lambda st, j: bv(st.mem[a.base].arr.at(j), 32))
    if seen != {'ret', 'exc'} and not ex.failures:
        raise Unsupported('outcomes of DecodeArray')


def check_reject(env, s, p, n, d, elem='dec'):
    """a list is rejected only if a part of it is, or if it is shorter than announced"""
    ds = [e for e in s.events if e[0] in ('dec', elem)]
    if ds[-1][5] is None:
        return
    start = norm(d[3] + d[5])
    more = [z3.UGT(d[6], n - start)]
    for L in [e[1] for e in s.events if e[0] == 'loop']:
        if any(x[0] == elem for b, hi in L.backs for x in b.events[L.nev:]) and len(L.heads) == 1:
            for key in pos_slots(L, L.heads[0], p):
                if env.ex.valid(L.entry, at_key(L.entry, key) == start):
                    more.append(z3.And(z3.ULT(L.k, d[6]), at_key(L.heads[0], key) == n))
    env.prove(s, [], z3.Or(more), 'rdec', 'a complete list is rejected')


def pos_slots(L, head, p):
    out = []
    for key, slot in L.slots.items():
        o = head.mem.get(key[0])
        c = o.cells.get(key[1]) if o is not None and key[1] != 'arr' else None
        if c is not None and isinstance(c[1], Ptr) and c[1].base == p.base:
            out.append(key)
    return out


def at_key(s, key):
    return i64(norm(Lin.of(s.mem[key[0]].cells[key[1]][1].off).bv()))


def check_elements(env, s, p, r, n, d, c, f, elem):
    """elements decoded one after the other from the end of the count; element j is the j-th integer"""
    ex = env.ex
    start = norm(d[3] + d[5])
    used = C.end_of(env, s, p, r, 'rdec')
    if used is None:
        return
    ls = [e[1] for e in s.events if e[0] == 'loop']
    ls = [L for L in ls if any(x[0] == 'dec' for b, hi in L.backs for x in b.events[L.nev:])]
    if len(ls) != 1 or len(ls[0].heads) != 1:
        raise Unsupported('loops of a list')
    L = ls[0]
    head = L.heads[0]
    ks = pos_slots(L, head, p)
    key = None
    for x in ks:
        if ex.valid(s, used == at_key(head, x)) and ex.valid(L.entry, at_key(L.entry, x) == start):
            key = x
    if key is None:
        if not ks:
            raise Unsupported('position in a list')
        key = ks[0]
    env.prove(L.entry, [], at_key(L.entry, key) == start, 'rdec', 'the elements start right after the count')
    pos = at_key(head, key)
    for b, hi in L.backs:
        ds = [x for x in b.events[L.nev:] if x[0] == 'dec']
        env.prove(b, [], z3.BoolVal(len(ds) == 1 and ds[0][1] == 32), 'rdec', 'a step of decoding a list decodes one element')
        if len(ds) != 1:
            continue
        e = ds[0]
        env.prove(b, [], z3.And(e[3] == pos, e[4] == n, at_key(b, key) == pos + e[5]), 'rdec', 'an element starts where the previous one ends')
        env.prove(b, [], elem(b, L.k) == e[6], 'rdec', 'element j of the list is the j-th integer')
        j = fresh_bv('j', 64)
        b2 = b.fork()
        b2.pc.append(z3.ULT(j, L.k))
        env.prove(b2, [], elem(b2, j) == elem(head, j), 'rdec', 'elements decoded before stay as they are')
    env.prove(s, [], z3.And(L.k == c, used == at_key(head, key)), 'rdec', 'a list ends after its last element')
    j = fresh_bv('j', 64)
    s2 = s.fork()
    s2.pc.append(z3.ULT(j, c))
    env.prove(s2, [], elem(s2, j) == elem(head, j), 'rdec', 'the elements decoded are the list')


def agg_decode_contract(env):
    """DecodeValue<const Agg *>: proved by rel/agg"""
    def c(ex, st, args, name):
        v, p, e = args
        if not (isinstance(p, Ptr) and isinstance(e, Ptr) and p.base == e.base and isinstance(v, Ptr)):
            return NotImplemented
        f = C.byte_fn(ex, st, p)
        pos, end = i64(Lin.of(p.off).bv()), i64(Lin.of(e.off).bv())
        n = i64(st.mem[p.base].size)
        ex.obl(st.fork(), z3.And(z3.ULT(pos, end), z3.ULE(end, n)), 'memory', 'decoding reads past the end of the code buffer')
        st.pc += [z3.ULT(pos, end), z3.ULE(end, n)]
        who = str(st.mem[p.base].arr.ident)
        nxt = z3.Function('nextagg.' + who, *[z3.BitVecSort(64)] * 3)(pos, end)
        h = Ptr(Handle(AGG, fresh_id(), 0))
        a, b = st.fork(), st.fork()
        a.pc += [z3.ULT(pos, nxt), z3.ULE(nxt, end)]
        a.events.append(('agg', h, f, pos, end, nxt - pos, h))
        b.events.append(('agg', None, f, pos, end, None, None))
        return [(x, 'ret', Ptr(p.base, Lin.of(nxt))) for x in ex.store(a, v, h, PTR)] + [ex.throw(b, C.TRUNC), ex.throw(b.fork(), C.UNKNOWN)]
    env.ex.contracts['unsigned char const* dingodb::expr::DecodeValue<dingodb::rel::op::Agg const*>'] = c


def run_aggs(env):
    """DecodeVector<const Agg *>: count, then count aggregates one after the other; nothing is kept on errors"""
    C.use_contracts(env)
    agg_decode_contract(env)
    ex = env.ex
    st = env.fresh()
    p, n, f = env.symcode(st, 'code')
    pv = env.obj(st, 8, 'list')
    before = dict(st.mem)
    seen = set()
    for s, k, r in env.call(st, 'vh_dec_aggs', [pv, p, n]):
        seen.add(k)
        d = ([e for e in s.events if e[0] == 'dec'] or [None])[0]
        if d is None or d[1] != 64:
            raise Unsupported('count of a list')
        env.prove(s, [], z3.And(d[3] == 0, d[4] == n), 'rdec', 'the count comes first')
        L = agg_loop(s)
        if k == 'exc':
            env.prove(s, [], z3.BoolVal(not env.live(s, before)), 'own', 'a rejected list leaves memory behind')
            check_reject(env, s, p, n, d, 'agg')
            if L is not None:
                partial(env, s, L)
            continue
        c = s.mem[pv.base].cells.get(0)
        a = c[1] if c is not None else None
        q = env.ex.get_abs(s, a) if isinstance(a, Ptr) and isinstance(a.base, int) else None
        env.prove(s, [], z3.BoolVal(isinstance(q, Seq) and q.ety == 'ptr' and s.mem[a.base].kind == 'heap' and set(env.live(s, before)) == {a.base}), 'own', 'a list is a vector of its own')
        if not isinstance(q, Seq):
            continue
        env.prove(s, [], i64(q.n) == d[6], 'rdec', 'a list has the number of elements announced')
        start = norm(d[3] + d[5])
        used = C.end_of(env, s, p, r, 'rdec')
        if used is None:
            continue
        env.prove(s, [], z3.BoolVal(not s.hfreed), 'own', 'an aggregate of the list has been released')
        if L is None:
            raise Unsupported('loops of a list')
        head = L.heads[0]
        ks = pos_slots(L, head, p)
        good = [x for x in ks if ex.valid(s, used == at_key(head, x)) and ex.valid(L.entry, at_key(L.entry, x) == start)]
        if not ks:
            raise Unsupported('position in a list')
        key = (good or ks)[0]
        env.prove(L.entry, [], at_key(L.entry, key) == start, 'rdec', 'the elements start right after the count')
        pos = at_key(head, key)
        for b, hi in L.backs:
            ds = [x for x in b.events[L.nev:] if x[0] == 'agg']
            env.prove(b, [], z3.BoolVal(len(ds) == 1 and not [x for x in b.events[L.nev:] if x[0] == 'delete']), 'rdec', 'a step of decoding a list decodes one element')
            if len(ds) != 1:
                continue
            e = ds[0]
            env.prove(b, [], z3.And(e[3] == pos, e[4] == n, at_key(b, key) == pos + e[5]), 'rdec', 'an element starts where the previous one ends')
            stored(env, b, head, list_slot(L), L.k, e[1])
        env.prove(s, [], z3.And(L.k == d[6], used == at_key(head, key)), 'rdec', 'a list ends after its last element')
        lk = list_slot(L)
        j = fresh_bv('j', 64)
        s2 = s.fork()
        s2.pc.append(z3.ULT(j, d[6]))
        elem_is(env, s2, q, j, U.R.cell_of(head.mem[lk[0]], lk[1]).cases(j), 'rdec', 'the elements decoded are the list')
    if seen != {'ret', 'exc'} and not ex.failures:
        raise Unsupported('outcomes of DecodeVector')


def agg_loop(s):
    """the loop that decodes aggregates"""
    ls = [e[1] for e in s.events if e[0] == 'loop']
    ls = [L for L in ls if any(x[0] == 'agg' for b, hi in L.backs for x in b.events[L.nev:])]
    if len(ls) > 1 or ls and len(ls[0].heads) != 1:
        raise Unsupported('loops of a list')
    return ls[0] if ls else None


def list_slot(L):
    """the list being filled"""
    head = L.heads[0]
    ks = [key for key in L.slots if isinstance(U.R.cell_of(head.mem[key[0]], key[1]), Seq)]
    if len(ks) != 1:
        raise Unsupported('list being decoded')
    return ks[0]


def families(q):
    ids = set()
    for u in q.upd:
        v = u[3](V(0, 64)) if u[0] == 'rng' else u[2]
        if isinstance(v, Ptr) and isinstance(v.base, Handle):
            ids.add((v.base.id, u[0]))
    return ids


def partial(env, s, L):
    """whatever was decoded before the error has been released"""
    key = list_slot(L)
    fs = families(U.R.cell_of(L.heads[0].mem[key[0]], key[1]))
    if len(fs) != 1 or list(fs)[0][1] != 'rng':
        raise Unsupported('aggregates decoded')
    gid = list(fs)[0][0]
    C.released(env, s, gid, L.k, 'own', 'an aggregate decoded before an error is not released')
    env.prove(s, [], z3.BoolVal(all(f[1] == gid for f in s.hfreed)), 'own', 'something else is released')


def elem_is(env, s, q, i, want, kind, msg):
    for cs, v in q.cases(i):
        t = s.fork()
        t.pc += cs
        if not env.ex.feasible(t):
            continue
        for cs2, w in want:
            t2 = t.fork()
            t2.pc += cs2
            if env.ex.feasible(t2):
                env.prove(t2, [], same_ptr(v, w), kind, msg)


def same_ptr(a, b):
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        return z3.BoolVal(False)
    if isinstance(a.base, Handle) and isinstance(b.base, Handle):
        if a.base.id != b.base.id:
            return z3.BoolVal(False)
        if a.base.idx is None and b.base.idx is None:
            return z3.BoolVal(True)
        return i64(a.base.idx) == i64(b.base.idx)
    return z3.BoolVal(bool(U.is_null(a) and U.is_null(b)))


def stored(env, b, head, key, k, handle):
    q, hq = U.R.cell_of(b.mem[key[0]], key[1]), U.R.cell_of(head.mem[key[0]], key[1])
    elem_is(env, b, q, k, [([], handle)], 'rdec', 'element j of the list is the j-th aggregate')
    j = fresh_bv('j', 64)
    b = b.fork()
    b.pc.append(z3.ULT(j, k))
    elem_is(env, b, q, j, hq.cases(j), 'rdec', 'elements decoded before stay as they are')

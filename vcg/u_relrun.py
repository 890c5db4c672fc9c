"""Contracts of RelRunner: decoding relational programs, delegation, release."""
import z3
from vals import *
from env import *
from u_misc import outcomes
import u_code as C
import u_rel as U
import u_agg as A
import u_run as R
import models as M
from irparse import PTR, I

V = z3.BitVecVal
OPC = U.OPC
PRE = 'unsigned char const* dingodb::expr::'


def span(ex, st, p, n):
    """[pos, end) of the buffer handed to a decoder; obligation: inside the buffer"""
    pos = i64(Lin.of(p.off).bv())
    end = norm(pos + i64(n))
    size = i64(st.mem[p.base].size)
    g = z3.And(z3.ULE(pos, i64(end)), z3.ULE(i64(end), size))
    ex.obl(st.fork(), g, 'memory', 'a decoder is given more bytes than the buffer has')
    st.pc.append(g)
    return pos, i64(end), str(st.mem[p.base].arr.ident)


def fn2(name, who, w=64):
    return z3.Function('%s.%s' % (name, who), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(w))


def program_contract(env):
    """OperatorVector::Decode into an empty vector: proved by codec/program"""
    prog, own = C.ov_info(env)

    def c(ex, st, args, name):
        v, p, n = args
        if not (isinstance(v, Ptr) and isinstance(v.base, int) and isinstance(v.off, int) and isinstance(p, Ptr) and isinstance(p.base, int)):
            return NotImplemented
        C.byte_fn(ex, st, p)
        o = st.mem[v.base]
        q = o.cells.get(v.off + prog)
        if q is None or not isinstance(q[1], Seq) or q[1].n != 0:
            raise Unsupported('decoding into an expression runner that is not empty')
        pos, end, who = span(ex, st, p, n)
        nxt = fn2('nextprog', who)(pos, end)
        out = []
        for ok in (True, False):
            s = st.fork()
            o = s.mem[v.base] = s.mem[v.base].copy()
            fid, gid = fresh_id(), fresh_id()
            cnt, no = fresh_bv('ops', 64), fresh_bv('owned', 64)
            s.pc += [z3.ULT(cnt, U.LIM31), z3.ULT(no, U.LIM31)]
            o.cells[v.off + prog] = ('abs', q[1].but(nb=cnt, bat=R.family(R.OPCLS, fid), ident=('program', fid), tail=(), upd=(), gen=q[1].gen + 1))
            if own is not None:
                w = o.cells[v.off + own][1]
                o.cells[v.off + own] = ('abs', w.but(nb=no, bat=C.fam(gid), ident=('family', gid), tail=(), upd=(), gen=w.gen + 1))
            s.events.append(('prog', v.base, pos, end, (nxt - pos) if ok else None, (gid, no)))
            if ok:
                s.pc += [z3.ULE(pos, nxt), z3.ULE(nxt, end)]
                out.append((s, 'ret', Ptr(p.base, Lin.of(nxt))))
            else:
                out += [ex.throw(s, C.TRUNC), ex.throw(s.fork(), C.UNKNOWN)]
        return out
    env.ex.contracts['dingodb::expr::OperatorVector::Decode'] = c


def list_contracts(env):
    """DecodeArray<int>, DecodeVector<const Agg *>: proved by codec/array, codec/aggs"""
    ex = env.ex

    def array(ex, st, args, name):
        a, c, p, n = args
        if not (isinstance(p, Ptr) and isinstance(p.base, int)):
            return NotImplemented
        C.byte_fn(ex, st, p)
        pos, end, who = span(ex, st, p, n)
        nxt, cnt = fn2('nextints', who)(pos, end), fn2('intcount', who)(pos, end)
        s, b = st.fork(), st.fork()
        s.pc += [z3.ULT(pos, nxt), z3.ULE(nxt, end), z3.ULT(cnt, nxt - pos)]
        x = ex.new_obj(s, 'heap', norm(4 * cnt), 'columns', 'new[]')
        o = s.mem[x.base] = s.mem[x.base].copy()
        el = z3.Function('ints!%d' % fresh_id(), z3.BitVecSort(64), z3.BitVecSort(32))
        o.arr = Seq(4, 32, nb=cnt, bat=lambda i: el(i64(i)), ident=('columns', x.base))
        s, = ex.store(s, a, x, PTR)
        s, = ex.store(s, c, cnt, I[64])
        s.events.append(('ints', x.base, pos, end, nxt - pos, cnt))
        b.events.append(('ints', None, pos, end, None, None))
        return [(s, 'ret', Ptr(p.base, Lin.of(nxt)))] + [ex.throw(x, t) for x, t in ((b, C.TRUNC), (b.fork(), A_MORE))]

    def vector(ex, st, args, name):
        a, p, n = args
        if not (isinstance(p, Ptr) and isinstance(p.base, int)):
            return NotImplemented
        C.byte_fn(ex, st, p)
        pos, end, who = span(ex, st, p, n)
        nxt, cnt = fn2('nextaggs', who)(pos, end), fn2('aggcount', who)(pos, end)
        s, b = st.fork(), st.fork()
        s.pc += [z3.ULT(pos, nxt), z3.ULE(nxt, end), z3.ULT(cnt, nxt - pos)]
        s, x = env.call1(s, 'vh_aggs_new', [cnt])
        gid = fresh_id()
        off, = [k for k, (z, v) in s.mem[x.base].cells.items() if isinstance(v, Seq)]
        q = s.mem[x.base].cells[off][1]
        R.set_cell(s, x, off, q.but(nb=cnt, bat=R.family(A.AGG, gid), ident=('family', gid), tail=(), upd=()))
        s, = ex.store(s, a, x, PTR)
        s.events.append(('aggs', x.base, pos, end, nxt - pos, gid))
        b.events.append(('aggs', None, pos, end, None, None))
        return [(s, 'ret', Ptr(p.base, Lin.of(nxt)))] + [ex.throw(x, t) for x, t in ((b, C.TRUNC), (b.fork(), A_MORE), (b.fork(), C.UNKNOWN))]
    ex.contracts[PRE + 'DecodeArray<int>'] = array
    ex.contracts[PRE + 'DecodeVector<dingodb::rel::op::Agg const*>'] = vector


A_MORE = '_ZTIN7dingodb4expr20MoreElementsRequiredE'
SUB = ('prog', 'ints', 'aggs')


def rr_info(env):
    """offset of the chain in a RelRunner (found by running the real code)"""
    st = env.fresh()
    r = env.obj(st, 512, 'relational runner')
    st, _ = env.call1(st, 'vh_rr_new', [r])
    offs = [k for k, (z, v) in st.mem[r.base].cells.items() if U.is_null(v)]
    if len(offs) != 1:
        raise Unsupported('layout of RelRunner')
    env.frames['relational runner'] = {offs[0]}
    return offs[0]


def run_decode(env):
    C.use_contracts(env)
    program_contract(env)
    list_contracts(env)
    ex = env.ex
    off = rr_info(env)
    for old in (True, False):
        st = env.fresh()
        empty = set(st.mem)
        r = env.obj(st, 512, 'relational runner')
        st, _ = env.call1(st, 'vh_rr_new', [r])
        h = U.handle(OPC)
        if old:
            R.set_cell(st, r, off, h)
        p, n, f = env.symcode(st, 'code')
        if not old:
            st.pc.append(n == 0)
        rs = env.call(st, 'vh_rr_decode', [r, p, n])
        check_decode(env, st, rs, r, off, h if old else None, p, n, f)


def expected(env, b, kind, evs):
    """the operator encoded, built by the real constructors"""
    if kind in ('filter', 'project'):
        a = [Ptr(evs[0][1])]
    elif kind == 'grouped':
        a = [Ptr(evs[0][1]), norm(evs[0][5]), Ptr(evs[1][1])]
    else:
        a = [Ptr(evs[0][1])]
    return env.call1(b.fork(), 'vh_%s_new' % kind, a)


def alike(env, s, x, y, seen, d=0):
    """the objects x and y (pointers) have the same content"""
    if ptr_eq(x, y):
        return True
    if not (isinstance(x, Ptr) and isinstance(y, Ptr)) or d > 4:
        return False
    if not (isinstance(x.base, int) and isinstance(y.base, int)) or x.off != y.off:
        return False
    if (x.base, y.base) in seen:
        return True
    seen.add((x.base, y.base))
    a, b = s.mem.get(x.base), s.mem.get(y.base)
    if a is None or b is None or a.kind != 'heap' or b.kind != 'heap' or not a.alive or not b.alive or a.how != b.how:
        return False
    if set(a.cells) != set(b.cells) or (a.arr is None) != (b.arr is None):
        return False
    import loops
    for k in a.cells:
        u, v = a.cells[k][1], b.cells[k][1]
        if isinstance(u, Ptr) and isinstance(v, Ptr):
            if not alike(env, s, u, v, seen, d + 1):
                return False
        elif isinstance(u, M.MapVal) and isinstance(v, M.MapVal):
            if u.ents or v.ents or u.rest is not None or v.rest is not None:
                return False
        elif isinstance(u, Seq) and isinstance(v, Seq) and u.n == 0 and v.n == 0:
            continue
        elif u is UNDEF and v is UNDEF:
            continue
        elif not loops.same(env.ex, s, u, v):
            return False
    return a.arr is b.arr or a.arr is None or loops.same(env.ex, s, a.arr, b.arr)


def ptr_eq(x, y):
    if not (isinstance(x, Ptr) and isinstance(y, Ptr)):
        return False
    if isinstance(x.base, Handle) and isinstance(y.base, Handle):
        return x.base == y.base and x.off == y.off
    return x.base == y.base and x.off == y.off


def check_decode(env, st, rs, r, off, h, p, n, f):
    ex = env.ex
    ls = A.loops_of(rs)
    ls = [L for L in ls if any(x[0] in SUB for b, hi in L.backs for x in b.events[L.nev:])]
    if h is None and not ls:
        for s, k, v in rs:
            x = U.R.cell_of(s.mem[r.base], off)
            env.prove(s, [], z3.BoolVal(k == 'ret' and isinstance(v, Ptr) and v.base == p.base and U.is_null(x)), 'rdec', 'an empty program decodes to an empty chain')
        return
    if len(ls) != 1:
        raise Unsupported('loops of RelRunner::Decode')
    L = ls[0]
    # returns before anything is decoded: only for an empty program
    quiet = [x for x in rs if not any(e[0] == 'loop' and e[1] is L for e in x[0].events) and not any(e[0] in SUB for e in x[0].events)]
    early = [x for x in quiet if x[1] == 'ret']
    rs = [x for x in rs if not any(x is y for y in early)]

    def gone(s, what):
        if h is not None:
            d = [x for x in C.deleted(s) if x.id == h.base.id]
            env.prove(s, [], z3.BoolVal(len(d) == 1), 'own', 'the chain decoded before is released exactly once')
    e0 = L.entry
    gone(e0, 'entry')
    env.prove(e0, [], z3.BoolVal(U.is_null(R.cell_of(e0.mem[r.base], off))), 'rdec', 'decoding starts from an empty chain')
    keys = None
    for hd in L.heads:
        ks = set(A.pos_slots(L, hd, p))
        keys = ks if keys is None else keys & ks
    key = None
    for x in sorted(keys or (), key=str):
        if ex.valid(e0, A.at_key(e0, x) == 0) and all(ex.valid(s, A.at_key(s_head(s, L), x) == C.i64(Lin.of(v.off).bv())) for s, k, v in rs if k == 'ret' and isinstance(v, Ptr)):
            key = x
    if key is None:
        raise Unsupported('position of the relational decoder')
    tandem = None
    for b, hi in L.backs:
        hd = L.heads[hi]
        pos = A.at_key(hd, key)
        head = R.cell_of(hd.mem[r.base], off)
        step(env, b, b.events[L.nev:], hd, head, pos, A.at_key(b, key), r, off, p, n, f)
        gone(b, 'step')
    seen = set()
    for s, k, v in early:
        gone(s, 'end')
        env.prove(s, [], n == 0, 'rdec', 'a program is taken for an empty one')
        env.prove(s, [], z3.BoolVal(isinstance(v, Ptr) and v.base == p.base and Lin.of(v.off).const() == 0), 'rdec', 'decoding an empty program consumes nothing')
        env.prove(s, [], z3.BoolVal(U.is_null(R.cell_of(s.mem[r.base], off))), 'rdec', 'an empty program decodes to an empty chain')
    for s, k, v in rs:
        seen.add(k)
        gone(s, 'end')
        hd = s_head(s, L)
        pos = A.at_key(hd, key)
        same = ptr_eq(R.cell_of(s.mem[r.base], off), R.cell_of(hd.mem[r.base], off))
        if k == 'ret':
            used = C.end_of(env, s, p, v, 'rdec')
            if used is None:
                continue
            env.prove(s, [], z3.And(used == n, pos == n), 'rdec', 'decoding ends at the end of the buffer')
            env.prove(s, [], z3.BoolVal(same), 'rdec', 'the chain is made of the operators decoded')
            U.heap_left(env, s, hd.mem, [], 'decoding keeps memory it does not own')
            continue
        i = max(j for j, e in enumerate(s.events) if e[0] == 'loop' and e[1] is L)
        ev = [e for e in s.events[i + 1:] if e[0] in SUB]
        U.heap_left(env, s, hd.mem, [], 'a rejected program leaves memory behind')
        for e in ev:
            if e[0] == 'prog':
                C.released(env, s, e[5][0], e[5][1], 'own', 'the operators of a rejected expression are released')
        env.prove(s, [], z3.BoolVal(same or U.is_null(R.cell_of(s.mem[r.base], off))), 'own', 'a rejected program leaves a chain that is not its own')
        if any(e[4] is None for e in ev):
            bad = [e for e in ev if e[4] is None]
            env.prove(s, [], starts(ev, pos, n, f), 'rdec', 'a part of a program is decoded from the wrong place')
            continue
        env.prove(s, [], z3.And(z3.ULT(pos, n), z3.Or(z3.And(*[f(pos) != c for c in (0x71, 0x72, 0x73, 0x74)]),
                                                      z3.And(f(pos) == 0x73, z3.Or(n - pos == 1, f(pos + 1) != 0x61)))), 'rdec', 'a documented operator is rejected')
    if seen != {'ret', 'exc'} and not ex.failures:
        raise Unsupported('outcomes of RelRunner::Decode')


def s_head(s, L):
    a = [h for h in L.heads if all(s.ghost.get(k) == v for k, v in h.ghost.items() if isinstance(k, tuple) and k[0] == 'alt')]
    if len(a) != 1:
        raise Unsupported('heads of a loop')
    return a[0]


def starts(ev, pos, n, f):
    """the parts decoded belong to the code byte and lie where they are encoded"""
    k = [e[0] for e in ev]
    g = [e[3] == n for e in ev]
    if k == ['prog']:
        g += [z3.Or(f(pos) == 0x71, f(pos) == 0x72), ev[0][2] == pos + 1]
    elif k == ['aggs']:
        g += [f(pos) == 0x74, ev[0][2] == pos + 1]
    elif k == ['ints'] or k == ['ints', 'aggs']:
        g += [f(pos) == 0x73, z3.ULT(pos + 1, n), f(pos + 1) == 0x61, ev[0][2] == pos + 2]
        if len(k) == 2:
            if ev[0][4] is None:
                return z3.BoolVal(False)
            g.append(ev[1][2] == ev[0][2] + ev[0][4])
    else:
        return z3.BoolVal(False)
    return z3.And(z3.ULT(pos, n), *g)


def step(env, b, evs, hd, head, pos, npos, r, off, p, n, f):
    ev = [e for e in evs if e[0] in SUB]
    env.prove(b, [], starts(ev, pos, n, f), 'rdec', 'a part of a program is decoded from the wrong place')
    if not ev or any(e[4] is None for e in ev):
        env.prove(b, [], z3.BoolVal(False), 'rdec', 'decoding goes on after an error')
        return
    env.prove(b, [], npos == ev[-1][2] + ev[-1][4], 'rdec', 'the next operator starts where the previous one ends')
    k = [e[0] for e in ev]
    kinds = {('prog',): [(0x71, 'filter'), (0x72, 'project')], ('aggs',): [(0x74, 'ungrouped')], ('ints', 'aggs'): [(0x73, 'grouped')]}.get(tuple(k), [])
    cur = R.cell_of(b.mem[r.base], off)
    for c, kind in kinds:
        s = b.fork()
        s.pc.append(f(pos) == c)
        if not env.ex.feasible(s):
            continue
        before = dict(s.mem)
        s, x = expected(env, s, kind, ev)
        new = set(s.mem) - set(before)
        if U.is_null(head):
            env.prove(s, [], z3.BoolVal(alike(env, s, cur, x, set())), 'rdec', 'the first operator becomes the chain (%s)' % kind)
        else:
            s, y = env.call1(s, 'vh_tandem_new', [head, x])
            new |= set(s.mem) - set(before)
            if not known_shape(env, s, cur, head, y):
                raise Unsupported('chain built by RelRunner::Decode')
            env.prove(s, [], z3.BoolVal(alike(env, s, cur, y, set())), 'rdec', 'the operator decoded is put behind the chain (%s)' % kind)
        U.heap_left(env, b, {**before_heap(hd), **{i: 0 for i in reach(b, cur)}}, [], 'decoding an operator leaves memory behind')


def before_heap(hd):
    return hd.mem


def reach(b, x):
    import loops
    return loops.reachable(b, [x])


def known_shape(env, s, cur, head, y):
    """the chain is the old one, or one or two heap objects"""
    return isinstance(cur, Ptr) and (isinstance(cur.base, Handle) or isinstance(cur.base, int) and cur.off == 0)


def run_delegate(env):
    """Put and Get of a RelRunner are those of its chain; an empty chain passes rows through; Put and Get leave the chain alone"""
    U.relop_contract(env)
    off = rr_info(env)
    ex = env.ex
    for chain in (True, False):
        st = env.fresh()
        r = env.obj(st, 512, 'relational runner')
        st, _ = env.call1(st, 'vh_rr_new', [r])
        h = U.handle(OPC)
        if chain:
            R.set_cell(st, r, off, h)
        t, tn = env.tuple(st, 'row')
        before = dict(st.mem)
        for what in ('put', 'get'):
            seen = set()
            for s, k, v in env.call(st.fork(), 'vh_rr_' + what, [r, t] if what == 'put' else [r]):
                P = lambda g, msg, kd='chain': env.prove(s, [], z3.BoolVal(bool(g)), kd, msg)
                ev = [e for e in s.events if e[0] in ('put', 'get')]
                seen.add((k, ev[0][3] is None) if ev else None)
                if chain:
                    P(len(ev) == 1 and ev[0][0] == what and ev[0][1] is h.base and (what == 'get' or U.samep(ev[0][2], t)), 'a relational runner uses its chain, once')
                    if len(ev) == 1:
                        y = ev[0][3]
                        P((k == 'exc') == (y == 'exc') and (k == 'exc' or (U.is_null(v) if y is None else U.samep(v, y))), 'a relational runner returns what its chain returns')
                else:
                    P(not ev and k == 'ret' and (U.samep(v, t) if what == 'put' else U.is_null(v)), 'an empty chain passes rows through and has nothing to fetch')
                x = R.cell_of(s.mem[r.base], off)
                P(ptr_eq(x, h) if chain else U.is_null(x), 'a relational runner keeps its chain')
                keep = [v] if k == 'ret' and not U.is_null(v) else []
                U.heap_left(env, s, before, keep, 'a relational runner keeps a tuple')
                if keep:
                    P(not U.freed(s, v), 'the tuple returned has been released', 'own')
            if len(seen) < (3 if chain else 1) and not ex.failures:
                raise Unsupported('outcomes of RelRunner::%s' % what)


def run_release(env):
    """destroying a RelRunner releases its chain exactly once"""
    off = rr_info(env)
    for chain in (True, False):
        st = env.fresh()
        r = env.obj(st, 512, 'relational runner')
        st, _ = env.call1(st, 'vh_rr_new', [r])
        h = U.handle(OPC)
        if chain:
            R.set_cell(st, r, off, h)
        before = dict(st.mem)
        for s, x in outcomes(env, env.call(st, 'vh_rr_del', [r]), '~RelRunner'):
            env.prove(s, [], z3.BoolVal([x.id for x in C.deleted(s)] == ([h.base.id] if chain else [])), 'own', 'destroying a relational runner releases its chain exactly once')
            U.heap_left(env, s, before, [], 'destroying a relational runner keeps memory')


def run_runner_decode(env):
    """Runner::Decode decodes its program from the bytes it is given"""
    C.use_contracts(env)
    R.runner_info(env)
    program_contract(env)
    st = env.fresh()
    r = env.obj(st, 512, 'runner')
    st, _ = env.call1(st, 'vh_rn_new', [r])
    p, n, f = env.symcode(st, 'code')
    seen = set()
    for s, k, v in env.call(st, 'vh_rn_decode', [r, p, n]):
        seen.add(k)
        e = [e for e in s.events if e[0] == 'prog']
        env.prove(s, [], z3.BoolVal(len(e) == 1 and e[0][1] == r.base), 'decode', 'an expression runner decodes its program, once')
        if len(e) != 1:
            continue
        e = e[0]
        env.prove(s, [], z3.And(e[2] == 0, e[3] == n), 'decode', 'an expression runner decodes the whole buffer')
        env.prove(s, [], z3.BoolVal((k == 'exc') == (e[4] is None)), 'decode', 'errors of decoding are passed on')
        if k == 'ret' and e[4] is not None:
            used = C.end_of(env, s, p, v, 'decode')
            if used is not None:
                env.prove(s, [], used == e[4], 'decode', 'an expression runner ends decoding where its program ends')
    if seen != {'ret', 'exc'} and not env.ex.failures:
        raise Unsupported('outcomes of Runner::Decode')

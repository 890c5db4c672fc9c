"""Verification environment: program, engine, symbolic inputs, comparison of values with specifications."""
import time
from irparse import *
from vals import *
import engine
import models as M
import oracle as O
import spec as S

LIM = {1: '_ZTIN7dingodb4expr13ExceedsLimitsILh1EEE', 2: '_ZTIN7dingodb4expr13ExceedsLimitsILh2EEE'}


def unchanged(a, b):
    if a is b:
        return True
    if isinstance(a, Seq) and isinstance(b, Seq):
        import loops
        return loops.seq_eq(a.but(gen=0), b.but(gen=0))
    if z3.is_expr(a) or z3.is_expr(b):
        return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.base == b.base and (a.off is b.off or isinstance(a.off, int) and a.off == b.off)
    return type(a) is type(b) and not isinstance(a, (OV, Str)) and a == b


class Env:
    def __init__(self, prog, deadline=None, timeout_ms=20000):
        self.prog = prog
        self.ex = engine.Exec(prog, timeout_ms)
        self.ex.vhandlers = {}
        self.ex.deadline = deadline
        self.base = self.ex.initial_state()
        self.ex.base_state = self.base
        self.notes = []
        self.replays = []
        self.opcache = {}
        self.reach = {}       # entry point -> [outcomes examined, outcomes with satisfiable assumptions]
        self.frames = {}      # name of an object under contract -> offsets of its state (found by the unit)
        self.owners = {}      # the same for a single heap object
        self.want = None      # obligation kinds the current check needs (None: all)

    def fresh(self):
        return self.base.fork()

    def code(self, st, bs):
        p = self.ex.new_obj(st, 'buf', len(bs), 'code buffer')
        o = st.mem[p.base]
        s = Str.lit_(bytes(bs))
        o.arr = Seq(1, 8, nb=len(bs), bat=s.at, ident=('lit', bytes(bs)))
        o.ro = True
        return p

    def symcode(self, st, name='code', maxlen=1 << 31):
        """arbitrary buffer of arbitrary length; returns (pointer, length term, byte function)"""
        n = z3.BitVec(name + '.len', 64)
        f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8))
        p = self.ex.new_obj(st, 'buf', n, name + ' buffer')
        o = st.mem[p.base]
        o.arr = Seq(1, 8, nb=n, bat=lambda i: f(i64(i)), ident=name)
        o.ro = True
        st.pc.append(z3.ULT(n, z3.BitVecVal(maxlen, 64)))
        return p, n, f

    def obj(self, st, size, name):
        return self.ex.new_obj(st, 'mem', size, name)

    def one(self, rs, what='call'):
        if len(rs) != 1 or rs[0][1] != 'ret':
            raise Unsupported('%s: expected one normal outcome, got %s' % (what, [(r[1], r[2]) for r in rs][:4]))
        return rs[0][0], rs[0][2]

    def call(self, st, fn, args):
        f = self.prog.find_fn(fn)
        if f is None:
            raise Unsupported('no entry point ' + fn)
        pre = dict(st.mem)
        rs = self.ex.call_fn(st, f, args)
        self.note_exits(fn, rs)
        self.note_state(fn, pre, rs)
        return rs

    def note_state(self, fn, pre, rs):
        """frame: a call changes no global variable, and of an object under contract only the state the contracts
        speak of.  Otherwise later calls start from states the contracts were not shown for: undecided."""
        if fn.endswith(('_new', '_del', '_st_bind')):
            return
        for s, k, v in rs:
            for i, o in s.mem.items():
                if self.ex.frame_seen.get(i) is o:
                    continue
                p = pre.get(i)
                if p is None:
                    p = self.base.mem.get(i)
                if p is None or p is o or not o.alive:
                    continue
                if o.kind == 'global':
                    ok = ()
                elif i in self.owners:
                    ok = self.owners[i]
                elif o.name in self.frames:
                    ok = self.frames[o.name]
                elif o.kind == 'heap' and o.name == 'heap object':
                    ok = ()
                else:
                    continue
                for c in set(o.cells) | set(p.cells):
                    a, b = o.cells.get(c), p.cells.get(c)
                    if c in ok or a is b or a is not None and b is not None and unchanged(a[1], b[1]):
                        continue
                    m = '%s keeps state outside its contract (%s); its contract is shown for the state after construction only' % (fn[3:], o.name)
                    if all(u[2] != m for u in self.ex.undecided):
                        self.ex.undecided.append((self.ex.unit, 'state', m, ''))
                self.ex.frame_seen[i] = o

    def note_exits(self, fn, rs):
        """vacuity guard: some outcome of every entry point must be reachable under the assumptions in force"""
        r = self.reach.setdefault(fn, [0, 0])
        for s, k, v in rs:
            if r[1] >= 1 or r[0] >= 40:
                break
            r[0] += 1
            if self.ex.check(s.pc, None, 3000)[0] == 'sat':
                r[1] += 1

    def vacuous(self):
        """entry points none of whose outcomes has satisfiable assumptions"""
        return sorted(f for f, (n, k) in self.reach.items() if not k)

    def call1(self, st, fn, args):
        return self.one(self.call(st, fn, args), fn)

    def ops(self, st, bs):
        """decode concrete bytes with the real decoder -> (state, vector, operators, consumed)"""
        v = self.obj(st, 256, 'operator vector')
        st, _ = self.call1(st, 'vh_ov_new', [v])
        c = self.code(st, bs)
        st, r = self.call1(st, 'vh_ov_decode', [v, c, len(bs)])
        st, n = self.call1(st, 'vh_ov_count', [v])
        if not isinstance(n, int):
            raise Unsupported('number of operators')
        out = []
        for i in range(n):
            st, o = self.call1(st, 'vh_ov_at', [v, i])
            out.append(o)
        if not (isinstance(r, Ptr) and r.base == c.base and isinstance(r.off, int)):
            raise Unsupported('end position')
        return st, v, out, r.off

    def seq_cell(self, st, p):
        o = st.mem[p.base]
        offs = [k for k, (z, v) in o.cells.items() if isinstance(v, Seq)]
        if len(offs) != 1:
            raise Unsupported('operand stack not found')
        return offs[0]

    def stack(self, st, name='stk', depth=None):
        s = self.obj(st, 256, 'operand stack')
        st, _ = self.call1(st, 'vh_st_new', [s])
        o = st.mem[s.base] = st.mem[s.base].copy()
        off = self.seq_cell(st, s)
        nb = z3.BitVec(name + '.depth', 64) if depth is None else depth
        self.frames['operand stack'] = {off}
        o.cells[off] = ('abs', o.cells[off][1].but(nb=nb, bat=OV.family(name), ident=name))
        if depth is None:
            st.pc.append(z3.ULE(nb, z3.BitVecVal(1 << 40, 64)))
        return st, s, off

    def tuple(self, st, name, n=None, fam=None):
        """a heap-allocated tuple of arbitrary length; -> (pointer, length)"""
        p = self.ex.new_obj(st, 'heap', 24, 'tuple ' + name, 'new')
        o = st.mem[p.base]
        o.meta = name
        if n is None:
            n = z3.BitVec(name + '.len', 64)
            st.pc.append(z3.ULT(n, z3.BitVecVal(1 << 31, 64)))
        o.cells[0] = ('abs', Seq(24, 'ov', nb=i64(n) if not isinstance(n, int) or n else 0, bat=fam or OV.family(name), ident=name))
        return p, n

    def retuple(self, st, p, name):
        """the owner changes the tuple in place (cells and length); -> the new length"""
        o = st.mem[p.base] = st.mem[p.base].copy()
        o.meta = name
        n = z3.BitVec(name + '.len', 64)
        st.pc.append(z3.ULT(n, z3.BitVecVal(1 << 31, 64)))
        o.cells[0] = ('abs', Seq(24, 'ov', nb=n, bat=OV.family(name), ident=name))
        return n

    def tuple_seq(self, st, p):
        """contents of a live tuple, or None"""
        if not isinstance(p, Ptr) or not isinstance(p.base, int) or p.off != 0:
            return None
        o = st.mem.get(p.base)
        if o is None or not o.alive:
            return None
        c = o.cells.get(0)
        return c[1] if c is not None and isinstance(c[1], Seq) else None

    def live(self, st, before):
        """heap objects allocated since `before` and not released"""
        return [i for i, o in st.mem.items() if i not in before and o.kind == 'heap' and o.alive]

    def loops(self, st):
        return [e[1] for e in st.events if e[0] == 'loop']

    # -------------------------------------------------------- obligations on values
    def str_goal(self, st, a, b):
        """(assumptions, goal): contents equal"""
        if a is b or (a.key is not None and a.key == b.key):
            return [], z3.BoolVal(True)
        i = fresh_bv('ix', 64)
        goal = z3.And(i64(a.n) == i64(b.n),
                      z3.Implies(z3.ULT(i, i64(a.n)), bv(a.at(i), 8) == bv(b.at(i), 8)))
        asm = []
        for s, fact in st.facts:
            asm.append(fact(i))
        return asm, goal

    def same_goal(self, st, a, b):
        """operands identical: (assumptions, goal)"""
        tg = norm(tag_bv(a.tag) == tag_bv(b.tag)) if not (isinstance(a.tag, int) and isinstance(b.tag, int)) else int(a.tag == b.tag)
        if isinstance(tg, int) and not tg:
            return [], z3.BoolVal(False)
        ts = [b.tag] if isinstance(b.tag, int) else ([a.tag] if isinstance(a.tag, int) else range(7))
        asm, gs = [], [boolt(tg)]
        for t in ts:
            if t == 0:
                continue
            x, y = a.pay(t), b.pay(t)
            c = b.is_(t)
            if x is None or y is None:
                if x is None and y is None:
                    continue
                gs.append(z3.Not(c))
                continue
            if t == 6:
                a2, g = self.str_goal(st, x, y)
                asm += a2
            elif t == 3:
                g = boolt(x) == boolt(y)
            elif t in (4, 5):
                g = same_real(x, y)
            else:
                w = 32 if t == 1 else 64
                g = bv(x, w) == bv(y, w)
            gs.append(z3.Implies(c, g))
        return asm, z3.And(gs)

    def prove(self, st, asm, goal, kind, msg, data=None):
        if self.want is not None and kind not in self.want:
            return True
        if asm:
            s2 = st.fork()
            s2.pc = s2.pc + [a for a in asm if a is not None]
            return self.ex.obl(s2, goal, kind, msg, data)
        return self.ex.obl(st.fork(), goal, kind, msg, data)


def case_goal(env, st, got, outcome):
    """expected outcome of a returning path -> list of (extra assumptions, goal)"""
    k = outcome[0]
    if k == 'val':
        return env.same_goal(st, got, outcome[1])
    s = got.pay(6)
    tagok = got.is_(6)
    if s is None:
        return [], z3.BoolVal(False)
    if k == 'fixed':
        t = outcome[1]
        e = M.search(env.ex, st, t, lambda c: bv(c, 8) == 48, ('eqc', (48,)), True)
        dot = bv(t.at(norm(e - 1)), 8) == ord('.')
        w = t.substr(0, norm(e))
        a, g = env.str_goal(st, s, Str(norm(z3.If(dot, e + 1, e)), lambda i: val_ite(z3.ULT(i64(i), e), t.at(i), 48, 8)))
        return a, z3.And(tagok, g)
    if k == 'trim':
        _, src, left, right = outcome
        sp = tuple(not (9 <= c <= 13 or c == 32) for c in range(256))
        pred = lambda c: M.c_isspace(bv(c, 8))
        n = i64(src.n)
        a = M.search(env.ex, st, src, pred, ('p', sp), False) if left else z3.BitVecVal(0, 64)
        b = M.search(env.ex, st, src, pred, ('p', sp), True) if right else n
        r = Str(norm(z3.If(z3.ULT(a, b), b - a, z3.BitVecVal(0, 64))), lambda i: src.at(norm(i64(i) + a)))
        asm, g = env.str_goal(st, s, r)
        return asm, z3.And(tagok, g)
    raise Unsupported(k)

"""Loops: complete unrolling when it terminates, otherwise an inductive generalisation of the state.

The generalised loop head stands for the state before an arbitrary iteration (number k, a ghost).  It is
guessed by running one iteration and comparing, then checked: the final run of the body starts from the
generalised head and every path back to it must end in an instance of the head for k+1 (obligations of
kind 'invariant'), so the guess is never trusted."""
import z3, time
from vals import *

UNROLL_SYM = 12


class Junk:
    """value of a cell the loop writes before reading; reading it aborts the current abstraction"""
    __slots__ = ('slot',)

    def __init__(self, slot):
        self.slot = slot


class JunkRead(Exception):
    def __init__(self, slot):
        self.slot = slot


class Unpeel(Unsupported):
    """a path that changes a flag goes on"""
    def __init__(self, keys):
        Unsupported.__init__(self, 'loop: a path that changes a flag goes on')
        self.keys = keys


class Summary:
    def __init__(self):
        self.fn = self.blk = self.k = None
        self.entry = None       # state before the loop
        self.heads = []         # generalised states
        self.backs = []         # (state after one generic iteration, index of the head it started from)
        self.hev = 0
        self.slots = {}


class Retry(Exception):
    pass


# ------------------------------------------------------------------ entry point
def handle(ex, fr, st, regs, blk, pred):
    region = fr.info.loops[blk]
    memo = ex.loop_mode.setdefault('memo', set())
    key = (fr.fn.name, blk)
    snap = save(ex)
    nf = len(ex.failures)
    items = [(st.fork(), dict(regs), blk, pred)]
    ex_all, out_all = [], []
    sym = 0
    ok = False
    for it in range(600):
        nexts = []
        forked = False
        try:
            for (s, r, b, p) in items:
                exits, backs, outs = ex.run(fr, [(s, r, b, p)], region, blk, 60)
                ex_all += exits
                out_all += outs
                if (exits or outs) and backs or len(backs) > 1:
                    forked = True
                nexts += [(s2, r2, blk, p2) for s2, r2, p2 in backs]
        except Budget as e:
            if str(e) != 'paths':
                raise
            break
        if not nexts:
            ok = True
            break
        if forked:
            sym += 1
            if key in memo or sym > UNROLL_SYM or len(nexts) > 4:
                break
        items = nexts
    if ok or len(ex.failures) > nf and not ex.quiet:
        # complete (or a real failure on an exactly explored path)
        if ok:
            return ex_all, out_all
        snapf = ex.failures[nf:]
        restore(ex, snap)
        for f in snapf:
            ex.failures.append(f)
        # the failing path was explored exactly; go on with the abstraction for the rest
    else:
        restore(ex, snap)
    memo.add(key)
    return Loop(ex, fr, st, regs, blk, pred).solve()


def save(ex):
    s = ex.stats
    return (s.obl, s.disch, dict(s.kinds), s.unknown, s.trivial, len(ex.failures), len(ex.undecided), set(ex.fail_keys))


def restore(ex, t):
    s = ex.stats
    s.obl, s.disch, s.kinds, s.unknown, s.trivial = t[0], t[1], t[2], t[3], t[4]
    del ex.failures[t[5]:]
    del ex.undecided[t[6]:]
    ex.fail_keys = t[7]


# ------------------------------------------------------------------ helpers on values
def is_bits(v):
    return isinstance(v, (int, LinV)) or z3.is_expr(v) and z3.is_bv(v)


def as_bv(v, n):
    return bv(v, n)


def same(ex, st, a, b, size=None):
    """are the two values equal in st? (syntactic, then by the solver for plain numbers)"""
    if a is b:
        return True
    if a is UNDEF or b is UNDEF:
        return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.base != b.base:
            return False
        d = Lin.of(a.off).sub(b.off).const()
        if d is not None:
            return d == 0
        return bool(ex.valid(st, Lin.of(a.off).bv() == Lin.of(b.off).bv()))
    if isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
        if isinstance(a, PInt) and isinstance(b, PInt):
            return same(ex, st, a.p, b.p)
        return False
    if isinstance(a, FnP) and isinstance(b, FnP):
        return a.name == b.name
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_bits(a) and is_bits(b):
        n = a.size() if z3.is_expr(a) else (b.size() if z3.is_expr(b) else 64)
        x, y = bv(a, n), bv(b, n)
        if x.size() != y.size():
            return False
        c = norm(x == y)
        if isinstance(c, int):
            return bool(c)
        return bool(ex.valid(st, c))
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return True
        if a.sort() == b.sort():
            return bool(ex.valid(st, a == b))
        if z3.is_bool(a) or z3.is_bool(b):
            return bool(ex.valid(st, boolt(a) == boolt(b)))
        return False
    if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
        try:
            return bool(ex.valid(st, boolt(a) == boolt(b)))
        except Exception:
            return False
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        return a.key is not None and a.key == b.key
    if isinstance(a, OV) and isinstance(b, OV):
        if a.tag == 0 and isinstance(b.tag, int) and b.tag == 0:
            return True
        return a.name is not None and a.name == b.name
    if type(a).__name__ == 'It' and type(b).__name__ == 'It':
        return same(ex, st, a.p, b.p)
    if type(a).__name__ == 'MapIt' and type(b).__name__ == 'MapIt':
        return a.m == b.m and same(ex, st, a.i, b.i)
    if type(a).__name__ == 'SP' and type(b).__name__ == 'SP':
        return same(ex, st, a.p, b.p)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(ex, st, x, y) for x, y in zip(a, b))
    return False


def seq_eq(a, b):
    def eqv(x, y):
        return x is y or isinstance(x, int) and isinstance(y, int) and x == y or z3.is_expr(x) and z3.is_expr(y) and x.eq(y)
    if a is b:
        return True
    if a.gen != b.gen or a.es != b.es or len(a.tail) != len(b.tail) or len(a.upd) != len(b.upd):
        return False
    if not eqv(a.nb, b.nb) or (a.is_opaque() and a.ident != b.ident):
        return False
    return all(eqv(x, y) or isinstance(x, Ptr) and isinstance(y, Ptr) and ptr_same(x, y) for x, y in zip(a.tail, b.tail)) and \
        all(u is v or u == v for u, v in zip(a.upd, b.upd))


def consts(terms):
    """names of the uninterpreted symbols in the terms"""
    seen, out = set(), set()
    st = list(terms)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
            st.extend(e.children())
    return out


def sym_id(name):
    i = name.rfind('!')
    if i < 0:
        return -1
    j = i + 1
    while j < len(name) and name[j].isdigit():
        j += 1
    return int(name[i + 1:j]) if j > i + 1 else -1


def subst(v, pairs):
    if isinstance(v, (int, Handle)) or v is UNDEF or v is None:
        return v
    if isinstance(v, LinV):
        return norm(z3.substitute(v.lin.bv(), *pairs))
    if z3.is_expr(v):
        r = z3.substitute(v, *pairs)
        return norm(r) if not z3.is_fp(r) else r
    if isinstance(v, Str):
        k = ('subst', v.key, tuple((a.get_id(), b.get_id(), a, b) for a, b in pairs)) if False else None
        if v.lit is not None:
            return v
        if v.term is not None:
            return Str.of_term(z3.substitute(v.term, *pairs))
        return Str(subst(v.n, pairs), lambda i, v=v: subst(v.at(i), pairs), key=k)
    if isinstance(v, OV):
        return OV(v.tag if isinstance(v.tag, int) else norm(z3.substitute(v.tag, *pairs)),
                  lambda t, v=v: subst(v.pay(t), pairs) if v.pay(t) is not None else None)
    if isinstance(v, Ptr):
        b = v.base
        if isinstance(b, Handle) and b.idx is not None and not isinstance(b.idx, int):
            b = Handle(b.cls, b.id, z3.simplify(z3.substitute(b.idx, *pairs)))
        o = v.off if isinstance(v.off, int) else Lin.of(z3.substitute(v.off.bv(), *pairs))
        return Ptr(b, o)
    raise Unsupported('substitution in ' + type(v).__name__)


def val_terms(v):
    """terms a value depends on, or None when unknown"""
    if isinstance(v, int) or v is UNDEF:
        return []
    if isinstance(v, LinV):
        return [v.lin.bv()]
    if z3.is_expr(v):
        return [v]
    if isinstance(v, Str):
        if v.lit is not None:
            return []
        if v.term is not None:
            return [v.term]
        return None
    if isinstance(v, OV):
        out = [] if isinstance(v.tag, int) else [v.tag]
        for t in ([v.tag] if isinstance(v.tag, int) else range(1, 7)):
            if t == 0:
                continue
            p = v.pay(t)
            if p is None:
                continue
            x = val_terms(p)
            if x is None:
                return None
            out += x
        return out
    return None


# ------------------------------------------------------------------ one loop
class Slot:
    """one location changed by the loop"""

    def __init__(self, key, v0, size):
        self.key, self.v0, self.size = key, v0, size
        self.kind = None
        self.d = None
        self.sym = None
        self.alts = None
        self.info = None
        self.ty = None


class Loop:
    def __init__(self, ex, fr, st, regs, blk, pred):
        self.ex, self.fr, self.st, self.regs, self.blk, self.pred = ex, fr, st, regs, blk, pred
        self.region = fr.info.loops[blk]
        self.id0 = fresh_id()
        self.k = z3.BitVec('k!%d' % fresh_id(), 64)
        self.slots = {}
        self.frees = {}       # handle family id -> (lo, +1 / -1)   freed: k objects from lo upwards / downwards
        self.freed1 = []
        self.invs = None
        self.syms = {}        # symbol -> slot key (to compute its value in a later state)
        self.famcls = {}
        self.peel = set()
        self.nopeel = set()
        self.noinv = set()
        self.junk_up = set()
        self._lv = {}

    # -- discovery
    def solve(self):
        ex = self.ex
        t0 = time.time()
        for rnd in range(20):
            if rnd == 19:
                raise Unsupported('loop: no inductive generalisation found in %s' % (self.fr.fn.name[:80],))
            q = ex.quiet
            snap = save(ex)
            ex.quiet = q + 1
            try:
                res = self.iterate()
                ch = self.learn(res)
                if not ch:
                    ch = self.houdini(res)
            except JunkRead as e:
                self.upgrade(e.slot)
                ch = True
            except Unpeel as e:
                self.peel -= set(e.keys)
                self.nopeel |= set(e.keys)
                ch = True
            finally:
                ex.quiet = q
                restore(ex, snap)
            if not ch:
                break
        return self.final()

    def heads(self):
        """generalised states at the loop head"""
        hs = [self.st.fork()]
        for key, s in self.slots.items():
            nxt = []
            for h in hs:
                vs = self.head_vals(s)
                for j, v in enumerate(vs):
                    h2 = h.fork() if j < len(vs) - 1 else h
                    self.put(h2, key, s, v)
                    if s.kind == 'ptralt':
                        h2.ghost = dict(h2.ghost)
                        h2.ghost[('alt', key)] = j
                    nxt.append(h2)
            hs = nxt
            if len(hs) > 8:
                raise Unsupported('loop: too many alternatives')
        out = []
        for h in hs:
            for i, (lo, d) in self.frees.items():
                if d > 0:
                    h.hfreed = h.hfreed + (('rng', i, i64(lo), norm(i64(lo) + self.k)),)
                else:
                    h.hfreed = h.hfreed + (('rng', i, norm(i64(lo) + 1 - self.k), norm(i64(lo) + 1)),)
            for f in self.freed1:
                h.hfreed = h.hfreed + (f,)
            if self.invs is None and self.ex.quiet:
                # guessing phase only: counters do not wrap around
                h.pc = h.pc + [z3.ULT(self.k, z3.BitVecVal(1 << 30, 64))]
            # the first alternative (value at entry) only ever describes k = 0 when the cell always changes
            if self.invs:
                h.pc = h.pc + [self.inv_in(c, h) for c in self.invs]
            h.loops = dict(h.loops)
            out.append(h)
        return out

    def inv_in(self, c, h):
        return c

    def head_vals(self, s):
        k = self.k
        if s.kind is None:
            return [s.v0]
        if s.kind == 'junk':
            return [Junk((self, s.key))]
        if s.kind == 'ind':
            n = 8 * s.size
            kk = k if n == 64 else (z3.Extract(n - 1, 0, k) if n < 64 else None)
            if kk is None:
                raise Unsupported('wide induction variable')
            return [norm(bv(s.v0, n) + z3.BitVecVal(s.d, n) * kk)]
        if s.kind == 'pind':
            return [Ptr(s.v0.base, Lin.of(s.v0.off).add(Lin.of(k).mul(s.d)))]
        if s.kind == 'pany':
            self.syms[s.sym.decl().name()] = s.key
            return [Ptr(s.v0.base, Lin.of(s.sym))]
        if s.kind == 'any':
            if z3.is_expr(s.sym):
                self.syms[s.sym.decl().name()] = s.key
            return [s.sym]
        if s.kind == 'ptralt':
            return [s.v0, Ptr(Handle(s.info, s.sym, k))]
        if s.kind == 'it':
            M = self.ex.models
            return [M.It(x) for x in self.head_vals(s.info)]
        if s.kind == 'mapit':
            M = self.ex.models
            return [M.MapIt(s.v0.m, norm(i64(s.v0.i) + self.k * s.d))]
        if s.kind == 'seq':
            q = s.info.head(self)
            return [Str.of_seq(q) if isinstance(s.v0, Str) else q]
        raise Unsupported('loop slot ' + s.kind)

    def put(self, h, key, s, v):
        oid, off = key
        o = h.mem[oid].copy()
        if off == 'arr':
            o.arr = v
        elif v is None:
            o.cells.pop(off, None)
        else:
            self.ex.clear_range(o, off, s.size) if isinstance(s.size, int) else None
            o.cells[off] = (s.size, v)
        h.mem[oid] = o

    def iterate(self):
        """-> list of (head, backs [(state, regs, pred)], exits, outs), flag states peeled"""
        ex = self.ex
        res = []
        ex.loop_head = getattr(ex, 'loop_head', [])
        for h in self.heads():
            if not ex.feasible(h):
                continue
            h0 = h.fork()
            h0.events = list(self.st.events)
            self.nev = len(h0.events)
            npc = len(h0.pc)
            exits, backs, outs = ex.run(self.fr, [(h0.fork(), dict(self.regs), self.blk, '@start')], self.region, self.blk, 3000)
            if self.peel:
                keep = []
                for s, r, p in [(s2, r, p) for s, r, p in backs for s2 in self.split_flags(s, h)]:
                    if any(self.flag_changed(s, h, key) for key in self.peel):
                        e2, b2, o2 = ex.run(self.fr, [(s, r, self.blk, '@start')], self.region, self.blk, 3000)
                        if b2:
                            raise Unpeel([key for key in self.peel if self.flag_changed(s, h, key)])
                        exits += e2
                        outs += o2
                    else:
                        keep.append((s, r, p))
                backs = keep
            res.append((h, npc, backs, exits, outs))
        return res

    def split_flags(self, s, h):
        """the state at the end of an iteration, split by the values of the flags where these are not constant"""
        out = [s]
        for key in self.peel:
            nxt = []
            for s in out:
                v, v0 = self.get(s, key), self.get(h, key)
                if not (isinstance(v0, int) and z3.is_expr(v)):
                    nxt.append(s)
                    continue
                for c in (0, 1):
                    g = z3.simplify(boolt(v) if c else z3.Not(boolt(v)))
                    if not self.ex.feasible(s, g):
                        continue
                    s2 = s.fork()
                    s2.pc.append(g)
                    self.put(s2, key, Slot(key, None, s2.mem[key[0]].cells[key[1]][0]), c)
                    nxt.append(s2)
            out = nxt
        return out

    def flag_changed(self, s, h, key):
        a, b = self.get(s, key), self.get(h, key)
        if isinstance(b, Ptr):
            return not (isinstance(a, Ptr) and a.base is None and b.base is None)
        return not (isinstance(a, int) and isinstance(b, int) and a == b)

    def get(self, st, key):
        o = st.mem.get(key[0])
        if o is None:
            return None
        if key[1] == 'arr':
            return o.arr
        c = o.cells.get(key[1])
        return None if c is None else c[1]

    def getq(self, st, key):
        return unview(self.get(st, key))

    def changed(self, h, b):
        """locations of b that differ from h: {key: (size, value)}"""
        out = {}
        for oid, ho in h.mem.items():
            bo = b.mem.get(oid)
            if bo is ho:
                continue
            if bo is None:
                if ho.kind == 'stack' or ho.kind == 'exc':
                    continue
                raise Unsupported('loop: an object disappears')
            if bo.alive != ho.alive:
                raise Unsupported('loop: an object allocated before the loop is released in it (%s)' % (ho.name,))
            if bo.arr is not ho.arr:
                out[(oid, 'arr')] = (None, bo.arr)
            for off, (sz, v) in bo.cells.items():
                c = ho.cells.get(off)
                if c is None:
                    out[(oid, off)] = (sz, v)
                elif c[1] is not v or c[0] != sz:
                    if c[0] == sz and same(self.ex, b, c[1], v):
                        continue
                    out[(oid, off)] = (sz, v)
            for off, (sz, v) in ho.cells.items():
                if off not in bo.cells:
                    out[(oid, off)] = (sz, UNDEF)
        return out

    def learn(self, res):
        """compare the states after one iteration with the head; True when the generalisation changed"""
        ch = False
        allch = {}
        nb = 0
        for h, npc, backs, exits, outs in res:
            for b, r, p in backs:
                nb += 1
                for key, (sz, v) in self.changed(h, b).items():
                    allch.setdefault(key, []).append((h, b, sz, v, npc))
        self.nbacks = nb
        for key, lst in allch.items():
            self._lv[key] = [(x[3], x[1]) for x in lst]
        for key, lst in allch.items():
            if key in self.peel:
                continue
            s = self.slots.get(key)
            if s is None:
                v0 = self.get(self.st, key)
                sz = lst[0][2]
                if v0 is None and key[1] == 'arr' and self.shape(key, lst[0][3]):
                    ch = True
                    continue
                if key[1] != 'arr' and key[1] in self.st.mem[key[0]].cells:
                    sz = self.st.mem[key[0]].cells[key[1]][0]
                    if any(x[2] != sz for x in lst if x[3] is not UNDEF):
                        raise Unsupported('loop: a cell changes its size')
                s = Slot(key, v0, sz)
                if self.classify_new(s, lst, nb):
                    self.slots[key] = s
                ch = True
            else:
                if self.refine(s, lst, nb):
                    ch = True
        for key, s in self.slots.items():
            if key not in allch and s.kind in ('ind', 'pind') and not getattr(s, 'tol', False):
                # unchanged on every path back now: keep (k only grows)  -> the induction would be wrong
                if self.refine(s, [], nb):
                    ch = True
            elif key in allch and len(allch[key]) < nb and s.kind in ('ind', 'pind'):
                if self.to_any(s, [x[3] for x in allch[key]]):
                    ch = True
        # releases of abstract objects
        for h, npc, backs, exits, outs in res:
            for b, r, p in backs:
                for f in b.hfreed:
                    if f in h.hfreed:
                        continue
                    if f[0] == 'one' and f[2] is not None:
                        # first, second, ... (or last, last but one, ...): one more in every iteration
                        for d in (1, -1):
                            j0 = self.const_wrt_k(norm(i64(f[2]) - d * self.k))
                            if j0 is not None:
                                break
                        if j0 is not None:
                            if f[1] not in self.frees:
                                self.frees[f[1]] = (j0, d)
                                ch = True
                            continue
                    if f not in self.freed1 and f[0] == 'one' and f[2] is None:
                        if self.is_new_family(f[1]):
                            continue
                        self.freed1.append(f)
                        ch = True
                        continue
                    if f[0] == 'rng' or f[0] == 'one' and f[1] in self.famcls:
                        continue
                    if self.is_new_family(f[1]):
                        continue
                    if ch:
                        continue
                    raise Unsupported('loop: release of an abstract object not understood')
        return ch

    def shape(self, key, q):
        """an untouched allocation becomes an array in the loop: give it that shape before the loop"""
        o = self.st.mem[key[0]]
        if o.cells or o.arr is not None or o.kind != 'heap' or not isinstance(q, Seq):
            return False
        self.st = self.st.fork()
        o = self.st.mem[key[0]] = o.copy()
        self.ex.models.heap_array(o, q.es, q.ety)
        return True

    def is_new_family(self, i):
        return isinstance(i, int) and i > self.id0

    def const_wrt_k(self, t):
        if isinstance(t, int):
            return t
        if any(sym_id(n) >= self.id0 for n in consts([t])):
            return None
        return t

    # -- classification
    def classify_new(self, s, lst, nb):
        v0 = s.v0
        vals = [x[3] for x in lst]
        if s.key[1] == 'arr' or isinstance(v0, Seq):
            s.kind = 'seq'
            s.info = SeqGen(self, s, lst)
            return True
        if v0 is None or v0 is UNDEF:
            s.kind = 'junk'
            return True
        if isinstance(v0, Str) and all(isinstance(v, Str) for v in vals):
            if v0.seq is None:
                # give the string a view by bytes before the loop, and look again
                self.st = self.st.fork()
                o = self.st.mem[s.key[0]] = self.st.mem[s.key[0]].copy()
                o.cells[s.key[1]] = (o.cells[s.key[1]][0], Str(v0.n, v0.at, v0.term, v0.key, v0.lit, v0.view()))
                return False
            if all(v.seq is not None for v in vals):
                s.kind = 'seq'
                s.info = SeqGen(self, s, lst)
                return True
        if s.key not in self.nopeel:
            if s.size == 1 and isinstance(v0, int) and len(lst) < nb and all(isinstance(v, int) for v in vals) or \
                    s.size == 1 and v0 in (0, 1) and any(self.truth(v) for v in vals) and all(self.truth(v) or v in (0, 1) for v in vals) or \
                    isinstance(v0, Ptr) and v0.base is None and len(lst) < nb and all(isinstance(v, Ptr) and v.base is not None for v in vals):
                self.peel.add(s.key)
                return False
        if is_bits(v0) and all(is_bits(v) for v in vals) and isinstance(s.size, int):
            n = 8 * s.size
            if len(lst) == nb:
                ds = {self.diff(v, v0, n) for v in vals}
                if len(ds) == 1 and None not in ds:
                    s.kind, s.d = 'ind', ds.pop()
                    return True
            return self.to_any(s, vals)
        if isinstance(v0, Ptr):
            if v0.base is not None and all(isinstance(v, Ptr) and v.base == v0.base for v in vals):
                ds = {self.ldiff(v, v0) for v in vals}
                if len(lst) == nb and len(ds) == 1 and None not in ds:
                    s.kind, s.d = 'pind', ds.pop()
                    return True
                return self.to_any(s, vals)
            s.kind = 'junk'
            s.ty = vals
            return True
        if type(v0).__name__ == 'It':
            s.kind = 'it'
            sub = Slot(s.key, v0.p, 8)
            s.info = sub
            return self.classify_new(sub, [(h, b, 8, v.p if type(v).__name__ == 'It' else v, n) for h, b, z, v, n in lst], nb) and True
        if type(v0).__name__ == 'MapIt':
            ds = {self.diff(i64(v.i), v0.i, 64) for v in vals if type(v).__name__ == 'MapIt' and v.m == v0.m}
            if len(ds) == 1 and None not in ds and len(lst) == nb:
                s.kind, s.d = 'mapit', ds.pop()
                return True
            raise Unsupported('loop: map iterator')
        s.kind = 'junk'
        s.ty = vals
        return True

    def truth(self, v):
        """a symbolic truth value in a byte"""
        if not z3.is_expr(v):
            return False
        if z3.is_bool(v):
            return True
        return z3.is_app_of(v, z3.Z3_OP_ITE) and all(z3.is_bv_value(v.arg(i)) and v.arg(i).as_long() in (0, 1) for i in (1, 2))

    def diff(self, v, h, n):
        d = norm(bv(v, n) - bv(h, n))
        return d if isinstance(d, int) else None

    def ldiff(self, v, h):
        d = Lin.of(v.off).sub(Lin.of(h.off)).const()
        if d is None:
            d = norm(Lin.of(v.off).bv() - Lin.of(h.off).bv())
            return d if isinstance(d, int) else None
        return d - (1 << 64) if d >> 63 else d

    def to_any(self, s, vals):
        v0 = s.v0
        if s.kind in ('any', 'pany'):
            return False
        if isinstance(v0, Ptr):
            if v0.base is not None and all(isinstance(v, Ptr) and v.base == v0.base for v in vals):
                s.kind, s.sym = 'pany', z3.BitVec('off!%d' % fresh_id(), 64)
                return True
            s.kind = 'junk'
            s.ty = vals
            return True
        if isinstance(s.size, int) and is_bits(v0) and s.size in (1, 2, 4, 8):
            s.kind, s.sym = 'any', z3.BitVec('any!%d' % fresh_id(), 8 * s.size)
            return True
        if z3.is_expr(v0) and z3.is_bool(v0):
            s.kind, s.sym = 'any', z3.Bool('any!%d' % fresh_id())
            return True
        if z3.is_expr(v0) and z3.is_fp(v0):
            s.kind, s.sym = 'any', z3.FP('any!%d' % fresh_id(), v0.sort())
            return True
        s.kind = 'junk'
        s.ty = vals
        return True

    def refine(self, s, lst, nb):
        k1 = self.k + 1
        if s.kind in ('junk', 'any', 'pany', 'ptralt'):
            if s.kind == 'pany' and any(not (isinstance(x[3], Ptr) and x[3].base == s.v0.base) for x in lst):
                s.kind = 'junk'
                s.ty = [x[3] for x in lst]
                return True
            if s.kind == 'any' and z3.is_expr(s.sym) and any(isinstance(x[3], Ptr) for x in lst):
                s.kind = 'junk'
                s.ty = [x[3] for x in lst]
                return True
            return False
        if s.kind == 'ind':
            n = 8 * s.size
            for h, b, sz, v, npc in lst:
                if not is_bits(v):
                    return self.to_any(s, [v])
                hv = self.get(h, s.key)
                d = norm(bv(v, n) - bv(hv, n) - z3.BitVecVal(s.d, n))
                if not (isinstance(d, int) and d == 0) and not self.ex.valid(b, bv(v, n) == bv(hv, n) + z3.BitVecVal(s.d, n)):
                    return self.to_any(s, [v])
            if len(lst) < nb:
                return self.to_any(s, [x[3] for x in lst])
            return False
        if s.kind == 'pind':
            for h, b, sz, v, npc in lst:
                hv = self.get(h, s.key)
                if not isinstance(v, Ptr) or v.base != hv.base:
                    return self.to_any(s, [v])
                if self.ldiff(v, hv) != s.d:
                    return self.to_any(s, [v])
            if len(lst) < nb:
                return self.to_any(s, [x[3] for x in lst])
            return False
        if s.kind == 'it':
            return self.refine(s.info, [(self_h(h, s.key), b, 8, v.p, npc) for h, b, sz, v, npc in lst], nb)
        if s.kind == 'mapit':
            return False
        if s.kind == 'seq':
            return s.info.refine(self, lst, nb)
        return False

    def upgrade(self, slot):
        """a cell thought dead is read at the head: give it a value"""
        loop, key = slot
        if loop is not self:
            raise JunkRead(slot)
        s = self.slots[key]
        vals = s.ty
        if not vals:
            raise Unsupported('loop: a value set in an earlier iteration is read')
        v0 = s.v0
        if isinstance(v0, Ptr) and all(isinstance(v, Ptr) for v in vals):
            cls = {self.cls_of(v, st) for v, st in self.last_vals(key)}
            cls.discard(None)
            if len(cls) != 1:
                raise Unsupported('loop: pointer to different kinds of objects')
            s.kind, s.info, s.sym = 'ptralt', cls.pop(), fresh_id()
            self.famcls[s.sym] = s.info
            return
        if isinstance(v0, OV):
            s.kind, s.sym = 'any', OV.sym('any!%d' % fresh_id())
            return
        if isinstance(v0, Str):
            s.kind, s.sym = 'any', Str.of_term(fresh('anys', StrSort))
            return
        raise Unsupported('loop: value carried between iterations (%s)' % type(v0).__name__)

    def last_vals(self, key):
        return self._lv.get(key, [])

    def cls_of(self, v, st):
        if not isinstance(v, Ptr) or v.base is None:
            return None
        if isinstance(v.base, Handle):
            return v.base.cls
        o = st.mem.get(v.base)
        if o is None:
            return None
        return self.ex.models.root_class(self.ex, st, o)

    # -- invariants
    def houdini(self, res):
        ex = self.ex
        self._lv = {}
        for h, npc, backs, exits, outs in res:
            for b, r, p in backs:
                for key in self.slots:
                    self._lv.setdefault(key, []).append((self.get(b, key), b))
        first = self.invs is None
        if first:
            self.invs = self.candidates(res)
            # hold at entry?
            self.invs = [c for c in self.invs if ex.check([], z3.Not(c), 300)[0] != 'unsat' and self.holds_at_entry(c)]
            return True
        bad = []
        for c in self.invs:
            ok = True
            for h, npc, backs, exits, outs in res:
                for b, r, p in backs:
                    if not ex.valid(b, self.next_inst(c, b), 3000):
                        ok = False
                        break
                if not ok:
                    break
            if not ok:
                bad.append(c)
        if bad:
            ids = {c.get_id() for c in bad}
            self.invs = [c for c in self.invs if c.get_id() not in ids]
            return True
        return False

    def sym_pairs(self, value):
        """substitution of the head symbols; value(slot) -> term or None"""
        pairs = []
        for key, s in self.slots.items():
            ss = s.info if s.kind == 'it' else s
            if ss.kind == 'pany' or ss.kind == 'any' and z3.is_expr(ss.sym):
                v = value(key, ss)
                if v is None:
                    return None
                if isinstance(v, Ptr):
                    v = Lin.of(v.off).bv()
                elif type(v).__name__ == 'It':
                    v = Lin.of(v.p.off).bv()
                elif isinstance(v, LinV):
                    v = v.lin.bv()
                if z3.is_bool(ss.sym):
                    v = boolt(v)
                elif z3.is_bv(ss.sym):
                    v = bv(v, ss.sym.size())
                pairs.append((ss.sym, v))
            elif s.kind == 'seq' and s.info.cnt is not None:
                v = unview(value(key, s))
                if not isinstance(v, Seq):
                    return None
                pairs.append((s.info.cnt, i64(v.n)))
        return pairs

    def entry_inst(self, c):
        pairs = self.sym_pairs(lambda key, s: self.get(self.st, key))
        if pairs is None:
            return z3.BoolVal(False)
        return z3.simplify(z3.substitute(c, (self.k, z3.BitVecVal(0, 64)), *pairs))

    def holds_at_entry(self, c):
        try:
            return bool(self.ex.valid(self.st, self.entry_inst(c), 3000))
        except z3.Z3Exception:
            return False

    def next_inst(self, c, b):
        pairs = self.sym_pairs(lambda key, s: self.get(b, key))
        if pairs is None:
            return z3.BoolVal(False)
        return z3.simplify(z3.substitute(c, (self.k, self.k + 1), *pairs))

    def candidates(self, res):
        heads = {self.k.decl().name()} | set()
        terms64 = []
        for key, s in self.slots.items():
            ss = s.info if s.kind == 'it' else s
            if ss.kind in ('any', 'pany') and z3.is_expr(ss.sym):
                heads.add(ss.sym.decl().name())
            if s.kind == 'seq' and s.info.cnt is not None:
                heads.add(s.info.cnt.decl().name())
        out = {}

        def add(c):
            c = z3.simplify(c)
            if z3.is_true(c) or z3.is_false(c):
                return
            for n in consts([c]):
                if sym_id(n) >= self.id0 and n not in heads:
                    return
            out[c.get_id()] = c
        U = z3.ULE
        for key, s in self.slots.items():
            ss = s.info if s.kind == 'it' else s
            if ss.kind == 'pany':
                add(U(Lin.of(ss.v0.off).bv(), ss.sym))
                o = self.st.mem.get(ss.v0.base) if isinstance(ss.v0.base, int) else None
                if o is not None and o.size is not None:
                    add(U(ss.sym, i64(o.size)))
            if ss.kind == 'any' and z3.is_expr(ss.sym) and z3.is_bv(ss.sym):
                add(U(bv(ss.v0, ss.sym.size()), ss.sym))
                add(bv(ss.v0, ss.sym.size()) <= ss.sym)
            if s.kind == 'seq' and s.info.cnt is not None:
                add(U(i64(s.v0.n), s.info.cnt))
                add(U(s.info.cnt, i64(s.v0.n) + self.k))
        for h, npc, backs, exits, outs in res:
            for b, r, p in backs:
                for a in b.pc[npc:]:
                    for c in flat(a):
                        for w in weaken(c, self.k):
                            add(w)
        for t, idx, sg, rest, conj in self.scans(res):
            known = self.st.ghost.get(('sx', t.get_id()), ((), ()))[0]
            alts = []
            for x in known:
                stop = z3.substitute(z3.Not(conj), (self.k, norm_bv(sg * 1, i64(x), rest)))
                ahead = z3.ULE(i64(x), idx) if sg < 0 else z3.UGE(i64(x), idx)
                alts.append(z3.And(ahead, stop))
                add(alts[-1])
            if len(alts) > 1:
                add(z3.Or(alts))
        return list(out.values())

    # -- facts about the positions a loop has passed
    def scans(self, res):
        """(string term, index in terms of k, sign of k, rest, condition under which the loop goes on)"""
        ds = []
        kn = self.k.decl().name()
        for h, npc, backs, exits, outs in res:
            for b, r, p in backs:
                cs = []
                for a in b.pc[npc:]:
                    for c in flat(a):
                        ns = consts([c])
                        if kn in ns and all(n == kn or sym_id(n) < self.id0 for n in ns):
                            cs.append(c)
                if not cs:
                    return []
                ds.append(z3.And(cs) if len(cs) > 1 else cs[0])
        if not ds:
            return []
        d = z3.Or(ds) if len(ds) > 1 else ds[0]
        out, seen = [], set()
        for e in apps(d, sat_):
            t, i = e.arg(0), e.arg(1)
            if kn in consts([t]):
                continue
            l = Lin.of(i)
            q = l.t.get(self.k.get_id())
            if q is None or q[1] not in (1, M64):
                continue
            rest = l.sub(Lin(0, {self.k.get_id(): (self.k, q[1])}))
            if kn in consts([rest.bv()]):
                continue
            key = (t.get_id(), z3.simplify(l.bv()).get_id())
            if key not in seen:
                seen.add(key)
                out.append((t, l.bv(), 1 if q[1] == 1 else -1, rest.bv(), d))
        return out

    def add_scans(self, s, scans):
        for t, idx, sg, rest, d in scans:
            def fact(i, sg=sg, rest=rest, d=d):
                j = norm_bv(sg, i64(i), rest)
                return z3.Implies(z3.ULT(j, self.k), z3.substitute(d, (self.k, j)))
            self.ex.models.find_facts(self.ex, s, Str.of_term(t), idx, fact)

    # -- final, checked run
    def final(self):
        ex = self.ex
        S = Summary()
        S.fn, S.blk, S.k, S.entry = self.fr.fn.name, self.blk, self.k, self.st
        S.slots = self.slots
        S.invs = list(self.invs or [])
        try:
            for c in self.invs or []:
                if not ex.quiet:
                    ex.obl(self.st.fork(), self.entry_inst(c), 'invariant', 'loop invariant at entry: %s' % short(c))
            res = self.iterate()
        except JunkRead as e:
            if e.slot[0] is self:
                raise Unsupported('loop: value carried between iterations')
            raise
        exits_all, outs_all = [], []
        scans = self.scans(res)
        for hi, (h, npc, backs, exits, outs) in enumerate(res):
            S.heads.append(h)
            for b, r, p in backs:
                S.backs.append((b, hi))
                if not ex.quiet:
                    self.check_back(h, b)
            for s, rg, blk, pr in exits:
                s.events = list(self.st.events) + [('loop', S)] + s.events[self.nev:]
                self.add_scans(s, scans)
                exits_all.append((s, rg, blk, pr))
            for s, kind, v, rg in outs:
                s.events = list(self.st.events) + [('loop', S)] + s.events[self.nev:]
                outs_all.append((s, kind, v, rg))
        S.nev = self.nev
        return exits_all, outs_all

    def check_back(self, h, b):
        """the state after the iteration is an instance of the head for k + 1"""
        ex = self.ex
        w = 'loop in ' + short_fn(ex, self.fr.fn.name)
        for c in self.invs or []:
            ex.obl(b.fork(), self.next_inst(c, b), 'invariant', 'loop invariant preserved: %s (%s)' % (short(c), w))

        def need(ok, what):
            ex.stats.obl += 1
            ex.stats.kinds['invariant'] = ex.stats.kinds.get('invariant', 0) + 1
            if ok:
                ex.stats.disch += 1
            else:
                ex.fail(b, 'invariant', '%s: %s' % (w, what))
        for key, (sz, v) in self.changed(h, b).items():
            s = self.slots.get(key)
            need(s is not None and key not in self.peel, 'a location outside the generalised state changes (%s)' % (key[1],))
            if s is None:
                continue
            hv = self.get(h, key)
            if s.kind == 'ind':
                n = 8 * s.size
                need(is_bits(v) and bool(ex.valid(b, bv(v, n) == bv(hv, n) + z3.BitVecVal(s.d, n))), 'induction variable')
            elif s.kind == 'pind':
                need(isinstance(v, Ptr) and v.base == hv.base and self.ldiff(v, hv) == s.d, 'induction pointer')
            elif s.kind == 'pany':
                need(isinstance(v, Ptr) and v.base == s.v0.base, 'pointer leaves its object')
            elif s.kind == 'any':
                need(not isinstance(v, (Ptr, Junk)) and v is not UNDEF, 'value')
            elif s.kind == 'ptralt':
                need(isinstance(v, Ptr) and v.off == 0 and (v.base is None and s.v0.base is None or self.cls_of(v, b) == s.info), 'pointer to an object of another kind')
            elif s.kind == 'it':
                x = s.info
                if x.kind == 'pind':
                    need(type(v).__name__ == 'It' and v.p.base == hv.p.base and self.ldiff(v.p, hv.p) == x.d, 'induction iterator')
                else:
                    need(type(v).__name__ == 'It' and v.p.base == x.v0.base, 'iterator leaves its container')
            elif s.kind == 'mapit':
                need(type(v).__name__ == 'MapIt' and v.m == hv.m and bool(ex.valid(b, i64(v.i) == i64(hv.i) + s.d)), 'map iterator')
            elif s.kind == 'seq':
                need(s.info.conforms(self, h, b, hv, v), 'contents of a sequence')
        # induction slots must change in every iteration
        ch = self.changed(h, b)
        for key, s in self.slots.items():
            if s.kind in ('ind', 'pind') and key not in ch and s.d:
                need(False, 'an induction variable stays')
            if s.kind == 'seq' and key not in ch:
                need(s.info.conforms(self, h, b, self.get(h, key), self.get(b, key)), 'contents of a sequence')
        for f in b.hfreed:
            if f in h.hfreed:
                continue
            ok = f in self.freed1 or self.is_new_family(f[1])
            if f[0] == 'one' and f[1] in self.frees:
                lo, d = self.frees[f[1]]
                ok = bool(ex.valid(b, i64(f[2]) == i64(lo) + d * self.k))
            need(ok, 'release of an object not described by the invariant')
        # objects allocated in the iteration are owned by the generalised state or released
        need(b.exc == self.st.exc, 'exception state')
        reach = self.reachable(b)
        for oid, o in b.mem.items():
            if oid not in h.mem and o.kind == 'heap' and o.alive and oid not in reach:
                ex.stats.obl += 1
                ex.fail(b, 'leak', 'an object allocated in a loop is neither kept nor released (%s)' % (o.meta,))

    def reachable(self, b):
        return reachable(b, [self.get(b, key) for key in self.slots])


def self_h(h, key):
    class W:
        pass
    w = W()
    o = h.mem[key[0]].copy()
    c = o.cells[key[1]]
    o.cells[key[1]] = (c[0], c[1].p)
    w.mem = dict(h.mem)
    w.mem[key[0]] = o
    return w


def reachable(st, roots):
    """ids of objects reachable from the given values"""
    seen = set()
    work = list(roots)
    while work:
        v = work.pop()
        if isinstance(v, Ptr):
            b = v.base
            if isinstance(b, tuple) and len(b) > 1 and isinstance(b[1], int):
                b = b[1]
            if isinstance(b, int) and b not in seen and b in st.mem:
                seen.add(b)
                o = st.mem[b]
                work += [x for _, x in o.cells.values()]
                if o.arr is not None:
                    work.append(o.arr)
        elif isinstance(v, Seq):
            work += list(v.tail)
            work += [u[2] for u in v.upd if u[0] == 'set']
            if v.ety == 'ptr' and v.is_opaque():
                for x in getattr(v.bat, 'roots', ()):
                    work.append(x)
        elif isinstance(v, PInt):
            work.append(v.p)
        elif type(v).__name__ in ('SP', 'It'):
            work.append(v.p)
        elif type(v).__name__ == 'MapVal':
            work += [e[2] for e in v.ents]
    return seen


def short(c):
    s = str(c).replace('\n', ' ')
    return s[:160]


def short_fn(ex, n):
    from irparse import demangled
    return demangled(ex.prog, n)[:120]


def norm_bv(sg, i, rest):
    """the k for which sg * k + rest = i"""
    return z3.simplify(i - rest if sg > 0 else rest - i)


def apps(e, f):
    """applications of f inside the term e"""
    seen, out, work = set(), [], [e]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(f):
                out.append(x)
            work.extend(x.children())
    return out


def flat(f):
    f = z3.simplify(f)
    if z3.is_and(f):
        return [y for x in f.children() for y in flat(x)]
    if z3.is_not(f) and z3.is_or(f.arg(0)):
        return [y for x in f.arg(0).children() for y in flat(z3.Not(x))]
    return [f]


def weaken(c, k):
    """candidate invariants from a condition under which the loop goes on"""
    neg = False
    while z3.is_not(c):
        neg, c = not neg, c.arg(0)
    out = []
    if not z3.is_app(c) or c.num_args() != 2:
        return out
    a, b = c.arg(0), c.arg(1)
    if not z3.is_bv(a):
        return out
    kind = c.decl().kind()
    if kind in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_EQ):
        if kind == z3.Z3_OP_EQ and not neg:
            return out
        pairs = [(a, b), (b, a)]
        for x, y in pairs:
            out.append(z3.ULE(x, y))
            if kind in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                out.append(x <= y)
        # solve for k
        kn = k.decl().name()
        for x, y in pairs:
            nx, ny = consts([x]), consts([y])
            if kn in nx and kn not in ny:
                if x.size() == 64:
                    out.append(z3.ULE(k, y))
                elif x.size() < 64:
                    out.append(z3.ULE(k, z3.ZeroExt(64 - x.size(), y)))
                    out.append(z3.And(y >= 0, z3.ULE(k, z3.ZeroExt(64 - x.size(), y))))
        if a.size() == 64:
            l = Lin.of(a).sub(Lin.of(b))
            t = l.t.get(k.get_id())
            if t is not None:
                ck = t[1] - (1 << 64) if t[1] >> 63 else t[1]
                rest = l.sub(Lin(0, {k.get_id(): (k, t[1])}))
                q = rest.mul(-1).div(ck) if ck > 0 else rest.div(-ck)
                if q is not None:
                    out.append(z3.ULE(k, q.bv()))
    return out


# ------------------------------------------------------------------ sequences changed by a loop
def unview(v):
    return v.view() if isinstance(v, Str) else v


class SeqGen:
    """generalisation of one sequence: appended elements and/or elements set by index"""

    def __init__(self, L, s, lst):
        self.s = s
        self.v0 = unview(s.v0)
        self.mode = None
        self.cnt = None        # symbolic length (append with a varying count)
        self.c = None          # elements appended per iteration
        self.sets = None       # (first index, stride, closed form or None)
        self.fam = None
        self.gen = None
        self.opq = None
        self._head = None
        self.classify(L, lst)

    def base_ok(self, h, b):
        """b extends h: returns (appended elements, added updates) or None"""
        eq = lambda x, y: x is y or isinstance(x, int) and isinstance(y, int) and x == y or z3.is_expr(x) and z3.is_expr(y) and x.eq(y)
        if not isinstance(b, Seq) or b.es != h.es or not eq(b.nb, h.nb) or (h.is_opaque() and b.ident != h.ident):
            return None
        if len(b.tail) < len(h.tail) or any(not (x is y or isinstance(x, int) and isinstance(y, int) and x == y or
                                                 isinstance(x, Ptr) and isinstance(y, Ptr) and ptr_same(x, y) or
                                                 z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) for x, y in zip(h.tail, b.tail)):
            return None
        if len(b.upd) < len(h.upd) or any(x is not y and x != y for x, y in zip(h.upd, b.upd)):
            return None
        return b.tail[len(h.tail):], b.upd[len(h.upd):]

    def shrunk(self, v):
        """v is a prefix of the sequence before the loop"""
        v0 = self.v0
        return isinstance(v, Seq) and isinstance(v0, Seq) and v0.is_opaque() and not v0.tail and not v0.upd and \
            v.is_opaque() and not v.tail and not v.upd and v.bat is v0.bat and v.ident == v0.ident and v.es == v0.es and (v.stable or v.gen == v0.gen)

    def prefix(self, L, lst):
        ds = {L.diff(i64(L.getq(h, self.s.key).n), i64(unview(v).n), 64) for h, b, sz, v, npc in lst}
        c, n = (None, None) if self.mode != 'prefix' else (self.c, self.cnt)
        self.mode = 'prefix'
        if len(ds) == 1 and None not in ds and len(lst) == L.nbacks and n is None:
            self.c, self.cnt = ds.pop(), None
        else:
            self.c = None
            if self.cnt is None:
                self.cnt = z3.BitVec('cnt!%d' % fresh_id(), 64)
        if (c, n) != (self.c, self.cnt):
            self._head = None
            return True
        return False

    def classify(self, L, lst):
        if self.v0 is None:
            # the array came into being inside the loop
            raise Unsupported('loop: array shape appears in the loop')
        deltas = []
        if all(self.shrunk(unview(x[3])) for x in lst):
            self.prefix(L, lst)
            return
        for h, b, sz, v, npc in lst:
            hv = unview(L.get(h, self.s.key))
            v = unview(v)
            d = self.base_ok(hv, v)
            if d is None and not hv.is_opaque() and isinstance(v, Seq) and not v.is_opaque() and not hv.upd and not v.upd and len(hv.tail) == len(v.tail):
                # sets folded into a concrete tail
                ups = tuple(('set', j, y) for j, (x, y) in enumerate(zip(hv.tail, v.tail)) if not same(L.ex, b, x, y))
                d = ((), ups)
            if d is None:
                self.any(L, v)
                return
            deltas.append((d, b, npc, v))
        if all(not up for (t, up), b, npc, v in deltas):
            cs = {len(t) for (t, up), b, npc, v in deltas}
            self.mode = 'append'
            if len(cs) == 1 and len(lst) == L.nbacks:
                self.c = cs.pop()
            else:
                self.cnt = z3.BitVec('cnt!%d' % fresh_id(), 64)
            self.fam = self.family(L, [x for (t, up), b, npc, v in deltas for x in t], [b for (t, up), b, npc, v in deltas for x in t])
            self.closed, self.looked = None, False
            self._head = None
            return
        if all(not t for (t, up), b, npc, v in deltas) and len({len(up) for (t, up), b, npc, v in deltas}) == 1 and \
                all(u[0] == 'set' for (t, up), b, npc, v in deltas for u in up):
            idx = [[norm(i64(u[1])) for u in up] for (t, up), b, npc, v in deltas]
            m = len(idx[0])
            offs = None
            good = True
            for ix in idx:
                o = [Lin.of(i) for i in ix]
                if offs is None:
                    offs = o
                elif any(not x.same(y) for x, y in zip(o, offs)):
                    good = False
            if good:
                self.mode = 'sets'
                self.m = m
                self.start = offs
                self.vals = [[u[2] for u in up] for (t, up), b, npc, v in deltas]
                self.partial = len(lst) < L.nbacks
                self.ready = False
                self.fam = self.family(L, [x for vs in self.vals for x in vs], [b for (t, up), b, npc, v in deltas for u in up])
                self.stride = None
                self._head = None
                return
        self.any(L, lst[0][3])

    def any(self, L, v):
        v = unview(v)
        self.mode = 'any'
        h = self.v0
        # does the length stay?
        self.samelen = isinstance(v, Seq) and same(L.ex, L.st, v.n, h.n)
        self.cnt = None if self.samelen else z3.BitVec('cnt!%d' % fresh_id(), 64)
        self.fam = self.family(L, [], [])
        self._head = None

    def family(self, L, vals, sts):
        ety = self.v0.ety
        i = fresh_id()
        if isinstance(ety, int):
            f = z3.Function('el!%d' % i, z3.BitVecSort(64), z3.BitVecSort(ety))
            return lambda j: f(i64(norm(i64(j))))
        if ety == 'ov':
            return OV.family('el!%d' % i)
        if ety in ('f32', 'f64'):
            f = z3.Function('el!%d' % i, z3.BitVecSort(64), F32 if ety == 'f32' else F64)
            return lambda j: f(i64(norm(i64(j))))
        if ety in ('str', 'sp'):
            f = z3.Function('el!%d' % i, z3.BitVecSort(64), StrSort)
            return lambda j: Str.of_term(f(i64(norm(i64(j)))))
        if ety == 'ptr':
            cls = set()
            for v, st in zip(vals, sts):
                c = L.cls_of(v, st)
                if c is not None:
                    cls.add(c)
            c = cls.pop() if len(cls) == 1 else '?'
            L.famcls[i] = c
            return lambda j: Ptr(Handle(c, i, i64(norm(i64(j)))))
        raise Unsupported('loop: sequence of ' + str(ety))

    def head(self, L):
        if self._head is None:
            self._head = self._mk(L)
        return self._head

    def _mk(self, L):
        v0, k = self.v0, L.k
        w = v0.ety if isinstance(v0.ety, int) else None
        if self.mode == 'append':
            if self.gen is None:
                self.gen = v0.gen if v0.stable else v0.gen + 1000 + fresh_id()
            n0 = i64(v0.n)
            nn = norm(n0 + k * self.c) if self.cnt is None else self.cnt
            fam, ent = self.fam, v0
            n0n = v0.n
            new = fam
            if self.cnt is None and self.closed is not None and self.c:
                cf, c, kk = self.closed, self.c, k

                def new(i):
                    d = norm(i64(i) - n0)
                    if c == 1:
                        return subst(cf[0], [(kk, i64(d))])
                    q, r = norm(z3.UDiv(i64(d), z3.BitVecVal(c, 64))), norm(z3.URem(i64(d), z3.BitVecVal(c, 64)))
                    res = None
                    for j in range(c - 1, -1, -1):
                        x = subst(cf[j], [(kk, i64(q))])
                        res = x if res is None else val_ite(norm(i64(r) == j), x, res, w)
                    return res
            if isinstance(n0n, int) and n0n == 0:
                at = new
            else:
                at = lambda i: val_ite(z3.ULT(i64(i), n0), ent.at(i), new(i), w)
            return Seq(v0.es, v0.ety, nb=i64(nn), bat=at, ident=('loop', fresh_id()), gen=self.gen, stable=v0.stable)
        if self.mode == 'prefix':
            return v0.but(nb=self.cnt if self.c is None else i64(norm(i64(v0.nb) - k * self.c)))
        if self.mode == 'any':
            n = v0.n if self.cnt is None else self.cnt
            return Seq(v0.es, v0.ety, nb=i64(n), bat=self.fam, ident=('loop', fresh_id()), gen=v0.gen + (0 if self.cnt is None else 1000 + fresh_id()),
                       stable=v0.stable)
        # sets: the first round only knows the indices of iteration 0; stride comes with the next rounds
        if self.stride is None:
            return v0
        lo, s, m = self.lo, self.stride, self.m
        cf = self.closed
        fam = self.fam
        kk = k

        def at(d):
            d = norm(i64(d))
            if cf is None:
                return fam(d)
            if s == 1:
                return subst(cf[0], [(kk, i64(d))])
            q = norm(z3.UDiv(i64(d), z3.BitVecVal(s, 64)))
            r = norm(z3.URem(i64(d), z3.BitVecVal(s, 64)))
            res = None
            for j in range(s - 1, -1, -1):
                x = subst(cf[j], [(kk, i64(q))])
                res = x if res is None else val_ite(norm(i64(r) == j), x, res, w)
            return res
        b = v0.freeze() if not v0.is_opaque() and not isinstance(norm(i64(lo)), int) else v0
        if not v0.is_opaque():
            b = v0.but(nb=z3.BitVecVal(len(v0.tail), 64), bat=lambda i, v0=v0: v0.at(i), ident=('loopbase', fresh_id()), tail=(), upd=())
        return b.but(upd=b.upd + (('rng', norm(i64(lo)), norm(k * s), at),))

    def refine(self, L, lst, nb):
        lst = [(h, b, sz, unview(v), npc) for h, b, sz, v, npc in lst]
        if self.mode == 'any':
            if self.cnt is None and any(not (isinstance(x[3], Seq) and same(L.ex, x[1], x[3].n, self.v0.n)) for x in lst):
                self.cnt = z3.BitVec('cnt!%d' % fresh_id(), 64)
                self._head = None
                return True
            return False
        if self.mode == 'prefix':
            if not all(self.shrunk(x[3]) for x in lst):
                self.any(L, lst[0][3])
                return True
            return self.prefix(L, lst)
        if self.mode == 'append':
            cs = set()
            newel, sts = [], []
            for h, b, sz, v, npc in lst:
                d = self.base_ok(unview(L.get(h, self.s.key)), v)
                if d is None or d[1]:
                    self.any(L, v)
                    return True
                cs.add(len(d[0]))
                newel += list(d[0])
                sts += [b] * len(d[0])
            ch = False
            if self.cnt is None and (cs != {self.c} or len(lst) < nb):
                self.cnt = z3.BitVec('cnt!%d' % fresh_id(), 64)
                ch = True
            if self.v0.ety == 'ptr':
                p = self.fam(z3.BitVecVal(0, 64))
                cls = {L.cls_of(v, st) for v, st in zip(newel, sts)} - {None}
                if len(cls) == 1 and p.base.cls == '?':
                    self.fam = self.family(L, newel, sts)
                    ch = True
            if not ch and self.cnt is None and self.c and self.v0.ety != 'ptr':
                if not self.looked:
                    self.looked = True
                    self.closed = self.closed_form(L, lst)
                    ch = self.closed is not None
                elif self.closed is not None:
                    c2 = self.closed_form(L, lst)
                    if c2 is None or len(c2) != len(self.closed) or not all(self.same_val(L, lst, a, c) for a, c in zip(self.closed, c2)):
                        if not self.still(L, lst):
                            self.closed = None
                            ch = True
            if ch:
                self._head = None
            return ch
        # sets
        if self.stride is None:
            # iterate 2: k is still generalised for the other slots; find the stride from the indices
            ixs = None
            for h, b, sz, v, npc in lst:
                d = self.delta(L, h, b, v)
                if d is None:
                    self.any(L, v)
                    return True
                ix = [Lin.of(norm(i64(u[1]))) for u in d]
                if ixs is None:
                    ixs = ix
                elif len(ix) != len(ixs) or any(not x.same(y) for x, y in zip(ix, ixs)):
                    self.any(L, v)
                    return True
            kid = L.k.get_id()
            ok = True
            if len(ixs) != self.m:
                ok = False
            lo = None
            for j, l in enumerate(ixs if ok else []):
                t = l.t.get(kid)
                ck = t[1] if t else 0
                rest = l.sub(Lin(0, {kid: (L.k, ck)})) if t else l
                if ck != self.m:
                    ok = False
                    break
                if lo is None:
                    lo = rest
                elif not rest.sub(lo).const() == j:
                    ok = False
                    break
            if ok and any(sym_id(n) >= L.id0 for n in consts([lo.bv()])):
                ok = False
            if not ok:
                self.any(L, lst[0][3])
                return True
            self.lo, self.stride = norm(lo.bv()), self.m
            self.closed = self.closed_form(L, lst)
            self._head = None
            return True
        for h, b, sz, v, npc in lst:
            d = self.delta(L, h, b, v)
            if d is None or len(d) != self.m:
                self.any(L, v)
                return True
        if len(lst) < nb:
            self.any(L, lst[0][3])
            return True
        if self.closed is not None:
            c2 = self.closed_form(L, lst)
            if c2 is None:
                self.closed = None
                self._head = None
                return True
            if not all(self.same_val(L, lst, a, c) for a, c in zip(self.closed, c2)) and not self.still(L, lst):
                self.closed = None
                self._head = None
                return True
        if self.v0.ety == 'ptr' and self.closed is None:
            p = self.fam(z3.BitVecVal(0, 64))
            cls = set()
            for h, b, sz, v, npc in lst:
                for u in self.delta(L, h, b, v):
                    c = L.cls_of(u[2], b)
                    if c:
                        cls.add(c)
            if len(cls) == 1 and p.base.cls == '?':
                self.fam = self.family(L, [u[2] for h, b, sz, v, npc in lst for u in self.delta(L, h, b, v)],
                                       [b for h, b, sz, v, npc in lst for u in self.delta(L, h, b, v)])
                self._head = None
                return True
        return False

    def still(self, L, lst):
        """the values written have the closed form found before, written differently"""
        for h, b, sz, v, npc in lst:
            d = [x for x in self.base_ok(unview(L.get(h, self.s.key)), v)[0]] if self.mode == 'append' else [u[2] for u in self.delta(L, h, b, v)]
            if len(d) != len(self.closed) or not all(self.agrees(L.ex, b, x, y) for x, y in zip(d, self.closed)):
                return False
        return True

    def same_val(self, L, lst, a, c):
        x, y = val_terms(a), val_terms(c)
        if x is None or y is None or len(x) != len(y):
            return False
        return all(p.eq(q) for p, q in zip(x, y)) and (not isinstance(a, int) or a == c)

    def delta(self, L, h, b, v):
        hv, v = unview(L.get(h, self.s.key)), unview(v)
        d = self.base_ok(hv, v)
        if d is None and isinstance(v, Seq) and not v.is_opaque() and not hv.is_opaque() and len(hv.tail) == len(v.tail) and not hv.upd and not v.upd:
            return tuple(('set', j, y) for j, (x, y) in enumerate(zip(hv.tail, v.tail)) if not same(L.ex, b, x, y))
        if d is None or d[0] or any(u[0] != 'set' for u in d[1]):
            return None
        return d[1]

    def closed_form(self, L, lst):
        """values written in iteration k as terms in k, or None"""
        if self.v0.ety == 'ptr':
            return None
        out = None
        w = self.v0.ety if isinstance(self.v0.ety, int) else None
        allowed = {L.k.decl().name()}
        for h, b, sz, v, npc in lst:
            if self.mode == 'append':
                d = [(None, None, x) for x in self.base_ok(unview(L.get(h, self.s.key)), unview(v))[0]]
            else:
                d = self.delta(L, h, b, v)
            vs = []
            for u in d:
                t = val_terms(u[2])
                if t is None:
                    return None
                for n in consts(t):
                    if sym_id(n) >= L.id0 and n not in allowed:
                        return None
                vs.append(u[2])
            if out is None:
                out = vs
            else:
                c = z3.And(b.pc[npc:]) if len(b.pc) > npc else z3.BoolVal(True)
                for n in consts([c]):
                    if sym_id(n) >= L.id0 and n not in allowed:
                        return None
                try:
                    out = [val_ite(z3.simplify(c), x, y, w) for x, y in zip(vs, out)]
                except Unsupported:
                    return None
        return out

    def conforms(self, L, h, b, hv, v):
        """final check: v is an instance of the head for k + 1"""
        ex = L.ex
        hv, v = unview(hv), unview(v)
        if self.mode == 'prefix':
            if not self.shrunk(v):
                return False
            return self.c is None or bool(ex.valid(b, i64(v.nb) == i64(hv.nb) - self.c))
        if self.mode == 'any':
            return isinstance(v, Seq) and (self.cnt is not None or bool(ex.valid(b, i64(v.n) == i64(hv.n)))) and \
                (v.gen == hv.gen or self.cnt is not None or v.stable)
        if self.mode == 'append':
            d = self.base_ok(hv, v)
            if d is None or d[1]:
                return False
            if self.v0.ety == 'ptr':
                c = self.fam(z3.BitVecVal(0, 64)).base.cls
                if c != '?' and any(L.cls_of(x, b) != c for x in d[0]):
                    return False
            if self.cnt is not None:
                return True
            return len(d[0]) == self.c and (self.closed is None or all(self.agrees(ex, b, x, y) for x, y in zip(d[0], self.closed)))
        d = self.delta(L, h, b, v)
        if d is None or len(d) != self.m or self.stride is None:
            return False
        for j, u in enumerate(d):
            if not ex.valid(b, i64(u[1]) == i64(self.lo) + L.k * self.stride + j):
                return False
            if self.v0.ety == 'ptr':
                c = self.fam(z3.BitVecVal(0, 64)).base.cls
                if c != '?' and L.cls_of(u[2], b) != c:
                    return False
            if self.closed is not None and not self.agrees(ex, b, u[2], self.closed[j]):
                return False
        return True

    def agrees(self, ex, b, x, y):
        """the value x written in the iteration is the closed form y"""
        if x is y:
            return True
        tx, ty = val_terms(x), val_terms(y)
        if tx is None or ty is None:
            return False
        if isinstance(x, OV) or isinstance(y, OV):
            if not ex.valid(b, tag_bv(x.tag) == tag_bv(y.tag)):
                return False
            for t in range(1, 7):
                p, q = x.pay(t), y.pay(t)
                if p is None or q is None:
                    if (p is None) != (q is None) and not ex.valid(b, tag_bv(x.tag) != t):
                        return False
                    continue
                if isinstance(p, Str):
                    if p.term is None or q.term is None or not ex.valid(b, z3.Or(tag_bv(x.tag) != t, p.term == q.term)):
                        return False
                elif not ex.valid(b, z3.Or(tag_bv(x.tag) != t, eqv(p, q, t))):
                    return False
            return True
        if isinstance(x, Str):
            return x.term is not None and y.term is not None and bool(ex.valid(b, x.term == y.term))
        n = self.v0.ety
        return bool(ex.valid(b, bv(x, n) == bv(y, n) if isinstance(n, int) else x == y))


def eqv(p, q, t):
    if t == 3:
        return boolt(p) == boolt(q)
    if t in (1, 2):
        return bv(p, 32 if t == 1 else 64) == bv(q, 32 if t == 1 else 64)
    return p == q

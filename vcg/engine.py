"""Symbolic execution of the LLVM IR of /repo's functions: generates and discharges proof obligations.

Loops are either unrolled completely (when every path leaves the loop within a small number of
iterations - a complete unrolling, no bound remains) or abstracted by an automatically generalised
and re-checked inductive state (see loops.py)."""
import z3, time, sys
from irparse import *
from vals import *

sys.setrecursionlimit(20000)


class Obj:
    __slots__ = ('kind', 'size', 'cells', 'arr', 'ro', 'name', 'how', 'alive', 'meta')

    def __init__(self, kind, size, name, how=None):
        self.kind, self.size, self.name, self.how = kind, size, name, how
        self.cells = {}
        self.arr = None
        self.ro = False
        self.alive = True
        self.meta = None

    def copy(self):
        o = Obj(self.kind, self.size, self.name, self.how)
        o.cells = dict(self.cells)
        o.arr, o.ro, o.alive, o.meta = self.arr, self.ro, self.alive, self.meta
        return o


class State:
    __slots__ = ('mem', 'pc', 'events', 'facts', 'loops', 'track', 'exc', 'hfreed', 'ghost')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.events = []
        self.facts = []      # (term-id set, lambda i -> Bool) universally quantified facts about strings
        self.loops = {}
        self.track = None
        self.exc = []        # stack of caught exceptions
        self.hfreed = ()
        self.ghost = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.events = list(self.events)
        s.facts = list(self.facts)
        s.loops = dict(self.loops)
        s.track = self.track
        s.exc = list(self.exc)
        s.hfreed = self.hfreed
        s.ghost = dict(self.ghost)
        return s


class Failure:
    def __init__(self, kind, msg, where, model, pc, unit):
        self.kind, self.msg, self.where, self.model, self.pc, self.unit = kind, msg, where, model, pc, unit
        self.hint = None

    def __repr__(self):
        return 'FAILED %s: %s at %s [%s]' % (self.kind, self.msg, self.where, self.unit)


ABSTRACT = re.compile(r'std::(__detail::)?(deque|_Deque_base|_Deque_iterator|string|basic_string|_List_base|_List_node|list|unordered_map|unordered_set|'
                      r'_Hashtable|_Vector_base|variant|shared_ptr|__shared_ptr|__shared_count|weak_ptr|map|set|_Rb_tree|stringstream|ostringstream|'
                      r'_Hash\w*|_Map_base|_Insert\w*|_Node\w*|_Local\w*|_Equal\w*|_Prime\w*|__variant|_Fwd_list|forward_list|stack|queue|_Function\w*)::')


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.obl = 0
        self.disch = 0
        self.kinds = {}
        self.unknown = 0
        self.trivial = 0
        self.cvc5 = 0
        self.exits = 0


STD_BASES = {
    '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt18bad_variant_access': ['_ZTISt9exception'], '_ZTISt12bad_any_cast': ['_ZTISt8bad_cast'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt19bad_optional_access': ['_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt9exception': [],
}


def wide(t, n, signed):
    """64-bit reading of an n-bit term built from low parts of 64-bit terms"""
    if z3.is_bv_value(t):
        c = t.as_long()
        if signed and c >> (n - 1):
            c -= 1 << n
        return z3.BitVecVal(c, 64)
    k = t.decl().kind()
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = t.params()
        if lo == 0 and hi == n - 1 and t.arg(0).size() == 64:
            return t.arg(0)
        return None
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB):
        xs = [wide(a, n, signed) for a in t.children()]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r + x if k == z3.Z3_OP_BADD else (r * x if k == z3.Z3_OP_BMUL else r - x)
        return r
    return None


def leaf_names(t):
    out, st = set(), [t]
    while st:
        e = st.pop()
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
            st.extend(e.children())
    return out


class Frame:
    __slots__ = ('fn', 'info')

    def __init__(self, fn, info):
        self.fn, self.info = fn, info


class FnInfo:
    """natural loops of a function"""

    def __init__(self, fn):
        fn.parse()
        self.index = {b: {} for b in fn.order}
        succ = {}
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == 'br':
                s = [t.a[1]] + ([t.a[2]] if t.a[2] else [])
            elif t.op == 'switch':
                s = [t.a[1]] + [x for _, x in t.a[2]]
            elif t.op == 'invoke':
                s = [t.a[2], t.a[3]]
            else:
                s = []
            succ[b] = s
        self.succ = succ
        entry = fn.order[0]
        self.entry = entry
        # dominators (iterative)
        pred = {b: [] for b in fn.order}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        order = []
        seen = set()

        def dfs(b):
            st = [(b, iter(succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(entry)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in num and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in pred[x] if p in num)


class Exec:
    def __init__(self, prog, timeout_ms=20000):
        self.prog = prog
        self.stats = Stats()
        self.failures = []
        self.undecided = []
        self.frame_seen = {}
        self.infos = {}
        self.globs = {}
        self.base_mem = {}
        self.timeout = timeout_ms
        self.feas_timeout = 400
        self.fp_first = 1500
        self.contracts = {}
        self.habs = {}        # class of abstract objects -> content      # demangled name -> transformer
        self.used_contracts = {}
        self.inlined = set()
        self.models_used = {}
        self.unit = '?'
        self.deadline = None
        self.cur = None
        self.cache = {}
        self.loop_mode = {}
        self.trace = False
        self.steps = 0
        self.model_cache = {}
        self.fail_keys = set()
        self.quiet = 0
        import models
        self.models = models
        self.bases = dict(STD_BASES)
        for m in prog.mods:
            for g, r in m.globals.items():
                if g.startswith('_ZTI') and '{' in r and g not in self.bases:
                    t = [x for x in re.findall(r'@(_ZTI[\w.$]+)', r) if x != g]
                    self.bases[g] = t
        self.class_slots = {}

    # ------------------------------------------------------------ solver
    def check(self, pc, extra=None, timeout=None, want_model=False):
        """returns 'sat' / 'unsat' / 'unknown' (and a model)"""
        fs = [p for p in pc if not z3.is_true(p)]
        if extra is not None:
            fs = fs + [extra]
        key = None
        if not want_model:
            key = (frozenset(f.get_id() for f in fs))
            r = self.cache.get(key)
            if r is not None and (r[0] != 'unknown' or r[2] >= (timeout or self.timeout)):
                return r[0], None
        t0 = time.time()
        full = timeout or self.timeout
        fp = any(has_fp(f) for f in fs)
        leaf = fp_leaf(fs) if fp and full > self.fp_first else None
        r = 'unknown'
        if not fp:
            s = z3.SimpleSolver()
            s.set('timeout', int(min(full, 300)))
            s.add(*fs)
            r = str(s.check())
        if fp and not want_model and r == 'unknown' and full > self.feas_timeout:
            # the floating-point facts as opaque propositions first (fewer assumptions: 'unsat' is sound)
            s = z3.SimpleSolver()
            s.set('timeout', 2000)
            s.add(*abstract_fp(fs))
            if s.check() == z3.unsat:
                r = 'unsat'
        if r == 'unknown':
            s = z3.Solver()
            s.set('timeout', int(full if leaf is None else self.fp_first))
            s.add(*fs)
            r = str(s.check())
        if r == 'unknown' and full >= 8000 and not want_model and self.second(fs, 20):
            r = 'unsat'
        m = s.model() if r == 'sat' and want_model else None
        if r == 'unknown' and leaf is not None:
            r, m = self.fp_split(fs, leaf, full, want_model)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if key is not None:
            self.cache[key] = (r, fs, timeout or self.timeout)
        return r, m

    def second(self, fs, limit):
        """cvc5 as second back end, for queries z3 gives up on: is it unsatisfiable?"""
        import subprocess
        s = z3.Solver()
        s.add(*fs)
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (limit * 1000), '-'], input='(set-logic ALL)\n' + s.to_smt2(),
                               capture_output=True, text=True, timeout=limit + 5)
        except Exception:
            return False
        self.stats.queries += 1
        if p.stdout.strip().split('\n')[0] == 'unsat':
            self.stats.cvc5 = getattr(self.stats, 'cvc5', 0) + 1
            return True
        return False

    def fp_split(self, fs, leaf, timeout, want_model):
        """case split on the exponent of the only floating-point unknown of a query"""
        so = leaf.sort()
        eb, mb = so.ebits(), so.sbits() - 1
        bias = (1 << (eb - 1)) - 1
        sg, mt, ex = fresh_bv('sign', 1), fresh_bv('mant', mb), fresh_bv('expo', eb)
        parts = []
        for f in fs:
            parts += conjuncts(z3.simplify(f))
        rel = [f for f in parts if occurs(f, leaf)]
        rest = [f for f in parts if not occurs(f, leaf)]
        V = z3.BitVecVal
        cases = [(ex, z3.ULE(ex, bias - 4))] + [(V(bias + e, eb), None) for e in range(-3, 66)] + [(ex, z3.UGE(ex, bias + 66))]
        for e, c in cases:
            sub = z3.fpFP(sg, e, mt)
            body = [z3.substitute(f, (leaf, sub)) for f in rel]
            s = z3.SolverFor('QF_FPBV')
            s.set('timeout', int(timeout))
            s.add(*body)
            if c is not None:
                s.add(c)
            self.stats.queries += 1
            if s.check() == z3.unsat:
                continue
            s = z3.Solver()
            s.set('timeout', int(timeout))
            s.add(*body)
            s.add(*rest)
            if c is not None:
                s.add(c)
            r = str(s.check())
            self.stats.queries += 1
            if r == 'unsat':
                continue
            if r == 'unknown':
                return 'unknown', None
            m = s.model()
            x = z3.simplify(m.eval(sub, model_completion=True))
            s = z3.Solver()
            s.set('timeout', int(timeout))
            s.add(leaf == x)
            s.add(*fs)
            r = str(s.check())
            if r == 'sat':
                return 'sat', s.model() if want_model else None
            return 'unknown', None
        return 'unsat', None

    def feasible(self, st, c=None):
        if c is not None:
            c = norm(c)
            if isinstance(c, int):
                if not c:
                    return False
                c = None
        if c is not None:
            ci = c.get_id()
            nc = z3.Not(c)
            ncs = z3.simplify(nc)
            for p in st.pc:
                pi = p.get_id()
                if pi == ci:
                    return True
                if p.eq(ncs) or p.eq(nc):
                    return False
        r, _ = self.check(self.path(st), c, self.feas_timeout)
        return r != 'unsat'

    def path(self, st):
        return st.pc

    def valid(self, st, c, timeout=None):
        """pc |= c ?  True / False / None"""
        c = norm(boolt(c))
        if isinstance(c, int):
            if c:
                return True
            r, _ = self.check(self.path(st), None, timeout)
            return True if r == 'unsat' else (False if r == 'sat' else None)
        for p in st.pc:
            if p.eq(c):
                return True
        r, _ = self.check(self.path(st), z3.Not(c), timeout)
        return True if r == 'unsat' else (False if r == 'sat' else None)

    def where(self):
        if self.cur is None:
            return '?'
        fn, ins = self.cur
        nm = demangled(self.prog, fn.name)
        if len(nm) > 160:
            nm = nm[:160] + '...'
        if ins is not None and ins.line is not None:
            l = fn.mod.src_line(ins.line)
            if l:
                return '%s:%d (%s)' % (l[0].replace('/repo/', ''), l[1], nm)
        return nm

    def obl(self, st, c, kind, msg, data=None):
        """proof obligation pc |= c; afterwards c is assumed. Returns False when the path is dead."""
        self.stats.obl += 1
        self.stats.kinds[kind] = self.stats.kinds.get(kind, 0) + 1
        c = norm(boolt(c))
        if self.quiet:
            # tentative exploration: only the assumption matters
            if isinstance(c, int):
                return bool(c)
            st.pc.append(c)
            return True
        if isinstance(c, int) and c:
            self.stats.disch += 1
            self.stats.trivial += 1
            return True
        if not isinstance(c, int):
            for p in st.pc:
                if p.eq(c):
                    self.stats.disch += 1
                    return True
        neg = z3.Not(c) if not isinstance(c, int) else None
        r = self.slim(st, neg)
        if r != 'unsat':
            r, m = self.check(self.path(st), neg, None, False)
        if r == 'unsat':
            self.stats.disch += 1
            if not isinstance(c, int):
                st.pc.append(c)
            return not isinstance(c, int)
        if r == 'sat':
            r, m = self.check(self.path(st), neg, None, True)
            if r == 'sat':
                self.fail(st, kind, msg, m, data, neg)
                if isinstance(c, int):
                    return False
                st.pc.append(c)
                return self.feasible(st)
        self.stats.unknown += 1
        self.undecided.append((self.unit, kind, msg, self.where()))
        if isinstance(c, int):
            return False
        st.pc.append(c)
        return True

    def slim(self, st, neg):
        """try the obligation without the floating-point part of the path condition (fewer assumptions: sound)"""
        pc = self.path(st)
        fp = [has_fp(p) for p in pc]
        n = sum(fp)
        if not n or neg is None:
            return 'unknown'
        base = [p for p, f in zip(pc, fp) if not f]
        tries = []
        if not has_fp(neg):
            tries.append(base)
        elif n > 1:
            last = max(i for i, f in enumerate(fp) if f)
            tries.append([p for i, p in enumerate(pc) if not fp[i] or i == last])
        for t in tries:
            if self.check(t, neg, self.fp_first)[0] == 'unsat':
                return 'unsat'
        return 'unknown'

    def h_alive(self, st, h, msg):
        """obligation: the abstract object was not released yet"""
        cs = []
        for f in st.hfreed:
            if f[1] != h.id:
                continue
            if f[0] == 'one':
                if f[2] is None or h.idx is None:
                    cs.append(z3.BoolVal(False))
                else:
                    cs.append(i64(f[2]) != i64(h.idx))
            else:
                i = i64(h.idx)
                cs.append(z3.Not(z3.And(z3.UGE(i, i64(f[2])), z3.ULT(i, i64(f[3])))))
        if not cs:
            self.stats.obl += 1
            self.stats.disch += 1
            return True
        return self.obl(st, z3.And(cs), 'memory', msg)

    def h_free(self, st, h):
        st.hfreed = st.hfreed + (('one', h.id, h.idx),)

    def fail(self, st, kind, msg, model=None, data=None, neg=None):
        if self.quiet:
            return
        if model is None:
            r, model = self.check(self.path(st), None, None, True)
            if r == 'unsat':
                return
        f = Failure(kind, msg, self.where(), model, list(st.pc), self.unit)
        f.data = data
        f.query = list(st.pc) + ([neg] if neg is not None else [])
        f.facts = list(st.facts)
        key = (kind, msg, f.where, self.unit)
        if key in self.fail_keys:
            return
        self.fail_keys.add(key)
        self.failures.append(f)

    def tick(self):
        self.steps += 1
        if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
            raise Budget('time')

    # ------------------------------------------------------------ memory
    def new_obj(self, st, kind, size, name, how=None):
        i = fresh_id()
        st.mem[i] = Obj(kind, size, name, how)
        return Ptr(i, 0)

    def getobj(self, st, p, what):
        """object of a plain pointer, or None after recording a failure"""
        b = p.base
        if b is None:
            self.stats.obl += 1
            self.fail(st, 'memory', '%s through a null pointer' % what)
            return None
        if isinstance(b, str):
            b = self.glob(st, b)
        o = st.mem.get(b)
        if o is None and b in self.base_mem:
            self.bring(st, b)
            o = st.mem.get(b)
        if o is None:
            self.stats.obl += 1
            self.fail(st, 'memory', '%s of a dead local object' % what)
            return None
        if not o.alive:
            self.stats.obl += 1
            self.fail(st, 'memory', '%s of memory already released' % what)
            return None
        return o

    def wobj(self, st, p, what='write'):
        o = self.getobj(st, p, what)
        if o is None:
            return None
        if o.ro:
            self.fail(st, 'frame', 'modification of a value that must not change (%s)' % (o.name,))
            return None
        o = o.copy()
        b = p.base
        if isinstance(b, str):
            b = self.glob(st, b)
        st.mem[b] = o
        return o

    def glob(self, st, name):
        """global name (module-qualified '#mod#name' or plain) -> object id, initialised"""
        if name in self.globs:
            i = self.globs[name]
            if i not in st.mem:
                self.bring(st, i)
            return i
        raise Unsupported('unknown global ' + name)

    def bring(self, st, i):
        """a global object another state met first: it and whatever it points to"""
        todo = [i]
        while todo:
            i = todo.pop()
            o = self.base_mem.get(i)
            if o is None or i in st.mem:
                continue
            st.mem[i] = o
            todo += [v.base for _, v in o.cells.values() if isinstance(v, Ptr) and isinstance(v.base, int)]

    def gptr(self, st, name, mod):
        f = self.prog.find_fn(name, mod)
        if f is not None or name in self.prog.dem and name not in self.prog.gmod and (mod is None or name not in mod.globals):
            return FnP(name, mod)
        m, d = self.prog.find_global(name, mod)
        if d is None:
            q = name
            if q not in self.globs:
                i = fresh_id()
                o = Obj('ext', None, name)
                self.globs[q] = i
                self.base_mem[i] = o
            i = self.globs[q]
            if i not in st.mem:
                self.bring(st, i)
            return Ptr(i, 0)
        internal, const, ty, init = d
        q = ('#%s#%s' % (m.path, name)) if internal else name
        if q not in self.globs:
            i = fresh_id()
            o = Obj('global', ty.size, name)
            self.globs[q] = i
            self.base_mem[i] = o
            st.mem[i] = o
            if init is None:
                o.kind = 'ext'
                o.size = None
            else:
                self.init_global(st, o, 0, ty, init, m)
                if const:
                    o.ro = True
        i = self.globs[q]
        if i not in st.mem:
            self.bring(st, i)
        return Ptr(i, 0)

    def init_global(self, st, o, off, ty, init, mod):
        b = ty.body()
        k = init[0]
        if k == 'zero':
            if b.k == 'arr' and b.elems[0].body().k == 'i' and b.n > 64:
                o.arr = Seq(b.elems[0].size, b.elems[0].body().n, nb=b.n, bat=lambda i: 0, ident='zero')
                return
            for oo, t in leaves(b, off):
                o.cells[oo] = (t.size, zero_of(t))
            return
        if k == 'bytes':
            s = Str.lit_(init[1])
            o.arr = Seq(1, 8, nb=len(init[1]), bat=s.at, ident=('lit', init[1]))
            return
        if k == 'agg':
            if b.k == 'arr':
                for j, (t, v) in enumerate(init[1]):
                    self.init_global(st, o, off + j * t.size, t, v, mod)
            else:
                for j, (t, v) in enumerate(init[1]):
                    self.init_global(st, o, off + b.offs[j], t, v, mod)
            return
        if k == 'undef':
            return
        o.cells[off] = (b.size, self.const(st, init, ty, mod))

    def const(self, st, v, ty, mod):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            b = ty.body()
            if b.k in ('st', 'arr'):
                return UNDEF if not b.elems else tuple(zero_of(e) for e in (b.elems if b.k == 'st' else b.elems * b.n))
            return zero_of(b)
        if k == 'fp':
            b = ty.body()
            r = z3.fpBVToFP(z3.BitVecVal(v[1], 64), F64) if b.k == 'double' else z3.fpBVToFP(z3.BitVecVal(v[1], 32), F32)
            x = z3.simplify(r)
            return r if z3.is_fp_value(x) and x.isNaN() else x
        if k == 'fp80':
            raise Unsupported('long double constant')
        if k == 'g':
            return self.gptr(st, v[1], mod)
        if k == 'cgep':
            p = self.const(st, v[2][0][1], PTR, mod)
            idx = [(t, self.const(st, x, t, mod)) for t, x in v[2][1:]]
            return self.gep(p, v[1], idx)
        if k == 'ccast':
            x = self.const(st, v[3], v[2], mod)
            if v[1] in ('bitcast', 'addrspacecast'):
                return x
            if v[1] == 'ptrtoint':
                return PInt(x)
            if v[1] == 'inttoptr' and isinstance(x, int):
                return Ptr(None, x)
        if k == 'agg':
            return tuple(self.const(st, x, t, mod) for t, x in v[1])
        raise Unsupported('constant ' + repr(v)[:80])

    def gep(self, p, ety, idx):
        if p is UNDEF:
            raise Unsupported('address arithmetic on an uninitialised pointer')
        t, i = idx[0]
        off = self.scaled(i, t, ety.size)
        cur = ety
        for t, i in idx[1:]:
            b = cur.body()
            if b.k == 'st':
                off = add_off(off, b.offs[i])
                cur = b.elems[i]
            elif b.k == 'arr' or b.k == 'vec':
                off = add_off(off, self.scaled(i, t, b.elems[0].size))
                cur = b.elems[0]
            else:
                raise Unsupported('gep into ' + b.k)
        if isinstance(p, VTab):
            return VTab(p.h, p.off + off)
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        if off == 0:
            return p
        return p.add(off)

    def scaled(self, i, t, sz):
        if isinstance(i, int):
            return (sgn(i, t.n) * sz) & M64
        if isinstance(i, LinV):
            return i.lin.mul(sz)
        if t.n < 64:
            i = z3.SignExt(64 - t.n, i)
        return Lin.of(i).mul(sz)

    def bounds(self, st, p, size, osize, what):
        """obligation: [off, off+size) inside an object of osize bytes"""
        off = p.off
        if osize is None:
            return True
        if isinstance(off, int) and isinstance(osize, int):
            self.stats.obl += 1
            if off + size <= osize:
                self.stats.disch += 1
                self.stats.trivial += 1
                return True
            self.fail(st, 'memory', '%s outside the object (%s)' % (what, self.oname(st, p)))
            return False
        o, n = Lin.of(off).bv(), i64(osize)
        return self.obl(st, z3.And(z3.ULE(o, n), z3.UGE(n - o, z3.BitVecVal(size, 64))), 'memory',
                        '%s outside the object (%s)' % (what, self.oname(st, p)))

    def oname(self, st, p):
        b = p.base
        o = st.mem.get(b) if isinstance(b, int) else None
        return o.name if o is not None else str(b)[:60]

    def conv_load(self, v, ty):
        """stored value -> value of the loaded type"""
        b = ty.body()
        if v is UNDEF:
            return v
        if type(v) is Junk:
            raise JunkRead(v.slot)
        if b.k == 'ptr':
            if isinstance(v, int):
                return Ptr(None, v)
            if isinstance(v, PInt):
                return v.p
            if z3.is_expr(v):
                raise Unsupported('integer loaded as a pointer')
            return v
        if b.k == 'i':
            if z3.is_expr(v) and z3.is_fp(v):
                r = fbits(v)
                return norm(z3.fpToIEEEBV(v) if r is None else r)
            if isinstance(v, Ptr):
                return PInt(v) if (v.base is not None) else v.off
            if z3.is_expr(v) and z3.is_bool(v) and b.n > 1:
                return norm(bv(v, b.n))
            return v
        if b.k in ('float', 'double'):
            s = F32 if b.k == 'float' else F64
            if isinstance(v, int):
                return z3.simplify(z3.fpBVToFP(z3.BitVecVal(v, 32 if b.k == 'float' else 64), s))
            if z3.is_expr(v) and z3.is_bv(v):
                return z3.fpBVToFP(v, s)
            return v
        return v

    def load(self, st, p, ty):
        """-> list of (state, value)"""
        if isinstance(p, VTab):
            if p.off % 8:
                raise Unsupported('odd vtable offset')
            return [(st, VFn(p.h, p.off // 8))]
        if p is UNDEF:
            self.fail(st, 'memory', 'read through an uninitialised pointer')
            return []
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        b = p.base
        if isinstance(b, tuple):
            return self.load_special(st, p, ty)
        if isinstance(b, Handle):
            if p.off == 0 and ty.k == 'ptr':
                if not self.h_alive(st, b, 'use of an object already released (%s)' % b.cls):
                    return []
                return [(st, VTab(b, 0))]
            raise Unsupported('field of an abstract object %r' % (b,))
        o = self.getobj(st, p, 'read')
        if o is None:
            return []
        sz = ty.size
        if o.arr is not None and not (isinstance(p.off, int) and p.off in o.cells):
            if not self.bounds(st, p, sz, o.size, 'read'):
                return []
            return [(st, self.conv_load(self.arr_load(o.arr, p.off, sz), ty))]
        if not self.bounds(st, p, sz, o.size, 'read'):
            return []
        if isinstance(p.off, int):
            return [(st, self.cell_load(st, o, p.off, ty))]
        # symbolic offset into separate cells: one case per feasible cell
        out = []
        ot = Lin.of(p.off).bv()
        r = Lin.of(p.off).rem_c(sz)
        if r is not None and isinstance(o.size, int) and o.size <= 400 * sz:
            cand = range(r, o.size - sz + 1, sz)
        else:
            cand = [off for off, (s2, _) in o.cells.items() if s2 == sz]
        if len(cand) > 400:
            raise Unsupported('symbolic access into a large table')
        got = []
        for off in sorted(cand):
            c = norm(ot == off)
            if isinstance(c, int):
                if not c:
                    continue
                got.append((off, None))
            elif self.feasible(st, c):
                got.append((off, c))
        covered = z3.Or([c if c is not None else z3.BoolVal(True) for _, c in got]) if got else z3.BoolVal(False)
        if not self.valid(st, covered):
            raise Unsupported('symbolic access not aligned with the table')
        # group the cases with the same value
        groups = {}
        for off, c in got:
            v = self.cell_load(st, o, off, ty)
            k = (v.base, v.off) if isinstance(v, Ptr) and isinstance(v.off, int) else ('u', off)
            groups.setdefault(k, [v, []])[1].append(c)
        for k, (v, cs) in groups.items():
            s2 = st.fork()
            if all(c is not None for c in cs):
                s2.pc.append(z3.Or(cs) if len(cs) > 1 else cs[0])
            out.append((s2, v))
        return out

    def cell_load(self, st, o, off, ty):
        b = ty.body()
        if b.k == 'st':
            return tuple(self.cell_load(st, o, off + b.offs[j], e) for j, e in enumerate(b.elems))
        c = o.cells.get(off)
        sz = ty.size
        if c is None:
            # part of a bigger cell?
            for o2, (s2, v2) in o.cells.items():
                if isinstance(s2, int) and o2 <= off < o2 + s2:
                    if isinstance(v2, int) and off + sz <= o2 + s2:
                        return self.conv_load((v2 >> (8 * (off - o2))) & ((1 << (8 * sz)) - 1), ty)
                    if z3.is_expr(v2) and z3.is_bv(v2) and off + sz <= o2 + s2:
                        lo = 8 * (off - o2)
                        return self.conv_load(norm(z3.Extract(lo + 8 * sz - 1, lo, v2)), ty)
                    if v2 is UNDEF:
                        return UNDEF
                    raise Unsupported('partial read of a cell at %d of %s' % (off, o.name))
            # several smaller cells?
            if any(off < o2 < off + sz for o2 in o.cells):
                if ty.body().k == 'i':
                    return self.pack(o, off, sz)
                raise Unsupported('read across cells of %s' % (o.name,))
            return UNDEF
        s2, v = c
        if isinstance(v, (OV, Seq, Str)) or s2 == 'abs':
            raise Unsupported('raw access to a library object (%s)' % type(v).__name__)
        if s2 == sz:
            return self.conv_load(v, ty)
        if v is UNDEF:
            return UNDEF
        if s2 > sz:
            if isinstance(v, int):
                return self.conv_load(v & ((1 << (8 * sz)) - 1), ty)
            if z3.is_expr(v) and z3.is_bv(v):
                return self.conv_load(norm(z3.Extract(8 * sz - 1, 0, v)), ty)
            if z3.is_expr(v) and z3.is_bool(v):
                return self.conv_load(v, ty)
        else:
            # compose from consecutive cells
            parts = []
            cur = off
            while cur < off + sz:
                c2 = o.cells.get(cur)
                if c2 is None or not isinstance(c2[0], int):
                    if ty.body().k == 'i' and c2 is None:
                        return self.pack(o, off, sz)
                    return UNDEF if c2 is None else self._uns('read across cells')
                parts.append((c2[0], c2[1]))
                cur += c2[0]
            if cur == off + sz and all(isinstance(x, int) or z3.is_expr(x) and z3.is_bv(x) for _, x in parts):
                return self.conv_load(norm(z3.Concat(*[bv(x, 8 * s) for s, x in reversed(parts)])), ty)
        raise Unsupported('size mismatch reading %s+%d' % (o.name, off))

    def pack(self, o, off, sz):
        cs = {}
        for o2, (s2, v2) in o.cells.items():
            if o2 < off + sz and off < o2 + (s2 if isinstance(s2, int) else 1):
                if not isinstance(s2, int) or o2 < off or o2 + s2 > off + sz:
                    raise Unsupported('read across cells of %s' % (o.name,))
                cs[o2 - off] = (s2, v2)
        return Pack(cs)

    def _uns(self, m):
        raise Unsupported(m)

    def arr_load(self, arr, off, sz):
        es = arr.es
        l = Lin.of(off)
        q = l.div(es)
        if sz == es and q is not None:
            return arr.at(q.bv() if q.t else q.c)
        if es == 1 and sz in (2, 4, 8):
            parts = [arr.at(norm(l.add(k).bv())) for k in range(sz)]
            return norm(z3.Concat(*[bv(x, 8) for x in reversed(parts)]))
        if sz == es:
            i = norm(z3.UDiv(l.bv(), z3.BitVecVal(es, 64)))
            return arr.at(i)
        raise Unsupported('array access of size %d in elements of %d' % (sz, es))

    def load_special(self, st, p, ty):
        b = p.base
        if b[0] == 'buf':
            s = self.models.buf_seq(self, st, p, 'read')
            if s is None:
                return []
            if isinstance(s, Str):
                if not self.bounds(st, p, ty.size, norm(i64(s.n) + 1), 'read'):
                    return []
                if ty.size != 1:
                    raise Unsupported('wide read from a string')
                l = Lin.of(p.off).bv()
                v = s.at(norm(l))
                nn = norm(l == i64(s.n))
                return [(st, val_ite(nn, 0, v, 8))]
            return self.models.seq_load(self, st, s, p, ty)
        if b[0] == 'alt':
            return [(st, self.conv_load(self.models.alt_value(self, st, p), ty))]
        if b[0] == 'mapent':
            return self.models.mapent_load(self, st, p, ty)
        raise Unsupported('load from %r' % (b[0],))

    def store(self, st, p, v, ty):
        """-> list of states"""
        if p is UNDEF:
            self.fail(st, 'memory', 'write through an uninitialised pointer')
            return []
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        b = p.base
        if isinstance(b, tuple):
            if b[0] == 'buf':
                return self.models.seq_store(self, st, p, v, ty)
            if b[0] == 'mapent':
                return self.models.mapent_store(self, st, p, v, ty)
            if b[0] == 'alt':
                raise Unsupported('write into a variant alternative')
            raise Unsupported('store to %r' % (b[0],))
        if isinstance(b, Handle):
            raise Unsupported('store into an abstract object')
        sz = ty.size
        if ty.body().k == 'st' and isinstance(v, tuple):
            sts = [st]
            for j, e in enumerate(ty.body().elems):
                if v[j] is UNDEF:
                    continue
                sts = [y for x in sts for y in self.store(x, p.add(ty.body().offs[j]) if ty.body().offs[j] else p, v[j], e)]
            return sts
        o = self.wobj(st, p)
        if o is None:
            return []
        if not self.bounds(st, p, sz, o.size, 'write'):
            return []
        if o.arr is not None:
            q = Lin.of(p.off).div(o.arr.es)
            if sz != o.arr.es or q is None:
                if o.arr.es == 1 and sz in (2, 4, 8):
                    raise Unsupported('wide write into a byte array')
                q = Lin.of(z3.UDiv(Lin.of(p.off).bv(), z3.BitVecVal(o.arr.es, 64)))
                if sz != o.arr.es:
                    raise Unsupported('write of size %d into array of %d' % (sz, o.arr.es))
            o.arr = o.arr.set(q.bv() if q.t else q.c, v)
            return [st]
        if not isinstance(p.off, int) or o.kind == 'heap' and o.size is not None and not isinstance(o.size, int) and not o.cells:
            if o.cells or o.size is None:
                raise Unsupported('symbolic offset write into a structured object')
            b2 = ty.body()
            self.models.heap_array(o, sz, 'ptr' if b2.k == 'ptr' else ('f32' if b2.k == 'float' else ('f64' if b2.k == 'double' else b2.n)))
            return self.store(st, p, v, ty)
        self.clear_range(o, p.off, sz)
        if type(v) is Pack:
            for k in [k for k in o.cells if p.off <= k < p.off + sz]:
                del o.cells[k]
            for k, c in v.cells.items():
                o.cells[p.off + k] = c
            return [st]
        o.cells[p.off] = (sz, v)
        return [st]

    def clear_range(self, o, off, sz):
        if off in o.cells and o.cells[off][0] == sz:
            return
        for o2 in [x for x, (s2, _) in o.cells.items() if isinstance(s2, int) and x < off + sz and x + s2 > off]:
            s2, v2 = o.cells.pop(o2)
            if o2 < off or o2 + s2 > off + sz:
                # keep remaining bytes of integers
                if isinstance(v2, int):
                    for k in range(s2):
                        if not off <= o2 + k < off + sz:
                            o.cells[o2 + k] = (1, (v2 >> (8 * k)) & 255)
                elif z3.is_expr(v2) and z3.is_bv(v2) and v2.size() == 8 * s2:
                    for k in range(s2):
                        if not off <= o2 + k < off + sz:
                            o.cells[o2 + k] = (1, norm(z3.Extract(8 * k + 7, 8 * k, v2)))
                elif v2 is not UNDEF and not isinstance(v2, Ptr):
                    raise Unsupported('partial overwrite of a cell')

    def get_abs(self, st, p, what='read'):
        """abstract library object stored at p (None: absent)"""
        if p is UNDEF or not isinstance(p, Ptr):
            raise Unsupported('library object through %r' % (p,))
        b = p.base
        if isinstance(b, tuple):
            if b[0] == 'buf':
                return self.models.seq_elem(self, st, p)
            if b[0] == 'alt':
                return self.models.alt_value(self, st, p)
            if b[0] == 'mapent':
                return self.models.mapent_abs(self, st, p)
            raise Unsupported('library object in %r' % (b[0],))
        if isinstance(b, Handle):
            h = self.habs.get(b.cls)
            if h is None or p.off != 0:
                raise Unsupported('library object inside an abstract object')
            if not self.h_alive(st, b, 'use of an object already released (%s)' % b.cls):
                return 'dead'
            return h(b)
        o = self.getobj(st, p, what)
        if o is None:
            return 'dead'
        if not isinstance(p.off, int):
            if o.arr is not None:
                q = Lin.of(p.off).div(o.arr.es)
                if q is not None:
                    return o.arr.at(q.bv())
            raise Unsupported('library object at a symbolic offset')
        if o.arr is not None and p.off % o.arr.es == 0:
            return o.arr.at(p.off // o.arr.es)
        c = o.cells.get(p.off)
        if c is not None and type(c[1]) is Junk:
            raise JunkRead(c[1].slot)
        return None if c is None else c[1]

    def put_abs(self, st, p, v, size='abs'):
        """-> True, or False when the path is dead"""
        b = p.base
        if isinstance(b, tuple):
            if b[0] == 'buf':
                return self.models.seq_elem_put(self, st, p, v)
            if b[0] == 'mapent':
                return self.models.mapent_abs_put(self, st, p, v)
            raise Unsupported('writing a library object into %r' % (b[0],))
        o = self.wobj(st, p)
        if o is None:
            return False
        if not isinstance(p.off, int):
            raise Unsupported('library object at a symbolic offset')
        if o.arr is not None and not o.cells and p.off % o.arr.es == 0:
            o.arr = o.arr.set(p.off // o.arr.es, v)
            return True
        o.cells[p.off] = (size, v)
        return True

    # ------------------------------------------------------------ evaluation
    def val(self, st, regs, v, ty, mod):
        k = v[0]
        if k == 'r':
            return regs[v[1]]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        return self.const(st, v, ty, mod)

    def call_fn(self, st, fn, args, ret_ty=None):
        """execute a defined function; -> [(st, 'ret'|'exc', value)]"""
        if isinstance(fn, str):
            f = self.prog.find_fn(fn)
            if f is None:
                raise Unsupported('no definition of ' + fn)
            fn = f
        info = self.infos.get(id(fn))
        if info is None:
            info = self.infos[id(fn)] = FnInfo(fn)
        fr = Frame(fn, info)
        regs = {}
        for (t, n, at), a in zip(fn.params, args):
            regs[n] = a
        if self.trace:
            print('CALL', demangled(self.prog, fn.name)[:150])
        regs['#'] = ()
        before = st.mem
        outs = []
        _, _, res = self.run(fr, [(st, regs, info.entry, None)], None, None)
        for s, kind, v, rg in res:
            # locals die
            for i in rg['#']:
                s.mem.pop(i, None)
            outs.append((s, kind, v))
        return outs

    def run(self, fr, items, region, header, cap=None):
        """explore; with a region: (exits, backs, outs)"""
        exits, backs, outs = [], [], []
        work = list(items)
        first = True
        nproc = 0
        while work:
            st, regs, blk, pred = work.pop()
            nproc += 1
            if cap and (nproc > cap * 40 or len(backs) > cap or len(work) > cap):
                raise Budget('paths')
            if region is not None:
                if blk == header and not (first or pred == '@start'):
                    backs.append((st, regs, pred))
                    continue
                if blk not in region:
                    exits.append((st, regs, blk, pred))
                    continue
            if blk in fr.info.loops and not (region is not None and blk == header) and \
                    (pred is None or pred not in fr.info.loops[blk]):
                import loops
                ex2, outs2 = loops.handle(self, fr, st, regs, blk, pred)
                outs.extend(outs2)
                work.extend(ex2)
                continue
            first = False
            work_new = self.block(fr, st, regs, blk, pred, outs)
            work.extend(work_new)
        return exits, backs, outs

    def start_items(self, st, regs, blk):
        return [(st, regs, blk, '@start')]

    def block(self, fr, st, regs, blk, pred, outs):
        """run one block from its start; returns successor work items"""
        fn = fr.fn
        code = fn.blocks[blk]
        i = 0
        # phis are simultaneous
        if code and code[0].op == 'phi':
            regs = dict(regs)
            new = {}
            while code[i].op == 'phi':
                for v, pb in code[i].a[0]:
                    if pb == pred:
                        new[code[i].dst] = self.val(st, regs, v, code[i].ty, fn.mod)
                        break
                else:
                    raise Unsupported('phi without predecessor')
                i += 1
            regs.update(new)
        return self.cont(fr, st, regs, blk, i, outs)

    def cont(self, fr, st, regs, blk, i, outs):
        fn = fr.fn
        mod = fn.mod
        code = fn.blocks[blk]
        work = []
        stack = [(st, regs, i)]
        while stack:
            st, regs, i = stack.pop()
            dead = False
            while True:
                ins = code[i]
                self.cur = (fn, ins)
                self.tick()
                op = ins.op
                if op == 'load':
                    p = self.val(st, regs, ins.a[0], PTR, mod)
                    r = self.load(st, p, ins.ty)
                    if len(r) == 1:
                        st = r[0][0]
                        regs[ins.dst] = r[0][1]
                    else:
                        for s2, v in r:
                            rg = dict(regs)
                            rg[ins.dst] = v
                            stack.append((s2, rg, i + 1))
                        dead = True
                elif op == 'store':
                    v = self.val(st, regs, ins.a[0], ins.ty, mod)
                    p = self.val(st, regs, ins.a[1], PTR, mod)
                    r = self.store(st, p, v, ins.ty)
                    if len(r) == 1:
                        st = r[0]
                    else:
                        for s2 in r:
                            stack.append((s2, dict(regs), i + 1))
                        dead = True
                elif op == 'alloca':
                    n = fresh_id()
                    o = Obj('stack', ins.ty.size, 'local %s of %s' % (ins.dst, fn.name[:60]))
                    if ins.a[0] is not None:
                        c = self.val(st, regs, ins.a[0], I[64], mod)
                        if not isinstance(c, int):
                            raise Unsupported('variable length array')
                        o.size = ins.ty.size * c
                    if ins.ty.k == 'arr' and ins.ty.elems[0].body().k == 'i':
                        pass
                    st.mem[n] = o
                    regs['#'] = regs['#'] + (n,)
                    regs[ins.dst] = Ptr(n, 0)
                elif op == 'br':
                    c, a, b = ins.a
                    if c is None:
                        work.append((st, regs, a, blk))
                    else:
                        cv = self.val(st, regs, c, I[1], mod)
                        self.branch(st, regs, cv, a, b, blk, work)
                    dead = True
                elif op == 'call' or op == 'invoke':
                    rs = self.do_call(fr, st, regs, ins)
                    nd, uw = ins.a[2], ins.a[3]
                    nret = 0
                    for s2, kind, v in rs:
                        nret += 1
                        rg = regs if nret == len(rs) else dict(regs)
                        if kind == 'ret':
                            if ins.dst:
                                rg[ins.dst] = v
                            if op == 'invoke':
                                work.append((s2, rg, nd, blk))
                            else:
                                stack.append((s2, rg, i + 1))
                        else:
                            if op == 'invoke':
                                rg['!exc'] = v
                                work.append((s2, rg, uw, blk))
                            else:
                                outs.append((s2, 'exc', v, rg))
                    dead = True
                elif op == 'ret':
                    v = None if ins.a[0] is None else self.val(st, regs, ins.a[0], ins.ty, mod)
                    outs.append((st, 'ret', v, regs))
                    dead = True
                elif op == 'getelementptr':
                    p = self.val(st, regs, ins.a[0][1], PTR, mod)
                    idx = [(t, self.val(st, regs, x, t, mod)) for t, x in ins.a[1:]]
                    regs[ins.dst] = self.gep(p, ins.ty, idx)
                elif op == 'unreachable':
                    self.stats.obl += 1
                    if self.feasible(st):
                        self.fail(st, 'unreachable', 'control reaches the end of a function that must return or throw')
                    else:
                        self.stats.disch += 1
                    dead = True
                elif op == 'switch':
                    v = self.val(st, regs, ins.a[0], ins.ty, mod)
                    if v is UNDEF:
                        self.fail(st, 'memory', 'switch on an uninitialised value')
                        dead = True
                        break
                    if isinstance(v, int):
                        t = ins.a[1]
                        for c, tb in ins.a[2]:
                            if c == v:
                                t = tb
                                break
                        work.append((st, regs, t, blk))
                    else:
                        nots = []
                        groups = {}
                        for c, tb in ins.a[2]:
                            nots.append(v != c)
                            groups.setdefault(tb, []).append(v == c)
                        for tb, cs in groups.items():
                            c = z3.simplify(z3.Or(cs)) if len(cs) > 1 else z3.simplify(cs[0])
                            if self.feasible(st, c):
                                s2 = st.fork()
                                s2.pc.append(c)
                                work.append((s2, dict(regs), tb, blk))
                        c = z3.simplify(z3.And(nots))
                        if self.feasible(st, c):
                            s2 = st.fork()
                            s2.pc.append(c)
                            work.append((s2, dict(regs), ins.a[1], blk))
                    dead = True
                elif op == 'landingpad':
                    exc = regs['!exc']
                    r = self.landing(st, exc, ins, mod)
                    if r is None:
                        outs.append((st, 'exc', exc, regs))
                        dead = True
                    else:
                        regs[ins.dst] = r
                elif op == 'resume':
                    v = self.val(st, regs, ins.a[0], ins.ty, mod)
                    outs.append((st, 'exc', self.exc_of(st, v[0]), regs))
                    dead = True
                elif op == 'select':
                    cv = self.val(st, regs, ins.a[0], I[1], mod)
                    if cv is UNDEF:
                        self.fail(st, 'memory', 'choice on an uninitialised value')
                        break
                    try:
                        regs[ins.dst] = self.simple(st, regs, ins, mod)
                    except Unsupported:
                        c = boolt(cv)
                        dead = True
                        for k, cc in ((1, c), (2, z3.Not(c))):
                            cc = z3.simplify(cc)
                            if self.feasible(st, cc):
                                s2 = st.fork()
                                s2.pc.append(cc)
                                rg = dict(regs)
                                rg[ins.dst] = self.val(s2, rg, ins.a[k], ins.ty, mod)
                                stack.append((s2, rg, i + 1))
                else:
                    regs[ins.dst] = self.simple(st, regs, ins, mod)
                    if regs[ins.dst] is None:
                        dead = True
                if dead:
                    break
                i += 1
        return work

    def exc_of(self, st, p):
        return st.ghost[('exc', p.base)]

    def branch(self, st, regs, cv, a, b, blk, work):
        if cv is UNDEF:
            self.fail(st, 'memory', 'branch on an uninitialised value')
            return
        if not isinstance(cv, int):
            cv = norm(boolt(cv))
        if isinstance(cv, int):
            work.append((st, regs, a if cv else b, blk))
            return
        nc = norm(z3.Not(cv))
        fa = self.feasible(st, cv)
        fb = self.feasible(st, nc) if fa else True
        if fa and fb:
            s2 = st.fork()
            s2.pc.append(nc)
            work.append((s2, dict(regs), b, blk))
            st.pc.append(cv)
            work.append((st, regs, a, blk))
        elif fa:
            st.pc.append(cv)
            work.append((st, regs, a, blk))
        elif fb:
            st.pc.append(nc)
            work.append((st, regs, b, blk))

    def subtype(self, t, c):
        if t == c:
            return True
        for b in self.bases.get(t, []):
            if self.subtype(b, c):
                return True
        return False

    def landing(self, st, exc, ins, mod):
        ptr, ti = exc
        cleanup, cl = ins.a
        for k, v in cl:
            if k != 'catch':
                raise Unsupported('exception filter')
            if v[0] == 'null':
                return (ptr, 1)
            name = v[1]
            if self.subtype(ti, name):
                return (ptr, self.type_id(name))
        if cleanup:
            return (ptr, 0)
        return None

    def type_id(self, name):
        t = self.__dict__.setdefault('_tids', {})
        if name not in t:
            t[name] = len(t) + 2
        return t[name]

    def simple(self, st, regs, ins, mod):
        op = ins.op
        V = lambda x, t=None: self.val(st, regs, x, t or ins.ty, mod)
        if op in ARITH:
            a, b = V(ins.a[0]), V(ins.a[1])
            return self.arith(st, op, a, b, ins.ty.body().n)
        if op == 'icmp':
            a, b = V(ins.a[1]), V(ins.a[2])
            return self.icmp(st, ins.a[0], a, b, ins.ty)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr'):
            sty, x = ins.a
            return self.cast(st, op, self.val(st, regs, x, sty, mod), sty.body(), ins.ty.body())
        if op == 'fcmp':
            a, b = V(ins.a[1]), V(ins.a[2])
            return self.fcmp(ins.a[0], a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(ins.a[0]), V(ins.a[1])
            self.nofp80(ins.ty)
            if a is UNDEF or b is UNDEF:
                raise Unsupported('arithmetic on an uninitialised value')
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return z3.simplify(f(RNE, a, b))
        if op == 'fneg':
            return z3.simplify(z3.fpNeg(V(ins.a[0])))
        if op == 'select':
            c, a, b = ins.a
            cv = self.val(st, regs, c, I[1], mod)
            av, bvv = V(a), V(b)
            if isinstance(cv, int):
                return av if cv else bvv
            w = ins.ty.body()
            return val_ite(boolt(cv), av, bvv, w.n if w.k == 'i' else None)
        if op == 'extractvalue':
            v = V(ins.a[0])
            for k in ins.a[1]:
                v = UNDEF if v is UNDEF else v[k]
            return v
        if op == 'insertvalue':
            v = V(ins.a[0])
            e = self.val(st, regs, ins.a[2], ins.a[1], mod)
            b = ins.ty.body()
            if v is UNDEF:
                v = tuple(UNDEF for _ in (b.elems if b.k == 'st' else range(b.n)))
            if len(ins.a[3]) != 1:
                raise Unsupported('nested insertvalue')
            v = list(v)
            v[ins.a[3][0]] = e
            return tuple(v)
        if op == 'freeze':
            return V(ins.a[0])
        if op == 'atomicrmw':
            p = self.val(st, regs, ins.a[1], PTR, mod)
            r = self.load(st, p, ins.ty)
            if len(r) != 1:
                raise Unsupported('atomic')
            old = r[0][1]
            x = V(ins.a[2])
            new = self.arith(st, ins.a[0], old, x, ins.ty.n)
            self.store(st, p, new, ins.ty)
            return old
        raise Unsupported('instruction ' + op)

    def nofp80(self, ty):
        if ty.body().k == 'fp80':
            raise Unsupported('long double arithmetic')

    def arith(self, st, op, a, b, n):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                pa, pb = a.p, b.p
                if pa.base == pb.base:
                    d = Lin.of(pa.off).sub(pb.off)
                    return d.c if not d.t else LinV(d)
                raise Unsupported('difference of pointers to different objects')
            if op in ('add', 'sub') and isinstance(a, PInt) and not isinstance(b, PInt):
                l = Lin.of(b)
                return PInt(a.p.add(l if op == 'add' else l.mul(M64)))
            raise Unsupported('arithmetic on a pointer value')
        if a is UNDEF or b is UNDEF:
            raise Unsupported('arithmetic on an uninitialised value')
        m = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl' and b < n:
                return (a << b) & m
            if op == 'lshr' and b < n:
                return a >> b
        if n == 1 and op in ('xor', 'and', 'or'):
            x, y = boolt(a), boolt(b)
            return norm({'xor': z3.Xor, 'and': z3.And, 'or': z3.Or}[op](x, y))
        if isinstance(a, LinV) and isinstance(b, int) and op in ('sdiv', 'udiv') and n == 64:
            d = a.lin.div(b)
            if d is not None:
                return d.c if not d.t else LinV(d)
        if isinstance(a, LinV) and isinstance(b, int) and op == 'ashr':
            d = a.lin.div(1 << b)
            if d is not None:
                return d.c if not d.t else LinV(d)
        if isinstance(a, (LinV, int)) and isinstance(b, (LinV, int)) and op in ('add', 'sub') and n == 64:
            d = Lin.of(a).add(Lin.of(b), 1 if op == 'add' else -1)
            return d.c if not d.t else LinV(d)
        x, y = bv(a, n), bv(b, n)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op in ('shl', 'lshr', 'ashr'):
            if not self.obl(st, z3.ULT(y, z3.BitVecVal(n, n)), 'arith', 'shift amount not smaller than the width'):
                return None
            r = x << y if op == 'shl' else (z3.LShR(x, y) if op == 'lshr' else x >> y)
        elif op in ('sdiv', 'srem', 'udiv', 'urem'):
            if not self.obl(st, y != 0, 'trap', 'integer division by zero'):
                return None
            if op[0] == 's':
                if not self.obl(st, z3.Not(z3.And(y == z3.BitVecVal(m, n), x == z3.BitVecVal(1 << (n - 1), n))), 'trap',
                                'integer division overflow (most negative value by -1)'):
                    return None
            r = {'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y), 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y)}[op]()
        else:
            raise Unsupported(op)
        return norm(r)

    def icmp(self, st, pred, a, b, ty):
        bt = ty.body()
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if isinstance(a, int) and isinstance(b, (Ptr, FnP)):
            a = Ptr(None, a)
        if isinstance(b, int) and isinstance(a, (Ptr, FnP)):
            b = Ptr(None, b)
        if isinstance(a, (FnP, VFn, VTab)) or isinstance(b, (FnP, VFn, VTab)):
            if isinstance(a, FnP) and isinstance(b, FnP):
                e = a.name == b.name
            elif isinstance(a, FnP) or isinstance(b, FnP):
                e = False
            else:
                raise Unsupported('comparison of virtual functions')
            if pred == 'eq':
                return int(e)
            if pred == 'ne':
                return int(not e)
            raise Unsupported('ordering of functions')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(st, pred, a, b)
        n = bt.n if bt.k == 'i' else 64
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, n), sgn(b, n)) if pred[0] == 's' else (a, b)
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred if pred in ('eq', 'ne') else pred[1:]])
        if n == 1:
            x, y = boolt(a), boolt(b)
            if pred == 'eq':
                return norm(x == y)
            if pred == 'ne':
                return norm(x != y)
        x, y = bv(a, n), bv(b, n)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]
        return norm(f())

    def pcmp(self, st, pred, a, b):
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('comparison of %r and %r' % (a, b))
        ab, bb = a.base, b.base
        if isinstance(ab, Buf) and isinstance(bb, Buf):
            if ab[:3] == bb[:3]:
                ab = bb
        if ab == bb or (isinstance(ab, Handle) and isinstance(bb, Handle) and ab == bb):
            x, y = Lin.of(a.off), Lin.of(b.off)
            d = x.sub(y).const()
            if d == 0:
                return int(pred in ('eq', 'uge', 'ule', 'sge', 'sle'))
            if d is not None and pred in ('eq', 'ne'):
                return int(pred == 'ne')
            xb, yb = x.bv(), y.bv()
            f = {'eq': lambda: xb == yb, 'ne': lambda: xb != yb, 'ult': lambda: z3.ULT(xb, yb), 'ule': lambda: z3.ULE(xb, yb),
                 'ugt': lambda: z3.UGT(xb, yb), 'uge': lambda: z3.UGE(xb, yb)}.get(pred)
            if f is None:
                raise Unsupported('signed comparison of pointers')
            return norm(f())
        if pred in ('eq', 'ne'):
            if isinstance(ab, Handle) and isinstance(bb, Handle) and ab.cls == bb.cls and ab.id == bb.id:
                raise Unsupported('comparison of abstract objects')
            if isinstance(ab, int) and isinstance(bb, int):
                oa, ob = st.mem.get(ab), st.mem.get(bb)
                if oa is not None and ob is not None and oa.kind == ob.kind == 'sp' and oa.ro and ob.ro \
                        and Lin.of(a.off).const() == 0 and Lin.of(b.off).const() == 0:
                    r = self.models.sp_same(self, st, ab, bb)
                    return norm(r if pred == 'eq' else z3.Not(r))
            # distinct objects have distinct addresses (objects, functions and null)
            return int(pred == 'ne')
        raise Unsupported('ordering of pointers to different objects')

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if pred == 'ord':
            return norm(z3.Not(un))
        if pred == 'uno':
            return norm(un)
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        o, k = pred[0], pred[1:]
        if k == 'ne':
            r = z3.Not(z3.fpEQ(a, b))
            return norm(r if o == 'u' else z3.And(z3.Not(un), r))
        r = base[k](a, b)
        return norm(r if o == 'o' else z3.Or(un, r))

    def lift(self, st, v, n, m, signed):
        """extension of a narrow value; a narrow loop counter is replaced by the wide one when they agree"""
        v = bv(v, n)
        r = norm(z3.SignExt(m - n, v) if signed else z3.ZeroExt(m - n, v))
        if m != 64 or n < 16 or isinstance(r, int):
            return r
        x = wide(v, n, signed)
        if x is None or not any(c.startswith('k!') for c in leaf_names(x)):
            return r
        if self.check(self.path(st), r != x, 2000)[0] == 'unsat':
            return norm(x)
        return r

    def cast(self, st, op, v, s, d):
        if v is UNDEF:
            return UNDEF
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.base is None:
                return v.off if isinstance(v.off, int) else v.off.bv()
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, int):
                return Ptr(None, v)
            raise Unsupported('integer to pointer')
        if op == 'bitcast':
            return self.conv_load(v, d)
        if op == 'zext':
            if isinstance(v, int):
                return v
            if s.n == 1:
                return norm(bv(boolt(v), d.n))
            return self.lift(st, v, s.n, d.n, False)
        if op == 'sext':
            if isinstance(v, int):
                return sgn(v, s.n) & ((1 << d.n) - 1)
            if s.n == 1:
                return norm(z3.If(boolt(v), z3.BitVecVal((1 << d.n) - 1, d.n), z3.BitVecVal(0, d.n)))
            return self.lift(st, v, s.n, d.n, True)
        if op == 'trunc':
            if isinstance(v, PInt):
                raise Unsupported('truncated pointer')
            if isinstance(v, int):
                return v & ((1 << d.n) - 1)
            r = norm(z3.Extract(d.n - 1, 0, bv(v, s.n)))
            if d.n == 1 and not isinstance(r, int):
                return norm(r == 1)
            return r
        if s.k == 'fp80' or d.k == 'fp80':
            raise Unsupported('long double')
        so = lambda t: F32 if t.k == 'float' else F64
        if op in ('fpext', 'fptrunc'):
            return z3.simplify(z3.fpFPToFP(RNE, v, so(d)))
        if op == 'sitofp':
            x = bv(v, s.n)
            if s.n == 1:
                x = z3.SignExt(31, x)
            return z3.simplify(z3.fpSignedToFP(RNE, x, so(d)))
        if op == 'uitofp':
            x = bv(v, s.n)
            if s.n == 1:
                x = z3.ZeroExt(31, x)
            return z3.simplify(z3.fpToFP(RNE, x, so(d), False) if False else z3.fpUnsignedToFP(RNE, x, so(d)))
        if op in ('fptosi', 'fptoui'):
            # out of range is undefined in C++; on this target cvttss2si yields the "indefinite" value
            fn = z3.Function('%s_%s_%d' % (op, s.k, d.n), so(s), z3.BitVecSort(d.n))
            inr = self.models.fp_in_range(v, so(s), d.n, op == 'fptosi')
            r = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(d.n)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(d.n))
            return norm(z3.If(inr, r, fn(v)))
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, regs, ins):
        mod = fr.fn.mod
        callee, args, nd, uw = ins.a
        cv = self.val(st, regs, callee, PTR, mod)
        avals = [self.val(st, regs, a, t, mod) for t, a, at in args]
        for k, (t, a, at) in enumerate(args):
            if 'byval' in at:
                avals[k] = self.models.byval_copy(self, st, avals[k], at['byval'])
        cur = self.cur
        if isinstance(cv, VFn):
            rs = self.models.virtual_call(self, st, cv, avals, ins)
        elif isinstance(cv, FnP):
            rs = self.call(st, cv.name, avals, cv.mod or mod, ins)
        elif isinstance(cv, Ptr) and cv.base is None:
            self.fail(st, 'memory', 'call through a null function pointer')
            return []
        else:
            raise Unsupported('call through %r' % (cv,))
        self.cur = cur
        return rs

    def abstract(self, d):
        """is this a member function of a library class whose representation is abstract here?"""
        return ABSTRACT.match(self.models.parse_dem(d).key) is not None

    def call(self, st, name, args, mod=None, ins=None):
        self.tick()
        key = (name, mod.path if mod is not None and mod.fns.get(name) is not None and 'internal' in (mod.fns[name].text or 'x')[:40] else None)
        h = self.model_cache.get(name)
        if h is None:
            h = self.models.lookup(self, name)
            self.model_cache[name] = h or 0
        if h:
            self.models_used[h.__name__] = self.models_used.get(h.__name__, 0) + 1
            r = h(self, st, args, name, ins)
            if r is not NotImplemented:
                return r
        d = demangled(self.prog, name)
        c = self.contracts.get(d) or self.contracts.get(d.split('(')[0])
        if c is not None:
            r = c(self, st, args, name)
            if r is not NotImplemented:
                self.used_contracts[d] = self.used_contracts.get(d, 0) + 1
                return r
        f = self.prog.find_fn(name, mod)
        if f is None:
            raise Unsupported('no contract for external function %s' % d[:200])
        if 'dingodb' in name[:40]:
            self.inlined.add(d)
        if self.abstract(d):
            # the representation of these library classes is abstract here: their code cannot be executed on it
            raise Unsupported('no contract for library function %s' % d[:200])
        mem0 = dict(st.mem)
        npc = len(st.pc)
        nev = len(st.events)
        rs = self.call_fn(st, f, args)
        if len(rs) > 1:
            rs = self.merge(rs, mem0, npc, nev, f)
        return rs

    def merge(self, rs, mem0, npc, nev, fn):
        """join the normal returns of a call that changed nothing but its own locals"""
        ok = [r for r in rs if r[1] == 'ret']
        if len(ok) < 2:
            return rs
        rb = fn.ret.body()
        if rb.k not in ('i', 'float', 'double', 'void', 'ptr'):
            return rs
        for s, _, v in ok:
            if len(s.events) != nev or len(s.facts) != len(ok[0][0].facts) or s.hfreed != ok[0][0].hfreed:
                return rs
            for i, o in mem0.items():
                if s.mem.get(i) is not o:
                    return rs
            if len(s.mem) != len(mem0) and any(i not in mem0 and self.base_mem.get(i) is not s.mem[i] for i in s.mem):
                return rs
            if s.ghost != ok[0][0].ghost and set(s.ghost) != set(ok[0][0].ghost):
                return rs
        try:
            conds = []
            val = None
            for s, _, v in reversed(ok):
                c = z3.And(s.pc[npc:]) if len(s.pc) > npc else z3.BoolVal(True)
                conds.append(c)
                if val is None:
                    val = v
                elif rb.k != 'void':
                    val = val_ite(c, v, val, rb.n if rb.k == 'i' else None)
        except Unsupported:
            return rs
        s = ok[0][0].fork()
        s.pc = s.pc[:npc] + [z3.simplify(z3.Or(conds))]
        if z3.is_true(s.pc[-1]):
            s.pc.pop()
        for o in ok[1:]:
            for i, ob in o[0].mem.items():
                s.mem.setdefault(i, ob)
        return [r for r in rs if r[1] != 'ret'] + [(s, 'ret', val)]

    # ------------------------------------------------------------ set-up
    def initial_state(self):
        """run the static initialisers of every translation unit"""
        st = State()
        for m in self.prog.mods:
            for c in m.ctors:
                f = m.fns[c]
                outs = self.call_fn(st, f, [])
                if len(outs) != 1 or outs[0][1] != 'ret':
                    raise Unsupported('static initialiser ' + c)
                st = outs[0][0]
        for i, o in st.mem.items():
            if o.kind == 'global' or o.kind == 'heap':
                self.base_mem[i] = o
        return st

    def throw(self, st, ti, msg=''):
        p = self.new_obj(st, 'exc', None, 'exception ' + ti, 'exc')
        v = (p, ti)
        st.ghost[('exc', p.base)] = v
        return (st, 'exc', v)


_hasfp = {}


def has_fp(f):
    i = f.get_id()
    r = _hasfp.get(i)
    if r is not None and r[1].eq(f):
        return r[0]
    seen = set()
    st = [f]
    res = False
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_fp(e):
            res = True
            break
        st.extend(e.children())
    _hasfp[i] = (res, f)
    return res


_fpabs = {}


def abstract_fp(fs):
    """replace every predicate over floating-point terms by an unconstrained proposition, and every
    floating-point operation by an unconstrained value"""
    pairs, seen = {}, set()
    st = list(fs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen or z3.is_quantifier(e):
            continue
        seen.add(i)
        if z3.is_bool(e) and any(z3.is_fp(c) for c in e.children()) and not (e.num_args() == 3 and z3.is_bool(e.arg(0))):
            pairs[i] = e
            continue
        if z3.is_fp(e) and e.decl().kind() != z3.Z3_OP_UNINTERPRETED and not z3.is_fp_value(e):
            pairs[i] = e
            continue
        if z3.is_bv(e) and any(z3.is_fp(c) for c in e.children()) and e.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            pairs[i] = e
            continue
        st.extend(e.children())
    if not pairs:
        return fs
    sub = []
    for i, e in pairs.items():
        v = _fpabs.get(i)
        if v is None or not v[0].eq(e):
            v = _fpabs[i] = (e, fresh('fpabs', e.sort()))
        sub.append(v)
    return [z3.substitute(f, *sub) for f in fs]


def fp_leaf(fs):
    """the only floating-point unknown occurring in the formulas, or None"""
    seen = set()
    leaf = None
    st = list(fs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen or z3.is_quantifier(e):
            continue
        seen.add(i)
        if z3.is_fp(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if leaf is not None:
                return None
            leaf = e
        st.extend(e.children())
    return leaf


def conjuncts(f):
    if z3.is_and(f):
        return [y for x in f.children() for y in conjuncts(x)]
    if z3.is_not(f) and z3.is_or(f.arg(0)):
        return [y for x in f.arg(0).children() for y in conjuncts(z3.simplify(z3.Not(x)))]
    return [f]


def occurs(f, x):
    seen = set()
    st = [f]
    i = x.get_id()
    while st:
        e = st.pop()
        k = e.get_id()
        if k == i:
            return True
        if k in seen:
            continue
        seen.add(k)
        st.extend(e.children())
    return False


from loops import Junk, JunkRead


ARITH = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}


def add_off(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    return Lin.of(a).add(b)


def zero_of(t):
    b = t.body()
    if b.k == 'ptr':
        return NULL
    if b.k == 'i':
        return 0
    if b.k == 'double':
        return z3.FPVal(0.0, F64)
    if b.k == 'float':
        return z3.FPVal(0.0, F32)
    if b.k == 'fp80':
        return z3.FPVal(0.0, FP80S)
    return UNDEF


def leaves(t, off=0):
    b = t.body()
    if b.k == 'st':
        for e, o in zip(b.elems, b.offs):
            yield from leaves(e, off + o)
    elif b.k == 'arr':
        for j in range(b.n):
            yield from leaves(b.elems[0], off + j * b.elems[0].size)
    else:
        yield off, b

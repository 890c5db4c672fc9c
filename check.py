#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /verif/properties.jsonl.

Builds the LLVM IR of /repo's current working tree, generates and discharges the proof obligations
of every unit (function contracts) the property depends on, replays counterexamples against the
real library, and cross-checks the trusted contracts natively.  Exit 0: held; 1: VIOLATION."""
import sys, os, time, json, tempfile, shutil, threading, traceback, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vcg'))
import build

TRUSTED = [
    'clang 18 front end (C++ to unoptimised LLVM IR) and the data layout it reports',
    'z3 (python binding %s); cvc5 1.1.2 where z3 answers unknown',
    'the semantics of LLVM IR instructions encoded in vcg/engine.py (signed overflow treated as wrap-around)',
    'the contracts of libstdc++/libc functions written in vcg/models.py (listed per run under std_contracts)',
]
ASSUME = [
    'heap allocation does not fail; buffers, strings and rows are shorter than 2^31 bytes/elements',
    'partial correctness: termination of loops is not proved',
    'variable, group-key and aggregate column indices lie inside the row (duty of the caller, see properties C12, C21)',
    'single-threaded use of one evaluator (the library documents no thread safety)',
]


def worker(prog, units, order, counter, q, want, deadline, seed):
    import env as E, engine
    from vals import Unsupported, Budget
    import z3
    z3.set_param('smt.random_seed', 7)
    e0 = E.Env(prog)
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(order):
            break
        u = units[order[i]]
        t0 = time.time()
        ex = e0.ex
        ex.stats.__init__()
        ex.failures, ex.undecided = [], []
        ex.fail_keys = set()
        ex.inlined, ex.used_contracts, ex.models_used = set(), {}, {}
        ex.contracts, ex.vhandlers = {}, {}
        ex.cache = {}
        ex.quiet = 0
        ex.unit = u.id
        ex.deadline = min(deadline, time.time() + u_limit(u))
        e0.want = want(u)
        e0.reach = {}
        err = None
        try:
            u.fn(e0)
        except Unsupported as x:
            err = 'unsupported: %s (%s)' % (x, ex.where())
        except Budget as x:
            err = 'budget: %s (%s)' % (x, ex.where())
        except Exception as x:
            err = 'internal: %s %s' % (type(x).__name__, traceback.format_exc()[-700:])
        fs = []
        for f in ex.failures:
            rec = []
            if u.recipes:
                try:
                    rec = u.recipes(f)
                except Exception as x:
                    rec = []
            fs.append(dict(kind=f.kind, msg=f.msg, where=f.where, unit=u.id, recipes=rec, model=str(f.model)[:3000] if f.model is not None else None))
        st = ex.stats
        if not err and not ex.failures and (e0.vacuous() or not st.obl):
            err = 'vacuous: no outcome with satisfiable assumptions for %s' % (', '.join(e0.vacuous()) or 'the whole unit')
        q.put(dict(unit=u.id, error=err, entries={k: v[1] for k, v in e0.reach.items()}, cvc5=st.cvc5, failures=fs, undecided=[list(map(str, x)) for x in ex.undecided], obl=st.obl, disch=st.disch,
                   queries=st.queries, solver_s=st.solver_s, kinds=dict(st.kinds), trivial=st.trivial, functions=sorted(ex.inlined),
                   models=dict(ex.models_used), contracts=dict(ex.used_contracts), t=time.time() - t0, nfail=len(ex.failures)))
    q.put(None)


def u_limit(u):
    return max(120, 6 * u.weight)


def run_units(prog, units, want, jobs, deadline, seed):
    order = sorted(range(len(units)), key=lambda i: -units[i].weight)
    ctx = mp.get_context('fork')
    counter = ctx.Value('i', 0)
    q = ctx.Queue()
    jobs = max(1, min(jobs, len(units)))
    ps = [ctx.Process(target=worker, args=(prog, units, order, counter, q, want, deadline, seed), daemon=True) for _ in range(jobs)]
    [p.start() for p in ps]
    res, left = [], jobs
    while left:
        try:
            r = q.get(timeout=5)
        except Exception:
            if time.time() > deadline + 60 or not any(p.is_alive() for p in ps):
                break
            continue
        if r is None:
            left -= 1
        else:
            res.append(r)
    for p in ps:
        if p.is_alive():
            p.terminate()
    got = {r['unit'] for r in res}
    for u in units:
        if u.id not in got:
            res.append(dict(unit=u.id, error='no answer (time or memory)', failures=[], undecided=[], obl=0, disch=0, queries=0, solver_s=0, kinds={},
                            trivial=0, functions=[], models={}, contracts={}, t=0, nfail=0, entries={}, cvc5=0))
    return res


def replay_recipes(drv, recipes, seed):
    """-> first natively failing case (line, output, message) or None"""
    import batt
    b = batt.Bat(drv, seed)
    for r in recipes:
        if r[0] == 'expr':
            t = [tuple(x) for x in r[2]]
            kinds = [('i' if v == ('n',) else v[0]) for v in t]
            bs = bytes.fromhex(r[1])
            b.expr(b''.join(batt.var(k, i) for i, k in enumerate(kinds)) + bs, t)
            b.expr(b''.join(batt.enc_const(v, 'i') for v in t) + bs, t or [('n',)])
        elif r[0] == 'prog':
            b.expr(bytes.fromhex(r[1]), [tuple(x) for x in r[2]])
        elif r[0] == 'rel':
            batt.rel_case(b, bytes.fromhex(r[1]), [[tuple(x) for x in t] for t in r[2]])
        elif r[0] == 'line':
            b.exact(r[1], r[2])
        elif r[0] == 'focus':
            for bs, k in batt.op_shapes(lambda op: True):
                if bs.hex() == r[1]:
                    batt.b_op(b, bs, k, 3000)
        elif r[0] == 'battery':
            for f in batt.TABLE[r[1]]:
                f(b, 'quick')
    b.run(4)
    return (b.bad[0] if b.bad else None), b.n


def main():
    t0 = time.time()
    a = sys.argv[1:]
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    for f in os.listdir(rpdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rpdir, f))
    scratch = tempfile.mkdtemp(prefix='vcg-%s-' % prop)
    try:
        rc = decide(prop, tier, seed, scratch, evdir, rpdir, t0)
    except build.BuildError as e:
        # the tree does not build: nothing was decided
        print('ERROR: ' + str(e))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, scratch, evdir, rpdir, t0):
    limit = 600 if tier == 'quick' else 780
    nat = {}

    def native():
        try:
            nat['drv'] = build.build_native(os.path.join(scratch, 'nat'), 4)
            import batt
            nat['bat'] = batt.battery(nat['drv'], prop, tier, seed, 2)
        except build.BuildError as e:
            nat['err'] = str(e)
        except Exception as e:
            nat['err'] = traceback.format_exc()[-800:]
    files, missing = build.build_ir(os.path.join(scratch, 'ir'), 8)
    th = threading.Thread(target=native)
    import irparse
    prog = irparse.Program(files)
    import units as U
    sel = [u for u in U.UNITS if prop in u.props]
    want = {u.id: {k for k, ps in u.kinds.items() if prop in ps} for u in sel}
    full = tier == 'thorough'
    # fork the provers before starting threads
    holder = {}
    res_q = mp.get_context('fork')
    th_started = False
    import z3
    results = []
    order_deadline = t0 + limit
    if sel:
        th.start()
        results = run_units(prog, sel, (lambda u: None) if full else (lambda u: want[u.id]), 8, order_deadline, seed)
    else:
        th.start()
    th.join()
    known = load_known(prop)
    viol, seen = [], set()
    undecided, errors = [], []
    byid = {u.id: u for u in sel}
    for r in results:
        if r['error']:
            errors.append('%s: %s' % (r['unit'], r['error']))
        undecided += ['%s: %s' % (r['unit'], ' '.join(x[1:])) for x in r['undecided']]
        for f in r['failures']:
            if f['kind'] == 'invariant':
                undecided.append('%s: inferred loop invariant not established: %s' % (r['unit'], f['msg']))
                continue
            if prop in byid[r['unit']].kinds.get(f['kind'], []):
                viol.append(f)
    for n, e in missing:
        errors.append('entry points %s: the public interface they call does not compile any more' % n)
    if 'err' in nat:
        errors.append('native driver: ' + nat['err'])
    drv = nat.get('drv')
    bat = nat.get('bat')
    nrep = 0
    lines = []
    # concrete replays
    confirmed, unconfirmed = [], []
    for f in viol[:12]:
        hit = None
        if drv and f['recipes'] and time.time() < t0 + limit + 120:
            hit, k = replay_recipes(drv, f['recipes'], seed)
            nrep += k
        (confirmed if hit else unconfirmed).append((f, hit))
    natbad = bat.bad if bat else []
    n = 0

    def rp(data):
        nonlocal n
        n += 1
        p = os.path.join(rpdir, '%s-%d.json' % (prop, n))
        json.dump(data, open(p, 'w'), indent=1, default=str)
        return p
    for f, hit in confirmed[:5]:
        p = rp(dict(property=prop, obligation=f, script=hit[0], output=hit[1], problem=hit[2],
                    how='build native/driver.cc with /repo/src and feed it the script line'))
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
        print('failed obligation [%s] %s: %s at %s; replayed: %s' % (f['unit'], f['kind'], f['msg'], f['where'], hit[2]))
    for x in natbad[:3]:
        if known_case(known, x):
            continue
        p = rp(dict(property=prop, obligation=[f for f, _ in unconfirmed][:3], script=x[0], output=x[1], problem=x[2],
                    how='build native/driver.cc with /repo/src and feed it the script line'))
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
        print('native run: %s' % (x[2],))
    if not lines:
        for f, _ in unconfirmed[:3]:
            p = rp(dict(property=prop, obligation=f, note='the verifier reports this obligation as not valid; no failing input was found by replay'))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
            print('failed obligation [%s] %s: %s at %s' % (f['unit'], f['kind'], f['msg'], f['where']))
    tot = lambda k: sum(r[k] for r in results)
    funs, ents, mods, cons, kinds = set(), set(), {}, {}, {}
    for r in results:
        funs |= set(r['functions'])
        ents |= set(r['entries'])
        for k, v in r['models'].items():
            mods[k] = mods.get(k, 0) + v
        for k, v in r['contracts'].items():
            cons[k] = cons.get(k, 0) + v
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
    import z3
    cov = dict(
        obligations=tot('obl'), discharged=tot('disch'), discharged_by_simplification=tot('trivial'), solver='z3 ' + z3.get_version_string(),
        solver_backends={'z3 ' + z3.get_version_string(): tot('queries') - tot('cvc5'), 'cvc5 (queries z3 left unknown)': tot('cvc5')},
        solver_queries=tot('queries'), solver_seconds=round(tot('solver_s'), 2),
        obligations_by_kind=kinds,
        units=[dict(id=r['unit'], obligations=r['obl'], discharged=r['disch'], seconds=round(r['t'], 2), error=r['error']) for r in sorted(results, key=lambda r: r['unit'])],
        units_total=len(sel), units_complete=sum(1 for r in results if not r['error'] and not r['undecided'] and not r['nfail']),
        complete=not errors and not undecided,
        functions_executed_inline=sorted(funs),
        functions_under_contract=sorted(ents | set(cons)),
        vacuity_guard='every entry point of every complete unit has an outcome whose assumptions are satisfiable',
        std_contracts=mods, assumed_callee_contracts=cons,
        undecided=undecided, not_analysed=errors,
        checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier),
        trusted_base=[t % z3.get_version_string() if '%s' in t else t for t in TRUSTED],
        native_cross_check=dict(label='bounded, not counted as proved', cases=bat.n if bat else 0, mismatches=len(natbad), replays=nrep),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if sel else 'exploration', coverage=cov, assumptions=ASSUME,
              wall_s=round(time.time() - t0, 2), violations=len(lines))
    if not sel:
        cov.update(evaluations=bat.n if bat else 0, distinct_nontrivial=bat.n if bat else 0, rule='native differential cases', samples=[])
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    for x in errors[:10]:
        print('UNDECIDED (not analysed): ' + x[:300])
    for x in undecided[:10]:
        print('UNDECIDED: ' + x[:300])
    print('%s: %d units, %d obligations, %d discharged, %.1fs solver; %d native cases; %.1fs' % (
        prop, len(sel), cov['obligations'], cov['discharged'], cov['solver_seconds'], cov['native_cross_check']['cases'], time.time() - t0))
    for l in known:
        if l.startswith('KNOWN-FINDING'):
            print(l)
    for l in lines:
        print(l)
    return 1 if lines else 0


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(l)
    return out


def known_case(known, x):
    return False


if __name__ == '__main__':
    main()

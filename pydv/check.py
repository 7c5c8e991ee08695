"""python -m pydv.check <property> [--tier quick|thorough]     decide one property on /repo's current source
   python -m pydv.check --replay FILE                             run a recorded failing input again"""
import os, sys, time, json, pickle, signal, traceback, random, hashlib, ast, inspect, types, importlib, pkgutil, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import boot

def load():
    q = boot.load_repo()
    import quantities.umath, quantities.constants, quantities.markup, quantities.registry   # noqa
    from . import core, sym, conc, specs, registry, models, interp, cases
    for m in sorted(x.name for x in pkgutil.iter_modules(cases.__path__)):
        importlib.import_module('pydv.cases.' + m)
    return q

TIERS = {'quick': dict(runs=120000, lo=60, hi=2500, search=3000, search_s=40, sym_s=60, smt_ms=4000, paths=600, total=560),
         'thorough': dict(runs=1600000, lo=800, hi=40000, search=20000, search_s=90, sym_s=200, smt_ms=15000, paths=3000, total=780)}

def seed_of(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:12], 16)

def literals(names):
    """numeric constants in the source of the functions that were verified: boundary values for generated inputs"""
    from . import interp
    out = set()
    for f in names:
        try: n = interp.node_of(f)
        except Exception: continue
        for x in ast.walk(n):
            if isinstance(x, ast.Constant) and type(x.value) in (int, float) and abs(x.value) < 1e12: out.add(float(x.value))
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant) and type(x.operand.value) in (int, float): out.add(-float(x.operand.value))
    return sorted(out - {0.0, 1.0, -1.0, 2.0})

def model_hints(m):
    from .core import z3
    out = []
    if m is None: return out
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_rational_value(v): out.append(float(v.as_fraction()))
                elif z3.is_int_value(v): out.append(float(v.as_long()))
                elif z3.is_algebraic_value(v): out.append(float(v.approx(12).as_fraction()))
    except Exception: pass
    return [x for x in out if abs(x) < 1e12][:40]

def symbolic(c, T, deadline):
    from . import core, sym, specs, models, interp
    t = time.time()
    e = core.Engine(timeout_ms=T['smt_ms'], max_paths=T['paths'], deadline=min(deadline, t + T['sym_s']))
    used, executed, funcs, bodies = set(), set(), set(), set()
    err = ''
    models.TRUSTED.clear()
    def go():
        h = sym.SymH(e, specs.TABLE, c.skip)
        try: c.run(h)
        finally:
            bodies.update(set(c.skip) - set(h.I.skip)); used.update(h.I.used); executed.update(h.I.executed); funcs.update(getattr(h.I, 'functions', ()))
    try: e.explore(go)
    except core.Unsupported as ex: err = 'outside the verified subset: %s' % (str(ex)[:200],)
    except RecursionError: err = 'recursion limit of the interpreter'
    except Exception as ex: err = 'engine: ' + ' | '.join(traceback.format_exc().strip().split('\n')[-3:])[:400]
    if not err and set(c.skip) - bodies: err = 'the body of %s was not reached' % ', '.join(sorted(set(c.skip) - bodies))
    obs = []
    for o in e.obligations:
        obs.append(dict(name=o.name, status=o.status, time=round(o.time, 4), backend=o.backend, opaque=o.opaque, model=str(o.model)[:3000] if o.model is not None else '',
                        reason=o.reason, hints=model_hints(o.model)))
    return dict(obligations=obs, err=err, paths=e.paths, live=e.live_paths, smt_s=round(e.smt_time, 3), smt_calls=e.smt_calls, used=sorted(used), executed=sorted(executed),
                trusted=sorted(models.TRUSTED), assumed=sorted(e.assumptions), lits=literals(funcs), wall=round(time.time() - t, 3))

class Hang(BaseException): pass
def _alarm(*a): raise Hang()

def concrete(q, c, n, seed, hints, deadline, stop=1, first=0):
    from . import conc
    cnt = dict(ok=0, skip=0, failed=0, error=0)
    fails, errs, checked, sigs = [], [], 0, set()
    samples = []
    signal.signal(signal.SIGALRM, _alarm)
    t = time.time()
    for i in range(first, first + n):
        if time.time() > deadline: break
        s = seed_of(seed, c.name, i)
        h = None
        signal.alarm(40)
        try:
            st, h, msg = conc.run_case(q, c, s, hints)
        except Hang: st, msg = 'failed', 'the call did not return within 40 s'
        except RecursionError as ex: st, msg = 'error', 'RecursionError'
        except MemoryError as ex: st, msg = 'error', 'MemoryError'
        except Exception as ex:
            msg = ' | '.join(traceback.format_exc().strip().split('\n')[-5:])[:600]
            # a result that the contract cannot even look at is not what was promised; a private name that is gone is another matter
            private = isinstance(ex, (AttributeError, ImportError, KeyError)) and '_' in str(ex)
            st, msg = ('error', msg) if private else ('failed', 'the result cannot be examined: %s' % msg)
        finally: signal.alarm(0)
        cnt[st] += 1
        if h is not None and hasattr(h, 'checked'):
            checked += h.checked
            if st == 'ok':
                if len(sigs) < 20000: sigs.add(hash(repr(h.inputs)))
                if len(samples) < 1 and h.inputs: samples.append('%s: %s' % (c.name, '; '.join('%s=%s' % x for x in h.inputs)[:300]))
        if st == 'failed':
            fails.append(dict(seed=s, message=msg, inputs=[list(x) for x in h.inputs] if h else [], hints=list(hints)))
            if len(fails) >= stop: break
        if st == 'error' and len(errs) < 2: errs.append(dict(seed=s, message=msg, inputs=[list(x) for x in h.inputs] if h else []))
    return dict(counts=cnt, fails=fails, errors=errs, checked=checked, distinct=len(sigs), samples=samples, wall=round(time.time() - t, 3))

def task(q, c, tier, seed, n, deadline, known):
    T = TIERS[tier]
    r = dict(case=c.name, props=c.props, funcs=c.funcs, core=c.core)
    hints = []
    if c.symbolic:
        s = r['sym'] = symbolic(c, T, deadline)
        hints = s['lits'][:20]
    if c.concrete:
        t0 = time.time()
        r['conc'] = concrete(q, c, n if not c.runs else max(1, int(c.runs * (1 if tier == 'quick' else 8))), seed, hints, deadline, stop=40 if known else 1)
        bad = [o for o in r.get('sym', {}).get('obligations', ()) if o['status'] == 'refuted']
        if bad and not r['conc']['fails']:
            hs = hints + [x for o in bad for x in o['hints']]
            e = concrete(q, c, T['search'], seed + 1, hs[:60], min(deadline, time.time() + T['search_s']))
            r['conc']['fails'] += e['fails']
            for k in e['counts']: r['conc']['counts'][k] += e['counts'][k]
            r['conc']['checked'] += e['checked']
            r['searched'] = sum(e['counts'].values())
    return r

def run_tasks(jobs, nproc, deadline):
    """each job in a forked child of its own; returns name -> result"""
    tmp = tempfile.mkdtemp(prefix='pydv_run_')
    out, running, todo = {}, {}, list(jobs)
    try:
        while todo or running:
            while todo and len(running) < nproc:
                name, fn = todo.pop(0)
                f = os.path.join(tmp, 'r%d' % len(out) + '_%d' % len(todo))
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        dn = os.open(os.devnull, os.O_RDWR)
                        os.dup2(dn, 0); os.dup2(dn, 1); os.dup2(dn, 2)
                        try: import resource; resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        except Exception: pass
                        try: res = fn()
                        except BaseException as ex: res = dict(crash=' | '.join(traceback.format_exc().strip().split('\n')[-5:])[:800])
                        with open(f + '.tmp', 'wb') as w: pickle.dump(res, w)
                        os.rename(f + '.tmp', f)
                    except BaseException: code = 1
                    os._exit(code)
                running[pid] = (name, f, time.time())
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (name, f, t0) in list(running.items()):
                    if now > deadline + 30:
                        try: os.kill(p, signal.SIGKILL)
                        except OSError: pass
                time.sleep(0.002)
                continue
            if pid not in running: continue
            name, f, t0 = running.pop(pid)
            if os.path.exists(f):
                with open(f, 'rb') as r: out[name] = pickle.load(r)
                os.remove(f)
            else: out[name] = dict(crash='worker ended without a result')
    finally: shutil.rmtree(tmp, True)
    return out

def known_findings():
    f = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(f))['findings'] if os.path.exists(f) else []

def is_known(known, case, msg, inputs):
    import re
    txt = '; '.join('%s=%s' % tuple(x) for x in inputs)
    for k in known:
        if re.fullmatch(k['case'], case) and re.search(k['message'], msg) and re.search(k.get('inputs', ''), txt): return k
    return None

def write_replay(prop, n, d):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    p = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, n))
    d['replay_cmd'] = 'cd %s && %s -m pydv.check --replay %s' % (VERIF, sys.executable, p)
    with open(p, 'w') as f: json.dump(d, f, indent=1, default=str)
    return p

def main(prop, tier, seed):
    t0 = time.time()
    T = TIERS[tier]
    deadline = t0 + T['total']
    try: q = load()
    except Exception:
        p = write_replay(prop, 0, dict(property=prop, what='import quantities fails', traceback=traceback.format_exc()))
        print('VIOLATION property=%s replay=%s' % (prop, p)); return 1
    from . import registry, specs, conc
    try: conc.pool(q)
    except Exception: pass
    own = [c for c in registry.CASES if prop in c.props]
    ownn = {c.name for c in own}
    bycore = {}
    for c in registry.CASES:
        if c.core:
            for f in c.skip: bycore.setdefault(f, []).append(c)
    allk = known_findings()
    known = [k for k in allk if k['property'] == prop and k.get('status') == 'known']
    n = int(min(T['hi'], max(T['lo'], T['runs'] // max(1, sum(1 for c in own if c.concrete)))))
    if os.environ.get('PYDV_RUNS'): n = int(os.environ['PYDV_RUNS'])  # development only (tools/mutfull.py)
    mk = lambda c: (c.name, lambda: task(q, c, tier, seed, n, deadline, bool(known)))
    nproc = min(8, os.cpu_count() or 1)
    order = sorted(own, key=lambda c: -c.weight)
    results = run_tasks([mk(c) for c in order], nproc, deadline)
    # contracts used at call sites: their proofs are part of this check
    done = set()
    while True:
        used = {f for r in results.values() for f in r.get('sym', {}).get('used', ())}
        more = {c.name: c for f in used for c in bycore.get(f, ()) if c.name not in results}
        if not more: break
        results.update(run_tasks([mk(c) for c in more.values()], nproc, deadline))
    violations, notes = [], []
    nkn = {}
    fragile = []
    for name, r in results.items():
        mine = name in ownn
        if 'crash' in r: notes.append(dict(case=name, not_decided=r['crash'])); continue
        cf = r.get('conc', {})
        for f in cf.get('fails', ()):
            k = is_known(known, name, f['message'], f['inputs'])
            if k: nkn[k['id']] = k; continue
            if mine: violations.append((name, 'input', f, r))
            else: fragile.append(name)
            break
        else:
            bad = [o for o in r.get('sym', {}).get('obligations', ()) if o['status'] == 'refuted']
            if bad and not nkn:
                hard = [o for o in bad if not o['opaque']]
                if mine and hard: violations.append((name, 'proof', hard, r))
                elif mine: notes.append(dict(case=name, not_decided='refuted under uninterpreted functions, not reproduced: %s' % bad[0]['name']))
                else: fragile.append(name)
    # ---- evidence
    obs = [(nm, o) for nm, r in results.items() for o in r.get('sym', {}).get('obligations', ())]
    proved = [1 for _, o in obs if o['status'] == 'proved']
    cases_proved, bounded = [], []
    for nm, r in sorted(results.items()):
        s = r.get('sym')
        if s and not s['err'] and s['obligations'] and s['live'] > 0 and all(o['status'] == 'proved' for o in s['obligations']): cases_proved.append(nm)
        else:
            why = 'crash' if 'crash' in r else 'concrete only' if not s else s['err'] or ('no obligation' if not s['obligations'] else ', '.join(sorted({'%s: %s' % (o['status'], o['name']) for o in s['obligations'] if o['status'] != 'proved'})) or 'no feasible path')
            bounded.append(dict(case=nm, reason=why[:240], runs=sum(r.get('conc', {}).get('counts', {}).values())))
    back = {}
    for _, o in obs:
        if o['status'] == 'proved': back[o['backend']] = back.get(o['backend'], 0) + 1
    conts = sorted({f for r in results.values() if 'crash' not in r for f in r['funcs']})
    usedc = sorted({f for r in results.values() for f in r.get('sym', {}).get('used', ())})
    trusted = sorted({t for r in results.values() for t in r.get('sym', {}).get('trusted', ())})
    assumed = sorted({t for r in results.values() for t in r.get('sym', {}).get('assumed', ())})
    counts = {}
    for r in results.values():
        for k, v in r.get('conc', {}).get('counts', {}).items(): counts[k] = counts.get(k, 0) + v
    errors = [dict(case=nm, **e) for nm, r in results.items() for e in r.get('conc', {}).get('errors', ())]
    unproved_contracts = [f for f in usedc if f not in bycore]
    samples = [s for r in list(results.values())[:400:7] for s in r.get('conc', {}).get('samples', ())][:6]
    ev = dict(property=prop, tier=tier, seed=seed, level=level_of(prop), wall_s=round(time.time() - t0, 2), violations=len(violations),
        coverage=dict(obligations=len(obs), discharged=len(proved), checker_cmd='%s -m pydv.check %s --tier %s' % (sys.executable, prop, tier),
            trusted_base=['pydv: path-wise verification-condition generator over the Python AST of the live functions of %s' % boot.REPO, 'z3 %s' % z3v()] + trusted,
            discharged_by=back, contract_cases=len(results), contract_cases_all_discharged=len(cases_proved), functions_under_contract=conts,
            functions_interpreted=sorted({f for r in results.values() for f in r.get('sym', {}).get('executed', ())}),
            callee_contracts_used=usedc, callee_contracts_without_proof=unproved_contracts,
            solver_s=round(sum(r.get('sym', {}).get('smt_s', 0) for r in results.values()), 2), solver_calls=sum(r.get('sym', {}).get('smt_calls', 0) for r in results.values()),
            paths=sum(r.get('sym', {}).get('paths', 0) for r in results.values()),
            bounded_cases=bounded, bounded_note='cases listed under bounded_cases are not proved: they are checked by running the contract on the real code on generated inputs only',
            evaluations=counts.get('ok', 0) + counts.get('failed', 0), distinct_nontrivial=sum(r.get('conc', {}).get('distinct', 0) for r in results.values()),
            rule='every contract case is also executed on the real package with generated inputs (cross-check of the trusted models, witness search); a run counts when its precondition holds; distinct by the description of its inputs',
            skipped_runs=counts.get('skip', 0), contract_checks_evaluated=sum(r.get('conc', {}).get('checked', 0) for r in results.values()), samples=samples, harness_errors=errors[:10],
            not_decided=notes),
        assumptions=ASSUMPTIONS + assumed + ['contract assumed, not proved: %s' % f for f in unproved_contracts])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: %d cases, %d/%d obligations discharged, %d cases bounded only, %d concrete runs, %.1f s' % (prop, len(results), len(proved), len(obs), len(bounded), sum(counts.values()), time.time() - t0))
    if '--list' in sys.argv:
        for b in bounded: print('  bounded:', b)
        for b in errors[:10]: print('  error:', str(b)[:600])
    if fragile: print('note: contracts of other properties fail, see their checks: %s' % ', '.join(sorted(fragile)[:8]))
    if not obs and not counts.get('ok'):
        p = write_replay(prop, 0, dict(property=prop, what='nothing could be checked', notes=notes, errors=errors))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p)); return 1
    violations.sort(key=lambda v: v[1] != 'input')
    for i, (name, kind, d, r) in enumerate(violations[:6]):
        if kind == 'input':
            bad = [o['name'] for o in r.get('sym', {}).get('obligations', ()) if o['status'] == 'refuted']
            p = write_replay(prop, i, dict(property=prop, case=name, kind='failing input', failed=d['message'], inputs=d['inputs'], seed=d['seed'], hints=d['hints'], failed_obligations=sorted(set(bad)),
                        functions=r['funcs']))
            print('  %s: %s   on %s' % (name, d['message'][:300], '; '.join('%s=%s' % tuple(x) for x in d['inputs'])[:400]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        else:
            p = write_replay(prop, i, dict(property=prop, case=name, kind='failed obligation', obligations=d, searched=r.get('searched', 0), functions=r['funcs']))
            print('  %s: obligation "%s" fails; %d inputs tried' % (name, d[0]['name'], r.get('searched', 0)))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    return 1 if violations else 0

ASSUMPTIONS = ['magnitudes are mathematical reals: rounding, overflow and nan are not modelled by the proofs (the concrete runs use real floating point with error bounds)',
    'array contents are one generic element, shapes are symbolic: numpy applies a ufunc element by element',
    'assert statements are executed (python without -O)', 'single-threaded use']

def z3v():
    from .core import z3
    return z3.get_version_string()

def level_of(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
            if c.get('property') == prop or c.get('id') == prop: return c.get('level', 'proof')
    except Exception: pass
    return 'proof'

def replay(path):
    d = json.load(open(path))
    q = load()
    from . import registry, conc
    if 'case' not in d or 'seed' not in d:
        print(json.dumps(d, indent=1)[:3000]); return 1
    conc.pool(q)
    for c in registry.CASES:
        if c.name == d['case']:
            st, h, msg = conc.run_case(q, c, d['seed'], d.get('hints', ()))
            print('%s: %s %s' % (c.name, st, msg))
            for n, v in h.inputs: print('   %s = %s' % (n, v))
            return 1 if st == 'failed' else 0
    print('no such case'); return 1

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--replay': sys.exit(replay(a[1]))
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(main(a[0], tier if tier in TIERS else 'quick', seed))

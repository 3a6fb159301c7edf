#!/usr/bin/env python3-vt
"""Check one property: discharge every obligation of its contracts from the current source of /repo, then report.
usage: check.py ID [--thorough] | check.py --replay FILE"""
import os, sys, time, json, tempfile, shutil, importlib, random, traceback, multiprocessing as mp, resource, signal, pickle

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVERIF_REPO', '/repo')
SCRATCH = tempfile.mkdtemp(prefix='pyverif_')
os.environ['HOME'] = SCRATCH
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
sys.path.insert(0, REPO); sys.path.insert(0, HERE)
os.chdir(SCRATCH)

TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv: TIER = 'thorough'
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMIT = 700 if TIER == 'quick' else 3400      # wall clock for the deductive part
NWORK = max(2, min(8, os.cpu_count() or 2))


import logging; logging.disable(logging.CRITICAL)

def silence():
    d = os.open(os.devnull, os.O_WRONLY)
    os.dup2(d, 1); os.dup2(d, 2)


def contracts_of(mod):
    from pyverif.contract import Contract
    return [c for c in vars(mod).values() if isinstance(c, type) and issubclass(c, Contract) and c.target and c.__module__ == mod.__name__
            and not c.__name__.startswith('_')]


def facts_of(mod):
    from pyverif.contract import Fact
    return [f for f in vars(mod).values() if isinstance(f, Fact)]


def active_known(prop):
    with open(os.path.join(HERE, 'KNOWN_FINDINGS.json')) as f: data = json.load(f)
    return {d['id'] for d in data.get('known', []) if d['property'] == prop}


def native_hunt(c, seconds, seed, limit=None, stop=True):
    """run the real code on generated arguments and evaluate the contract; -> (evaluated, distinct, violation or None)"""
    from pyverif import verify, gens
    rng = random.Random(seed)
    n = skipped = 0; seen = set(); t0 = time.time()
    try: stream = gens.candidates(c, rng)
    except Exception as e: return 0, 0, None, []
    samples = []
    try:
        for conc in stream:
            if time.time() - t0 > seconds or (limit and n >= limit): break
            if n == 0 and skipped > 200000: break
            try: r0 = repr(short(conc))
            except Exception: r0 = '?'
            try: keep = pickle.dumps(conc)
            except Exception: keep = None
            out = verify.native_check(c, conc)
            if out == 'skip': skipped += 1; continue
            n += 1; seen.add(hash(r0))
            if len(samples) < 2: samples.append(r0[:300])
            if out is not None:
                if any(known_hit(k, keep, conc) for k in c.known): continue
                return n, len(seen), (r0, out, keep), samples
    except Exception as e:
        return n, len(seen), ('generator', f'generator failed: {traceback.format_exc()[-600:]}', None) if os.environ.get('PYVERIF_DEV') else None, samples
    return n, len(seen), None, samples


def known_hit(k, keep, conc):
    from pyverif.contract import call_by_name
    try:
        a = pickle.loads(keep) if keep else conc
        return bool(k.pred(*call_by_name(k.pred, a)))
    except Exception: return False


def short(v, d=0):
    if isinstance(v, dict): return {k: short(x, d + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, int, str, bool, type(None))): return v
    if hasattr(v, '__dict__') and d < 4: return {type(v).__name__: short(vars(v), d + 1)}
    return v


def worker(modname, cname, pipe, tier, seed, phase, budget):
    try:
        if not os.environ.get('PYVERIF_DEV'): silence()
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        sys.setrecursionlimit(6000)
        mod = sys.modules[modname]
        c = getattr(mod, cname)
        from pyverif import verify
        if phase == 'fact':
            t0 = time.time()
            try: r = c.fn()
            except Exception: r = 'evaluation failed: ' + traceback.format_exc()[-800:]
            pipe.send(dict(fact=r, secs=round(time.time() - t0, 2)))
            os._exit(0)
        if phase in ('prove', 'again'):
            from pyverif import solve
            if phase == 'again': solve.SCALE = 4.0
            r = verify.verify(c, budget_s=min(budget, c.budget_s * (1 if tier == 'quick' and phase == 'prove' else 5)))
            pipe.send(dict(ok=bool(r.ok), unsupported=r.unsupported, covered=r.covered, paths=r.paths, secs=round(r.secs, 2),
                           obligations=[(o.name, o.kind, o.line, o.status, round(o.secs or 0, 3), o.backend) for o in r.obligations],
                           inlined=sorted(map(str, r.inlined)), trusted=sorted(map(str, r.trusted)), opaque=sorted(map(str, r.opaque)),
                           stats=dict(r.stats), loops={str(k): v for k, v in (r.loops or {}).items()}))
        elif phase == 'native':
            pipe.send(native_hunt(c, budget, seed))
        elif phase == 'bmc':
            hit = None; n = 0
            for name, conc in verify.bmc(c, budget):
                n += 1
                try: keep = pickle.dumps(conc); r0 = repr(short(conc))
                except Exception: keep = None; r0 = '?'
                out = verify.native_check(c, conc)
                if out not in (None, 'skip') and not any(known_hit(k, keep, conc) for k in c.known):
                    hit = (r0, out, keep); break
            pipe.send((n, hit))
    except BaseException:
        try: pipe.send(dict(crash=traceback.format_exc()[-1500:]))
        except Exception: pass
    finally:
        os._exit(0)


def run_jobs(jobs, deadline, seed=None):
    """jobs: list of (key, args, seconds) run in forked workers, NWORK at a time; yields (key, result or None)"""
    ctx = mp.get_context('fork')
    todo = list(jobs); live = {}; out = {}
    while todo or live:
        while todo and len(live) < NWORK:
            key, args, secs = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=worker, args=(args[0], args[1], b, TIER, SEED if seed is None else seed, args[2], args[3]))
            p.start(); b.close()
            live[key] = (p, a, time.time() + secs)
        from multiprocessing.connection import wait
        wait([a for _, a, _ in live.values()], timeout=0.5)
        for key, (p, a, end) in list(live.items()):
            r = None; done = False
            if a.poll():
                try: r = a.recv()
                except EOFError: r = None
                done = True
            elif not p.is_alive(): done = True
            elif time.time() > min(end, deadline): done = True
            if done:
                if p.is_alive() and r is None: p.kill()
                p.join(5)
                if p.is_alive(): p.kill(); p.join()
                a.close(); del live[key]; out[key] = r
                if key[1] == 'native' and isinstance(r, tuple) and r[2]:      # a real failing input: the verdict is fixed
                    deadline = min(deadline, time.time() + (90 if TIER == 'quick' else 600))
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    ev_path = os.path.join(HERE, 'evidence', f'{prop}.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    rp_path = os.path.join(HERE, 'evidence', f'{prop}.violation.json')
    if os.path.exists(rp_path): os.remove(rp_path)
    modname = 'contracts.' + prop.lower()
    violations = []       # (contract, obligations text, input, outcome, pickled)
    res = {}
    ev = dict(property=prop, tier=TIER, seed=SEED, level='proof', coverage={}, wall_s=0.0)
    contracts = []; facts = []; fres = {}
    try:
        so, se = os.dup(1), os.dup(2)
        if not os.environ.get('PYVERIF_DEV'): silence()
        try:
            mod = importlib.import_module(modname)
            contracts = contracts_of(mod)
        finally:
            os.dup2(so, 1); os.dup2(se, 2)
    except Exception:
        violations.append(('import', [['the code under contract can be loaded', 'failed']], None, traceback.format_exc()[-1500:], None))
        mod = None
    known_ids = active_known(prop)
    for c in contracts: c.known = [k for k in c.known if k.id in known_ids]
    proved = [c for c in contracts if not c.bounded]
    deadline = t0 + LIMIT
    jobs = [((c.__name__, 'prove'), (modname, c.__name__, 'prove', LIMIT - 60), LIMIT) for c in sorted(proved, key=lambda c: -getattr(c, 'weight', 1))]
    hunt_s = (3 if TIER == 'quick' else 45)
    jobs += [((c.__name__, 'native'), (modname, c.__name__, 'native', getattr(c, 'native_s', hunt_s) * (1 if TIER == 'quick' else 10) if c.bounded else max(hunt_s, 15 if getattr(c, 'weight', 1) > 1 else 0)), 300) for c in contracts]
    facts = facts_of(mod) if mod else []
    jobs += [((f.__name__, 'fact'), (modname, f.__name__, 'fact', 200), 200) for f in facts]
    out = run_jobs(jobs, deadline)
    bad = []
    fres = {}
    for f in facts:
        r = out.get((f.__name__, 'fact')) or {}
        fres[f.__name__] = r
        what = r.get('fact', 'no answer') if not r.get('crash') else r['crash']
        if what is not None:
            violations.append((f.__name__, [[f.text, 'false']], f'loaded tables of {REPO}' if 'fact' in r and not str(what).startswith('evaluation failed') else None, what, None))
    for c in contracts:
        r = out.get((c.__name__, 'prove')); nt = out.get((c.__name__, 'native'))
        hit = nt[2] if isinstance(nt, tuple) else None
        if isinstance(nt, dict): nt = None
        res[c.__name__] = (r, nt)
        failed = None
        if not c.bounded:
            if r is None: failed = [['all obligations discharged', 'verifier stopped: time or memory limit']]
            elif 'crash' in r: failed = [['all obligations generated', 'verifier error: ' + r['crash']]]
            elif not r['ok']:
                failed = [[o[0], f'{o[3]} ({o[5]}, line {o[2]})'] for o in r['obligations'] if o[3] != 'proved']
                if r['unsupported']: failed.append(['obligations generated for all paths', 'stopped: ' + r['unsupported']])
                if not failed: failed = [['precondition satisfiable', 'no path reaches the end: vacuous']]
        if hit: violations.append((c.__name__, failed or [['contract (checked natively)', 'violated although the proof passed']] , hit[0], hit[1], hit[2]))
        elif failed: bad.append((c, failed))
    if bad:
        # first once more, with four times the time for every query: a busy machine must not decide the verdict
        again = [c for c, _ in bad]
        left = (t0 + LIMIT - time.time()) * (1 if TIER == 'thorough' else .75)
        if left > 30:
            jobs = [((c.__name__, 'again'), (modname, c.__name__, 'again', left - 5), left) for c in again]
            jobs += [((c.__name__, 'native'), (modname, c.__name__, 'native', 20), 40) for c in again]
            out1 = run_jobs(jobs, time.time() + left, seed=SEED + 1)
            still = []
            for c, failed in bad:
                r = out1.get((c.__name__, 'again')); nt = out1.get((c.__name__, 'native'))
                if isinstance(nt, tuple) and nt[2]: violations.append((c.__name__, failed, *nt[2])); continue
                if isinstance(r, dict) and r.get('ok'): res[c.__name__] = (r, res[c.__name__][1]); continue
                still.append((c, failed))
            bad = still
            if violations: violations += [(c.__name__, f, None, None, None) for c, f in bad]; bad = []
    if bad:
        left = max(60.0, min(150.0 if TIER == 'quick' else 600.0, t0 + LIMIT + 60 - time.time()))
        jobs = [((c.__name__, 'native2'), (modname, c.__name__, 'native', left * .8), left) for c, _ in bad]
        jobs += [((c.__name__, 'bmc'), (modname, c.__name__, 'bmc', left * .6), left) for c, _ in bad]
        out2 = run_jobs(jobs, time.time() + left + 5)
        for c, failed in bad:
            nt = out2.get((c.__name__, 'native2')); bm = out2.get((c.__name__, 'bmc'))
            hit = nt[2] if isinstance(nt, tuple) and nt[2] else None
            if not hit and isinstance(bm, tuple) and bm[1]: hit = bm[1]
            violations.append((c.__name__, failed, hit[0] if hit else None, hit[1] if hit else None, hit[2] if hit else None))
    # known findings still present?
    for c in contracts:
        for k in c.known:
            from pyverif import verify
            so, se = os.dup(1), os.dup(2)
            silence()
            try: o = verify.native_check(c, k.example())
            finally: os.dup2(so, 1); os.dup2(se, 2)
            if o not in (None, 'skip'): print(f'KNOWN-FINDING: property={prop} {k.id}: {k.text} [{o[:160]}]')
    # evidence
    obs = [o for r, _ in res.values() if isinstance(r, dict) and 'obligations' in r for o in r['obligations']]
    dis = [o for o in obs if o[3] == 'proved']
    for n, r in fres.items():
        o = (n, 'fact', 0, 'proved' if r.get('fact', 1) is None else 'false', r.get('secs', 0), 'exhaustive evaluation of the loaded table')
        obs.append(o)
        if o[3] == 'proved': dis.append(o)
    backends = {}
    for o in dis: backends[o[5]] = backends.get(o[5], 0) + 1
    trusted = set(); inl = set(); opaque = set()
    for r, _ in res.values():
        if isinstance(r, dict) and 'trusted' in r: trusted |= set(r['trusted']); inl |= set(r['inlined']); opaque |= set(r['opaque'])
    assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) if mod else []
    for c in contracts:
        for nm, _ax in c.axioms: assumptions.append(f'{c.__name__}: axiom {nm}')
        for (m_, n_) in c.overrides: assumptions.append(f'{c.__name__}: {m_}.{n_} replaced by its contract stub')
    ev['coverage'] = dict(
        obligations=len(obs), discharged=len(dis),
        checker_cmd=f'cd /verif && python3-vt check.py {prop}' + (' --thorough' if TIER == 'thorough' else ''),
        trusted_base=['pyverif: symbolic interpreter and models of the Python built-ins (/verif/pyverif)', 'z3 ' + z3v(), 'cvc5 1.1.2',
                      'CPython 3.12 semantics as encoded in pyverif/models.py'] + sorted('assumed: ' + t for t in trusted),
        functions_under_contract=[dict(contract=c.__name__, function=c.target, how='bounded native check: ' + c.bound_note if c.bounded else 'proved',
                                       obligations=len((res[c.__name__][0] or {}).get('obligations', [])) if isinstance(res[c.__name__][0], dict) else 0,
                                       paths=(res[c.__name__][0] or {}).get('paths'), seconds=(res[c.__name__][0] or {}).get('secs'),
                                       loop_invariants=(res[c.__name__][0] or {}).get('loops'),
                                       native_evaluations=(res[c.__name__][1] or [0, 0])[0], native_distinct=(res[c.__name__][1] or [0, 0])[1])
                                  for c in contracts],
        facts={f.__name__: f.text for f in facts}, inlined_functions=sorted(inl), ignored_calls=sorted(opaque), back_ends=backends,
        solver_seconds=round(sum((r.get('stats', {}).get('z3', 0) + r.get('stats', {}).get('cvc5', 0)) for r, _ in res.values() if isinstance(r, dict)), 1),
        cross_check_evaluations=sum((n or [0])[0] for _, n in res.values()),
        bounded_functions=[c.target for c in contracts if c.bounded],
        samples=[s for _, n in res.values() if n for s in (n[3] or [])][:6])
    ev['assumptions'] = assumptions + ['integers are unbounded (as in Python); no KeyboardInterrupt/MemoryError/RecursionError; single thread',
                                       'debug, strict-checking and print/logging statements are effect-free']
    ev['violations'] = len(violations)
    ev['wall_s'] = round(time.time() - t0, 2)
    tmp = ev_path + '.tmp'
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1, default=str, ensure_ascii=True)
    os.replace(tmp, ev_path)
    if violations:
        with open(rp_path, 'w') as f:
            json.dump([dict(contract=n, failed_obligations=fo, input=i, observed=o, pickled=(k.hex() if k else None)) for n, fo, i, o, k in violations],
                      f, indent=1, default=str, ensure_ascii=True)
        violations.sort(key=lambda v: v[2] is None)
        for n, fo, i, o, k in violations:
            print(f'  {n}: failed obligations: ' + '; '.join(f'{a}: {str(b)[:200]}' for a, b in fo[:6]))
            if i: print(f'    input: {i[:500]}\n    observed: {str(o)[:500]}')
        n, fo, i, o, k = violations[0]
        print(f'VIOLATION property={prop} replay={rp_path}' + ('' if i else ' no-failing-input-found'))
        sys.stdout.flush()
        return 1
    nb = sum(1 for c in contracts if c.bounded)
    print(f'{prop}: {len(dis)}/{len(obs)} obligations of {len(proved)} contracts discharged'
          + (f', {nb} bounded' if nb else '') + f'; {ev["wall_s"]} s')
    return 0


def z3v():
    import z3
    return z3.get_version_string()


def replay(path):
    rec = json.load(open(path))
    prop = os.path.basename(path).split('.')[0]
    mod = importlib.import_module('contracts.' + prop.lower())
    from pyverif import verify
    for d in rec:
        if not d['pickled']: print(d['contract'], d['failed_obligations'], 'no failing input'); continue
        print(d['contract'], d['input']); print('  ->', verify.native_check(getattr(mod, d['contract']), pickle.loads(bytes.fromhex(d['pickled']))))


if __name__ == '__main__':
    rc = 2
    try:
        if sys.argv[1] == '--replay': replay(sys.argv[2]); rc = 0
        else: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

"""Back ends: z3 (in process) first, then cvc5 on the SMT-LIB text of the same query."""
import os, re, subprocess, time, tempfile
import z3

CVC5 = os.environ.get('PYVERIF_CVC5', 'cvc5')
DUMP = os.environ.get('PYVERIF_DUMP')
PBEQ = re.compile(r'\(\(_ pbeq 1 1\) ([^\s()]+)\)')      # z3 writes x = true so after simplifying; not SMT-LIB
SCALE = 1.0            # a contract that failed is tried again with more time per query


def relevant(pc):
    return pc


def z3_try(it, pc, goal, ms, opts=None):
    s = z3.Solver()
    s.set('timeout', ms)
    for k, v in (opts or {}).items():
        try: s.set(k, v)
        except z3.Z3Exception: pass
    s.add(*pc)
    s.add(z3.Not(goal))
    t0 = time.time()
    r = s.check()
    it.stats['z3'] += time.time() - t0
    return r, s


def prove(it, pc, goal, quick=False):
    """-> (proved | refuted | unknown, seconds, back end). The order is a portfolio: short runs first."""
    t0 = time.time()
    it.stats['queries'] += 1
    if z3.is_true(z3.simplify(goal)): return 'proved', 0.0, 'simplify'
    full = int(SCALE * (it.quick_ms if quick else it.solver_ms))
    r, s = z3_try(it, pc, goal, int(min(SCALE * (700 if quick else 1200), full)))
    if r == z3.unsat: return 'proved', time.time() - t0, 'z3'
    if r == z3.sat:
        it.last_model = s.model()
        return 'refuted', time.time() - t0, 'z3'
    txt = PBEQ.sub(r'\1', s.to_smt2())
    if DUMP:
        os.makedirs(DUMP, exist_ok=True)
        with open(os.path.join(DUMP, f'q{it.stats["queries"]}.smt2'), 'w') as f: f.write(txt)
    def c5(secs):
        t1 = time.time()
        c = cvc5(txt, SCALE * secs)
        it.stats['cvc5'] += time.time() - t1
        return c
    c = c5(1.0 if quick else 2.5)
    if c == 'unsat': return 'proved', time.time() - t0, 'cvc5'
    if c == 'sat' and quick: return 'refuted', time.time() - t0, 'cvc5'
    if quick and not getattr(it, 'patient', False): return 'unknown', time.time() - t0, 'z3+cvc5'
    if quick: full = int(SCALE * 5000)
    r, _ = z3_try(it, pc, goal, full, {'smt.mbqi': False, 'smt.random_seed': 7})
    if r == z3.unsat: return 'proved', time.time() - t0, 'z3'
    c = c5(4 if quick else it.cvc5_s)
    if c == 'unsat': return 'proved', time.time() - t0, 'cvc5'
    if not quick:
        r, _ = z3_try(it, pc, goal, full)
        if r == z3.unsat: return 'proved', time.time() - t0, 'z3'
    return 'unknown', time.time() - t0, 'z3+cvc5'


def cvc5(text, secs):
    text = '(set-logic ALL)\n' + '\n'.join(l for l in text.splitlines() if not l.startswith('(set-logic') and not l.startswith('; '))
    try:
        p = subprocess.run([CVC5, '--lang=smt2', '--strings-exp', f'--tlimit={int(secs * 1000)}', '-'], input=text,
                           capture_output=True, text=True, timeout=secs + 5)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    out = p.stdout.strip().splitlines()
    return out[-1] if out and out[-1] in ('sat', 'unsat') else 'unknown'

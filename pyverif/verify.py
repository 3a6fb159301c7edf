"""Driver: verify one contract (all paths, all obligations); search for a counterexample when an obligation fails."""
import inspect, time, types, copy, sys, traceback, random
import z3
from .values import *
from . import interp as ip, models
from .interp import Interp, PathEnd, Restart, ReturnExc, PyRaise, BreakExc, ContinueExc, Obligation, snapshot, func_node, \
    ObjV, OpaqueV
from .contract import Contract, resolve, call_by_name


class OldNS:
    """pre-state of the parameters, visible to postconditions as `old`"""
    def __init__(self, /, **kw): self.__dict__.update(kw)


class Result:
    def __init__(self, c):
        self.contract = c; self.obligations = []; self.unsupported = None; self.paths = 0; self.covered = False
        self.stats = {}; self.inlined = set(); self.trusted = set(); self.opaque = set(); self.secs = 0.0; self.hints = []
    @property
    def failed(self): return [o for o in self.obligations if o.status != 'proved']
    @property
    def ok(self): return self.unsupported is None and not self.failed and self.obligations and self.covered


class ContractUse:
    """contract applied at a call site"""
    def __init__(self, c): self.c = c
    def apply(self, it, env):
        c = self.c
        pool = {k: v for k, v in it.arg_values.items() if k in c.args}   # ambient stubs
        for k, v in env.items():
            if isinstance(v, UnionV) and not isinstance(c.args.get(k), UnionT): env[k] = it.force(v)
        pool.update(env)
        for k, f in c.ghost.items(): pool[k] = it.spec_term(f, call_by_name(f, pool))
        if c.pre is not None:
            it.obligation(f'call {c.__name__}/pre', it.spec_bool(c.pre, call_by_name(c.pre, pool)), getattr(it, 'line', None), 'precondition')
            it.assume(it.spec_bool(c.pre, call_by_name(c.pre, pool)))
        memo = {}
        pool['old'] = ObjV(OldNS, {k: snapshot(v, memo) for k, v in env.items()})
        for exc, pred in list(c.raises.items()):
            if it.decide(it.spec_bool(pred, call_by_name(pred, pool))): raise PyRaise(exc, ())
        for exc, pred in list(c.may_raise.items()):
            if it.decide(z3.And(it.spec_bool(pred, call_by_name(pred, pool)), z3.Bool(it.fresh('raises')))): raise PyRaise(exc, ())
        for nm in c.modifies:
            o, T_ = pool[nm.split('.')[0]], c.args[nm.split('.')[0]]
            path = nm.split('.')[1:]
            for f in path[:-1]: o, T_ = o.fields[f], T_.fields[f]
            if not path: havoc_deep(it, o, T_)
            else:                                      # one field of the object: a new value of its type
                it.mutable(o)
                for w in it.write_stack: w.setdefault(('f', id(o)), set()).add(path[-1])
                o.fields[path[-1]] = it.fresh_of(T_.fields[path[-1]], it.fresh('hv'))
        if c.result is None: r = None
        else: r = it.fresh_of(c.result, it.fresh('ret_' + c.__name__))
        pool['result'] = r
        for nm, p in c.posts:
            it.assume(it.spec_bool(p, call_by_name(p, pool)))
        return r


def conjuncts(t):
    """the parts of a conjunction (the quantifier-free ones serve to rule out paths)"""
    if z3.is_expr(t) and z3.is_and(t): return [x for a in t.children() for x in conjuncts(a)]
    return [t]


def havoc_deep(it, v, T_):
    nv = it.fresh_of(T_, it.fresh('hv'))
    it.mutable(v)
    if isinstance(v, ObjV): v.fields.update(nv.fields)
    else: v.assign(nv)


def verify(c, budget_s=300, debug=False, it_setup=None):
    t0 = time.time()
    res = Result(c)
    it = Interp(solver_ms=c.solver_ms)
    it.quick_ms = min(c.solver_ms, getattr(c, 'quick_ms', 2500)); it.cvc5_s = getattr(c, 'cvc5_s', 8)
    it.debug = debug; it.patience = bool(getattr(c, 'patient', False))
    CONFIG['ordered'] = c.ordered
    it.eval_diag = c.eval_diag
    it.hom_strings = c.hom
    it.current = c; it.target_name = c.__name__; it.last_model = None
    for u in c.uses:
        fn = resolve(u.target)
        it.contracts[it.qual(fn)] = ContractUse(u)
    it.overrides = {}
    if it_setup: it_setup(it)
    fn = c.fn()
    try:
        mode = 'discover'
        while mode:
            it.mode = mode; it.hcache = set(); it.redo = False
            rounds = 0; it.changed = True
            while it.changed:
                rounds += 1
                if rounds > 200: raise Unsupported('loop analysis does not stabilise')
                it.changed = False
                it.trace = []
                if mode == 'final': it.obligations = []; it.ocache = {}; res.paths = 0; res.covered = False
                try:
                    while True:
                        if time.time() - t0 > budget_s: raise Unsupported(f'time budget of {budget_s} s exhausted')
                        run_path(it, c, fn, res)
                        res.paths += 1
                        if res.paths > it.MAXPATHS: raise Unsupported('too many paths')
                        if not it.next_path(): break
                except Restart:
                    if it.redo: break
                    continue
                except ip.Impatient: break
                except ip.Enough: res.unsupported = f'stopped after {ip.ENOUGH} failed obligations'; break
                if mode == 'houdini' and debug: print('  houdini round', rounds, 'changed', it.changed, round(time.time()-t0, 1))
            if it.redo: mode = 'houdini'
            elif mode == 'discover': mode = 'houdini' if it.loops else 'final'
            elif mode == 'houdini': mode = 'final'
            elif not it.patience and it.loops and any(o.status != 'proved' for o in it.obligations) and revive(it, c):
                it.patience = True; mode = 'houdini'       # a candidate may have been lost to a short time limit: again, with more time
                if debug: print('  again, patiently')
            else: mode = None
    except Unsupported as e:
        res.unsupported = f'{e} (near line {getattr(it, "line", "?")})'
        if debug: traceback.print_exc()
    except RecursionError:
        res.unsupported = 'recursion limit'
    except z3.Z3Exception as e:
        res.unsupported = f'z3: {e}'
        if debug: traceback.print_exc()
    res.obligations = it.obligations
    res.stats = it.stats; res.inlined = it.inlined; res.trusted = it.trusted; res.opaque = it.opaque_calls
    res.secs = time.time() - t0
    res.loops = {k: [x.name for x in (i.cands or []) if x.alive] for k, i in it.loops.items()}
    return res


def revive(it, c):
    dead = [x for i in it.loops.values() for x in (i.cands or []) if not x.alive and x.fn in c.templates]
    for x in dead: x.alive = True
    return bool(dead)


def build_args(it, c):
    args = {}
    for nm, T_ in c.args.items():
        if callable(T_) and not isinstance(T_, T): v = T_(it)
        else: v = it.fresh_of(T_, 'arg_' + nm)
        args[nm] = v
    return args


def run_path(it, c, fn, res):
    it.start_path()
    it.spec_args = {}
    try:
        args = build_args(it, c)
        it.arg_values = args
        for key, b in c.overrides.items():
            it.overrides[key] = b(args) if callable(b) else b
        pool = dict(args)
        memo = {}
        it.ghost_roots = {}
        if it.mode == 'bmc':
            for f in bounded(it, c, args): it.assume(f)
        if c.pre is not None:
            t = it.spec_bool(c.pre, call_by_name(c.pre, pool)); it.assume(t)
            if ip.has_quant(t):
                for x in conjuncts(t):
                    if not ip.has_quant(x): it.solver.add(x)
        for nm, ax in c.axioms: it.assume(it.spec_bool(ax, call_by_name(ax, pool)))
        old = {k: snapshot(v, memo) for k, v in args.items()}
        pool['old'] = ObjV(OldNS, dict(old))
        it.spec_args = dict(old)
        it.spec_args['old'] = pool['old']
        reach = arg_objects(args)
        w = {}
        it.write_stack.append(w)
        params = list(inspect.signature(fn).parameters) if isinstance(fn, types.FunctionType) else []
        try:
            r = it.call_function(fn, [args[p] for p in params if p in args and p in c.args], {}) if not getattr(c, 'kwcall', False) \
                else it.call_function(fn, [], {p: args[p] for p in params if p in args})
        except PyRaise as e:
            on_raise(it, c, e, pool, res)
            return
        pool['result'] = r.lst if isinstance(r, GenV) else r
        it.write_stack.pop()
        it.final_reached = True
        if it.mode == 'final' and not res.covered:
            it.stats['queries'] += 1
            st, _, _ = it.prove_quick(z3.BoolVal(False))
            if st != 'proved': res.covered = True
        for exc, pred in c.raises.items():
            it.obligation(f'no-return-when:{exc.__name__}', with_known(it, c, z3.Not(it.spec_bool(pred, call_by_name(pred, pool)))), None, 'exceptional')
        for nm, p in c.posts:
            ps = call_by_name(p, pool)
            v = it.call(p, ps, {}) if getattr(p, 'split', False) else None
            if v is not None: g = lift_b(it.truth_term(v))
            else: g = it.spec_bool(p, ps)
            it.obligation(nm, with_known(it, c, g), None, 'postcondition')
        # frame
        allowed = set()
        for nm in c.modifies:
            allowed |= set(reach_of(reach, nm))
        for oid, obj in w.items():
            if isinstance(oid, tuple): continue
            if oid in reach and oid not in allowed:
                if isinstance(obj, ObjV) and all(f'{reach[oid][0]}.{f}' in c.modifies for f in w.get(('f', oid), ('?',))): continue
                if unchanged(it, obj, reach[oid][0], pool): continue
                it.obligation(f'frame:{reach[oid][0]}', z3.BoolVal(False), None, 'frame')
    except PathEnd:
        return


def unchanged(it, obj, name, pool): return False


def reach_of(reach, nm):
    return [oid for oid, (n, o) in reach.items() if n == nm or n.startswith(nm + '.') or n.startswith(nm + '[')]


def arg_objects(args):
    out = {}
    def walk(v, name):
        if isinstance(v, UnionV):
            for a in v.alts: walk(a, name)
        elif isinstance(v, tuple):
            for i, x in enumerate(v): walk(x, f'{name}[{i}]')
        elif isinstance(v, ip.MUT):
            if id(v) in out: return
            out[id(v)] = (name, v)
            if isinstance(v, ObjV):
                for f, x in v.fields.items(): walk(x, f'{name}.{f}')
            elif isinstance(v, ListV) and v.items is not None:
                for i, x in enumerate(v.items): walk(x, f'{name}[{i}]')
            elif isinstance(v, DictV) and v.pairs is not None:
                for k, x in v.pairs: walk(x, f'{name}[{k!r}]')
    for nm, v in args.items(): walk(v, nm)
    return out


def known_terms(it, c):
    return [it.spec_bool(k.pred, call_by_name(k.pred, it.spec_args)) for k in c.known]


def with_known(it, c, g):
    if not c.known: return g
    return z3.Or(g, *known_terms(it, c))


def lift_b(t): return z3.BoolVal(t) if isinstance(t, bool) else t


def on_raise(it, c, e, pool, res):
    preds = []
    for table in (c.raises, c.may_raise):
        for exc, pred in table.items():
            if issubclass(e.cls, exc): preds.append(pred)
    if not preds:
        it.obligation(f'no-exception:{e.cls.__name__}@{e.line}', with_known(it, c, z3.BoolVal(False)), e.line, 'exception')
        return
    if it.mode == 'final' and not res.covered:
        st, _, _ = it.prove_quick(z3.BoolVal(False))
        if st != 'proved': res.covered = True
    g = z3.Or(*[it.spec_bool(p, call_by_name(p, pool)) for p in preds])
    it.obligation(f'raises:{e.cls.__name__}@{e.line}', with_known(it, c, g), e.line, 'exceptional')


# ------------------------------------------------------------------------------------------------ counterexamples
def bounded(it, c, args):
    out = []
    def walk(v):
        if isinstance(v, ListV):
            if v.n is not None: out.append(v.n <= c.bmc_len)
            else:
                for x in v.items: walk(x)
        elif isinstance(v, StrV): out.append(z3.Length(v.t) <= 12)
        elif isinstance(v, DictV) and v.size is not None: out.append(v.size <= c.bmc_len)
        elif isinstance(v, tuple):
            for x in v: walk(x)
        elif isinstance(v, ObjV):
            for x in v.fields.values(): walk(x)
        elif isinstance(v, UnionV):
            for x in v.alts: walk(x)
    for v in args.values(): walk(v)
    return out


def bmc(c, budget_s=60, want=None):
    """bounded symbolic search (loops unrolled, no invariants) for argument values violating the contract; every hit is
    replayed on the real code by the caller"""
    if any(callable(T_) and not isinstance(T_, T) for T_ in c.args.values()): return
    t0 = time.time()
    it = Interp()
    CONFIG['ordered'] = c.ordered
    it.patience = False; it.mode = 'bmc'; it.unroll = c.unroll; it.bmc_ms = 4000; it.quick_ms = 2000; it.cvc5_s = 2
    it.current = c; it.target_name = c.__name__; it.hom_strings = False; it.eval_diag = c.eval_diag
    res = Result(c)
    fn = c.fn()
    it.trace = []
    n = 0
    while time.time() - t0 < budget_s and n < 3000:
        it.bmc_hits = []
        try: run_path(it, c, fn, res)
        except (Unsupported, Restart): pass
        except z3.Z3Exception: pass
        n += 1
        for name, line, m in it.bmc_hits:
            try:
                conc = {}
                for nm, T_ in c.args.items(): conc[nm] = T_.conc(it.arg_values[nm], m)
            except Exception:
                continue
            yield name, conc
        if not it.next_path(): return


class Absent: pass


class NativeOutcome:
    def __init__(self, kind, detail): self.kind = kind; self.detail = detail


def native_check(c, conc, call=None):
    """run the real function on concrete arguments and evaluate the contract natively.
    returns None if fine, 'skip' if the precondition does not hold, or a description of the violation"""
    pool = dict(conc)
    if c.pre is not None:
        try: ok = c.pre(*call_by_name(c.pre, pool))
        except Exception: return 'skip'
        if not ok: return 'skip'
    try: old = copy.deepcopy(conc)
    except Exception: old = dict(conc)
    pool['old'] = OldNS(**old)
    fn = c.fn()
    params = [p for p in inspect.signature(fn).parameters if p in c.args]
    # exceptional predicates refer to the pre-state
    exp = []
    for exc, pred in c.raises.items():
        if pred(*call_by_name(pred, pool)): exp.append(exc)
    may = []
    for exc, pred in c.may_raise.items():
        if pred(*call_by_name(pred, pool)): may.append(exc)
    saved = []
    import importlib
    for (m_, n_), b in c.overrides.items():
        mod = importlib.import_module(m_)
        saved.append((mod, n_, mod.__dict__.get(n_, Absent)))
        setattr(mod, n_, b(pool) if callable(b) else b)
    try:
        if getattr(c, 'kwcall', False): r = timed(fn, [], {p: pool[p] for p in params})
        else: r = timed(fn, [pool[p] for p in params], {})
    except Timeout:
        return 'does not terminate within the time limit'
    except Exception as e:
        if any(isinstance(e, x) for x in exp + may): return None
        return f'raised {type(e).__name__}: {e}'
    finally:
        for m_, n_, v_ in saved:
            if v_ is Absent: delattr(m_, n_)
            else: setattr(m_, n_, v_)
    if exp: return f'returned {r!r} instead of raising {exp[0].__name__}'
    if inspect.isgenerator(r): r = list(r)
    pool['result'] = r
    frozen = [a for a in params if a not in c.modifies and not any(m.startswith(a + '.') for m in c.modifies)]
    for a in frozen:
        if not same(pool[a], old[a]): return f'{a} was changed'
    for nm, p in c.posts:
        try: ok = p(*call_by_name(p, pool))
        except Exception as e: return f'{nm}: evaluation raised {type(e).__name__}: {e}; result={r!r}'
        if not ok: return f'{nm} is false; result={r!r}'
    return None


def same(a, b, depth=0):
    """structural equality of plain data and objects"""
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (str, int, float, bool, bytes, type(None))): return a == b
    if depth > 12: return True
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], depth + 1) for k in a)
    if isinstance(a, (list, tuple)) and type(a) in (list, tuple):
        return len(a) == len(b) and all(same(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)): return a == b
    fs = list(getattr(a, '__dict__', {}))
    for k in type(a).__mro__: fs += [f for f in getattr(k, '__slots__', ()) if isinstance(f, str)]
    if not fs: return True
    return (set(getattr(a, '__dict__', {})) == set(getattr(b, '__dict__', {}))
            and all(same(getattr(a, mangle(type(a), f), None), getattr(b, mangle(type(a), f), None), depth + 1) for f in fs))

def mangle(t, f):
    if not f.startswith('__') or f.endswith('__'): return f
    return next((f'_{k.__name__.lstrip("_")}{f}' for k in t.__mro__ if f in getattr(k, '__slots__', ())), f)


class Timeout(BaseException): pass


def timed(fn, a, k, secs=5):
    import signal
    def h(s, f): raise Timeout()
    try: old = signal.signal(signal.SIGALRM, h)
    except ValueError: return fn(*a, **k)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try: return fn(*a, **k)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)

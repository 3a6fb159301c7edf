"""Path-wise symbolic interpreter over the AST of live functions."""
import ast, inspect, types, builtins, logging, os, sys, time, re as _re
import z3
from . import spec
from .values import *
from .values import strval, unstr


class PathEnd(Exception): pass
class Restart(Exception): pass
class BreakExc(Exception): pass
class ContinueExc(Exception): pass
class ReturnExc(Exception):
    def __init__(self, v): self.v = v
class PyRaise(Exception):
    """an exception of the interpreted program"""
    def __init__(self, cls, args=(), line=None): self.cls = cls; self.args_ = args; self.line = line
    def __str__(self): return f'{self.cls.__name__}{self.args_} at line {self.line}'


class ExcV(V):
    def __init__(self, cls, args): self.cls = cls; self.args = args

class BoundM:
    def __init__(self, obj, fn, owner=None): self.obj = obj; self.fn = fn; self.owner = owner

class MethodOf:
    """built-in method `name` of value obj"""
    def __init__(self, obj, name): self.obj = obj; self.name = name

class Closure:
    def __init__(self, node, frame, name): self.node = node; self.frame = frame; self.name = name; self.__name__ = name
        

class SuperV:
    def __init__(self, cls, obj): self.cls = cls; self.obj = obj

class SymRange:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step

class SymIter:
    """lazy iterable with symbolic length n and item(k)"""
    def __init__(self, n, item, src=()): self.n = n; self.item = item; self.src = src

class MatchV(V):
    """a successful regex match on a symbolic string: groups[i] -> value (0 is the whole match)"""
    def __init__(self, groups, starts=None, ends=None): self.groups = groups; self.starts = starts; self.ends = ends


class Impatient(BaseException): pass         # an obligation failed, and a candidate invariant may have been lost to a short time limit
class Enough(BaseException): pass            # so many obligations failed that the rest need not be tried
ENOUGH = 8

class Frame:
    def __init__(self, name, env, globs, cls=None, parent=None, local_names=None, live_cls=None):
        self.name = name; self.env = env; self.globs = globs; self.cls = cls; self.parent = parent
        self.local_names = local_names or set(); self.globals_decl = set(); self.live_cls = live_cls
        self.yields = None


_file_index = {}
def file_index(path):
    if path not in _file_index:
        with open(path, encoding='utf-8') as f: src = f.read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list: line = min(d.lineno for d in n.decorator_list)
                nm = n.name if isinstance(n, ast.FunctionDef) else '<lambda>'
                idx.setdefault((nm, line), []).append(n)
        _file_index[path] = idx
    return _file_index[path]


def func_node(fn):
    path = inspect.getsourcefile(fn)
    if path is None: raise Unsupported(f'no source for {fn}')
    ns = file_index(path).get((fn.__code__.co_name, fn.__code__.co_firstlineno))
    if not ns: raise Unsupported(f'no AST for {fn}')
    if len(ns) > 1:
        want = fn.__code__.co_varnames[:fn.__code__.co_argcount]
        pos = [p for p in fn.__code__.co_positions()]
        cols = [p[2] for p in pos if p[2] is not None]
        ns2 = [n for n in ns if tuple(a.arg for a in n.args.args) == tuple(want)]
        ns2 = [n for n in ns2 if not cols or n.body.col_offset <= max(cols) <= n.body.end_col_offset + 1] if len(ns2) > 1 and isinstance(ns2[0], ast.Lambda) else ns2
        if len(ns2) != 1: raise Unsupported(f'ambiguous AST for {fn}')
        return ns2[0]
    return ns[0]


def local_names_of(node):
    names = set(); glob = set()
    def tgt(t):
        if isinstance(t, ast.Name): names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                names.add(c.name); continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for d in ast.walk(c):
                    if isinstance(d, ast.NamedExpr): tgt(d.target)
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets: tgt(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign)):
                if not (isinstance(c, ast.AnnAssign) and c.value is None): tgt(c.target)
            elif isinstance(c, ast.For): tgt(c.target)
            elif isinstance(c, ast.NamedExpr): tgt(c.target)
            elif isinstance(c, ast.withitem) and c.optional_vars is not None: tgt(c.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name: names.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names: names.add((a.asname or a.name).split('.')[0])
            elif isinstance(c, ast.Global): glob.update(c.names)
            elif isinstance(c, ast.Nonlocal): glob.update(c.names)
            walk(c)
    walk(node)
    return names - glob


_has_yield_cache = {}
def has_yield(node):
    if id(node) not in _has_yield_cache:
        r = False
        st = list(node.body) if isinstance(node.body, list) else [node.body]
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)): continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)): r = True; break
            st.extend(ast.iter_child_nodes(n))
        _has_yield_cache[id(node)] = (r, node)
    return _has_yield_cache[id(node)][0]


SYM = (IntV, BoolV, StrV, HomV, OpaqueV, UnionV, SortV)
MUT = (ListV, DictV, SetV, ObjV)


def deep_native(v):
    """true if v contains no symbolic part and is not a wrapper"""
    if isinstance(v, V): return False
    if isinstance(v, tuple): return all(deep_native(x) for x in v)
    if isinstance(v, (SymRange, SymIter, Closure, BoundM, MethodOf, SuperV)): return False
    return True


def tonative(v):
    """wrapper with only native contents -> native copy (for running library functions)"""
    if isinstance(v, tuple): return tuple(tonative(x) for x in v)
    if isinstance(v, ListV) and v.items is not None: return [tonative(x) for x in v.items]
    if isinstance(v, SetV) and v.items is not None: return {tonative(x) for x in v.items}
    if isinstance(v, DictV) and v.pairs is not None: return {tonative(a): tonative(b) for a, b in v.pairs}
    if isinstance(v, GenV): return tonative(v.lst)
    if isinstance(v, V): raise Unsupported(f'symbolic {v!r}')
    return v


def fromnative(v):
    if isinstance(v, list): return ListV(items=[fromnative(x) for x in v])
    if isinstance(v, dict) and type(v) is dict: return DictV(pairs=[[a, fromnative(b)] for a, b in v.items()])
    if isinstance(v, set): return SetV(items=list(v))
    if isinstance(v, tuple) and type(v) is tuple: return tuple(fromnative(x) for x in v)
    return v


class Obligation:
    def __init__(self, name, kind, line, status, secs, backend, detail=''):
        self.name, self.kind, self.line, self.status, self.secs, self.backend, self.detail = name, kind, line, status, secs, backend, detail


class LoopInfo:
    def __init__(self, key):
        self.key = key; self.types = {}      # loc -> T
        self.cands = None; self.maxn = 0; self.partial = set()


class Interp:
    MAXPATHS = 4000

    def __init__(self, solver_ms=8000, feas_ms=400):
        self.solver_ms = solver_ms; self.feas_ms = feas_ms
        self.loops = {}
        self.mode = 'final'         # discover / houdini / final / bmc
        self.unroll = 3
        self.contracts = {}         # qualified name -> Contract used at call sites
        self.overrides = {}         # (module or object id, attr) -> value
        self.obligations = []
        self.ocache = {}
        self.hopeless = set()
        self.stats = dict(z3=0.0, cvc5=0.0, queries=0, feas=0)
        self.trusted = set()        # names of trusted library models used
        self.inlined = set()        # repo functions executed symbolically
        self.opaque_calls = set(); self.unfolded_never = {}
        self.templates = []
        self.target_name = '?'
        self.pure_cache = {}
        self.term_mode = 0
        self.eval_diag = False
        self.diag = self.default_diag()
        self.extra_models = {}
        self.axioms = []
        self.trace = []
        self.roots = (os.environ.get('PYVERIF_REPO', '/repo') + '/', os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/')

    # ------------------------------------------------------------------ path management
    def default_diag(self):
        import BibleOrgSys.BibleOrgSysGlobals as G
        d = {id(G.fnPrint), id(G.vPrint), id(G.dPrint), id(print)}
        for n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log'): d.add(id(getattr(logging, n)))
        return d

    def start_path(self):
        self.pc = []; self.pos = 0; self.nfresh = 0; self.obno = 0
        self.quant = []
        self.solver = z3.Solver(); self.solver.set('timeout', self.feas_ms); self.feas_now = self.feas_ms
        self.solver_n = 0
        self.write_stack = []
        self.unfolded = set()
        self.literals = {}
        self.loop_depth = []
        self.dead = False
        self.call_depth = 0
        self.apps = {}
        self.frames = []; self.keep = []; self.in_binder = 0; self.fuel = 1; self.term_mode = 0
        for a in self.axioms: self.assume(a)

    def fresh(self, base='v'):
        self.nfresh += 1
        return f'{base}!{self.nfresh}'

    def assume(self, t):
        if isinstance(t, BoolV): t = t.t
        if isinstance(t, bool):
            if not t: self.dead = True; raise PathEnd
            return
        if z3.is_true(t): return
        if z3.is_false(t): self.dead = True; raise PathEnd
        self.pc.append(t)
        if not has_quant(t): self.solver.add(t)

    def feasible(self, t):
        self.stats['feas'] += 1
        self.solver.push()
        self.solver.add(t)
        key = (getattr(self, 'line', None), t.hash())      # a question that took too long before gets little time
        ms = 40 if key in self.hopeless else self.feas_ms if len(self.hopeless) < 6 else 100
        if ms != self.feas_now: self.feas_now = ms; self.solver.set('timeout', ms)
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unknown: self.hopeless.add(key)
        return r != z3.unsat

    def decide(self, t):
        if isinstance(t, BoolV): t = t.t
        if isinstance(t, bool): return t
        if self.term_mode: raise Unsupported('path split inside a term')
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        neg = z3.is_not(t)
        atom = t.arg(0) if neg else t
        known = self.literals.get(atom.get_id())
        if known is not None: return known != neg
        i = self.pos; self.pos += 1
        if i < len(self.trace):
            b = self.trace[i][0]
        else:
            ft = self.feasible(t)
            ff = self.feasible(z3.Not(t))
            if not ft and not ff:
                self.pos -= 1; self.dead = True; raise PathEnd
            b = ft
            self.trace.append([b, ft and ff])
        self.literals[atom.get_id()] = b != neg; self.keep.append(atom)
        self.assume(t if b else z3.Not(t))
        return b

    def next_path(self):
        while self.trace and not self.trace[-1][1]: self.trace.pop()
        if not self.trace: return False
        self.trace[-1] = [not self.trace[-1][0], False]
        return True

    # ------------------------------------------------------------------ proving
    def prove(self, goal, extra=()):
        """returns (status, secs, backend)"""
        from .solve import prove as _prove
        return _prove(self, list(self.pc) + list(extra), goal)

    def obligation(self, name, goal, line=None, kind='assert', must=True):
        """check goal under the current path condition; record it"""
        if isinstance(goal, BoolV): goal = goal.t
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        key = (tuple(b for b, _ in self.trace[:self.pos]), self.obno); self.obno += 1
        if self.mode in ('discover', 'houdini'):
            return True
        if self.mode == 'bmc':
            return self.bmc_check(name, goal, line, kind)
        if key in self.ocache: return self.ocache[key]
        st, secs, be = self.prove(goal)
        o = Obligation(f'{self.target_name}/{name}', kind, line, st, secs, be)
        o.pathno = key[0]
        self.obligations.append(o)
        self.ocache[key] = (st == 'proved')
        if st != 'proved' and self.mode == 'final':
            self.nfailed = getattr(self, 'nfailed', 0) + 1
            if not self.patience and self.loops and any(not cd.alive and cd.fn in (self.current.templates or ()) for inf in self.loops.values() for cd in inf.cands or ()):
                self.nfailed = 0; raise Impatient
            if self.nfailed >= ENOUGH: raise Enough
        return st == 'proved'

    def bmc_check(self, name, goal, line, kind):
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        s = z3.Solver(); s.set('timeout', self.bmc_ms)
        s.add(*self.pc); s.add(z3.Not(goal))
        r = s.check()
        if r == z3.sat: self.bmc_hits.append((name, line, s.model()))
        return r == z3.unsat

    # ------------------------------------------------------------------ value helpers
    def force(self, v):
        """resolve unions by splitting the path"""
        while True:
            if isinstance(v, MaybeUnbound):
                if not self.decide(v.cond): raise PyRaise(UnboundLocalError, ('unbound',))
                v = v.value; continue
            if isinstance(v, UnionV):
                if self.term_mode: return v
                for i in range(len(v.alts) - 1):
                    if self.decide(v.tag == i): v = v.alts[i]; break
                else: v = v.alts[-1]
                continue
            return v

    def pick(self, v, pred):
        """in term mode, choose the union alternative satisfying pred (specs guard with tests)"""
        if isinstance(v, UnionV):
            c = [a for a in v.alts if pred(a)]
            self.picked = True
            if len(c) == 1: return c[0]
            if len(c) == 0: raise Unsupported(f'no union alternative fits: {v}')
            raise Unsupported('ambiguous union alternative')
        return v

    def over_union(self, v, pred, f):
        """apply f to a union in a specification, alternative by alternative"""
        c = [(i, a) for i, a in enumerate(v.alts) if pred(a)]
        if not c: raise Unsupported(f'no union alternative fits: {v}')
        r = None; done = False
        for i, a in reversed(c):
            try: x = f(a)
            except PyRaise:
                if len(c) == 1: raise
                continue
            r = x if not done else self.merge(v.tag == i, x, r)
            done = True
        if not done: raise PyRaise(TypeError, ('undefined',))
        return r

    def truth_term(self, v):
        """z3 Bool or native bool"""
        if isinstance(v, V):
            if isinstance(v, BoolV): return v.t
            if isinstance(v, IntV): return v.t != 0
            if isinstance(v, StrV): return z3.Length(v.t) > 0
            if isinstance(v, HomV):
                if all(v.special.values()): return z3.Length(v.base) > 0
                raise Unsupported('truth of HomV')
            if isinstance(v, ListV): return len(v.items) > 0 if v.items is not None else v.n > 0
            if isinstance(v, DictV):
                if v.pairs is not None: return len(v.pairs) > 0
                if v.size is not None: return v.size > 0
                raise Unsupported('dict size')
            if isinstance(v, SetV):
                if v.items is not None: return len(v.items) > 0
                k = z3.FreshConst(key_sort(v.keyT), 'sk'); return z3.Exists([k], z3.Select(v.dom, k))
            if isinstance(v, UnionV):
                r = []
                for i, a in enumerate(v.alts):
                    t = self.truth_term(a)
                    r.append(z3.And(v.tag == i, t))
                return z3.Or(*r)
            if isinstance(v, OpaqueV): return z3.Bool(self.fresh('opaque'))
            if isinstance(v, ObjV):
                for nm in ('__bool__', '__len__'):
                    f = class_attr(v.cls, nm)
                    if f is not None:
                        return self.truth_term(self.call_function(f, [v], {}))
                return True
            if isinstance(v, (MatchV, ExcV)): return True
            if isinstance(v, GenV): return True
            if isinstance(v, MaybeUnbound): return self.truth_term(self.force(v))
            raise Unsupported(f'truth of {type(v).__name__}')
        if isinstance(v, SymRange):
            return self.range_len(v) > 0
        if isinstance(v, (SymIter, BoundM, MethodOf, Closure)): return True
        return bool(v)

    def truth(self, v):
        t = self.truth_term(v)
        if isinstance(t, bool): return t
        return self.decide(t)

    def mkbool(self, t):
        if isinstance(t, bool): return t
        t2 = z3.simplify(t) if not has_quant(t) else t
        if z3.is_true(t2): return True
        if z3.is_false(t2): return False
        return BoolV(t)

    # ---- equality as term (native bool or z3 Bool)
    def eq_term(self, a, b):
        if isinstance(a, MaybeUnbound): a = self.force(a)
        if isinstance(b, MaybeUnbound): b = self.force(b)
        if a is b: return True
        if isinstance(a, UnionV) or isinstance(b, UnionV):
            if not isinstance(a, UnionV): a, b = b, a
            r = []
            for i, x in enumerate(a.alts):
                t = self.eq_term(x, b)
                if t is False: continue
                r.append(a.tag == i if t is True else z3.And(a.tag == i, t))
            return z3.Or(*r) if r else False
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV): return z3.Bool(self.fresh('opaque'))
        if isinstance(a, (HomV,)) or isinstance(b, (HomV,)):
            if isinstance(a, HomV) and isinstance(b, HomV) and a.base.eq(b.base):
                ks = set(a.special) | set(b.special)
                return all(a.special.get(k, k) == b.special.get(k, k) for k in ks)
            ta, tb = self.hom_term(a), self.hom_term(b)
            return self.eq_term(ta, tb)
        ka, kb = kind(a), kind(b)
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            if not isinstance(a, V) and not isinstance(b, V): return a == b
            if ka == 'bool' and kb == 'bool': return lift(a) == lift(b)
            return IntT.pack(a)[0] == IntT.pack(b)[0]
        if ka != kb:
            if ka == 'obj': 
                f = class_attr(a.cls, '__eq__')
                if f is not None and isinstance(f, types.FunctionType): return self.truth_term(self.call_function(f, [a, b], {}))
            return False
        if ka == 'str':
            if not isinstance(a, V) and not isinstance(b, V): return a == b
            return lift(a) == lift(b)
        if ka == 'none': return True
        if ka == 'sort': return a.t == b.t
        if ka == 'tuple':
            if len(a) != len(b): return False
            return self.and_terms([self.eq_term(x, y) for x, y in zip(a, b)])
        if ka == 'list':
            a, b = aslist(a), aslist(b)
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items): return False
                return self.and_terms([self.eq_term(x, y) for x, y in zip(a.items, b.items)])
            if a.items is not None or b.items is not None:
                c, s = (a, b) if a.items is not None else (b, a)
                if not c.items: return s.n == 0
                return self.and_terms([s.n == len(c.items)] + [self.eq_term(x, s.get(z3.IntVal(i))) for i, x in enumerate(c.items)])
            if a.elemT == b.elemT and all(x.eq(y) for x, y in zip(a.leaves, b.leaves)): return a.n == b.n
            i = z3.FreshConst(I, 'i')
            self.term_mode += 1
            try: e = self.eq_term(a.get(i), b.get(i))
            finally: self.term_mode -= 1
            e = lift(e) if isinstance(e, bool) else e
            return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), e)))
        if ka == 'obj':
            f = class_attr(a.cls, '__eq__')
            if f is not None and isinstance(f, types.FunctionType): return self.truth_term(self.call_function(f, [a, b], {}))
            return False   # identity: distinct wrappers (aliasing through lists is excluded by assumption)
        if ka == 'dict':
            return self.dict_eq(a, b)
        if ka == 'set':
            raise Unsupported('set equality')
        return a == b

    def dict_eq(self, a, b):
        a, b = asdict(a), asdict(b)
        if a.pairs is not None and b.pairs is not None:
            if len(a.pairs) != len(b.pairs): return False
            out = []
            for k, x in a.pairs:
                opts = []
                for k2, y in b.pairs:
                    e = self.eq_term(k, k2)
                    if e is False: continue
                    opts.append(self.and_terms([e, self.eq_term(x, y)]))
                out.append(self.or_terms(opts))
            return self.and_terms(out)
        if a.pairs is not None: a, b = b, a
        kT = a.keyT; vT = a.valT
        if b.pairs is not None: b = DictT(kT, vT).unpack(DictT(kT, vT).pack(b))
        k = z3.FreshConst(key_sort(kT), 'dk')
        self.term_mode += 1
        try: e = self.eq_term(self.dict_at(a, k), self.dict_at(b, k))
        finally: self.term_mode -= 1
        e = lift(e) if isinstance(e, bool) else e
        return z3.ForAll([k], z3.And(z3.Select(a.dom, k) == z3.Select(b.dom, k), z3.Implies(z3.Select(a.dom, k), e)))

    def dict_at(self, d, kterm): return d.valT.unpack([z3.Select(a, kterm) for a in d.leaves])

    def and_terms(self, ts):
        out = []
        for t in ts:
            if t is False: return False
            if t is True: continue
            out.append(t)
        if not out: return True
        return out[0] if len(out) == 1 else z3.And(*out)

    def or_terms(self, ts):
        out = []
        for t in ts:
            if t is True: return True
            if t is False: continue
            out.append(t)
        if not out: return False
        return out[0] if len(out) == 1 else z3.Or(*out)

    def not_term(self, t): return (not t) if isinstance(t, bool) else z3.Not(t)

    def hom_term(self, v):
        """HomV as a plain string term through the uninterpreted function of its map"""
        if not isinstance(v, HomV): return v
        if not v.special or all(k == x for k, x in v.special.items()): return StrV(v.base)
        from .models import hom_prefix
        return StrV(hom_prefix(self, v.base, z3.Length(v.base), v.special, unfold=False))

    def merge(self, c, a, b):
        """value equal to a when c else b (term-level)"""
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        if not isinstance(a, V) and not isinstance(b, V) and type(a) is type(b):
            try:
                if a == b: return a
            except Exception: pass
        Tm = join(typeof(a), typeof(b))
        pa, pb = Tm.pack(a), Tm.pack(b)
        return Tm.unpack([z3.If(c, x, y) for x, y in zip(pa, pb)])

    # ------------------------------------------------------------------ writes
    def wrote(self, obj):
        for w in self.write_stack: w[id(obj)] = obj

    def mutable(self, obj):
        if isinstance(obj, (list, dict, set)): raise Unsupported('mutation of an object of the loaded program')
        if getattr(obj, 'frozen', False): raise Unsupported('mutation of a frozen object')
        self.wrote(obj)
        return obj

    # ------------------------------------------------------------------ functions
    def is_ours(self, fn):
        f = fn.__code__.co_filename
        return f.startswith(self.roots)

    def qual(self, fn): return f'{fn.__module__}:{fn.__qualname__}'

    def call_function(self, fn, args, kwargs):
        """live Python function"""
        q = self.qual(fn)
        if id(fn) in self.diag: return None
        if id(fn) in self.extra_models: return self.extra_models[id(fn)](self, args, kwargs)
        c = self.contracts.get(q)
        if c is not None and not self.term_mode and c is not self.current: return self.apply_contract(c, fn, args, kwargs)
        if fn.__module__ == 're':
            from . import regex
            return regex.module_call(self, fn, args, kwargs)
        if fn.__module__ == 'gettext' and fn.__name__ == 'gettext':        # a translated message: some text
            self.trusted.add('gettext: gives some text')
            return StrV(z3.String(self.fresh('message')))
        if not self.is_ours(fn): raise Unsupported(f'call of library function {q}')
        node = func_node(fn)
        cls = None; parts = fn.__qualname__.split('.')
        live_cls = None
        if len(parts) > 1 and parts[-2] != '<locals>':
            cls = parts[-2]
            mod = sys.modules.get(fn.__module__); live_cls = getattr(mod, cls, None) if mod else None
        defaults = fn.__defaults__ or (); kwd = fn.__kwdefaults__ or {}
        parent = None
        if fn.__closure__:
            env = {}
            for n_, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try: env[n_] = cell.cell_contents
                except ValueError: pass
            parent = Frame('closure', env, fn.__globals__)
        if q.startswith('BibleOrgSys'): self.inlined.add(q)
        return self.run_node(node, q, args, kwargs, defaults, kwd, fn.__globals__, cls, parent, live_cls)

    def run_node(self, node, name, args, kwargs, defaults, kwd, globs, cls, parent, live_cls=None):
        self.call_depth += 1
        if self.call_depth > 40: self.call_depth -= 1; raise Unsupported('recursion too deep (no contract)')
        try:
            env = self.bind(node.args, args, kwargs, defaults, kwd, name)
            fr = Frame(name, env, globs, cls, parent, None, live_cls)
            if isinstance(node, ast.Lambda): return self.eval(node.body, fr)
            fr.local_names = getattr(node, '_ln', None) or local_names_of(node)
            node._ln = fr.local_names
            gen = has_yield(node)
            if gen: fr.yields = ListV(items=[])
            self.frames.append(fr)
            try:
                if self.term_mode:
                    r = self.term_block(node.body, fr)
                    return None if r is NORET else r
                try: self.block(node.body, fr)
                except ReturnExc as r:
                    return GenV(fr.yields) if gen else r.v
                return GenV(fr.yields) if gen else None
            finally: self.frames.pop()
        finally: self.call_depth -= 1

    def bind(self, a, args, kwargs, defaults, kwd, name):
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        args = list(args); kwargs = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args): env[p] = args[i]
            elif p in kwargs: env[p] = kwargs.pop(p)
            else:
                j = i - (len(params) - len(defaults))
                if j < 0: raise PyRaise(TypeError, (f'{name} missing argument {p}',))
                env[p] = defaults[j]
        if a.vararg: env[a.vararg.arg] = tuple(args[len(params):])
        elif len(args) > len(params): raise PyRaise(TypeError, (f'{name} takes {len(params)} arguments',))
        for x in a.kwonlyargs:
            if x.arg in kwargs: env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwd: env[x.arg] = kwd[x.arg]
            else: raise PyRaise(TypeError, (f'{name} missing argument {x.arg}',))
        if a.kwarg: env[a.kwarg.arg] = DictV(pairs=[[k, v] for k, v in kwargs.items()])
        elif kwargs: raise PyRaise(TypeError, (f'{name} unexpected arguments {list(kwargs)}',))
        return env

    # ------------------------------------------------------------------ term-mode statement execution (pure spec functions)
    def term_block(self, stmts, fr):
        for ix, st in enumerate(stmts):
            if isinstance(st, ast.Return): return None if st.value is None else self.eval(st.value, fr)
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): continue
            if isinstance(st, ast.Assign):
                v = self.eval(st.value, fr)
                for t in st.targets: self.assign(t, v, fr)
                continue
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.assign(st.target, self.binop(st.op, self.eval(st.target, fr), self.eval(st.value, fr), st), fr); continue
            if isinstance(st, ast.If):
                c = self.truth_term(self.eval(st.test, fr))
                rest = stmts[ix+1:]
                if isinstance(c, bool):
                    return self.term_block((st.body if c else st.orelse) + rest, fr)
                e0 = dict(fr.env)
                def branch(stmts_):
                    fr.env = dict(e0)
                    r = self.term_block(stmts_, fr)
                    if r is NORET: raise Unsupported('spec function without return on some path')
                    return r
                return self.merge_thunks(c, lambda: branch(st.body + rest), lambda: branch(st.orelse + rest))
            if isinstance(st, ast.For):
                it = self.eval(st.iter, fr)
                items = self.concrete_items(it)
                if items is None: raise Unsupported('symbolic loop in a specification')
                if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for b_ in st.body for x in ast.walk(b_)):
                    # unroll into nested ifs
                    def unrolled(j):
                        if j == len(items): return self.term_block(st.orelse + stmts[ix+1:], fr)
                        self.assign(st.target, items[j], fr)
                        return self.term_loop_body(st.body, fr, lambda: unrolled(j + 1))
                    return unrolled(0)
                for x in items:
                    self.assign(st.target, x, fr)
                    r = self.term_block(st.body, fr)
                    if r is not NORET: return r
                continue
            if isinstance(st, ast.Pass): continue
            if isinstance(st, ast.Assert): continue
            raise Unsupported(f'statement {type(st).__name__} in a term')
        return NORET

    def term_loop_body(self, stmts, fr, cont):
        if not stmts: return cont()
        st = stmts[0]
        if isinstance(st, ast.Return): return self.eval(st.value, fr) if st.value else None
        if isinstance(st, ast.Continue): return cont()
        if isinstance(st, ast.If):
            c = self.truth_term(self.eval(st.test, fr))
            if isinstance(c, bool): return self.term_loop_body((st.body if c else st.orelse) + stmts[1:], fr, cont)
            e0 = dict(fr.env)
            a = self.term_loop_body(st.body + stmts[1:], fr, cont); fr.env = dict(e0)
            b = self.term_loop_body(st.orelse + stmts[1:], fr, cont)
            return self.merge(c, a, b)
        r = self.term_block([st], fr)
        if r is not NORET: return r
        return self.term_loop_body(stmts[1:], fr, cont)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for st in stmts: self.stmt(st, fr)

    def stmt(self, st, fr):
        self.line = st.lineno
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise Unsupported(f'statement {type(st).__name__} (line {st.lineno})')
        try: return m(st, fr)
        except PyRaise as e:
            if e.line is None: e.line = st.lineno
            raise

    def s_Pass(self, st, fr): pass
    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant): return
        if self.is_diag_call(st.value, fr):
            return
        self.eval(st.value, fr)
    def is_diag_call(self, e, fr):
        if self.eval_diag or not isinstance(e, ast.Call): return False
        try:
            if isinstance(e.func, ast.Name): f = self.lookup(e.func.id, fr)
            elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
                m = self.lookup(e.func.value.id, fr)
                if not isinstance(m, types.ModuleType): return False
                f = getattr(m, e.func.attr, None)
            else: return False
        except (PyRaise, Unsupported): return False
        return id(f) in self.diag
    def s_Return(self, st, fr): raise ReturnExc(None if st.value is None else self.eval(st.value, fr))
    def s_Break(self, st, fr): raise BreakExc
    def s_Continue(self, st, fr): raise ContinueExc
    def s_Global(self, st, fr): fr.globals_decl.update(st.names)
    def s_Nonlocal(self, st, fr): fr.globals_decl.update(st.names)
    def s_Import(self, st, fr):
        for a in st.names:
            m = __import__(a.name)
            if a.asname: m = sys.modules[a.name]
            fr.env[(a.asname or a.name).split('.')[0]] = m
    def s_ImportFrom(self, st, fr):
        import importlib
        m = importlib.import_module(st.module)
        for a in st.names:
            try: v = getattr(m, a.name)
            except AttributeError: v = importlib.import_module(st.module + '.' + a.name)
            fr.env[a.asname or a.name] = v
    def s_FunctionDef(self, st, fr):
        c = Closure(st, fr, st.name)
        c.defaults = tuple(self.eval(d, fr) for d in st.args.defaults)
        c.kwd = {a.arg: self.eval(d, fr) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        fr.env[st.name] = c
    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets: self.assign(t, v, fr)
    def s_AnnAssign(self, st, fr):
        if st.value is not None: self.assign(st.target, self.eval(st.value, fr), fr)
    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            self.assign(t, self.augop(st.op, cur, self.eval(st.value, fr), st), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            nm = self.mangle(t.attr, fr)
            cur = self.getattr(o, nm)
            self.setattr(o, nm, self.augop(st.op, cur, self.eval(st.value, fr), st))
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, fr)); ix = self.eval_index(t.slice, fr)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.augop(st.op, cur, self.eval(st.value, fr), st))
        else: raise Unsupported('augmented assignment target')
    def augop(self, op, cur, val, st):
        cur = self.force(cur)
        if isinstance(op, ast.Add) and isinstance(cur, ListV):
            self.list_extend(cur, self.force(val)); return cur
        if isinstance(cur, ObjV):
            nm = {'Add': '__iadd__'}.get(type(op).__name__)
            f = class_attr(cur.cls, nm) if nm else None
            if f is not None: return self.call_function(f, [cur, val], {})
        return self.binop(op, cur, val, st)
    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name): del fr.env[t.id]
            elif isinstance(t, ast.Subscript): self.delitem(self.force(self.eval(t.value, fr)), self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr); self.mutable(o); del o.fields[self.mangle(t.attr, fr)]
            else: raise Unsupported('del')
    def s_If(self, st, fr):
        t = self.test_term(st.test, fr)
        if not isinstance(t, bool) and not self.eval_diag and all(self.is_diag_stmt(x, fr) for x in st.body + st.orelse): return
        if (t if isinstance(t, bool) else self.decide(t)): self.block(st.body, fr)
        else: self.block(st.orelse, fr)
    def is_diag_stmt(self, st, fr):
        return isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and (isinstance(st.value, ast.Constant)
               or isinstance(st.value, ast.Call) and self.is_diag_call(st.value, fr))
    def test_term(self, e, fr):
        """truth of a condition: one term (no path splits) when the expression is simple and cannot raise"""
        if not self.term_mode and isinstance(e, (ast.BoolOp, ast.UnaryOp)) and self.simple_test(e, fr):
            st = (self.pos, len(self.pc))
            self.picked = False
            try:
                v = self.spec_eval(e, fr)
                t = self.truth_term(v)
                if not self.picked and st[0] == self.pos: return t
            except (PyRaise, Unsupported): pass
        return self.truth_term(self.eval(e, fr))
    def spec_eval(self, e, fr):
        self.term_mode += 1
        try: return self.eval(e, fr)
        finally: self.term_mode -= 1
    SAFE_METHODS = {'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isalnum', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip'}
    def simple_test(self, e, fr):
        if isinstance(e, ast.BoolOp): return all(self.simple_test(x, fr) for x in e.values)
        if isinstance(e, ast.UnaryOp): return isinstance(e.op, ast.Not) and self.simple_test(e.operand, fr)
        if isinstance(e, ast.Constant): return True
        if isinstance(e, ast.Name):
            try: return not isinstance(self.lookup(e.id, fr), (MaybeUnbound, UnionV, OpaqueV, HomV))
            except PyRaise: return False
        if isinstance(e, ast.Compare): return all(self.simple_test(x, fr) for x in [e.left] + e.comparators)
        if isinstance(e, (ast.Tuple, ast.List)): return all(self.simple_test(x, fr) for x in e.elts)
        if isinstance(e, ast.Call):
            if e.keywords or not all(self.simple_test(a, fr) for a in e.args): return False
            if isinstance(e.func, ast.Name): return e.func.id == 'len' and 'len' not in fr.env and 'len' not in fr.globs
            return isinstance(e.func, ast.Attribute) and e.func.attr in self.SAFE_METHODS and isinstance(e.func.value, ast.Name) \
                and self.simple_test(e.func.value, fr) and kind(self.lookup(e.func.value.id, fr)) == 'str'
        return False
    def s_Assert(self, st, fr):
        if fr.globs.get('__name__', '').startswith('contracts.'):
            # a client program's assertion is an obligation
            v = self.eval(st.test, fr)
            g = self.truth_term(v)
            g = z3.BoolVal(g) if isinstance(g, bool) else g
            self.obligation(f'assert@{ast.unparse(st.test)[:60]}', g, st.lineno, 'assertion')
            self.assume(g)
            return
        t = self.test_term(st.test, fr)
        if not (t if isinstance(t, bool) else self.decide(t)): raise PyRaise(AssertionError, (), st.lineno)
    def s_Raise(self, st, fr):
        if st.exc is None:
            raise PyRaise(*self.current_exc) if getattr(self, 'current_exc', None) else Unsupported('bare raise')
        e = self.force(self.eval(st.exc, fr))
        if isinstance(e, type): raise PyRaise(e, (), st.lineno)
        if isinstance(e, ExcV): raise PyRaise(e.cls, e.args, st.lineno)
        raise Unsupported('raise of a non-exception')
    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None: ok = True
                    else:
                        ty = self.eval(h.type, fr)
                        ok = issubclass(e.cls, ty)
                    if ok:
                        if h.name: fr.env[h.name] = ExcV(e.cls, e.args_)
                        saved = getattr(self, 'current_exc', None); self.current_exc = (e.cls, e.args_, e.line)
                        try: self.block(h.body, fr)
                        finally: self.current_exc = saved
                        break
                else: raise
            else:
                self.block(st.orelse, fr)
        except (PathEnd, Restart, Unsupported): raise
        except BaseException:
            self.block(st.finalbody, fr); raise
        self.block(st.finalbody, fr)
    def s_With(self, st, fr):
        exits = []
        for it in st.items:
            c = self.force(self.eval(it.context_expr, fr))
            ent = self.getattr(c, '__enter__')
            v = self.call(ent, [], {})
            exits.append(c)
            if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
        def close():
            for c in reversed(exits): self.call(self.getattr(c, '__exit__'), [None, None, None], {})
        try: self.block(st.body, fr)
        except (PathEnd, Restart, Unsupported): raise
        except BaseException: close(); raise
        close()
    def s_ClassDef(self, st, fr): raise Unsupported('nested class')

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                p = fr.parent
                while p is not None:
                    if t.id in p.env: p.env[t.id] = v; return
                    p = p.parent
                raise Unsupported('assignment to a module global')
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star: raise Unsupported('starred assignment')
            items = self.unpack_seq(v, len(t.elts))
            for e, x in zip(t.elts, items): self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.force(self.eval(t.value, fr)), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.force(self.eval(t.value, fr)), self.eval_index(t.slice, fr), v)
        else: raise Unsupported('assignment target')

    def unpack_seq(self, v, k):
        if isinstance(v, UnionV): v = self.pick(v, lambda a: isinstance(a, tuple) and len(a) == k)
        if isinstance(v, (tuple, list)):
            if len(v) != k: raise PyRaise(ValueError, ('unpack',))
            return list(v)
        if isinstance(v, GenV): v = v.lst
        if isinstance(v, ListV):
            if v.items is not None:
                if len(v.items) != k: raise PyRaise(ValueError, ('unpack',))
                return list(v.items)
            if not self.decide(v.n == k): raise PyRaise(ValueError, ('unpack',))
            return [v.get(z3.IntVal(i)) for i in range(k)]
        if isinstance(v, str):
            if len(v) != k: raise PyRaise(ValueError, ('unpack',))
            return list(v)
        if isinstance(v, ObjV):
            it = self.concrete_items(v)
            if it is None: raise Unsupported('unpack of an object')
            if len(it) != k: raise PyRaise(ValueError, ('unpack',))
            return it
        if isinstance(v, (IntV, BoolV, int, type(None))): raise PyRaise(TypeError, ('cannot unpack',))
        raise Unsupported(f'unpack of {type(v).__name__}')

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None:
                if f.cls: return '_' + f.cls.lstrip('_') + name
                f = f.parent
        return name

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported(f'expression {type(e).__name__} (line {e.lineno})')
        return m(e, fr)

    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        if isinstance(v, MaybeUnbound):
            if self.term_mode: return v.value
            if not self.decide(v.cond): raise PyRaise(UnboundLocalError, (e.id,), e.lineno)
            fr.env[e.id] = v.value
            return v.value
        return v

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env: return f.env[name]
            if name in f.local_names and f.env is not f.globs:
                raise PyRaise(UnboundLocalError, (name,))
            f = f.parent
        key = (fr.globs.get('__name__'), name)
        if key in self.overrides: return self.overrides[key]
        if name in fr.globs: return fr.globs[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        raise PyRaise(NameError, (name,))

    def e_Attribute(self, e, fr): return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))
    def e_Tuple(self, e, fr): return tuple(self.star_items(e.elts, fr))
    def e_List(self, e, fr): return ListV(items=self.star_items(e.elts, fr))
    def e_Set(self, e, fr):
        s = SetV(items=[])
        for x in self.star_items(e.elts, fr): self.set_add(s, x)
        return s
    def e_Dict(self, e, fr):
        d = DictV(pairs=[])
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = asdict(self.force(self.eval(v, fr)))
                if o.pairs is None: raise Unsupported('dict unpack')
                for a, b in o.pairs: self.dict_set(d, a, b)
            else: self.dict_set(d, self.eval(k, fr), self.eval(v, fr))
        return d
    def star_items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.concrete_items(self.force(self.eval(x.value, fr)))
                if it is None: raise Unsupported('starred of a symbolic list')
                out.extend(it)
            else: out.append(self.eval(x, fr))
        return out
    def e_Starred(self, e, fr): raise Unsupported('starred')
    def e_Lambda(self, e, fr):
        c = Closure(e, fr, '<lambda>'); c.defaults = tuple(self.eval(d, fr) for d in e.args.defaults); c.kwd = {}
        return c
    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr); self.assign(e.target, v, fr); return v
    def e_IfExp(self, e, fr):
        c = self.truth_term(self.eval(e.test, fr))
        if isinstance(c, bool): return self.eval(e.body if c else e.orelse, fr)
        if self.term_mode: return self.merge_thunks(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))
        return self.eval(e.body if self.decide(c) else e.orelse, fr)
    def merge_thunks(self, c, fa, fb):
        """conditional in a specification; a branch whose evaluation raises is undefined (unconstrained) there"""
        try: a = fa()
        except PyRaise:
            return self.undef_merge(c, None, fb())
        try: b = fb()
        except PyRaise:
            return self.undef_merge(c, a, None, True)
        return self.merge(c, a, b)
    def undef_merge(self, c, a, b, second=False):
        T_ = typeof(a if second else b)
        u = self.fresh_of(T_, self.fresh('undef'))
        return self.merge(c, a, u) if second else self.merge(c, u, b)
    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        if self.term_mode:
            ts = []
            acc = None; conds = []
            for x in e.values:
                try: v = self.eval(x, fr)
                except PyRaise:
                    if not ts: raise
                    v = BoolV(z3.FreshConst(B, 'undef'))   # undefined specification value: unconstrained
                t = self.truth_term(v)
                if isinstance(t, bool):
                    if t != isand:   # decides here
                        if not ts: return v if not isinstance(v, bool) else v
                        ts.append(t); break
                    last = v
                    continue
                ts.append(t); last = v
            if not ts: return last
            r = self.and_terms(ts) if isand else self.or_terms(ts)
            return self.mkbool(r)
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if t != isand: return v
        return v
    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return self.mkbool(self.not_term(t))
        v = self.force(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (IntV, BoolV)): return IntV(-IntT.pack(v)[0])
            if isinstance(v, (int, float)): return -v
        if isinstance(e.op, ast.UAdd) and isinstance(v, (int, IntV)): return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int): return ~v
        if isinstance(v, OpaqueV): return OpaqueV('unary')
        if isinstance(v, (str, StrV, ListV, type(None))): raise PyRaise(TypeError, ('bad operand',))
        raise Unsupported('unary op')
    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        return self.binop(e.op, a, self.eval(e.right, fr), e)
    def binop(self, op, a, b, node):
        a, b = self.force(a), self.force(b)
        return self.binop_forced(op, a, b)
    def binop_forced(self, op, a, b):
        from . import models
        return models.binop(self, op, a, b)
    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr); res = []
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            r = self.compare(op, left, right)
            if len(e.ops) == 1: return self.mkbool(r)
            if not self.term_mode:
                if not (r if isinstance(r, bool) else self.decide(r)): return False
            else: res.append(r)
            left = right
        return self.mkbool(self.and_terms(res)) if self.term_mode else True
    def compare(self, op, a, b):
        from . import models
        return models.compare(self, op, a, b)
    def e_Subscript(self, e, fr):
        o = self.force(self.eval(e.value, fr))
        return self.getitem(o, self.eval_index(e.slice, fr))
    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.force(self.eval(x, fr))
            return slice(f(s.lower), f(s.upper), f(s.step))
        v = self.eval(s, fr)
        return v
    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant): parts.append(x.value)
            else: parts.append(self.format_value(x, fr))
        out = ''
        for p in parts: out = self.str_concat(out, p)
        return out
    def format_value(self, x, fr):
        v = self.force(self.eval(x.value, fr))
        if x.conversion == -1 and x.format_spec is None:
            return self.to_str(v)
        if deep_native(v) and (x.format_spec is None or all(isinstance(y, ast.Constant) for y in x.format_spec.values)):
            fs = ''.join(y.value for y in x.format_spec.values) if x.format_spec else ''
            if x.conversion == ord('r'): v = repr(v)
            elif x.conversion == ord('s'): v = str(v)
            return format(v, fs)
        if x.conversion == ord('s') and x.format_spec is None: return self.to_str(v)
        return StrV(z3.String(self.fresh('fmt')))
    def to_str(self, v):
        if isinstance(v, (str, StrV, HomV)): return v
        if isinstance(v, IntV): return self.int_to_str(v)
        if isinstance(v, ObjV):
            f = class_attr(v.cls, '__str__')
            if isinstance(f, types.FunctionType): return self.call_function(f, [v], {})
        if deep_native(v): return str(v)
        if isinstance(v, UnionV):
            alts = [a if isinstance(a, (str, StrV, HomV, IntV)) or deep_native(a) else None if a is not None else 'None' for a in v.alts]
            alts = ['None' if o is None else a for o, a in zip(v.alts, alts)]
            if all(a is not None for a in alts):
                ts = [lift(self.hom_term(self.to_str(a))) for a in alts]
                r = ts[-1]
                for i in range(len(ts) - 2, -1, -1): r = z3.If(v.tag == i, ts[i], r)
                return StrV(r)
        return StrV(z3.String(self.fresh('str')))
    def int_to_str(self, v):
        from . import models
        return StrV(models.py_str(self, v.t))
    def str_concat(self, a, b):
        if isinstance(a, str) and isinstance(b, str): return a + b
        if isinstance(a, str) and a == '': return b
        if isinstance(b, str) and b == '': return a
        a, b = self.hom_term(a), self.hom_term(b)
        return StrV(z3.Concat(lift(a), lift(b)))
    def e_FormattedValue(self, e, fr): return self.format_value(e, fr)
    def e_Await(self, e, fr): raise Unsupported('await')
    def e_Yield(self, e, fr):
        f = fr
        v = self.eval(e.value, fr) if e.value is not None else None
        self.list_append(f.yields, v)
        return None
    def e_YieldFrom(self, e, fr):
        self.list_extend(fr.yields, self.force(self.eval(e.value, fr))); return None

    # ------------------------------------------------------------------ comprehensions: desugared to loops with a hidden accumulator
    def e_ListComp(self, e, fr): return self.comp(e, fr, 'list')
    def e_SetComp(self, e, fr): return self.comp(e, fr, 'set')
    def e_GeneratorExp(self, e, fr): return GenV(self.comp(e, fr, 'list'))
    def e_DictComp(self, e, fr): return self.comp(e, fr, 'dict')
    def comp(self, e, fr, what):
        acc = {'list': lambda: ListV(items=[]), 'set': lambda: SetV(items=[]), 'dict': lambda: DictV(pairs=[])}[what]()
        nm = f'${what}acc{e.lineno}_{e.col_offset}'
        cf = Frame(fr.name, {nm: acc}, fr.globs, fr.cls, fr, set(), fr.live_cls)
        def gen(i):
            if i == len(e.generators):
                if what == 'list': self.list_append(acc, self.eval(e.elt, cf))
                elif what == 'set': self.set_add(acc, self.eval(e.elt, cf))
                else: self.dict_set(acc, self.eval(e.key, cf), self.eval(e.value, cf))
                return
            g = e.generators[i]
            def body():
                for c in g.ifs:
                    if not self.truth(self.eval(c, cf)): return
                gen(i + 1)
            self.for_loop(g.target, self.eval(g.iter, cf), body, cf, f'{fr.name}#comp{e.lineno}.{e.col_offset}.{i}', e.lineno)
        gen(0)
        return acc

    # ------------------------------------------------------------------ loops
    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        broke = self.for_loop(st.target, it, lambda: self.block(st.body, fr), fr, f'{fr.name}#for@{st.lineno}', st.lineno)
        if not broke: self.block(st.orelse, fr)

    def s_While(self, st, fr):
        broke = self.while_loop(st.test, lambda: self.block(st.body, fr), fr, f'{fr.name}#while@{st.lineno}', st.lineno)
        if not broke: self.block(st.orelse, fr)

    def concrete_items(self, it):
        """list of items if the number of iterations is known, else None"""
        it = self.force(it)
        if isinstance(it, GenV): it = it.lst
        if isinstance(it, UnionV): raise Unsupported('iteration over a union')
        if isinstance(it, ListV): return list(it.items) if it.items is not None else None
        if isinstance(it, DictV): return [k for k, _ in it.pairs] if it.pairs is not None else None
        if isinstance(it, SetV): return list(it.items) if it.items is not None else None
        if isinstance(it, (str, tuple, list, dict, set, frozenset, range)): 
            return list(it)
        if isinstance(it, type({}.items())) or isinstance(it, type({}.keys())) or isinstance(it, type({}.values())): return list(it)
        if isinstance(it, (StrV, HomV, SymIter)): return None
        if isinstance(it, SymRange): return None
        if isinstance(it, (IntV, BoolV, int, type(None))): raise PyRaise(TypeError, ('not iterable',))
        if isinstance(it, ObjV):
            f = class_attr(it.cls, '__iter__')
            if f is None:
                n = self.sequence_len(it)
                if not isinstance(n, int): return None
                return [self.getitem(it, i) for i in range(n)]
            return self.concrete_items(self.call_function(f, [it], {}))
        if isinstance(it, OpaqueV): raise Unsupported('iteration over an opaque value')
        if hasattr(it, '__iter__') and deep_native(it) and not isinstance(it, (ExcV,)): return list(it)
        raise Unsupported(f'iteration over {type(it).__name__}')

    def range_len(self, r):
        lo, hi, st = r.lo, r.hi, r.step
        if not isinstance(st, int): raise Unsupported('range step')
        if st == 1: d = hi - lo
        elif st == -1: d = lo - hi
        elif st > 0: d = (hi - lo + (st - 1)) / st
        else: d = (lo - hi + (-st - 1)) / (-st)
        return z3.If(d > 0, d, z3.IntVal(0))

    def sym_iter(self, it):
        it = self.force(it)
        if isinstance(it, GenV): it = it.lst
        if isinstance(it, ObjV):
            f = class_attr(it.cls, '__iter__')
            if f is None:
                n = self.sequence_len(it)
                snap = snapshot(it, {})
                def item(k):
                    old, self.term_mode = self.term_mode, True
                    try: return self.getitem(snap, IntV(k))
                    finally: self.term_mode = old
                return SymIter(IntT.pack(n)[0], item, tuple(reachable_lists(it)))
            return self.sym_iter(self.call_function(f, [it], {}))
        if isinstance(it, ListV):
            if it.items is not None:
                items = it.items
                return SymIter(z3.IntVal(len(items)), None, (it,))
            snap = it.copy()
            return SymIter(it.n, lambda k: snap.get(k), (it,))
        if isinstance(it, (StrV, HomV)):
            t = lift(self.hom_term(it))
            def char(k):
                if getattr(self.current, 'char_steps', False) and not self.term_mode:      # theory fact the solvers need spelt out
                    self.assume(z3.SubString(t, 0, k + 1) == z3.Concat(z3.SubString(t, 0, k), z3.SubString(t, k, 1)))
                return StrV(z3.SubString(t, k, 1))
            return SymIter(z3.Length(t), char)
        if isinstance(it, SymRange):
            return SymIter(self.range_len(it), lambda k: IntV(z3.simplify(it.lo + k * it.step)))
        if isinstance(it, SymIter): return it
        if isinstance(it, DictV):
            if it.order is None: raise Unsupported('iteration over an unordered symbolic dict')
            order, kT = it.order, it.keyT
            return SymIter(it.size, lambda k: key_value(kT, z3.Select(order, k)), (it,))
        raise Unsupported(f'symbolic iteration over {type(it).__name__}')

    def sequence_len(self, o):
        """length of an object iterated through __getitem__ (the old sequence protocol). Python calls it with 0, 1, 2... until
        IndexError; that this happens exactly at len(o) is verified separately from the source of the class"""
        g, l = class_attr(o.cls, '__getitem__'), class_attr(o.cls, '__len__')
        if not isinstance(g, types.FunctionType) or not isinstance(l, types.FunctionType): raise Unsupported('iteration over an object')
        T_ = typeof(o)
        key = (o.cls, repr(T_))
        if key not in SEQ_LAW:
            from . import verify, contract
            SEQ_LAW[key] = False
            c = type('sequence_protocol', (contract.Contract,), dict(target='pyverif.seqlaw:get_at', args=dict(o=T_, k=IntT),
                     pre=lambda k: k >= 0, raises={IndexError: lambda o, k: k >= len(o)}))
            SEQ_LAW[key] = bool(verify.verify(c).ok)
        if not SEQ_LAW[key]: raise Unsupported(f'{o.cls.__name__}: __getitem__ does not raise IndexError exactly at len')
        self.inlined.add(f'{o.cls.__module__}:{o.cls.__name__}.__getitem__') if hasattr(self, 'inlined') else None
        return self.call_function(l, [o], {})

    def for_loop(self, target, it, body, fr, key, line):
        """returns True when left by break"""
        items = self.concrete_items(it)
        if items is not None and len(items) <= 64 or (items is not None and self.term_mode):
            live = self.force(it)
            live = live.lst if isinstance(live, GenV) else live
            k = 0
            while True:
                if isinstance(live, ListV) and live.items is not None: cur = live.items   # Python iterates the live list
                elif isinstance(live, ListV): raise Unsupported('list became symbolic while iterated')
                else: cur = items
                if k >= len(cur): return False
                x = cur[k]; k += 1
                if target is not None: self.assign(target, x, fr)
                try: body()
                except ContinueExc: pass
                except BreakExc: return True
        if self.term_mode: raise Unsupported('symbolic loop inside a term')
        if items is not None: raise Unsupported(f'long concrete loop ({len(items)})')
        si = self.sym_iter(it)
        if self.mode == 'bmc':
            k = 0
            while True:
                if not self.decide(k < si.n): return False
                if k >= self.unroll: raise PathEnd
                self.assign(target, si.item(z3.IntVal(k)), fr)
                k += 1
                try: body()
                except ContinueExc: pass
                except BreakExc: return True
        def step(k): self.assign(target, si.item(k), fr); body()
        return self.cut_loop(key, line, fr, si.n, None, step, si)

    def while_loop(self, test, body, fr, key, line):
        if self.mode == 'bmc':
            k = 0
            while True:
                if not self.truth(self.eval(test, fr)): return False
                if k >= self.unroll: raise PathEnd
                k += 1
                try: body()
                except ContinueExc: pass
                except BreakExc: return True
        # concrete execution as long as the condition is native and the loop small
        return self.cut_loop(key, line, fr, None, test, lambda k: body(), None)

    # ---- locations
    def reach(self, fr):
        """reachable mutable objects from the frames: id -> (name, obj)"""
        out = {}
        def walk(v, name, depth=0):
            if isinstance(v, (UnionV,)):
                for a in v.alts: walk(a, name, depth)
                return
            if isinstance(v, MaybeUnbound): return walk(v.value, name, depth)
            if isinstance(v, tuple):
                for i, x in enumerate(v): walk(x, f'{name}[{i}]', depth + 1)
                return
            if not isinstance(v, MUT): return
            if id(v) in out: return
            out[id(v)] = (name, v)
            if isinstance(v, ListV) and v.items is not None:
                for i, x in enumerate(v.items): walk(x, f'{name}[{i}]', depth + 1)
            elif isinstance(v, DictV) and v.pairs is not None:
                for k, x in v.pairs: walk(x, f'{name}[{k!r}]', depth + 1)
            elif isinstance(v, ObjV):
                for f, x in v.fields.items(): walk(x, f'{name}.{f}', depth + 1)
        f = fr
        while f is not None:
            if f.env is not f.globs:
                for n_, v in f.env.items(): walk(v, n_)
            if f.yields is not None: walk(f.yields, '%yield')
            f = f.parent
        for g in reversed(self.frames):
            f = g
            while f is not None:
                if f.env is not f.globs:
                    for n_, v in f.env.items(): walk(v, f'^{g.name.split(":")[-1]}.{n_}')
                f = f.parent
        for nm, v in getattr(self, 'ghost_roots', {}).items(): walk(v, f'%{nm}')
        return out

    def local_env(self, fr):
        """name -> (env dict, value) of the frame including comprehension/closure parents"""
        out = {}
        f = fr
        while f is not None:
            if f.env is not f.globs and f.name != 'closure':
                for n_, v in f.env.items():
                    if n_ not in out: out[n_] = (f.env, v)
            f = f.parent
        return out

    def cut_loop(self, key, line, fr, n, test, step, si):
        depth_key = key + '/' + '>'.join(g.name.split(':')[-1] for g in self.frames[:-1])
        info = self.loops.get(depth_key)
        if info is None: info = self.loops[depth_key] = LoopInfo(depth_key)
        reach0 = self.reach(fr)
        env0 = {nm: (e, v) for nm, (e, v) in self.local_env(fr).items()}
        byname = {}
        for oid, (nm, o) in reach0.items(): byname.setdefault(nm, o)
        # entry types
        for loc in list(info.types):
            cur = self.loc_value(loc, env0, byname)
            if cur is not MISSING:
                j = join(info.types[loc], self.loc_type(loc, cur, info))
                if j != info.types[loc]: info.types[loc] = j
        ghosts = self.loop_depth
        # candidate invariants
        kname = self.fresh('k')
        k = z3.Int(kname)
        if info.cands is None and info.types is not None and self.mode in ('houdini', 'final'):
            info.cands = self.make_cands(info, fr, env0, byname, n)
        entry = {}
        for loc in info.types:
            v = self.loc_value(loc, env0, byname)
            entry[loc] = MISSING if v is MISSING else (snapshot(v) if isinstance(v, V) or isinstance(v, tuple) else v)
        cx = dict(n=n, entry=entry, si=si, fr=fr)
        # initialisation
        if self.mode in ('houdini', 'final'):
            for c in info.cands:
                if not c.alive: continue
                g = self.cand_term(c, fr, env0, byname, z3.IntVal(0), cx)
                if g is None:
                    c.alive = False; self.changed = True; continue
                self.check_cand(c, g, 'init', line, depth_key)
        # cut
        for loc, Tm in info.types.items():
            cur = self.loc_value(loc, env0, byname)
            nm = self.fresh('L_' + loc[1].replace(' ', ''))
            if loc[0] == 'local':
                fv = self.fresh_of(Tm, nm)
                if cur is MISSING:
                    cond = k > 0
                    if loc[1] in info.partial:
                        cond = z3.Bool(self.fresh('bound_' + loc[1])); self.assume(z3.Implies(cond, k > 0))
                    fr.env[loc[1]] = MaybeUnbound(cond, fv)
                else:
                    env0[loc[1]][0][loc[1]] = fv
            else:
                if cur is MISSING: continue
                if isinstance(cur, ObjV):
                    for w in self.write_stack:
                        w[id(cur)] = cur
                        for f, _ in Tm.items(): w.setdefault(('f', id(cur)), set()).add(f)
                else: self.wrote(cur)
                self.havoc_object(cur, Tm, nm, loc)
        self.assume(k >= 0)
        if n is not None: self.assume(k <= n)
        env1 = {nm: (e, e[nm]) for nm, (e, v) in self.local_env(fr).items()}
        if self.mode in ('houdini', 'final'):
            for c in info.cands:
                if not c.alive: continue
                g = self.cand_term(c, fr, env1, byname, k, cx)
                if g is None: c.alive = False; self.changed = True; continue
                self.assume(g)
        # one arbitrary iteration, or exit
        self.loop_depth = ghosts + [(k, n)]
        go = self.decide(k < n) if n is not None else self.truth(self.eval(test, fr))
        if not go:
            self.loop_depth = ghosts
            if n is not None: self.assume(k == n)
            return False
        head_env = {nm: v for nm, (e, v) in self.local_env(fr).items()}
        # evaluation of the test may itself resolve MaybeUnbound; measured state is the one at the head
        w = {}
        self.write_stack.append(w)
        meas0 = self.measures(fr) if n is None else None
        try:
            try: step(k)
            except ContinueExc: pass
        except BreakExc:
            self.write_stack.pop()
            self.merge_writes(info, w, reach0, head_env, fr, after_break=True)
            self.loop_depth = ghosts
            return True
        except (ReturnExc, PyRaise):
            self.write_stack.pop(); self.loop_depth = ghosts
            raise
        self.write_stack.pop()
        if si is not None and any(id(o) in w or ('f', id(o)) in w for o in si.src): raise Unsupported('the iterated container changes inside the loop')
        # end of the iteration
        self.merge_writes(info, w, reach0, head_env, fr)
        end_env = self.local_env(fr)
        for loc in info.types:       # a variable that not every iteration binds
            if loc[0] == 'local' and loc[1] not in env0 and loc[1] not in info.partial and (loc[1] not in end_env or isinstance(end_env[loc[1]][1], MaybeUnbound)):
                info.partial.add(loc[1]); info.cands = None; self.changed = True
                raise Restart
        if self.mode in ('houdini', 'final'):
            env2 = {nm: (e, e[nm]) for nm, (e, v) in self.local_env(fr).items()}
            for c in info.cands:
                if not c.alive: continue
                g = self.cand_term(c, fr, env2, byname, k + 1, cx)
                if g is None: c.alive = False; self.changed = True; continue
                self.check_cand(c, g, 'preserved', line, depth_key)
            if n is None and self.current is not None and getattr(self.current, 'measures', None):
                self.check_measure(meas0, fr, line)
        raise PathEnd

    def measures(self, fr):
        out = []
        if self.current is None: return out
        for mf in getattr(self.current, 'measures', ()) or ():
            env = {nm: v for nm, (e, v) in self.local_env(fr).items()}
            ps = inspect.signature(mf).parameters
            import itertools
            cand = []
            for p, x in ps.items():
                if x.annotation is inspect._empty and p in self.spec_args: cand.append([(None, self.spec_args[p])]); continue
                kinds = {'int': (IntV, int), 'str': (StrV, str)}.get(x.annotation, (IntV, StrV, int, str))
                cand.append([(nm, v) for nm, v in env.items() if isinstance(v, kinds) and not isinstance(v, bool)])
            for combo in itertools.product(*cand):
                try:
                    t = self.spec_term(mf, [v for _, v in combo])
                    if isinstance(t, IntV): out.append((mf, combo, t.t))
                except (Unsupported, PyRaise): pass
        return out

    def check_measure(self, meas0, fr, line):
        env = {nm: v for nm, (e, v) in self.local_env(fr).items()}
        for mf, combo, t0 in meas0:
            names = tuple(nm for nm, _ in combo)
            try: t1 = self.spec_term(mf, [v if nm is None else env[nm] for nm, v in combo])
            except (Unsupported, PyRaise, KeyError): continue
            if not isinstance(t1, IntV): continue
            goal = z3.And(t0 >= 0, t1.t < t0)
            if self.mode == 'houdini': return
            st, secs, be = self.prove(goal)
            if st == 'proved':
                self.obligation(f'while@{line}:decreases {mf.__name__}{names}', goal, line, 'measure'); return
        if self.mode == 'final':
            self.obligation(f'while@{line}:decreases', z3.BoolVal(False), line, 'measure')

    def fresh_of(self, Tm, nm):
        v = Tm.fresh(nm)
        for f in Tm.wf(v): self.assume(f)
        return v

    def havoc_object(self, obj, Tm, nm, loc):
        if isinstance(obj, ObjV):
            for f, t in Tm.items():
                if f in obj.fields: obj.fields[f] = self.fresh_of(t, nm + '.' + f)
            return
        if isinstance(Tm, ListT) and Tm.elem is BottomT: return
        fv = self.fresh_of(Tm, nm)
        obj.assign(fv)

    def loc_value(self, loc, env, byname):
        if loc[0] == 'local': return env[loc[1]][1] if loc[1] in env else MISSING
        return byname.get(loc[1], MISSING)

    def loc_type(self, loc, v, info):
        if isinstance(v, MaybeUnbound): v = v.value
        if isinstance(v, ObjV) and loc[0] == 'heap':
            return FieldsT({f: typeof(v.fields[f]) for f in info.types[loc].d if f in v.fields})
        return typeof(v)

    def merge_writes(self, info, w, reach0, head_env, fr, after_break=False):
        changed = False
        if after_break: return       # state after a break is used as is
        def widen(loc, Tn):
            nonlocal changed
            old = info.types.get(loc)
            new = Tn if old is None else join(old, Tn)
            if old is None or new != old:
                info.types[loc] = new; changed = True
        env = self.local_env(fr)
        for nm, (e, v) in env.items():
            if nm in head_env:
                h = head_env[nm]
                hv = h.value if isinstance(h, MaybeUnbound) else h
                if v is hv or v is h: continue
                if ('local', nm) not in info.types:
                    if not isinstance(hv, V) and not isinstance(v, V) and type(hv) is type(v) and deep_native(hv) and deep_native(v):
                        try:
                            if hv == v: continue
                        except Exception: pass
                    widen(('local', nm), join(typeof(hv), typeof(v)))
                else: widen(('local', nm), typeof(v))
            else:
                widen(('local', nm), typeof(v))
        for oid, obj in list(w.items()):
            if oid in reach0:
                nm, o = reach0[oid]
                loc = ('heap', nm)
                if isinstance(o, ObjV):
                    flds = w.get(('f', oid), set())
                    widen(loc, FieldsT({f: typeof(o.fields[f]) for f in flds if f in o.fields}))
                else: widen(loc, typeof(o))
        if changed:
            self.changed = True
            info.cands = None
            raise Restart

    # ---- candidates
    def make_cands(self, info, fr, env, byname, n):
        from .houdini import make_cands
        return make_cands(self, info, fr, env, byname, n)

    def cand_term(self, c, fr, env, byname, k, cx):
        from .houdini import cand_term
        return cand_term(self, c, fr, env, byname, k, cx)

    def check_cand(self, c, g, phase, line, key):
        if isinstance(g, bool): g = z3.BoolVal(g)
        okey = (tuple(b for b, _ in self.trace[:self.pos]), 'c', c.name, phase, key)
        if self.mode == 'houdini':
            if okey in self.hcache: return
            from .houdini import GENERIC
            st, secs, be = self.prove_quick(g, c.fn not in GENERIC)
            if st != 'proved':
                c.alive = False; self.changed = True
                if getattr(self, 'debug', False): print('   drop', c.name, phase, st)
            else: self.hcache.add(okey)
        else:
            from .houdini import GENERIC
            if c.fn in GENERIC and okey not in self.hcache:
                ok = self.prove_quick(g)[0] == 'proved'
                if ok: self.hcache.add(okey)
            else: ok = True
            ok = ok and self.obligation(f'loop@{line}:{c.name}:{phase}', g, line, 'invariant')
            if not ok and self.mode == 'final':      # not inductive after all: search again without it
                c.alive = False; self.changed = True; self.redo = True
                raise Restart

    def prove_quick(self, g, patient=False):
        from .solve import prove as _prove
        self.patient = patient and self.patience
        return _prove(self, list(self.pc), g, quick=True)

    def spec_term(self, fn, args, kwargs=None):
        """evaluate a specification function as a term"""
        self.term_mode += 1
        try: return self.call(fn, list(args), kwargs or {})
        finally: self.term_mode -= 1

    def spec_bool(self, fn, args):
        try: v = self.spec_term(fn, args)
        except PyRaise: return z3.FreshConst(B, 'undef')
        t = self.truth_term(v)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if not self.eval_diag and self.is_diag_call(e, fr): return None
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and f.live_cls is None: f = f.parent
            return SuperV(f.live_cls, f.env[next(iter(f.env))])
        fn = self.eval(e.func, fr)
        args = self.star_items(e.args, fr)
        kwargs = {}
        for kw in e.keywords:
            v = self.eval(kw.value, fr)
            if kw.arg is None:
                d = asdict(self.force(v))
                if d.pairs is None: raise Unsupported('**kwargs')
                kwargs.update({a: b for a, b in d.pairs})
            else: kwargs[kw.arg] = v
        return self.call(fn, args, kwargs)

    def call(self, fn, args, kwargs):
        fn = self.force(fn)
        if isinstance(fn, Closure):
            return self.run_node(fn.node, f'{fn.frame.name}.{fn.name}', args, kwargs, fn.defaults, fn.kwd, fn.frame.globs, fn.frame.cls, fn.frame, fn.frame.live_cls)
        if isinstance(fn, BoundM): return self.call_function(fn.fn, [fn.obj] + list(args), kwargs)
        if isinstance(fn, MethodOf):
            from . import models
            return models.method(self, fn.obj, fn.name, args, kwargs)
        if isinstance(fn, V): 
            if isinstance(fn, OpaqueV): return OpaqueV(f'call {fn.why}')
            raise PyRaise(TypeError, ('not callable',))
        if isinstance(fn, types.FunctionType):
            from . import models
            if id(fn) in models.SPECFN: return models.SPECFN[id(fn)](self, *args, **kwargs)
            return self.call_function(fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            if isinstance(fn.__self__, (list, dict, set)): raise Unsupported('method of live object')
            return self.call_function(fn.__func__, [fn.__self__] + list(args), kwargs)
        from . import models
        return models.call(self, fn, args, kwargs)

    def instantiate(self, cls, args, kwargs):
        o = ObjV(cls, {})
        init = class_attr(cls, '__init__')
        if isinstance(init, types.FunctionType): self.call_function(init, [o] + list(args), kwargs)
        elif args or kwargs: raise PyRaise(TypeError, ('arguments to a class without __init__',))
        return o

    def apply_contract(self, c, fn, args, kwargs):
        node = func_node(fn)
        env = self.bind(node.args, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {}, fn.__name__)
        names = [x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        for i, p in enumerate(getattr(c, 'params', None) or []):
            if i < len(names) and names[i] != p: env[p] = env.pop(names[i])
        return c.apply(self, env)

    # ------------------------------------------------------------------ attributes / items
    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, UnionV):   # term mode
            def has(a):
                from . import models
                if isinstance(a, ObjV): return name in a.fields or class_attr(a.cls, name) is not None
                return a is not None and models.has_method(a, name)
            o = self.pick(o, has)
        if isinstance(o, ObjV):
            if name in o.fields: return o.fields[name]
            if name == '__class__': return o.cls
            a = class_attr(o.cls, name)
            if a is None:
                if name == '__dict__': raise Unsupported('__dict__')
                raise PyRaise(AttributeError, (name,))
            if isinstance(a, types.FunctionType): return BoundM(o, a)
            if isinstance(a, property): return self.call_function(a.fget, [o], {})
            if isinstance(a, staticmethod): return a.__func__
            if isinstance(a, classmethod): return BoundM(o.cls, a.__func__)
            return a
        if isinstance(o, SuperV):
            mro = o.obj.cls.__mro__
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, types.FunctionType): return BoundM(o.obj, a)
            return MethodOf(o, name)
        if isinstance(o, OpaqueV): return OpaqueV(f'{o.why}.{name}')
        if isinstance(o, types.ModuleType):
            key = (o.__name__, name)
            if key in self.overrides: return self.overrides[key]
            if not hasattr(o, name): raise PyRaise(AttributeError, (name,))
            return getattr(o, name)
        if isinstance(o, type):
            if not hasattr(o, name): raise PyRaise(AttributeError, (name,))
            a = o.__dict__.get(name)
            if isinstance(a, classmethod): return BoundM(o, a.__func__)
            return getattr(o, name)
        if isinstance(o, (ListV, DictV, SetV, StrV, HomV, IntV, BoolV, GenV, MatchV, ExcV, str, bytes, int, list, dict, set, tuple, frozenset)):
            from . import models
            if isinstance(o, ExcV) and name == 'args': return tuple(o.args)
            if not models.has_method(o, name): raise PyRaise(AttributeError, (name,))
            return MethodOf(o, name)
        if o is None:
            raise PyRaise(AttributeError, (f'None.{name}',))
        if isinstance(o, _re.Pattern): return MethodOf(o, name)
        if isinstance(o, slice):
            if name in ('start', 'stop', 'step'): return getattr(o, name)
            return MethodOf(o, name)
        if deep_native(o):
            if id(o) in self.native_objs: pass
            if not hasattr(o, name): raise PyRaise(AttributeError, (name,))
            return getattr(o, name)
        raise Unsupported(f'attribute {name} of {type(o).__name__}')
    native_objs = {}

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, ObjV):
            a = class_attr(o.cls, name)
            if isinstance(a, property): raise Unsupported('property setter')
            self.mutable(o)
            for w in self.write_stack: w.setdefault(('f', id(o)), set()).add(name)
            o.fields[name] = v
            from . import models
            models.write_back(self, o)
            return
        if o is None: raise PyRaise(AttributeError, (f'None.{name}',))
        raise Unsupported(f'attribute assignment on {type(o).__name__}')

    def getitem(self, o, ix):
        from . import models
        return models.getitem(self, o, ix)
    def setitem(self, o, ix, v):
        from . import models
        return models.setitem(self, o, ix, v)
    def delitem(self, o, ix):
        from . import models
        return models.delitem(self, o, ix)
    def list_append(self, l, v):
        from . import models
        models.list_append(self, l, v)
    def list_extend(self, l, v):
        from . import models
        models.list_extend(self, l, v)
    def set_add(self, s, v):
        from . import models
        models.set_add(self, s, v)
    def dict_set(self, d, k, v):
        from . import models
        models.dict_set(self, d, k, v)


class _Missing:
    def __repr__(self): return 'MISSING'
MISSING = _Missing()
class _NoRet: pass
NORET = _NoRet()


class FieldsT(T):
    """types of the fields of an object that a loop writes"""
    def __init__(self, d): self.d = d
    def key(self): return tuple(sorted(self.d.items(), key=lambda x: x[0]))
    def items(self): return self.d.items()


_old_join = join
def join(a, b):
    if isinstance(a, FieldsT) and isinstance(b, FieldsT):
        out = dict(a.d)
        for f, t in b.d.items(): out[f] = join(out[f], t) if f in out else t
        return FieldsT(out)
    return _old_join(a, b)


SEQ_LAW = {}
def reachable_lists(o, seen=None):
    seen = set() if seen is None else seen
    if id(o) in seen: return
    seen.add(id(o))
    if isinstance(o, (ListV, DictV)): yield o
    if isinstance(o, ObjV):
        yield o
        for v in o.fields.values(): yield from reachable_lists(v, seen)


def class_attr(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            if c is object: return None
            return c.__dict__[name]
    return None


def kind(v):
    if v is None: return 'none'
    if isinstance(v, (bool, BoolV)): return 'bool'
    if isinstance(v, (int, IntV)): return 'int'
    if isinstance(v, (str, StrV, HomV)): return 'str'
    if isinstance(v, tuple): return 'tuple'
    if isinstance(v, (list, ListV)): return 'list'
    if isinstance(v, (dict, DictV)): return 'dict'
    if isinstance(v, (set, frozenset, SetV)): return 'set'
    if isinstance(v, ObjV): return 'obj'
    if isinstance(v, SortV): return 'sort'
    return 'other'


def aslist(v):
    if isinstance(v, GenV): return v.lst
    return v if isinstance(v, ListV) else ListV(items=list(v))

def asdict(v): return v if isinstance(v, DictV) else DictV(pairs=[[a, b] for a, b in v.items()])


_hq = {}
def has_quant(t):
    key = t.get_id()
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x): 
            return True
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        st.extend(x.children())
    return False


def snapshot(v, memo=None):
    """deep copy of a value's structure (terms are immutable and shared)"""
    if memo is None: memo = {}
    if isinstance(v, tuple): return tuple(snapshot(x, memo) for x in v)
    if isinstance(v, UnionV): return UnionV(v.tag, [snapshot(x, memo) for x in v.alts])
    if isinstance(v, MaybeUnbound): return MaybeUnbound(v.cond, snapshot(v.value, memo))
    if not isinstance(v, MUT): return v
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, ObjV):
        r = ObjV(v.cls, {}); memo[id(v)] = r
        for f, x in v.fields.items(): r.fields[f] = snapshot(x, memo)
        return r
    if isinstance(v, ListV):
        r = v.copy(); memo[id(v)] = r
        if r.items is not None: r.items = [snapshot(x, memo) for x in r.items]
        return r
    if isinstance(v, DictV):
        r = v.copy(); memo[id(v)] = r
        if r.pairs is not None: r.pairs = [[a, snapshot(b, memo)] for a, b in r.pairs]
        return r
    r = v.copy(); memo[id(v)] = r
    return r

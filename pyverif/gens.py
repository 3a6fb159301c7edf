"""Concrete argument generation (for replaying failed obligations on the real code and for cross-checking contracts)."""
import ast, inspect, random
from .values import *
from .contract import resolve

BASE_STR = ['', ' ', 'a', 'A', '1', '0', '12', '-', '.', ',', ':', ';', '\\', '\n', 'GEN', 'MAT', 'Gen', 'x1', '3a', '-1',
            'é', '٣', '²', '<', '>', '&', '"', "'", '/', '_', '*', '+', '\\add ', '\\add*', 'word', 'two words']


def harvest(fn):
    """string and integer constants in the source of the target (re-read every run)"""
    ss, ns = set(), set()
    try:
        src = inspect.getsource(fn)
        import textwrap
        for n in ast.walk(ast.parse(textwrap.dedent(src))):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and len(n.value) <= 20: ss.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool): ns.update((n.value - 1, n.value, n.value + 1))
    except Exception: pass
    return sorted(ss), sorted(ns)


class Gen:
    def __init__(self, rng, strs=(), ints=(), near=()):
        self.rng = rng; self.strs = list(strs); self.ints = list(ints); self.near = list(near)
    def string(self):
        r = self.rng
        if self.near and r.random() < .6:
            s = r.choice(self.near)
            if r.random() < .25: s = r.choice((s.lower(), s.upper(), s.title(), s[1:], s + r.choice(BASE_STR), ' ' + s, s[:1] + ' ' + s[1:]))
            return s
        k = r.random()
        if k < .25 and self.strs: return r.choice(self.strs)
        if k < .45: return r.choice(BASE_STR)
        pool = BASE_STR + self.strs * 2
        return ''.join(r.choice(pool) for _ in range(r.choice((1, 2, 2, 3, 4, 6))))[:40]
    def integer(self):
        r = self.rng
        k = r.random()
        if k < .3 and self.ints: return r.choice(self.ints)
        if k < .7: return r.randint(-2, 6)
        if k < .95: return r.randint(0, 200)
        return r.randint(-10**6, 10**6)
    def of(self, T_, depth=0):
        r = self.rng
        n = r.choice((0, 1, 1, 2, 2, 3, 4))
        if T_ is IntT: return self.integer()
        if T_ is BoolT: return r.random() < .5
        if T_ is StrT: return self.string()
        if T_ is NoneT: return None
        if isinstance(T_, ConstT): return T_.value
        if isinstance(T_, SortT): return f'{T_.name}!{r.randint(0, 5)}'
        if isinstance(T_, TupleT): return tuple(self.of(t) for t in T_.ts)
        if isinstance(T_, UnionT): return self.of(r.choice(T_.alts))
        if isinstance(T_, ListT): return [self.of(T_.elem) for _ in range(n)]
        if isinstance(T_, DictT): return {self.of(T_.k): self.of(T_.v) for _ in range(n)}
        if isinstance(T_, RecT): return {k: self.of(t) for k, t in T_.fields.items()}
        if isinstance(T_, SetT): return {self.of(T_.k) for _ in range(n)}
        if isinstance(T_, ObjT):
            vals = {f: self.of(t) for f, t in T_.fields.items()}
            if T_.make: return T_.make(vals)
            o = T_.cls.__new__(T_.cls)
            for f, x in vals.items(): object.__setattr__(o, f, x)
            return o
        raise Unsupported(f'no generator for {T_}')


def fits(T_, v):
    """the value is of the declared type (only told apart where a shared world offers another kind of value)"""
    if T_ is NoneT: return v is None
    if T_ is StrT: return isinstance(v, str)
    if T_ is IntT: return isinstance(v, int)
    if isinstance(T_, TupleT): return isinstance(v, tuple) and len(v) == len(T_.ts)
    if isinstance(T_, ListT): return not isinstance(v, (tuple, str, int, type(None)))
    if isinstance(T_, UnionT): return any(fits(a, v) for a in T_.alts)
    return True


def candidates(c, rng):
    """endless stream of concrete arguments for contract c"""
    if c.gen is not None:
        g = inspect.getattr_static(c, 'gen')
        g = g.__func__ if isinstance(g, (staticmethod, classmethod)) else g
        two = len(inspect.signature(g).parameters) > 1
        try: ss, ns = harvest(c.fn())
        except Exception: ss, ns = [], []
        G = Gen(rng, ss, ns)
        while True: yield g(rng, G) if two else g(rng)
    ss, ns = harvest(c.fn())
    w = c.__dict__.get('world') or next((b.__dict__['world'] for b in c.__mro__ if 'world' in b.__dict__), None)
    if w is not None:        # world(rng) -> (some arguments, strings to draw from, integers to draw from)
        w = w.__func__ if isinstance(w, (staticmethod, classmethod)) else w
        while True:
            given, near, ints = w(rng)
            G = Gen(rng, ss, ns + list(ints) * 3, near)
            out = dict(given)
            for nm, t in c.args.items():
                if nm not in out or not fits(t, out[nm]): out[nm] = G.of(t)
            yield {nm: out[nm] for nm in c.args}
    if any(not isinstance(t, T) for t in c.args.values()): return
    while True:
        G = Gen(rng, ss, ns)
        yield {nm: G.of(t) for nm, t in c.args.items()}

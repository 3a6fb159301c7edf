"""Vocabulary of the contract language. Every function here has a CPython meaning (used when a counterexample is
replayed, and by the runtime cross-check) and a logical meaning (given by the interpreter, which recognises them)."""


def forall(lo, hi, pred):
    """pred(i) for every integer lo <= i < hi"""
    return all(pred(i) for i in range(lo, hi))

def exists(lo, hi, pred):
    return any(pred(i) for i in range(lo, hi))

def forall_keys(d, pred):
    """pred(k) for every key k of the dict / element of the set d"""
    return all(pred(k) for k in d)

def exists_key(d, pred):
    return any(pred(k) for k in d)

def forall_str(pred, domain=None):
    """pred(s) for every string s (not executable: native runs use the given sample domain)"""
    return all(pred(s) for s in (domain or ()))

def forall_int(pred, domain=range(-50, 200)):
    return all(pred(s) for s in domain)

def implies(a, b):
    return (not a) or b

def iff(a, b):
    return bool(a) == bool(b)

def charmap(s, table):
    """s with every character replaced by its entry in table (kept when it has none)"""
    return ''.join(table.get(c, c) for c in s)

def charmap_prefix(s, k, table):
    return ''.join(table.get(c, c) for c in s[:k])

def is_digits(s):
    """one or more ASCII digits"""
    return len(s) > 0 and all('0' <= c <= '9' for c in s)

def matches(s, pattern):
    """the whole text s has the form of the regular expression (a literal, ASCII classes only)"""
    import re
    return re.fullmatch(pattern, s) is not None

def key_at(d, k):
    """k-th key of a dict in iteration order"""
    return list(d)[k]

def ite(c, a, b):
    return a if c else b


class RecDef:
    """A recursive specification function: native calls run the body (iteratively deep Python recursion is avoided by
    memoising increasing indices); symbolic calls become uninterpreted applications unfolded one level."""
    def __init__(self, fn, ret, opaque=False):
        self.fn = fn; self.ret = ret; self.__name__ = fn.__name__; self.opaque = opaque
        self._depth = 0
    def __call__(self, *args):
        import sys
        # pre-compute small indices first so that the Python recursion stays shallow
        if args and isinstance(args[-1], int) and not isinstance(args[-1], bool) and args[-1] > 200:
            if sys.getrecursionlimit() < 20000: sys.setrecursionlimit(20000)
        return self.fn(*args)


def recdef(ret):
    def deco(fn): return RecDef(fn, ret)
    return deco


def opaque(ret):
    """a specification function whose definition is used only by contracts that list it in `reveal`"""
    def deco(fn): return RecDef(fn, ret, True)
    return deco


class PureFn:
    """An uninterpreted pure function standing for a library computation (trusted: deterministic, effect-free)."""
    def __init__(self, name, native, ret, axioms=None):
        self.name = name; self.native = native; self.ret = ret; self.axioms = axioms
    def __call__(self, *a): return self.native(*a)

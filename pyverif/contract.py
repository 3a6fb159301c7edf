"""Contracts: a class per function (or per client program over functions)."""
import inspect, copy
import z3
from .values import *
from . import interp as ip


class Known:
    """a recorded genuine defect: the inputs (of this contract) on which the property fails"""
    def __init__(self, id, pred, example, text): self.id = id; self.pred = pred; self.example = example; self.text = text


class ContractMeta(type):
    def __new__(m, name, bases, ns):
        c = super().__new__(m, name, bases, ns)
        posts = {}
        for b in reversed(c.__mro__):
            for k, v in b.__dict__.items():
                if k.startswith('post') and k != 'posts': posts[k] = v
        c.posts = list(posts.items())
        pre = [b.__dict__['pre'] for b in c.__mro__ if 'pre' in b.__dict__]
        c.pre = pre[0] if pre else None
        return c


class Contract(metaclass=ContractMeta):
    target = None            # 'module:Qualified.name'
    args = {}                # parameter name -> type descriptor
    modifies = ()            # parameter names whose (reachable) objects may be changed
    raises = {}              # exception class -> predicate: raised exactly when it holds
    may_raise = {}           # exception class -> predicate: may be raised only when it holds
    templates = ()           # loop invariant templates
    measures = ()            # termination measures for while loops
    ghost = {}               # value, at a call site, of an argument only the contract has
    uses = ()                # contracts of callees used at call sites
    result = None            # type of the result, for call sites
    reveal = ()              # opaque specification functions expanded in this contract
    hom = False              # treat string parameters as bases of character-wise maps
    overrides = {}           # (module, name) -> value builder
    axioms = ()              # (name, fn) closed facts assumed (trusted)
    solver_ms = 8000
    ordered = False          # track the key order of dicts built by the code
    unroll = 3
    bmc_len = 3
    eval_diag = False
    known = ()               # Known findings (only the ones listed in KNOWN_FINDINGS.json are honoured)
    bounded = False          # True: not verified deductively, only the stated bounded native check
    bound_note = ''
    gen = None               # gen(rng) -> {argument: concrete value}
    world = None             # world(rng) -> (some arguments, strings, integers): the rest is drawn by type, near those values
    budget_s = 400
    calls = ()               # extra files

    @classmethod
    def fn(cls): return resolve(cls.target)

    @classmethod
    def name(cls): return cls.__name__


def resolve(target):
    import importlib
    mod, q = target.split(':')
    o = importlib.import_module(mod)
    for p in q.split('.'):
        o = inspect.getattr_static(o, p) if inspect.isclass(o) else getattr(o, p)
        if isinstance(o, (staticmethod, classmethod)): o = o.__func__
        if isinstance(o, property): o = o.fget
        if o in _singletons(): o = type(o())
    return o


def _singletons():
    """class constructors replaced by the repository's @singleton decorator"""
    import sys
    return [f for n, m in list(sys.modules.items()) if n.startswith('BibleOrgSys.Reference.') for f in vars(m).values()
            if inspect.isfunction(f) and f.__qualname__ == 'singleton.<locals>.getinstance']


def call_by_name(fn, pool):
    """argument list of fn taken from pool by parameter name"""
    return [pool[p] for p in inspect.signature(fn).parameters]


class Fact:
    """a closed statement about the data the repository ships (loaded by the repository's own loader): decided by evaluating it
    over the complete finite table on every run. fn() returns None, or a description of the entry that breaks it"""
    def __init__(self, fn): self.fn = fn; self.__name__ = fn.__name__; self.text = (fn.__doc__ or fn.__name__).strip()
def fact(fn): return Fact(fn)

"""Symbolic values and type descriptors.

A value in the interpreter is either a *native* Python value (fully known: int, str, bool, None, tuple of
values, functions, classes, modules, compiled regexes, ...) or one of the wrappers below.
Mutable containers built by interpreted code are always wrappers (ListV, DictV, SetV, ObjV), so that they keep
their identity when a loop cuts their contents back to a symbolic state.
"""
import z3

I = z3.IntSort()
B = z3.BoolSort()
S = z3.StringSort()


CONFIG = dict(ordered=False)    # track the key order of dicts the code builds


class Unsupported(Exception):
    """The code uses something outside the verified subset."""


class V:
    __slots__ = ()
    def __bool__(self): raise RuntimeError('symbolic value used as a native bool')
    def __eq__(self, o): raise RuntimeError('symbolic value compared natively')
    __hash__ = object.__hash__


class IntV(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'IntV({self.t})'

class BoolV(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'BoolV({self.t})'

class StrV(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'StrV({self.t})'

class HomV(V):
    """A string obtained from the unknown string `base` by a character-wise map: `special` maps single characters to
    literal strings; every other character is kept."""
    __slots__ = ('base', 'special')
    def __init__(self, base, special): self.base = base; self.special = special
    def __repr__(self): return f'HomV({self.base},{self.special})'

class OpaqueV(V):
    """An unconstrained value: nothing at all is known about it (sound over-approximation of a pure computation)."""
    __slots__ = ('why',)
    def __init__(self, why): self.why = why
    def __repr__(self): return f'OpaqueV({self.why})'

class UnionV(V):
    """alternatives with an integer tag term; alts[i] is the value when tag == i"""
    __slots__ = ('tag', 'alts')
    def __init__(self, tag, alts): self.tag = tag; self.alts = alts
    def __repr__(self): return f'UnionV({self.tag},{self.alts})'

class SortV(V):
    """value of an uninterpreted sort (identity only)"""
    __slots__ = ('t', 'name')
    def __init__(self, t, name): self.t = t; self.name = name
    def __repr__(self): return f'SortV({self.t})'


class ListV(V):
    """A Python list. Either items is a Python list of values (length known), or items is None and
    (n, elemT, leaves) describes n elements stored in one z3 array per leaf of elemT."""
    def __init__(self, items=None, n=None, elemT=None, leaves=None):
        self.items = items; self.n = n; self.elemT = elemT; self.leaves = leaves
        self.frozen = False   # belongs to the loaded program (module constant): must not be mutated
        self.cls = None       # subclass marker
    def get(self, idx):
        return self.elemT.unpack([z3.Select(a, idx) for a in self.leaves])
    def assign(self, o):
        self.items = None if o.items is None else list(o.items)
        self.n, self.elemT, self.leaves = o.n, o.elemT, (list(o.leaves) if o.leaves is not None else None)
    def copy(self):
        r = ListV(); r.assign(self); return r
    def __repr__(self): return f'ListV({self.items if self.items is not None else (self.n, self.elemT)})'


class DictV(V):
    """A Python dict. Either pairs is a list of [key, value] (keys pairwise distinct, insertion order), or
    (dom, keyT, valT, leaves) with dom: Array K Bool and one array per leaf of valT. `order` is an optional ListV of keys."""
    def __init__(self, pairs=None, dom=None, keyT=None, valT=None, leaves=None, size=None, order=None):
        self.pairs = pairs; self.dom = dom; self.keyT = keyT; self.valT = valT; self.leaves = leaves
        self.size = size; self.order = order
        self.frozen = False
        self.default = None     # default factory value maker (collections.defaultdict)
    def assign(self, o):
        self.pairs = None if o.pairs is None else [list(p) for p in o.pairs]
        self.dom, self.keyT, self.valT, self.size, self.order = o.dom, o.keyT, o.valT, o.size, o.order
        self.leaves = list(o.leaves) if o.leaves is not None else None
    def copy(self):
        r = DictV(); r.assign(self); r.default = self.default; return r
    def __repr__(self): return f'DictV({self.pairs if self.pairs is not None else (self.keyT, self.valT)})'


class SetV(V):
    def __init__(self, items=None, dom=None, keyT=None):
        self.items = items; self.dom = dom; self.keyT = keyT
        self.frozen = False
    def assign(self, o):
        self.items = None if o.items is None else list(o.items)
        self.dom, self.keyT = o.dom, o.keyT
    def copy(self):
        r = SetV(); r.assign(self); return r


class ObjV(V):
    """instance of a live class of the program with explicit fields"""
    def __init__(self, cls, fields):
        self.cls = cls; self.fields = fields
    def __repr__(self): return f'<{self.cls.__name__} {list(self.fields)}>'


class GenV(V):
    """finite iterable whose items are already computed (eagerly evaluated generator)"""
    def __init__(self, lst): self.lst = lst


class MaybeUnbound(V):
    def __init__(self, cond, value): self.cond = cond; self.value = value


# ------------------------------------------------------------------------------------------------ types
_counter = [0]
_tuple_sorts = {}


def lift(v):
    """native scalar -> z3 term"""
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, str): return strval(v)
    if isinstance(v, (IntV, BoolV, StrV, SortV)): return v.t
    raise Unsupported(f'cannot lift {type(v).__name__}')


DIGIT_LITERALS = {'0', '1', '-1'}

def strval(s):
    if s and len(s) <= 4 and s.lstrip('-').isdigit() and s.isascii() and s.count('-') <= 1: DIGIT_LITERALS.add(s)
    if all(32 <= ord(c) < 127 and c != '\\' for c in s): return z3.StringVal(s)
    out = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 and c != '\\': out.append(c)
        else: out.append('\\u{%x}' % o)
    return z3.StringVal(''.join(out))


def unstr(t):
    """z3 string literal -> Python str"""
    s = t.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


class T:
    def __eq__(self, o): return type(self) is type(o) and self.key() == o.key()
    def __hash__(self): return hash((type(self).__name__, self.key()))
    def key(self): return ()
    def __repr__(self): return f'{type(self).__name__}{self.key() or ""}'
    def fresh(self, name):
        return self.unpack([z3.Const(f'{name}.{i}' if i else name, s) for i, s in enumerate(self.sorts())])
    def wf(self, v):
        """well-formedness facts of a fresh value (list lengths non-negative, tags in range)"""
        return []


class _IntT(T):
    def sorts(self): return [I]
    def pack(self, v):
        if isinstance(v, bool): return [z3.IntVal(int(v))]
        if isinstance(v, int): return [z3.IntVal(v)]
        if isinstance(v, IntV): return [v.t]
        if isinstance(v, BoolV): return [z3.If(v.t, 1, 0)]
        raise Unsupported(f'pack int from {v!r}')
    def unpack(self, ts): return IntV(ts[0])
    def conc(self, v, m):
        r = m.eval(lift(v), model_completion=True); return r.as_long()

class _BoolT(T):
    def sorts(self): return [B]
    def pack(self, v):
        if isinstance(v, bool): return [z3.BoolVal(v)]
        if isinstance(v, BoolV): return [v.t]
        raise Unsupported(f'pack bool from {v!r}')
    def unpack(self, ts): return BoolV(ts[0])
    def conc(self, v, m): return z3.is_true(m.eval(lift(v), model_completion=True))

class _StrT(T):
    def sorts(self): return [S]
    def pack(self, v):
        if isinstance(v, str): return [strval(v)]
        if isinstance(v, StrV): return [v.t]
        raise Unsupported(f'pack str from {v!r}')
    def unpack(self, ts): return StrV(ts[0])
    def conc(self, v, m): return unstr(m.eval(lift(v), model_completion=True))

class _NoneT(T):
    def sorts(self): return []
    def pack(self, v):
        if v is None: return []
        raise Unsupported('pack None')
    def unpack(self, ts): return None
    def fresh(self, name): return None
    def conc(self, v, m): return None

IntT, BoolT, StrT, NoneT = _IntT(), _BoolT(), _StrT(), _NoneT()


class ConstT(T):
    def __init__(self, value): self.value = value
    def key(self): return (repr(self.value) if not isinstance(self.value, (int, str, bool, type(None))) else self.value,)
    def sorts(self): return []
    def pack(self, v): return []
    def unpack(self, ts): return self.value
    def fresh(self, name): return self.value
    def conc(self, v, m): return self.value


class SortT(T):
    def __init__(self, name): self.name = name
    def key(self): return (self.name,)
    def sort(self): return z3.DeclareSort(self.name)
    def sorts(self): return [self.sort()]
    def pack(self, v):
        if isinstance(v, SortV): return [v.t]
        raise Unsupported(f'pack {self.name}')
    def unpack(self, ts): return SortV(ts[0], self.name)
    def conc(self, v, m): return str(m.eval(v.t, model_completion=True))


class TupleT(T):
    def __init__(self, *ts): self.ts = ts
    def key(self): return self.ts
    def sorts(self): return [s for t in self.ts for s in t.sorts()]
    def pack(self, v):
        if isinstance(v, UnionV):
            for a in v.alts:
                if isinstance(a, tuple) and len(a) == len(self.ts): v = a; break
        if not isinstance(v, tuple) or len(v) != len(self.ts): raise Unsupported(f'pack tuple from {v!r}')
        return [x for t, e in zip(self.ts, v) for x in t.pack(e)]
    def unpack(self, ts):
        out = []; p = 0
        for t in self.ts:
            k = len(t.sorts()); out.append(t.unpack(ts[p:p+k])); p += k
        return tuple(out)
    def conc(self, v, m): return tuple(t.conc(e, m) for t, e in zip(self.ts, v))
    def wf(self, v): return [f for t, e in zip(self.ts, v) for f in t.wf(e)]


class UnionT(T):
    def __init__(self, *alts):
        fl = []
        for a in alts:
            for x in (a.alts if isinstance(a, UnionT) else (a,)):
                if x not in fl: fl.append(x)
        self.alts = tuple(fl)
    def key(self): return self.alts
    def sorts(self): return [I] + [s for t in self.alts for s in t.sorts()]
    def pack(self, v):
        if isinstance(v, UnionV):
            # re-tag
            srcTs = [typeof(a) for a in v.alts]
            terms = None
            for i in reversed(range(len(v.alts))):
                p = self.pack(v.alts[i])
                terms = p if terms is None else [z3.If(v.tag == i, x, y) for x, y in zip(p, terms)]
            return terms
        for i, t in enumerate(self.alts):
            try: p = t.pack(v)
            except Unsupported: continue
            if isinstance(t, ConstT) and not (t.value is v or t.value == v): continue
            if isinstance(v, bool) and t is IntT and BoolT in self.alts: continue
            out = [z3.IntVal(i)]
            for j, u in enumerate(self.alts):
                out += p if j == i else [default_of(s) for s in u.sorts()]
            return out
        raise Unsupported(f'pack union {self} from {v!r}')
    def unpack(self, ts):
        tag = ts[0]; p = 1; alts = []
        for t in self.alts:
            k = len(t.sorts()); alts.append(t.unpack(ts[p:p+k])); p += k
        return UnionV(tag, alts)
    def wf(self, v):
        if not isinstance(v, UnionV): return []
        return [v.tag >= 0, v.tag < len(self.alts)] + [f for t, a in zip(self.alts, v.alts) for f in t.wf(a)]
    def conc(self, v, m):
        tag = m.eval(v.tag, model_completion=True).as_long()
        return self.alts[tag].conc(v.alts[tag], m)

def OptT(t): return UnionT(NoneT, t)


class ListT(T):
    def __init__(self, elem): self.elem = elem
    def key(self): return (self.elem,)
    def sorts(self): return [I] + [z3.ArraySort(I, s) for s in self.elem.sorts()]
    def pack(self, v):
        if isinstance(v, GenV): v = v.lst
        if isinstance(v, (list,)): v = ListV(items=list(v))
        if not isinstance(v, ListV): raise Unsupported(f'pack list from {v!r}')
        if v.items is not None:
            leaves = [z3.K(I, default_of(s)) for s in self.elem.sorts()]
            for i, e in enumerate(v.items):
                leaves = [z3.Store(a, i, x) for a, x in zip(leaves, self.elem.pack(e))]
            return [z3.IntVal(len(v.items))] + leaves
        if v.elemT != self.elem:
            return [v.n] + convert_leaves(v.elemT, self.elem, v.leaves)
        return [v.n] + list(v.leaves)
    def unpack(self, ts): return ListV(n=ts[0], elemT=self.elem, leaves=list(ts[1:]))
    def wf(self, v): return [v.n >= 0]
    def conc(self, v, m):
        if v.items is not None: return [self.elem.conc(e, m) for e in v.items]
        n = m.eval(v.n, model_completion=True).as_long()
        return [self.elem.conc(v.get(z3.IntVal(i)), m) for i in range(min(n, 50))]


def convert_leaves(fromT, toT, leaves):
    i = z3.FreshConst(I, 'cv')
    if isinstance(toT, UnionT) and not isinstance(fromT, UnionT):
        e = fromT.unpack([z3.Select(a, i) for a in leaves])
        return [z3.Lambda([i], x) for x in toT.pack(e)]
    if isinstance(toT, UnionT) or isinstance(toT, TupleT):
        e = fromT.unpack([z3.Select(a, i) for a in leaves])
        return [z3.Lambda([i], x) for x in toT.pack(e)]
    raise Unsupported(f'list element type {fromT} -> {toT}')


class SeqT(ListT):
    pass


def key_sort(kt):
    ss = kt.sorts()
    if len(ss) == 1: return ss[0]
    nm = 'Key_' + '_'.join(str(s).replace(' ', '').replace('(', '').replace(')', '').replace(',', '') for s in ss)
    if nm not in _tuple_sorts:
        _tuple_sorts[nm] = z3.TupleSort(nm, ss)
    return _tuple_sorts[nm][0]

def key_term(kt, v):
    ts = kt.pack(v)
    if len(ts) == 1: return ts[0]
    key_sort(kt)
    nm = 'Key_' + '_'.join(str(s).replace(' ', '').replace('(', '').replace(')', '').replace(',', '') for s in kt.sorts())
    return _tuple_sorts[nm][1](*ts)

def key_value(kt, term):
    ss = kt.sorts()
    if len(ss) == 1: return kt.unpack([term])
    key_sort(kt)
    nm = 'Key_' + '_'.join(str(s).replace(' ', '').replace('(', '').replace(')', '').replace(',', '') for s in ss)
    return kt.unpack([acc(term) for acc in _tuple_sorts[nm][2]])


class DictT(T):
    """ordered=True adds an explicit key order (needed when the code iterates over the dict)"""
    def __init__(self, k, v, ordered=False): self.k, self.v, self.ordered = k, v, ordered
    def key(self): return (self.k, self.v, self.ordered)
    def sorts(self):
        ks = key_sort(self.k)
        r = [z3.ArraySort(ks, B), I] + [z3.ArraySort(ks, s) for s in self.v.sorts()]
        if self.ordered: r.append(z3.ArraySort(I, ks))
        return r
    def pack(self, v):
        if isinstance(v, dict): v = DictV(pairs=[[a, b] for a, b in v.items()])
        if not isinstance(v, DictV): raise Unsupported(f'pack dict from {v!r}')
        if v.pairs is not None:
            ks = key_sort(self.k)
            dom = z3.K(ks, z3.BoolVal(False)); leaves = [z3.K(ks, default_of(s)) for s in self.v.sorts()]
            order = z3.K(I, default_of(ks))
            for j, (a, b) in enumerate(v.pairs):
                kt = key_term(self.k, a)
                dom = z3.Store(dom, kt, z3.BoolVal(True)); order = z3.Store(order, j, kt)
                leaves = [z3.Store(l, kt, x) for l, x in zip(leaves, self.v.pack(b))]
            return [dom, z3.IntVal(len(v.pairs))] + leaves + ([order] if self.ordered else [])
        if v.keyT != self.k: raise Unsupported('dict key type')
        if v.valT != self.v:
            k = z3.FreshConst(key_sort(self.k), 'ck')
            e = v.valT.unpack([z3.Select(a, k) for a in v.leaves])
            leaves = [z3.Lambda([k], x) for x in self.v.pack(e)]
        else: leaves = list(v.leaves)
        size = v.size if v.size is not None else z3.FreshConst(I, 'dsize')
        if self.ordered and v.order is None: raise Unsupported('dict order unknown')
        return [v.dom, size] + leaves + ([v.order] if self.ordered else [])
    def unpack(self, ts):
        ts = list(ts)
        order = ts.pop() if self.ordered else None
        return DictV(dom=ts[0], size=ts[1], keyT=self.k, valT=self.v, leaves=ts[2:], order=order)
    def wf(self, v):
        r = [v.size >= 0]
        if v.order is not None:
            ks = key_sort(self.k)
            i, j = z3.Int('wf_i'), z3.Int('wf_j')
            posf = z3.Function(f'pos_{ks}', z3.ArraySort(I, ks), ks, I)
            pos = lambda key: posf(v.order, key)
            k = z3.Const('wf_k', ks)
            r.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.size),
                                               z3.And(z3.Select(v.dom, z3.Select(v.order, i)), pos(z3.Select(v.order, i)) == i)),
                               ))
            r.append(z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), z3.And(0 <= pos(k), pos(k) < v.size, z3.Select(v.order, pos(k)) == k))))
        return r
    def conc(self, v, m):
        out = {}
        if v.order is not None:
            n = min(m.eval(v.size, model_completion=True).as_long(), 50)
            for i in range(n):
                kt = m.eval(z3.Select(v.order, i), model_completion=True)
                out[self.k.conc(key_value(self.k, kt), m)] = self.v.conc(self.v.unpack([z3.Select(a, kt) for a in v.leaves]), m)
            return out
        for kt in array_true_keys(m, v.dom):
            out[self.k.conc(key_value(self.k, kt), m)] = self.v.conc(self.v.unpack([z3.Select(a, kt) for a in v.leaves]), m)
        return out


class RecT(T):
    """dict with exactly the given constant keys (a record)"""
    def __init__(self, fields): self.fields = fields
    def key(self): return tuple(self.fields.items())
    def sorts(self): return [s for t in self.fields.values() for s in t.sorts()]
    def pack(self, v):
        if not isinstance(v, DictV) or v.pairs is None or [k for k, _ in v.pairs] != list(self.fields): raise Unsupported(f'pack record from {v!r}')
        return [x for k, e in v.pairs for x in self.fields[k].pack(e)]
    def unpack(self, ts):
        out = []; p = 0
        for f, t in self.fields.items():
            k = len(t.sorts()); out.append([f, t.unpack(ts[p:p+k])]); p += k
        return DictV(pairs=out)
    def wf(self, v): return [f for k, e in v.pairs for f in self.fields[k].wf(e)]
    def conc(self, v, m): return {k: self.fields[k].conc(e, m) for k, e in v.pairs}


class SetT(T):
    def __init__(self, k): self.k = k
    def key(self): return (self.k,)
    def sorts(self): return [z3.ArraySort(key_sort(self.k), B)]
    def pack(self, v):
        if isinstance(v, (set, frozenset)): v = SetV(items=list(v))
        if not isinstance(v, SetV): raise Unsupported('pack set')
        if v.items is not None:
            dom = z3.K(key_sort(self.k), z3.BoolVal(False))
            for e in v.items: dom = z3.Store(dom, key_term(self.k, e), z3.BoolVal(True))
            return [dom]
        return [v.dom]
    def unpack(self, ts): return SetV(dom=ts[0], keyT=self.k)
    def conc(self, v, m): return {self.k.conc(key_value(self.k, kt), m) for kt in array_true_keys(m, v.dom)}


def array_true_keys(m, arr):
    """keys that the model maps to true, when the interpretation is a finite exception list over a false default"""
    a = m.eval(arr, model_completion=True)
    keys = {}
    while True:
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            k, v = a.arg(1), a.arg(2)
            if str(k) not in keys: keys[str(k)] = (k, z3.is_true(v))
            a = a.arg(0)
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            break
        else: break
    return [k for k, b in keys.values() if b]


class ObjT(T):
    """Instance with the given fields. When stored in a list it has value semantics (no aliasing between list
    elements and other references is modelled): listed as an assumption by the contracts that use it."""
    def __init__(self, cls, fields, make=None): self.cls = cls; self.fields = fields; self.make = make
    def key(self): return (self.cls.__name__, tuple(self.fields.items()))
    def sorts(self): return [s for t in self.fields.values() for s in t.sorts()]
    def pack(self, v):
        if isinstance(v, UnionV):
            for a in v.alts:
                if isinstance(a, ObjV): v = a; break
        if not isinstance(v, ObjV) or v.cls is not self.cls: raise Unsupported(f'pack object {self.cls.__name__} from {v!r}')
        return [x for f, t in self.fields.items() for x in t.pack(v.fields[f])]
    def unpack(self, ts):
        out = {}; p = 0
        for f, t in self.fields.items():
            k = len(t.sorts()); out[f] = t.unpack(ts[p:p+k]); p += k
        return ObjV(self.cls, out)
    def wf(self, v): return [f for n, t in self.fields.items() for f in t.wf(v.fields[n])]
    def conc(self, v, m):
        vals = {f: t.conc(v.fields[f], m) for f, t in self.fields.items()}
        if self.make: return self.make(vals)
        o = self.cls.__new__(self.cls)
        for f, x in vals.items(): object.__setattr__(o, f, x)
        return o


def default_of(s):
    if s == I: return z3.IntVal(0)
    if s == B: return z3.BoolVal(False)
    if s == S: return z3.StringVal('')
    if s.kind() == z3.Z3_ARRAY_SORT: return z3.K(s.domain(), default_of(s.range()))
    return z3.Const(f'default_{s}', s)


def typeof(v):
    """descriptor of a value's type (used to cut loop state back to symbolic)"""
    if v is None: return NoneT
    if isinstance(v, bool) or isinstance(v, BoolV): return BoolT
    if isinstance(v, int) or isinstance(v, IntV): return IntT
    if isinstance(v, (str, StrV, HomV)): return StrT
    if isinstance(v, SortV): return SortT(v.name)
    if isinstance(v, tuple): return TupleT(*[typeof(x) for x in v])
    if isinstance(v, UnionV): return UnionT(*[typeof(a) for a in v.alts])
    if isinstance(v, (ListV, list, GenV)):
        if isinstance(v, GenV): v = v.lst
        items = v.items if isinstance(v, ListV) else v
        if items is None: return ListT(v.elemT)
        if not items: return ListT(BottomT)
        return ListT(join_all([typeof(x) for x in items]))
    if isinstance(v, (DictV, dict)):
        pairs = v.pairs if isinstance(v, DictV) else [[a, b] for a, b in v.items()]
        if pairs is None: return DictT(v.keyT, v.valT, v.order is not None)
        if not pairs: return DictT(BottomT, BottomT, CONFIG['ordered'])
        return DictT(join_all([typeof(a) for a, b in pairs]), join_all([typeof(b) for a, b in pairs]), CONFIG['ordered'])
    if isinstance(v, (SetV, set, frozenset)):
        items = v.items if isinstance(v, SetV) else list(v)
        if items is None: return SetT(v.keyT)
        if not items: return SetT(BottomT)
        return SetT(join_all([typeof(x) for x in items]))
    if isinstance(v, ObjV): return ObjT(v.cls, {f: typeof(x) for f, x in v.fields.items()})
    if isinstance(v, OpaqueV): return OpaqueT()
    return ConstT(v)


class _BottomT(T):
    def sorts(self): raise Unsupported('element type unknown')
    def pack(self, v): raise Unsupported('element type unknown')
    def unpack(self, ts): raise Unsupported('element type unknown')
BottomT = _BottomT()

class OpaqueT(T):
    def sorts(self): return []
    def pack(self, v): return []
    def unpack(self, ts): return OpaqueV('loop')
    def fresh(self, name): return OpaqueV(name)
    def conc(self, v, m): return None


def join(a, b):
    if a == b: return a
    if a is BottomT: return b
    if b is BottomT: return a
    if isinstance(a, OpaqueT) or isinstance(b, OpaqueT): return OpaqueT()
    if isinstance(a, ListT) and isinstance(b, ListT): return ListT(join(a.elem, b.elem))
    if isinstance(a, DictT) and isinstance(b, DictT): return DictT(join(a.k, b.k), join(a.v, b.v), a.ordered and b.ordered)
    if isinstance(a, SetT) and isinstance(b, SetT): return SetT(join(a.k, b.k))
    if isinstance(a, TupleT) and isinstance(b, TupleT) and len(a.ts) == len(b.ts):
        return TupleT(*[join(x, y) for x, y in zip(a.ts, b.ts)])
    if isinstance(a, ObjT) and isinstance(b, ObjT) and a.cls is b.cls and list(a.fields) == list(b.fields):
        return ObjT(a.cls, {f: join(a.fields[f], b.fields[f]) for f in a.fields}, a.make)
    if isinstance(a, UnionT) or isinstance(b, UnionT):
        aa = a.alts if isinstance(a, UnionT) else (a,)
        bb = b.alts if isinstance(b, UnionT) else (b,)
        out = list(aa)
        for x in bb:
            for i, y in enumerate(out):
                if x == y: break
                if type(x) is type(y) and isinstance(x, (ListT, DictT, SetT)) or \
                   (isinstance(x, TupleT) and isinstance(y, TupleT) and len(x.ts) == len(y.ts)) or \
                   (isinstance(x, ObjT) and isinstance(y, ObjT) and x.cls is y.cls):
                    out[i] = join(x, y); break
            else: out.append(x)
        return out[0] if len(out) == 1 else UnionT(*out)
    return UnionT(a, b)


def join_all(ts):
    r = BottomT
    for t in ts: r = join(r, t)
    return r

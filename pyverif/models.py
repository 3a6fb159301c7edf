"""Semantics of Python's built-in operations on symbolic values (part of the trusted base; cross-checked against
CPython by selftest.py)."""
import ast, builtins, types, functools, copy as _copy, re as _re
import z3
from . import spec
from .values import *
from .values import strval, unstr, DIGIT_LITERALS
from . import interp as ip
from .interp import PyRaise, Unsupported, kind, aslist, asdict, deep_native, tonative, fromnative, SymRange, SymIter, \
    MethodOf, BoundM, Closure, ExcV, MatchV, class_attr, has_quant, MISSING


# ------------------------------------------------------------------------------------------------ character classes
@functools.lru_cache(None)
def charset_ranges(name):
    pred = {'isspace': str.isspace, 'isdigit': str.isdigit, 'isalpha': str.isalpha, 'isalnum': str.isalnum,
            'isupper': str.isupper, 'islower': str.islower, 'isdecimal': str.isdecimal, 'isnumeric': str.isnumeric,
            'strip': str.isspace}[name]
    out = []
    for o in range(0x30000):
        if pred(chr(o)):
            if out and out[-1][1] == o - 1: out[-1][1] = o
            else: out.append([o, o])
    return tuple((a, b) for a, b in out)

def re_ranges(rs):
    parts = [z3.Range(strval(chr(a)), strval(chr(b))) for a, b in rs]
    return parts[0] if len(parts) == 1 else z3.Union(*parts)

@functools.lru_cache(None)
def charset_re(name): return re_ranges(charset_ranges(name))

def chars_re(chars):
    parts = [z3.Re(strval(c)) for c in sorted(set(chars))]
    return parts[0] if len(parts) == 1 else z3.Union(*parts)


def pure(it, name, args, ret_sort):
    f = z3.Function(name, *[a.sort() for a in args], ret_sort)
    return f(*args)


# ------------------------------------------------------------------------------------------------ binary operators
def binop(it, op, a, b):
    on = type(op).__name__
    if deep_native(a) and deep_native(b) and not isinstance(a, (list, dict, set)) :
        try:
            r = NATIVE_BIN[on](a, b)
        except (TypeError, ZeroDivisionError, ValueError) as e:
            raise PyRaise(type(e), e.args)
        return r
    if isinstance(a, UnionV) or isinstance(b, UnionV):      # term mode
        if isinstance(a, UnionV): a = it.pick(a, lambda x: compatible(on, x, b))
        if isinstance(b, UnionV): b = it.pick(b, lambda x: compatible(on, a, x))
        return binop(it, op, a, b)
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV): return OpaqueV('op')
    ka, kb = kind(a), kind(b)
    num = ('int', 'bool')
    if ka in num and kb in num:
        x, y = IntT.pack(a)[0], IntT.pack(b)[0]
        if on == 'Add': return IntV(x + y)
        if on == 'Sub': return IntV(x - y)
        if on == 'Mult': return IntV(x * y)
        if on in ('FloorDiv', 'Mod'):
            if isinstance(b, int):
                if b == 0: raise PyRaise(ZeroDivisionError, ())
                if b > 0: return IntV(x / y) if on == 'FloorDiv' else IntV(x % y)
            elif not it.term_mode:
                if it.decide(y == 0): raise PyRaise(ZeroDivisionError, ())
                if it.decide(y > 0): return IntV(x / y) if on == 'FloorDiv' else IntV(x % y)
            q = -((x) / (-y)) if False else None
            # negative divisor: floor semantics
            fd = z3.If(y > 0, x / y, (-x) / (-y))
            return IntV(fd) if on == 'FloorDiv' else IntV(x - y * fd)
        if on == 'Div':
            if not it.term_mode and it.decide(y == 0): raise PyRaise(ZeroDivisionError, ())
            return OpaqueV('float')
        if on in ('BitAnd', 'BitOr', 'BitXor') and ka == 'bool' and kb == 'bool':
            p, q = lift(a), lift(b)
            return BoolV({'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[on](p, q))
        if on == 'Pow' and isinstance(b, int) and b == 2: return IntV(x * x)
        if on == 'LShift' and isinstance(b, int) and b >= 0: return IntV(x * (1 << b))
        if on == 'RShift' and isinstance(b, int) and b >= 0: return IntV(x / (1 << b))
        if on == 'BitAnd' and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0: return IntV(x % (b + 1))
        it.opaque_calls.add('int ' + on)
        return IntV(pure(it, 'py_' + on, [x, y], I))
    if ka == 'str' and kb == 'str' and on == 'Add':
        if isinstance(a, HomV) or isinstance(b, HomV): pass
        return it.str_concat(a, b)
    if ka == 'str' and kb in num and on == 'Mult' or ka in num and kb == 'str' and on == 'Mult':
        s, n = (a, b) if ka == 'str' else (b, a)
        if isinstance(n, int):
            r = ''
            for _ in range(max(n, 0)): r = it.str_concat(r, s)
            return r
        r = pure(it, 'py_repeat', [lift(s), IntT.pack(n)[0]], S)
        it.assume(z3.Length(r) == z3.If(IntT.pack(n)[0] > 0, IntT.pack(n)[0] * z3.Length(lift(s)), 0))
        base = s if isinstance(s, str) else REPEATS.get(lift(s).get_id(), (0, None))[1]
        if base:
            it.assume(z3.InRe(r, z3.Star(z3.Re(strval(base)))))
            REPEATS[r.get_id()] = (r, base)       # (the term is kept, so that its id is not used again)
        return StrV(r)
    if ka == 'str' and on == 'Mod':
        it.opaque_calls.add('str %')
        return StrV(z3.String(it.fresh('fmt')))
    if ka == 'list' and kb == 'list' and on == 'Add':
        r = aslist(a).copy(); r.cls = None
        list_extend(it, r, b, raw=True); return r
    if ka == 'tuple' and kb == 'tuple' and on == 'Add': return a + b
    if ka == 'list' and kb in num and on == 'Mult' and isinstance(b, int) and isinstance(a, ListV) and a.items is not None:
        return ListV(items=list(a.items) * b)
    if ka == 'set' and kb == 'set' and on in ('BitOr', 'BitAnd', 'Sub'):
        if a.items is not None and b.items is not None:
            r = SetV(items=[])
            if on == 'BitOr':
                for x in a.items + b.items: set_add(it, r, x)
            else:
                for x in a.items:
                    if it.truth(it.mkbool(contains(it, b, x))) == (on == 'BitAnd'): set_add(it, r, x)
            return r
    if ka == 'obj' or kb == 'obj':
        nm = {'Add': '__add__', 'Sub': '__sub__', 'Mod': '__mod__'}.get(on)
        if ka == 'obj' and nm:
            f = class_attr(a.cls, nm)
            if isinstance(f, types.FunctionType): return it.call_function(f, [a, b], {})
        raise PyRaise(TypeError, ('operand',))
    kinds = ('int', 'bool', 'str', 'list', 'tuple', 'none', 'dict', 'set')
    if ka in kinds and kb in kinds and (ka, kb) not in (('str', 'int'),):
        raise PyRaise(TypeError, (f'unsupported operand {ka} {on} {kb}',))
    raise Unsupported(f'{ka} {on} {kb}')

def compatible(on, x, y):
    kx = kind(x); ky = kind(y)
    num = ('int', 'bool')
    if isinstance(y, UnionV): return kx != 'none'
    if isinstance(x, UnionV): return ky != 'none'
    if kx in num and ky in num: return True
    return kx == ky and kx not in ('none',)

import operator as _o
REPEATS = {}
NATIVE_BIN = dict(Add=_o.add, Sub=_o.sub, Mult=_o.mul, Div=_o.truediv, FloorDiv=_o.floordiv, Mod=_o.mod, Pow=_o.pow,
                  BitAnd=_o.and_, BitOr=_o.or_, BitXor=_o.xor, LShift=_o.lshift, RShift=_o.rshift)
NATIVE_CMP = dict(Lt=_o.lt, LtE=_o.le, Gt=_o.gt, GtE=_o.ge)


# ------------------------------------------------------------------------------------------------ comparisons
def compare(it, op, a, b):
    on = type(op).__name__
    if isinstance(a, ip.MaybeUnbound): a = it.force(a)
    if isinstance(b, ip.MaybeUnbound): b = it.force(b)
    if on in ('Is', 'IsNot'):
        r = is_term(it, a, b)
        return r if on == 'Is' else it.not_term(r)
    if on in ('Eq', 'NotEq'):
        r = it.eq_term(a, b)
        return r if on == 'Eq' else it.not_term(r)
    if on in ('In', 'NotIn'):
        r = contains(it, b, a)
        return r if on == 'In' else it.not_term(r)
    a, b = it.force(a), it.force(b)
    if isinstance(a, UnionV): a = it.pick(a, lambda x: compatible(on, x, b))
    if isinstance(b, UnionV): b = it.pick(b, lambda x: compatible(on, a, x))
    if deep_native(a) and deep_native(b):
        try: return NATIVE_CMP[on](a, b)
        except TypeError as e: raise PyRaise(TypeError, e.args)
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV): return z3.Bool(it.fresh('opaque'))
    ka, kb = kind(a), kind(b)
    if ka in ('int', 'bool') and kb in ('int', 'bool'):
        x, y = IntT.pack(a)[0], IntT.pack(b)[0]
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[on]
    if ka == 'str' and kb == 'str':
        x, y = lift(it.hom_term(a)), lift(it.hom_term(b))
        if on in ('Lt', 'LtE'): return (x < y) if on == 'Lt' else (x <= y)
        return (y < x) if on == 'Gt' else (y <= x)
    if ka == 'tuple' and kb == 'tuple':
        # lexicographic
        n = min(len(a), len(b))
        strict = on in ('Lt', 'Gt')
        r = NATIVE_CMP[on](len(a), len(b))
        for i in reversed(range(n)):
            lt = compare(it, ast.Lt() if on in ('Lt', 'LtE') else ast.Gt(), a[i], b[i])
            eq = it.eq_term(a[i], b[i])
            r = it.or_terms([lt, it.and_terms([eq, r])])
        return r
    if ka == 'obj':
        nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[on]
        f = class_attr(a.cls, nm)
        if isinstance(f, types.FunctionType): return it.truth_term(it.call_function(f, [a, b], {}))
    if ka != kb and ka != 'other' and kb != 'other': raise PyRaise(TypeError, (f'{ka} {on} {kb}',))
    raise Unsupported(f'{ka} {on} {kb}')


def is_term(it, a, b):
    if isinstance(a, UnionV) or isinstance(b, UnionV):
        if not isinstance(a, UnionV): a, b = b, a
        r = []
        for i, x in enumerate(a.alts):
            t = is_term(it, x, b)
            if t is False: continue
            r.append(a.tag == i if t is True else z3.And(a.tag == i, t))
        return it.or_terms(r)
    if a is None or b is None:
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV): return z3.Bool(it.fresh('opaque'))
        return a is None and b is None
    if isinstance(a, (bool, BoolV)) and isinstance(b, (bool, BoolV)): return it.eq_term(a, b)
    if isinstance(a, V) or isinstance(b, V):
        if isinstance(a, ip.MUT) or isinstance(b, ip.MUT): return a is b
        if kind(a) != kind(b): return False
        raise Unsupported('identity of symbolic values')
    return a is b


def contains(it, c, x):
    c = it.force(c)
    if isinstance(c, UnionV): c = it.pick(c, lambda a: a is not None)
    if isinstance(c, GenV): c = c.lst
    if isinstance(c, (str, StrV, HomV)):
        x = it.force(x)
        if isinstance(x, UnionV): x = it.pick(x, lambda a: kind(a) == 'str')
        if kind(x) != 'str':
            if isinstance(x, OpaqueV): return z3.Bool(it.fresh('opaque'))
            raise PyRaise(TypeError, ('in <string> requires string',))
        if isinstance(c, str) and isinstance(x, str): return x in c
        if isinstance(c, HomV) and isinstance(x, str) and len(x) == 1:
            return hom_contains(it, c, x)
        if isinstance(c, HomV) or isinstance(x, HomV): c, x = it.hom_term(c), it.hom_term(x)
        if isinstance(c, str):
            if len(c) < 1: return it.eq_term(x, '')
            # membership of an unknown string in a literal
            return z3.Contains(lift(c), lift(x))
        return z3.Contains(lift(c), lift(x))
    if isinstance(c, (list, tuple, set, frozenset)) or isinstance(c, (ListV, SetV)) and c.items is not None:
        items = c.items if isinstance(c, V) else c
        if deep_native(x) and all(deep_native(y) for y in items):
            try: return x in items
            except TypeError as e: raise PyRaise(TypeError, e.args)
        return it.or_terms([it.eq_term(y, x) for y in items])
    if isinstance(c, dict):
        if deep_native(x): 
            try: return x in c
            except TypeError as e: raise PyRaise(TypeError, e.args)
        if len(c) > 2000: raise Unsupported('large native dict')
        return it.or_terms([it.eq_term(y, x) for y in c])
    if isinstance(c, DictV):
        if c.pairs is not None: return it.or_terms([it.eq_term(y, x) for y, _ in c.pairs])
        return dom_term(it, c, x)
    if isinstance(c, SetV): return dom_term(it, c, x)
    if isinstance(c, ListV):
        if isinstance(x, UnionV) and not it.term_mode: x = it.force(x)
        i = z3.FreshConst(I, 'm')
        it.term_mode += 1
        try: e = it.eq_term(c.get(i), x)
        finally: it.term_mode -= 1
        if isinstance(e, bool): e = z3.BoolVal(e)
        return z3.Exists([i], z3.And(0 <= i, i < c.n, e))
    if isinstance(c, ObjV):
        f = class_attr(c.cls, '__contains__')
        if isinstance(f, types.FunctionType): return it.truth_term(it.call_function(f, [c, x], {}))
        f = class_attr(c.cls, '__iter__')
        if isinstance(f, types.FunctionType): return contains(it, it.call_function(f, [c], {}), x)
        raise PyRaise(TypeError, ('not a container',))
    if isinstance(c, SymRange):
        x = IntT.pack(it.force(x))[0]
        if c.step == 1: return z3.And(c.lo <= x, x < c.hi)
        raise Unsupported('in range step')
    if isinstance(c, range):
        x = it.force(x)
        if isinstance(x, int): return x in c
        if kind(x) in ('int', 'bool') and c.step == 1:
            x = IntT.pack(x)[0]; return z3.And(c.start <= x, x < c.stop)
    if isinstance(c, OpaqueV): return z3.Bool(it.fresh('opaque'))
    if c is None or kind(c) in ('int', 'bool'): raise PyRaise(TypeError, ('not iterable',))
    if isinstance(c, (type({}.keys()), type({}.values()))): return contains(it, list(c), x)
    raise Unsupported(f'in {type(c).__name__}')


def hom_contains(it, c, x):
    """does the image contain the character x?"""
    if any(x in v for v in c.special.values()):
        src = [k for k, v in c.special.items() if x in v]
        ts = [z3.Contains(c.base, strval(k)) for k in src]
        if x not in c.special: ts.append(z3.Contains(c.base, strval(x)))
        return z3.Or(*ts)
    if x in c.special: return False
    return z3.Contains(c.base, strval(x))


def key_ok(kT, x):
    try: key_term(kT, x); return True
    except Unsupported: return False

def dom_term(it, d, x):
    if isinstance(x, UnionV):
        if not it.term_mode: x = it.force(x)
        else:
            return it.or_terms([it.and_terms([x.tag == i, dom_term(it, d, a)]) for i, a in enumerate(x.alts)])
    if isinstance(x, HomV): x = it.hom_term(x)
    if isinstance(x, OpaqueV): return z3.Bool(it.fresh('opaque'))
    if isinstance(x, ip.MUT) and not isinstance(x, ObjV): raise PyRaise(TypeError, ('unhashable',))
    if not key_ok(d.keyT, x): return False
    return z3.Select(d.dom, key_term(d.keyT, x))


# ------------------------------------------------------------------------------------------------ items
def norm_index(it, ix, n):
    """index value -> term in [0,n), raising IndexError"""
    ix = it.force(ix)
    if isinstance(ix, UnionV): ix = it.pick(ix, lambda a: kind(a) in ('int', 'bool'))
    if isinstance(ix, OpaqueV): raise Unsupported('opaque index')
    if kind(ix) not in ('int', 'bool'): raise PyRaise(TypeError, ('index type',))
    n = n if not isinstance(n, int) else z3.IntVal(n)
    if isinstance(ix, (int,)):
        t = z3.IntVal(int(ix)) if ix >= 0 else z3.simplify(n + int(ix))
    else:
        t = IntT.pack(ix)[0]
        if it.term_mode: pass
        elif not it.decide(t >= 0): t = t + n
    if not it.term_mode:
        if not it.decide(z3.And(t >= 0, t < n)): raise PyRaise(IndexError, ('index out of range',))
    return t


def slice_bounds(it, sl, n):
    """(lo, hi) terms, both >= 0 (hi may exceed n: users clamp)"""
    if sl.step is not None and not (isinstance(sl.step, int) and sl.step == 1): raise Unsupported('slice step')
    def one(x, default):
        x = it.force(x)
        if isinstance(x, UnionV): x = it.pick(x, lambda a: kind(a) in ('int',))
        if x is None: return default
        if isinstance(x, bool) : x = int(x)
        if isinstance(x, int):
            if x >= 0: return z3.IntVal(x)
            return z3.If(n + x < 0, z3.IntVal(0), n + x)
        if not isinstance(x, (IntV, BoolV)): raise PyRaise(TypeError, ('slice index',))
        t = IntT.pack(x)[0]
        if not it.term_mode:
            if it.decide(t >= 0): return t
            return z3.If(n + t < 0, z3.IntVal(0), n + t)
        return z3.If(t >= 0, t, z3.If(n + t < 0, z3.IntVal(0), n + t))
    return one(sl.start, z3.IntVal(0)), one(sl.stop, n)


def getitem(it, o, ix):
    if isinstance(o, UnionV): return it.over_union(o, lambda a: kind(a) in ('list', 'tuple', 'dict', 'str', 'obj') or isinstance(a, MatchV), lambda a: getitem(it, a, ix))
    if isinstance(ix, slice): return getslice(it, o, ix)
    if isinstance(o, (tuple, list, str)) and not isinstance(ix, V):
        try: return o[ix]
        except (IndexError, TypeError) as e: raise PyRaise(type(e), e.args)
    if isinstance(o, GenV): o = o.lst
    if isinstance(o, (tuple, list)) or isinstance(o, ListV) and o.items is not None:
        items = o.items if isinstance(o, ListV) else list(o)
        ix = it.force(ix)
        if isinstance(ix, int):
            try: return items[ix]
            except IndexError: raise PyRaise(IndexError, ('list index out of range',))
        if isinstance(ix, (IntV, BoolV)):
            t = norm_index(it, ix, len(items))
            if it.term_mode:
                if not items: raise PyRaise(IndexError, ('index of an empty list',))
                r = items[-1]
                for j in range(len(items) - 2, -1, -1): r = it.merge(t == j, items[j], r)
                return r
            for j in range(len(items) - 1):
                if it.decide(t == j): return items[j]
            return items[-1]
        if isinstance(ix, OpaqueV): raise Unsupported('opaque index')
        raise PyRaise(TypeError, ('list indices must be integers',))
    if isinstance(o, ListV):
        t = norm_index(it, ix, o.n)
        return elem(it, o.get(t), o.elemT, o, t)
    if isinstance(o, (str, StrV, HomV)):
        s = lift(it.hom_term(o))
        t = norm_index(it, ix, z3.Length(s))
        return StrV(z3.SubString(s, t, 1))
    if isinstance(o, dict):
        if deep_native(ix):
            try: return o[ix]
            except (KeyError, TypeError) as e: raise PyRaise(type(e), e.args)
        o = DictV(pairs=[[a, b] for a, b in o.items()])
    if isinstance(o, DictV):
        if o.pairs is not None:
            j = find_key(it, o, ix)
            if j is None:
                if o.default is not None:
                    v = o.default(); dict_set(it, o, ix, v); return v
                raise PyRaise(KeyError, (ix,))
            if not isinstance(j, int): return j[0]
            return o.pairs[j][1]
        d = dom_term(it, o, ix)
        if not it.term_mode:
            if not it.decide(d):
                if o.default is not None:
                    v = o.default(); dict_set(it, o, ix, v); return getitem(it, o, ix)
                raise PyRaise(KeyError, (ix,))
            ix = it.force(ix)
        if isinstance(ix, UnionV): ix = it.pick(ix, lambda a: key_ok(o.keyT, a))
        kt = key_term(o.keyT, it.hom_term(ix))
        return elem(it, it.dict_at(o, kt), o.valT, o, kt)
    if isinstance(o, ObjV):
        f = class_attr(o.cls, '__getitem__')
        if isinstance(f, types.FunctionType): return it.call_function(f, [o, ix], {})
        raise PyRaise(TypeError, ('not subscriptable',))
    if isinstance(o, MatchV): return match_group(it, o, ix)
    if isinstance(o, OpaqueV): return OpaqueV('item')
    if isinstance(o, type): return o
    if o is None or kind(o) in ('int', 'bool', 'set'): raise PyRaise(TypeError, ('not subscriptable',))
    if isinstance(o, SymRange) and o.step == 1:
        t = norm_index(it, ix, it.range_len(o)); return IntV(o.lo + t)
    if deep_native(o) and deep_native(ix): return o[ix]
    raise Unsupported(f'subscript of {type(o).__name__}')


def elem(it, v, T_, parent, key):
    if not it.in_binder and not isinstance(T_, (type(IntT), type(StrT), type(BoolT))):
        for f in T_.wf(v): it.assume(f)
    return child(v, parent, key)


def child(v, parent, key):
    """a mutable value read out of a symbolic container: remember where it came from, for write-back"""
    if isinstance(v, ip.MUT): v.parent = (parent, key, getattr(parent, 'version', 0))
    if isinstance(v, UnionV):
        for a in v.alts:
            if isinstance(a, ip.MUT): a.parent = (parent, key, getattr(parent, 'version', 0))
    return v


def write_back(it, obj):
    p = getattr(obj, 'parent', None)
    if p is None: return
    cont, key, ver = p
    if getattr(cont, 'version', 0) != ver: raise Unsupported('mutation through a stale element reference')
    elemT = cont.elemT if isinstance(cont, ListV) else cont.valT
    want = typeof(obj)
    j = ip.join(elemT, want)
    if j != elemT:
        widen_container(cont, j); elemT = j
    cont.leaves = [z3.Store(a, key, x) for a, x in zip(cont.leaves, elemT.pack(obj))]
    cont.version = ver + 1
    obj.parent = (cont, key, ver + 1)
    it.wrote(cont)
    write_back(it, cont)


def widen_container(c, T2):
    if isinstance(c, ListV):
        c.leaves = convert_leaves(c.elemT, T2, c.leaves); c.elemT = T2
    else:
        k = z3.FreshConst(key_sort(c.keyT), 'ck')
        e = c.valT.unpack([z3.Select(a, k) for a in c.leaves])
        c.leaves = [z3.Lambda([k], x) for x in T2.pack(e)]; c.valT = T2


def find_key(it, d, k):
    """index of key k in a concrete-shape dict, None if absent; splits the path if necessary"""
    if deep_native(k):
        symbolic = False
        for j, (a, _) in enumerate(d.pairs):
            if deep_native(a):
                try:
                    if a == k and (a is k or type(a) is type(k) or hash(a) == hash(k)): return j
                except TypeError as e: raise PyRaise(TypeError, e.args)
            else: symbolic = True
        if not symbolic: return None
    if isinstance(k, ip.MUT) and not isinstance(k, ObjV): raise PyRaise(TypeError, ('unhashable',))
    if it.term_mode:
        r = None; conds = []
        opts = [(it.eq_term(a, k), b) for a, b in d.pairs]
        opts = [(c, b) for c, b in opts if c is not False]
        if not opts: raise Unsupported('missing key in a term')
        r = opts[-1][1]
        for c, b in reversed(opts[:-1]): r = it.merge(c, b, r)
        return (r,)
    for j, (a, _) in enumerate(d.pairs):
        e = it.eq_term(a, k)
        if e is False: continue
        if e is True or it.decide(e): return j
    return None


def getslice(it, o, sl):
    if isinstance(o, (str, tuple, list)) and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
        r = o[sl]; return fromnative(r) if isinstance(r, list) else r
    if isinstance(o, GenV): o = o.lst
    if isinstance(o, ListV) and o.items is not None and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
        return ListV(items=o.items[sl])
    if isinstance(o, (str, StrV, HomV)):
        s = lift(it.hom_term(o)); n = z3.Length(s)
        lo, hi = slice_bounds(it, sl, n)
        if sl.start is None and sl.stop is None: return o
        if sl.start is None or isinstance(sl.start, int) and sl.start == 0:
            return StrV(z3.SubString(s, z3.IntVal(0), hi))
        if sl.stop is None: return StrV(z3.SubString(s, lo, n - lo))
        return StrV(z3.SubString(s, lo, hi - lo))
    if isinstance(o, (ListV, list)):
        if isinstance(o, list): o = ListV(items=list(o))
        if o.items is not None:
            o = to_symbolic(o)
        lo, hi = slice_bounds(it, sl, o.n)
        lo_ = z3.If(lo > o.n, o.n, lo); hi_ = z3.If(hi > o.n, o.n, hi)
        n = z3.If(hi_ > lo_, hi_ - lo_, z3.IntVal(0))
        if sl.start is None:
            return ListV(n=z3.simplify(n), elemT=o.elemT, leaves=list(o.leaves))
        i = z3.FreshConst(I, 'sl')
        return ListV(n=z3.simplify(n), elemT=o.elemT, leaves=[z3.Lambda([i], z3.Select(a, i + lo_)) for a in o.leaves])
    if isinstance(o, ObjV):
        f = class_attr(o.cls, '__getitem__')
        if isinstance(f, types.FunctionType): return it.call_function(f, [o, sl], {})
    if isinstance(o, OpaqueV): return OpaqueV('slice')
    if o is None or kind(o) in ('int', 'bool'): raise PyRaise(TypeError, ('not subscriptable',))
    raise Unsupported(f'slice of {type(o).__name__}')


def to_symbolic(l):
    """list of known length -> array form"""
    T_ = typeof(l).elem
    p = ListT(T_).pack(l)
    return ListT(T_).unpack(p)


def setitem(it, o, ix, v):
    if isinstance(o, ObjV):
        f = class_attr(o.cls, '__setitem__')
        if isinstance(f, types.FunctionType): return it.call_function(f, [o, ix, v], {})
        raise PyRaise(TypeError, ('item assignment',))
    if isinstance(o, ListV):
        if isinstance(ix, slice): raise Unsupported('slice assignment')
        it.mutable(o)
        if o.items is not None:
            ix = it.force(ix)
            if isinstance(ix, int):
                if not -len(o.items) <= ix < len(o.items): raise PyRaise(IndexError, ())
                o.items[ix] = v; write_back(it, o); return
            t = norm_index(it, ix, len(o.items))
            for j in range(len(o.items)):
                if j == len(o.items) - 1 or it.decide(t == j): o.items[j] = v; break
            write_back(it, o); return
        t = norm_index(it, ix, o.n)
        store_elem(it, o, t, v); write_back(it, o); return
    if isinstance(o, DictV): dict_set(it, o, ix, v); return
    if o is None or kind(o) in ('int', 'bool', 'str', 'tuple', 'set'): raise PyRaise(TypeError, ('item assignment',))
    raise Unsupported(f'item assignment on {type(o).__name__}')


def store_elem(it, l, t, v):
    j = ip.join(l.elemT, typeof(v))
    if j != l.elemT:
        if l.elemT is BottomT: l.leaves = [z3.K(I, default_of(s)) for s in j.sorts()]; l.elemT = j
        else: widen_container(l, j)
    l.leaves = [z3.Store(a, t, x) for a, x in zip(l.leaves, l.elemT.pack(v))]
    l.version = getattr(l, 'version', 0) + 1


def list_append(it, l, v):
    it.mutable(l)
    if isinstance(v, HomV): v = it.hom_term(v)
    if l.items is not None: l.items.append(v); write_back(it, l); return
    n = l.n
    store_elem(it, l, n, v)
    l.n = n + 1
    write_back(it, l)


def list_extend(it, l, o, raw=False):
    if not raw: it.mutable(l)
    o = it.force(o)
    if isinstance(o, GenV): o = o.lst
    if isinstance(o, ObjV): 
        f = class_attr(o.cls, '__iter__'); o = it.force(it.call_function(f, [o], {}))
        if isinstance(o, GenV): o = o.lst
    items = it.concrete_items(o)
    if items is not None and l.items is not None:
        l.items.extend(items)
    elif items is not None:
        for x in items:
            n = l.n; store_elem(it, l, n, x); l.n = n + 1
    else:
        if not isinstance(o, ListV): raise Unsupported(f'extend with {type(o).__name__}')
        if l.items is not None and not l.items:
            l.assign(o)
        else:
            a = to_symbolic(l) if l.items is not None else l
            Tj = ip.join(a.elemT, o.elemT)
            la = a.leaves if a.elemT == Tj else convert_leaves(a.elemT, Tj, a.leaves)
            lb = o.leaves if o.elemT == Tj else convert_leaves(o.elemT, Tj, o.leaves)
            i = z3.FreshConst(I, 'cc')
            leaves = [z3.Lambda([i], z3.If(i < a.n, z3.Select(x, i), z3.Select(y, i - a.n))) for x, y in zip(la, lb)]
            n = a.n + o.n
            l.items = None; l.n = n; l.elemT = Tj; l.leaves = leaves
    if not raw: write_back(it, l)


def set_add(it, s, v):
    it.mutable(s)
    if isinstance(v, ip.MUT) and not isinstance(v, ObjV): raise PyRaise(TypeError, ('unhashable',))
    if s.items is not None:
        for x in s.items:
            e = it.eq_term(x, v)
            if e is True: return
            if e is False: continue
            if it.decide(e): return
        s.items.append(v); write_back(it, s); return
    if s.keyT is BottomT: s.keyT = typeof(v); s.dom = z3.K(key_sort(s.keyT), z3.BoolVal(False))
    s.dom = z3.Store(s.dom, key_term(s.keyT, it.force(v)), z3.BoolVal(True))
    write_back(it, s)


def dict_set(it, d, k, v):
    it.mutable(d)
    k = it.force(k)
    if isinstance(k, HomV): k = it.hom_term(k)
    if isinstance(k, ip.MUT) and not isinstance(k, ObjV): raise PyRaise(TypeError, ('unhashable',))
    if d.pairs is not None:
        j = find_key(it, d, k)
        if j is None: d.pairs.append([k, v])
        else: d.pairs[j][1] = v
        write_back(it, d); return
    if not key_ok(d.keyT, k):
        raise Unsupported(f'key type {typeof(k)} in dict of {d.keyT}')
    kt = key_term(d.keyT, k)
    isnew = z3.Not(z3.Select(d.dom, kt))
    j = ip.join(d.valT, typeof(v))
    if j != d.valT: widen_container(d, j)
    d.leaves = [z3.Store(a, kt, x) for a, x in zip(d.leaves, d.valT.pack(v))]
    if d.order is not None and not it.term_mode:
        if it.decide(isnew): d.order = z3.Store(d.order, d.size, kt); d.size = d.size + 1
    else:
        if d.order is not None: d.order = z3.If(isnew, z3.Store(d.order, d.size, kt), d.order)
        if d.size is not None: d.size = z3.If(isnew, d.size + 1, d.size)
    d.dom = z3.Store(d.dom, kt, z3.BoolVal(True))
    d.version = getattr(d, 'version', 0) + 1
    write_back(it, d)


def delitem(it, o, ix):
    if isinstance(o, ObjV):
        f = class_attr(o.cls, '__delitem__')
        if isinstance(f, types.FunctionType): return it.call_function(f, [o, ix], {})
    it.mutable(o)
    if isinstance(o, DictV):
        if o.pairs is not None:
            j = find_key(it, o, ix)
            if j is None: raise PyRaise(KeyError, (ix,))
            del o.pairs[j]; write_back(it, o); return
        if not it.decide(dom_term(it, o, ix)): raise PyRaise(KeyError, (ix,))
        o.dom = z3.Store(o.dom, key_term(o.keyT, it.force(ix)), z3.BoolVal(False))
        if o.size is not None: o.size = o.size - 1
        o.order = None
        write_back(it, o); return
    if isinstance(o, ListV) and o.items is not None and isinstance(ix, (int, slice)):
        try: del o.items[ix]
        except IndexError: raise PyRaise(IndexError, ())
        write_back(it, o); return
    if isinstance(o, ListV):
        if isinstance(ix, slice): raise Unsupported('del slice')
        t = norm_index(it, ix, o.n)
        list_remove_at(o, t); write_back(it, o); return
    raise Unsupported('del item')


def list_remove_at(o, t):
    i = z3.FreshConst(I, 'rm')
    o.leaves = [z3.Lambda([i], z3.If(i < t, z3.Select(a, i), z3.Select(a, i + 1))) for a in o.leaves]
    o.n = o.n - 1


# ------------------------------------------------------------------------------------------------ methods
STR_METHODS = {n for n in dir(str)}
def has_method(o, name):
    if isinstance(o, (StrV, HomV, str)): return hasattr(str, name)
    if isinstance(o, (ListV, list)): return hasattr(list, name)
    if isinstance(o, GenV): return name in ('__iter__', '__next__')
    if isinstance(o, (DictV, dict)): return hasattr(dict, name)
    if isinstance(o, (SetV, set, frozenset)): return hasattr(set, name)
    if isinstance(o, tuple): return hasattr(tuple, name)
    if isinstance(o, (IntV, int)): return hasattr(int, name)
    if isinstance(o, BoolV): return hasattr(bool, name)
    if isinstance(o, MatchV): return name in ('group', 'groups', 'start', 'end', 'span')
    if isinstance(o, bytes): return hasattr(bytes, name)
    return False


def method(it, o, name, args, kwargs):
    args = [it.force(a) for a in args]
    if isinstance(o, ip.SuperV):
        return None if name == '__init__' else _unsup(f'super().{name}')
    if isinstance(o, (str, int, tuple, bytes, frozenset)) and deep_native(o):
        try: nargs = [tonative(a) for a in args]; nk = {k: tonative(v) for k, v in kwargs.items()}
        except Unsupported: nargs = None
        if nargs is not None:
            try: return fromnative(getattr(o, name)(*nargs, **nk))
            except Exception as e: raise PyRaise(type(e), e.args)
    if isinstance(o, (str, StrV, HomV)): return str_method(it, o, name, args, kwargs)
    if isinstance(o, GenV): o = o.lst
    if isinstance(o, (ListV, list)): return list_method(it, o, name, args, kwargs)
    if isinstance(o, (DictV, dict)): return dict_method(it, o, name, args, kwargs)
    if isinstance(o, (SetV, set, frozenset)): return set_method(it, o, name, args, kwargs)
    if isinstance(o, MatchV): return match_method(it, o, name, args)
    if isinstance(o, tuple):
        if name == 'index' and len(args) == 1:
            for i, x in enumerate(o):
                if it.truth(it.mkbool(it.eq_term(x, args[0]))): return i
            raise PyRaise(ValueError, ())
        if name == 'count' and len(args) == 1:
            n = 0
            for x in o:
                if it.truth(it.mkbool(it.eq_term(x, args[0]))): n += 1
            return n
    if isinstance(o, slice) and name == 'indices':
        n = IntT.pack(args[0])[0]
        lo, hi = slice_bounds(it, o, n)
        return (IntV(z3.simplify(z3.If(lo > n, n, lo))), IntV(z3.simplify(z3.If(hi > n, n, hi))), 1)
    if isinstance(o, _re.Pattern):
        from . import regex
        return regex.call(it, o, name, args, kwargs)
    raise Unsupported(f'method {type(o).__name__}.{name}')


def _unsup(w): raise Unsupported(w)

def need_str(it, v):
    if isinstance(v, UnionV): v = it.pick(v, lambda a: kind(a) == 'str')
    if kind(v) != 'str':
        if isinstance(v, OpaqueV): raise Unsupported('opaque string argument')
        raise PyRaise(TypeError, ('must be str',))
    return v


def strip_axioms(it, name, t, r, chars, left, right):
    """r == t.strip-like: instantiate the defining facts"""
    cs = charset_re('isspace') if chars is None else (chars_re(chars) if chars else None)
    if cs is None: it.assume(r == t); return
    l = z3.String(it.fresh('sl')); e = z3.String(it.fresh('sr'))
    star = z3.Star(cs)
    notc = z3.Intersect(z3.AllChar(z3.ReSort(S)), z3.Complement(cs))
    it.assume(t == z3.Concat(l, r, e))
    it.assume(z3.InRe(l, star) if left else l == strval(''))
    it.assume(z3.InRe(e, star) if right else e == strval(''))
    if left: it.assume(z3.Or(r == strval(''), z3.InRe(z3.SubString(r, 0, 1), notc)))
    if right: it.assume(z3.Or(r == strval(''), z3.InRe(z3.SubString(r, z3.Length(r) - 1, 1), notc)))
    if left and not right: it.assume(z3.Implies(r == strval(''), e == strval('')))
    it.assume(z3.Length(r) <= z3.Length(t))


def ascii_class(it, name, s):
    """s.isdigit() etc.: exact on ASCII strings; on strings with other characters only the ASCII characters are constrained"""
    P = pure(it, 'py_' + name, [s], B)
    key = ('cls', name, s.get_id())
    if key not in it.unfolded:
        it.unfolded.add(key)
        it.keep.append(s)
        asc = re_ranges([(a, min(b, 127)) for a, b in charset_ranges(name) if a < 128])
        it.assume(z3.Implies(z3.InRe(s, z3.Plus(asc)), P))
        it.assume(z3.Implies(P, z3.InRe(s, z3.Plus(z3.Union(asc, z3.Range(strval(chr(128)), strval(chr(0x2ffff))))))))
    return P


def str_format(it, o, args, kwargs):
    import string
    out = ''; auto = 0
    for text, field, fmt, conv in string.Formatter().parse(o):
        out = it.str_concat(out, text)
        if field is None: continue
        if field == '': v = args[auto] if auto < len(args) else MISSING; auto += 1
        elif field.isdigit(): v = args[int(field)] if int(field) < len(args) else MISSING
        else: v = kwargs.get(field, MISSING)
        if v is MISSING: raise PyRaise(IndexError, ('format',))
        if fmt or conv:
            if not deep_native(v): return StrV(z3.String(it.fresh('fmt')))
            v = {'r': repr, 's': str, 'a': ascii, None: lambda x: x}[conv](v)
            out = it.str_concat(out, format(v, fmt))
        else: out = it.str_concat(out, it.to_str(v))
    return out


def conjuncts(a):
    if z3.is_and(a):
        for b in a.children(): yield from conjuncts(b)
    else: yield a


def only_about(a, x):
    seen = set(); st = [a]; hit = False
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if not z3.is_app(t) or len(seen) > 400: return False
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if t.get_id() != x.get_id(): return False
            hit = True
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return False
        st.extend(t.children())
    return hit


def find_facts(it, base, p, lo, r):
    """the first place of a character in a text put together from pieces: in the first literal piece that has it, if the pieces before do not"""
    if not (z3.is_string_value(p) and z3.is_int_value(lo) and lo.as_long() == 0): return
    ch = unstr(p)
    if len(ch) != 1: return
    t = z3.simplify(base)
    if t.decl().kind() != z3.Z3_OP_SEQ_CONCAT: return
    parts = []
    def flat(x):
        if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for y in x.children(): flat(y)
        else: parts.append(x)
    flat(t)
    def never(x):
        """what is known of the piece alone rules the character out"""
        if not z3.is_const(x): return False
        key = ('never', x.get_id(), ch, len(it.pc))
        if key not in it.unfolded_never:
            own = [b for a in it.pc for b in conjuncts(a) if only_about(b, x)]
            r = False
            if own:
                so = z3.Solver(); so.set('timeout', 400); so.add(*own); so.add(z3.Contains(x, p))
                r = so.check() == z3.unsat
            it.unfolded_never[key] = r
        return it.unfolded_never[key]
    before = []; pos = z3.IntVal(0)
    for x in parts:
        if not z3.is_string_value(x) and never(x):
            pos = pos + z3.Length(x); continue
        none = z3.And([z3.BoolVal(True)] + [z3.Not(z3.Contains(y, p)) for y in before])
        if z3.is_string_value(x):
            l = unstr(x); k = l.find(ch)
            if k >= 0:
                it.assume(z3.Implies(none, r == pos + k)); return
            pos = pos + len(l)
        else:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_UNIT: return
            it.assume(z3.Implies(z3.And(none, z3.Contains(x, p)), r == pos + z3.IndexOf(x, p, 0)))
            before.append(x); pos = pos + z3.Length(x)
    it.assume(z3.Implies(z3.And([z3.Not(z3.Contains(y, p)) for y in before]), r == -1))


def str_method(it, o, name, args, kwargs):
    if name == 'format' and isinstance(o, str): return str_format(it, o, args, kwargs)
    if name == 'replace':
        p, q = args[0], args[1]
        if isinstance(p, str) and len(p) == 1 and isinstance(q, str) and len(args) == 2:
            h = o if isinstance(o, HomV) else None
            if h is None and getattr(it, 'hom_strings', False) and isinstance(o, StrV): h = HomV(o.t, {})
            if h is not None:
                sp = {k: v.replace(p, q) for k, v in h.special.items()}
                if p not in sp: sp[p] = q
                return HomV(h.base, sp)
        need_str(it, p); need_str(it, q)
        s, p, q = lift(it.hom_term(o)), lift(it.hom_term(p)), lift(it.hom_term(q))
        if len(args) == 3:
            if isinstance(args[2], int) and args[2] == 1:
                # Python replaces an empty pattern at position 0 too, as SMT-LIB does
                return StrV(z3.Replace(s, p, q))
            raise Unsupported('replace with count')
        r = pure(it, 'py_replace_all', [s, p, q], S)
        it.assume(z3.Implies(z3.And(z3.Not(z3.Contains(s, p)), p != strval('')), r == s))
        sp = z3.simplify(p)
        while z3.is_app(sp) and sp.decl().kind() == z3.Z3_OP_SEQ_CONCAT: sp = sp.arg(0)
        if z3.is_string_value(sp) and unstr(sp): it.assume(z3.Implies(z3.Not(z3.Contains(s, strval(unstr(sp)[0]))), r == s))
        it.assume(z3.Implies(z3.And(p != strval(''), z3.Not(z3.Contains(q, p)), z3.Length(p) == 1), z3.Not(z3.Contains(r, p))))
        it.assume(z3.Implies(z3.And(z3.Length(q) <= z3.Length(p)), z3.Length(r) <= z3.Length(s)))
        it.assume(z3.Implies(s == strval(''), z3.Implies(p != strval(''), r == strval(''))))
        return StrV(r)
    if name == 'translate' and isinstance(args[0], (dict, DictV)):
        m = tonative(args[0]) if isinstance(args[0], DictV) else args[0]
        h = o if isinstance(o, HomV) else HomV(lift(o), {})
        def one(c):
            x = m.get(ord(c), c)
            return '' if x is None else chr(x) if isinstance(x, int) else x
        sp = {k: ''.join(one(c) for c in v) for k, v in h.special.items()}
        for kk in m:
            c = chr(kk)
            if c not in sp: sp[c] = one(c)
        return HomV(h.base, sp)
    if isinstance(o, HomV): o = it.hom_term(o)
    args = [it.hom_term(a) for a in args]
    s = lift(o)
    n = z3.Length(s)
    if name in ('startswith', 'endswith'):
        p = args[0]
        if len(args) > 1:
            lo = args[1]
            o2 = getslice(it, o, slice(args[1], args[2] if len(args) > 2 else None, None))
            return str_method(it, o2, name, [p], {}) if not isinstance(o2, str) else method(it, o2, name, [p], {})
        ps = p if isinstance(p, tuple) else (p,)
        f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
        return it.mkbool(it.or_terms([f(lift(need_str(it, x)), s) for x in ps]))
    if name in ('find', 'index'):
        p = lift(need_str(it, args[0]))
        lo = z3.IntVal(0)
        base = s
        if len(args) > 1:
            b = slice_bounds(it, slice(args[1], None, None), n)
            lo = b[0]
        if len(args) > 2:
            b = slice_bounds(it, slice(None, args[2], None), n)
            base = z3.SubString(s, 0, b[1])
        r = z3.IndexOf(base, p, lo)
        find_facts(it, base, p, lo, r)
        if name == 'index':
            if not it.decide(r >= 0): raise PyRaise(ValueError, ('substring not found',))
        return IntV(r)
    if name in ('rfind', 'rindex') and len(args) == 1:
        p = lift(need_str(it, args[0]))
        r = z3.LastIndexOf(s, p)
        if name == 'rindex':
            if not it.decide(r >= 0): raise PyRaise(ValueError, ('substring not found',))
        return IntV(r)
    if name in ('strip', 'lstrip', 'rstrip'):
        ch = args[0] if args else None
        if ch is not None and not isinstance(ch, str): raise Unsupported('strip of unknown characters')
        r = pure(it, f'py_{name}_{"ws" if ch is None else "_".join(f"{ord(c):x}" for c in sorted(set(ch)))}', [s], S)
        key = ('strip', name, ch, s.get_id())
        if key not in it.unfolded:
            it.unfolded.add(key)
            strip_axioms(it, name, s, r, ch, name != 'rstrip', name != 'lstrip')
        return StrV(r)
    if name in ('isdigit', 'isspace', 'isdecimal', 'isalpha', 'isalnum', 'isnumeric'):
        if name == 'isspace': return BoolV(z3.InRe(s, z3.Plus(charset_re(name))))
        return BoolV(ascii_class(it, name, s))
    if name in ('isupper', 'islower', 'istitle', 'isidentifier', 'isascii', 'isprintable'):
        return BoolV(pure(it, 'py_' + name, [s], B))
    if name in ('lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase'):
        r = pure(it, 'py_' + name, [s], S)
        if name in ('lower', 'upper', 'casefold'):
            it.assume(pure(it, 'py_' + name, [r], S) == r)
            it.assume((r == strval('')) == (s == strval('')))
        return StrV(r)
    if name == 'join':
        items = it.concrete_items(args[0])
        if items is None:
            l = args[0].lst if isinstance(args[0], GenV) else args[0]
            if not isinstance(l, ListV): raise Unsupported('join of ' + type(l).__name__)
            return join_sym(it, o, l)
        r = ''
        for j, x in enumerate(items):
            x = it.force(x)
            if kind(x) != 'str': raise PyRaise(TypeError, ('join of non-strings',))
            if j: r = it.str_concat(r, o)
            r = it.str_concat(r, x)
        return r
    if name in ('split', 'rsplit'):
        return split(it, o, name, args, kwargs)
    if name in ('partition', 'rpartition'):
        p = lift(need_str(it, args[0]))
        if name == 'partition':
            r = z3.IndexOf(s, p, 0)
            if it.decide(r >= 0): return (StrV(z3.SubString(s, 0, r)), args[0], StrV(z3.SubString(s, r + z3.Length(p), n - r - z3.Length(p))))
            return (o, '', '')
        r = z3.LastIndexOf(s, p)
        if it.decide(r >= 0): return (StrV(z3.SubString(s, 0, r)), args[0], StrV(z3.SubString(s, r + z3.Length(p), n - r - z3.Length(p))))
        return ('', '', o)
    if name == 'count' and len(args) == 1:
        p = lift(need_str(it, args[0]))
        r = pure(it, 'py_count', [s, p], I)
        it.assume(r >= 0)
        it.assume((r == 0) == z3.Not(z3.Contains(s, p)))
        it.assume(z3.Implies(z3.Length(p) > 0, r * 1 <= n))
        return IntV(r)
    if name == 'removeprefix':
        p = lift(need_str(it, args[0]))
        return StrV(z3.If(z3.PrefixOf(p, s), z3.SubString(s, z3.Length(p), n - z3.Length(p)), s))
    if name == 'removesuffix':
        p = lift(need_str(it, args[0]))
        return StrV(z3.If(z3.And(z3.Length(p) > 0, z3.SuffixOf(p, s)), z3.SubString(s, 0, n - z3.Length(p)), s))
    if name in ('zfill', 'rjust', 'ljust', 'center', 'expandtabs'):
        a = [lift(x) for x in args]
        r = pure(it, f'py_{name}{len(a)}', [s] + a, S)
        it.assume(z3.Length(r) >= n)
        return StrV(r)
    if name == 'encode':
        return OpaqueV('bytes')
    if name == 'format': return StrV(z3.String(it.fresh('fmt')))
    if name == '__len__': return IntV(n)
    if name == 'splitlines': raise Unsupported('splitlines')
    raise Unsupported(f'str.{name}')


def join_sym(it, sep, l):
    """sep.join(l) for a list of unknown length: the fold join_k, unfolded at the end and where needed"""
    if l.elemT != StrT: raise Unsupported('join of a non-string list')
    return join_rec(it, sep, l, l.n, True)

def strip_stores(arr, k):
    """drop writes at indices >= k: the value of a fold over the first k elements does not depend on them"""
    while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
        d = z3.simplify(arr.arg(1) - k)
        if z3.is_int_value(d) and d.as_long() >= 0: arr = arr.arg(0)
        else: break
    return arr

def join_rec(it, sep, l, k, unfold):
    arr = strip_stores(l.leaves[0], k)
    f = z3.Function('py_join', S, z3.ArraySort(I, S), I, S)
    r = f(lift(sep), arr, k)
    key = ('join', r.get_id())
    if unfold and key not in it.unfolded:
        it.unfolded.add(key); it.keep.append(r)
        prev = f(lift(sep), strip_stores(arr, z3.simplify(k - 1)), z3.simplify(k - 1))
        last = z3.Select(arr, k - 1)
        it.assume(r == z3.If(k <= 0, strval(''), z3.If(k == 1, last, z3.Concat(prev, lift(sep), last))))
    return StrV(r)


def split(it, o, name, args, kwargs):
    s = lift(o); n = z3.Length(s)
    sep = args[0] if args else kwargs.get('sep')
    mx = args[1] if len(args) > 1 else kwargs.get('maxsplit', -1)
    if isinstance(mx, int) and mx == 1 and isinstance(sep, str) and sep:
        p = strval(sep); L = len(sep)
        r = z3.IndexOf(s, p, 0) if name == 'split' else z3.LastIndexOf(s, p)
        if it.decide(r >= 0):
            return ListV(items=[StrV(z3.SubString(s, 0, r)), StrV(z3.SubString(s, r + L, n - r - L))])
        return ListV(items=[o])
    if isinstance(mx, int) and mx == 1 and sep is None and name == 'split':
        # whitespace split, at most one cut
        t = str_method(it, o, 'strip', [], {})
        if it.decide(t.t == strval('')): return ListV(items=[])
        ws = charset_re('isspace')
        lt = str_method(it, o, 'lstrip', [], {})
        a = z3.String(it.fresh('w1')); m = z3.String(it.fresh('ws')); b = z3.String(it.fresh('w2'))
        nonws = z3.Plus(z3.Intersect(z3.AllChar(z3.ReSort(S)), z3.Complement(ws)))
        if it.decide(z3.InRe(t.t, nonws)): 
            return ListV(items=[t])
        it.assume(lt.t == z3.Concat(a, m, b))
        it.assume(z3.InRe(a, nonws)); it.assume(z3.InRe(m, z3.Plus(ws)))
        it.assume(z3.Length(b) > 0)
        it.assume(z3.InRe(z3.SubString(b, 0, 1), nonws))
        return ListV(items=[StrV(a), StrV(b)])
    # general split: a list that is a pure function of the text (content otherwise unconstrained, except joins back)
    nm = 'ws' if sep is None else None
    seplit = strval('') if sep is None else lift(sep)
    mxt = lift(mx)
    cnt = pure(it, f'py_{name}_n' + (nm or ''), [s, seplit, mxt], I)
    f = z3.Function(f'py_{name}' + (nm or ''), S, S, I, z3.ArraySort(I, S))
    arr = f(s, seplit, mxt)
    it.assume(cnt >= (0 if sep is None else 1))
    l = ListV(n=cnt, elemT=StrT, leaves=[arr])
    if isinstance(sep, str) and isinstance(mx, int) and mx == -1:
        j = join_rec(it, sep, l, cnt, False)
        it.assume(j.t == s)
        i = z3.FreshConst(I, 'sp')
        it.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.Not(z3.Contains(z3.Select(arr, i), strval(sep)))), patterns=[z3.Select(arr, i)]))
        it.assume((cnt == 1) == z3.Not(z3.Contains(s, strval(sep))))
        it.assume(z3.Implies(cnt == 1, z3.Select(arr, 0) == s))
    return l


def list_method(it, o, name, args, kwargs):
    if isinstance(o, list):
        if name in ('append', 'extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'clear'): raise Unsupported('mutation of an object of the loaded program')
        o = ListV(items=list(o))
    if name == 'append': list_append(it, o, args[0]); return None
    if name == 'extend': list_extend(it, o, args[0]); return None
    if name == 'copy': return o.copy()
    if name == 'clear': it.mutable(o); o.items = []; o.n = o.leaves = o.elemT = None; write_back(it, o); return None
    if name == 'pop':
        it.mutable(o)
        if o.items is not None:
            i = args[0] if args else -1
            if not isinstance(i, int): raise Unsupported('pop at a symbolic index')
            if not o.items or not -len(o.items) <= i < len(o.items): raise PyRaise(IndexError, ('pop',))
            r = o.items.pop(i); write_back(it, o); return r
        if not args or isinstance(args[0], int) and args[0] == -1:
            if not it.decide(o.n > 0): raise PyRaise(IndexError, ('pop from empty list',))
            r = o.get(o.n - 1); o.n = o.n - 1; write_back(it, o); return r
        t = norm_index(it, args[0], o.n)
        r = o.get(t); list_remove_at(o, t); write_back(it, o); return r
    if name == 'insert':
        it.mutable(o)
        if o.items is not None and isinstance(args[0], int): o.items.insert(args[0], args[1]); write_back(it, o); return None
        if o.items is not None: o.assign(to_symbolic(o))
        t = IntT.pack(args[0])[0]
        t = z3.If(t < 0, z3.If(t + o.n < 0, z3.IntVal(0), t + o.n), z3.If(t > o.n, o.n, t))
        if ip.join(o.elemT, typeof(args[1])) != o.elemT: widen_container(o, ip.join(o.elemT, typeof(args[1])))
        i = z3.FreshConst(I, 'in')
        o.leaves = [z3.Lambda([i], z3.If(i < t, z3.Select(a, i), z3.If(i == t, x, z3.Select(a, i - 1)))) for a, x in zip(o.leaves, o.elemT.pack(args[1]))]
        o.n = o.n + 1; write_back(it, o); return None
    if name == 'index' and len(args) == 1:
        if o.items is not None:
            for i, x in enumerate(o.items):
                if it.truth(it.mkbool(it.eq_term(x, args[0]))): return i
            raise PyRaise(ValueError, ('not in list',))
        if not it.decide(contains(it, o, args[0])): raise PyRaise(ValueError, ('not in list',))
        r = z3.Int(it.fresh('ix'))
        it.assume(z3.And(0 <= r, r < o.n)); 
        it.assume(lift_b(it.eq_term(o.get(r), args[0])))
        j = z3.FreshConst(I, 'ixj')
        it.term_mode += 1
        e = it.eq_term(o.get(j), args[0]); it.term_mode -= 1
        it.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r), z3.Not(lift_b(e)))))
        return IntV(r)
    if name == 'count' and len(args) == 1 and o.items is not None:
        n = 0
        for x in o.items:
            if it.truth(it.mkbool(it.eq_term(x, args[0]))): n += 1
        return n
    if name == 'remove' and o.items is not None:
        it.mutable(o)
        for i, x in enumerate(o.items):
            if it.truth(it.mkbool(it.eq_term(x, args[0]))): del o.items[i]; write_back(it, o); return None
        raise PyRaise(ValueError, ('not in list',))
    if name == 'reverse':
        it.mutable(o)
        if o.items is not None: o.items.reverse()
        else:
            i = z3.FreshConst(I, 'rv'); n = o.n
            o.leaves = [z3.Lambda([i], z3.Select(a, n - 1 - i)) for a in o.leaves]
        write_back(it, o); return None
    if name == 'sort':
        it.mutable(o)
        r = sorted_(it, o, **kwargs); o.assign(r); write_back(it, o); return None
    if name == '__len__': return length(it, o)
    raise Unsupported(f'list.{name}')

def lift_b(t): return z3.BoolVal(t) if isinstance(t, bool) else t


def sorted_(it, l, key=None, reverse=False):
    items = it.concrete_items(l)
    if items is not None and all(deep_native(x) for x in items) and key is None and reverse in (True, False):
        return ListV(items=sorted(items, reverse=reverse))
    if items is not None and len(items) <= 1: return ListV(items=list(items))
    if items is None and key is None and reverse is False:
        # a list whose items (or their first components) ascend strictly is its own sorted list: an obligation of its own
        i = z3.FreshConst(I, 'i')
        def rank(j):
            v = l.get(j)
            if isinstance(v, tuple) and v: v = v[0]
            if not isinstance(v, (IntV, StrV)): raise Unsupported('sorted() of a list of this type')
            return v.t
        t = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i + 1 < l.n), rank(i) < rank(i + 1)))
        it.obligation('sorted-list-ascends', t, getattr(it, 'line', None), 'precondition'); it.assume(t)
        return l.copy()
    if items is not None and len(items) <= 4 and reverse is False:
        # insertion sort with path splits (stable)
        out = []
        for x in items:
            kx = it.call(key, [x], {}) if key else x
            pos = len(out)
            while pos > 0:
                ky = out[pos - 1][0]
                if it.truth(it.mkbool(compare(it, ast.Lt(), kx, ky))): pos -= 1
                else: break
            out.insert(pos, (kx, x))
        return ListV(items=[x for _, x in out])
    raise Unsupported('sort of a symbolic list')


def dict_method(it, o, name, args, kwargs):
    if isinstance(o, dict):
        if name in ('get', 'keys', 'values', 'items', '__contains__') and all(deep_native(a) for a in args):
            r = getattr(o, name)(*args)
            return r if name == 'get' else fromnative(list(r))
        if name in ('pop', 'update', 'setdefault', 'clear', 'popitem'): raise Unsupported('mutation of an object of the loaded program')
        o = DictV(pairs=[[a, b] for a, b in o.items()])
    if name == 'get':
        dflt = args[1] if len(args) > 1 else None
        if o.pairs is not None:
            if it.term_mode:
                c = contains(it, o, args[0])
                if c is False: return dflt
                return it.merge(c, getitem(it, o, args[0]), dflt)
            j = find_key(it, o, args[0])
            return dflt if j is None else o.pairs[j][1]
        c = dom_term(it, o, args[0])
        if it.term_mode:
            if c is False: return dflt
            return it.merge(c, getitem(it, o, args[0]), dflt)
        if it.decide(c): return getitem(it, o, args[0])
        return dflt
    if name == '__contains__': return it.mkbool(contains(it, o, args[0]))
    if name in ('keys', 'values', 'items'):
        if o.pairs is not None:
            return ListV(items=[k if name == 'keys' else v if name == 'values' else (k, v) for k, v in o.pairs])
        if o.order is None:
            if name == 'keys': return SetV(dom=o.dom, keyT=o.keyT)
            raise Unsupported('iteration over an unordered symbolic dict')
        sn = o.copy()
        def item(k):
            kt = z3.Select(sn.order, k); kv = key_value(sn.keyT, kt)
            return kv if name == 'keys' else it.dict_at(sn, kt) if name == 'values' else (kv, it.dict_at(sn, kt))
        return SymIter(o.size, item, (o,))
    if name == 'copy': return o.copy()
    if name == 'setdefault':
        k = args[0]; d = args[1] if len(args) > 1 else None
        c = contains(it, o, k)
        if not it.decide(c): dict_set(it, o, k, d)
        return getitem(it, o, k)
    if name == 'pop':
        k = args[0]
        if not it.decide(contains(it, o, k)):
            if len(args) > 1: return args[1]
            raise PyRaise(KeyError, (k,))
        v = getitem(it, o, k); delitem(it, o, k); return v
    if name == 'update':
        src = asdict(args[0])
        if src.pairs is None: raise Unsupported('update with a symbolic dict')
        for a, b in src.pairs: dict_set(it, o, a, b)
        return None
    if name == 'clear':
        it.mutable(o); o.pairs = []; o.dom = o.leaves = None; write_back(it, o); return None
    raise Unsupported(f'dict.{name}')


def set_method(it, o, name, args, kwargs):
    if isinstance(o, (set, frozenset)):
        if name in ('add', 'discard', 'remove', 'update', 'pop', 'clear'): raise Unsupported('mutation of an object of the loaded program')
        o = SetV(items=list(o))
    if name == 'add': set_add(it, o, args[0]); return None
    if name == 'copy': return o.copy()
    if name in ('discard', 'remove'):
        it.mutable(o)
        if o.items is not None:
            for i, x in enumerate(o.items):
                if it.truth(it.mkbool(it.eq_term(x, args[0]))): del o.items[i]; write_back(it, o); return None
            if name == 'remove': raise PyRaise(KeyError, (args[0],))
            return None
        c = dom_term(it, o, args[0])
        if name == 'remove' and not it.decide(c): raise PyRaise(KeyError, (args[0],))
        o.dom = z3.Store(o.dom, key_term(o.keyT, args[0]), z3.BoolVal(False)); write_back(it, o); return None
    if name == 'update':
        items = it.concrete_items(args[0])
        if items is None: raise Unsupported('set.update')
        for x in items: set_add(it, o, x)
        return None
    raise Unsupported(f'set.{name}')


def match_group(it, m, i):
    if isinstance(i, int) and i < len(m.groups): return m.groups[i]
    raise PyRaise(IndexError, ('no such group',))

def match_method(it, m, name, args):
    if name == 'group':
        if not args: return m.groups[0]
        if len(args) == 1: return match_group(it, m, args[0])
        return tuple(match_group(it, m, a) for a in args)
    if name == 'groups': return tuple(m.groups[1:])
    if name in ('start', 'end') and m.starts is not None:
        i = args[0] if args else 0
        if not isinstance(i, int) or i >= len(m.starts): raise Unsupported('position of a group')
        return (m.starts if name == 'start' else m.ends)[i]
    raise Unsupported(f'match.{name}')


# ------------------------------------------------------------------------------------------------ builtin calls
def length(it, v):
    v = it.force(v)
    if isinstance(v, UnionV): return it.over_union(v, lambda a: kind(a) in ('list', 'str', 'dict', 'tuple', 'set', 'obj'), lambda a: length(it, a))
    if isinstance(v, (str, tuple, list, dict, set, frozenset, bytes, range)): return len(v)
    if isinstance(v, StrV): return IntV(z3.Length(v.t))
    if isinstance(v, HomV):
        if all(len(x) == 1 for x in v.special.values()): return IntV(z3.Length(v.base))
        return IntV(z3.Length(it.hom_term(v).t))
    if isinstance(v, GenV): raise PyRaise(TypeError, ('len of generator',))
    if isinstance(v, ListV): return len(v.items) if v.items is not None else IntV(v.n)
    if isinstance(v, DictV):
        if v.pairs is not None: return len(v.pairs)
        if v.size is None: raise Unsupported('dict size')
        return IntV(v.size)
    if isinstance(v, SetV):
        if v.items is not None: return len(v.items)
        raise Unsupported('set size')
    if isinstance(v, ObjV):
        f = class_attr(v.cls, '__len__')
        if isinstance(f, types.FunctionType): return it.call_function(f, [v], {})
    if isinstance(v, SymRange): return IntV(it.range_len(v))
    if isinstance(v, OpaqueV):
        t = z3.Int(it.fresh('olen')); it.assume(t >= 0); return IntV(t)
    if v is None or kind(v) in ('int', 'bool') or isinstance(v, ObjV): raise PyRaise(TypeError, ('len',))
    if isinstance(v, SymIter): return IntV(v.n)
    raise Unsupported(f'len of {type(v).__name__}')


def isinstance_(it, v, ty):
    v = it.force(v)
    tys = ty if isinstance(ty, tuple) else (ty,)
    if isinstance(v, UnionV):
        return it.mkbool(it.or_terms([v.tag == i for i, a in enumerate(v.alts) if isinstance_(it, a, ty)]))
    if isinstance(ty, types.UnionType): tys = ty.__args__
    if isinstance(v, OpaqueV): return BoolV(z3.Bool(it.fresh('opaque')))
    pt = pytype(v)
    if pt is not None: return any(t is not None and isinstance(t, type) and issubclass(pt, t) for t in tys)
    return isinstance(v, tuple(tys))


def pytype(v):
    k = kind(v)
    if isinstance(v, ObjV): return v.cls
    if isinstance(v, ExcV): return v.cls
    if isinstance(v, ListV): return list
    if isinstance(v, DictV): return dict
    if isinstance(v, SetV): return set
    if isinstance(v, (StrV, HomV)): return str
    if isinstance(v, BoolV): return bool
    if isinstance(v, IntV): return int
    if isinstance(v, SymRange): return range
    return None


def to_int(it, v, base=None):
    v = it.force(v)
    if isinstance(v, UnionV): v = it.pick(v, lambda a: kind(a) in ('int', 'str'))
    if kind(v) in ('int', 'bool'): return int(v) if isinstance(v, (int, bool)) else IntV(IntT.pack(v)[0])
    if isinstance(v, OpaqueV): return IntV(z3.Int(it.fresh('int')))
    if kind(v) != 'str': raise PyRaise(TypeError, ('int()',))
    if isinstance(v, str):
        try: return int(v) if base is None else int(v, base)
        except ValueError as e: raise PyRaise(ValueError, e.args)
    s = lift(it.hom_term(v))
    if base is not None: raise Unsupported('int with base')
    if it.mode == 'bmc':
        if it.term_mode: return IntV(int_term(s))
        dig = z3.Plus(z3.Range('0', '9'))
        if it.decide(z3.InRe(s, dig)): return IntV(z3.StrToInt(s))
        if it.decide(z3.InRe(s, z3.Concat(z3.Re('-'), dig))): return IntV(-z3.StrToInt(z3.SubString(s, 1, z3.Length(s) - 1)))
        raise PyRaise(ValueError, ('invalid literal for int()',))
    r, ok = py_int(it, s)
    if not it.term_mode and not it.decide(ok): raise PyRaise(ValueError, ('invalid literal for int()',))
    return IntV(r)


DIGITS = z3.Plus(z3.Range('0', '9'))
NEGDIGITS = z3.Concat(z3.Re('-'), z3.Plus(z3.Range('0', '9')))
CANON = z3.Union(z3.Re('0'), z3.Concat(z3.Range('1', '9'), z3.Star(z3.Range('0', '9'))))

def int_fns():
    return z3.Function('py_int', S, I), z3.Function('py_int_ok', S, B), z3.Function('py_str', I, S), z3.Function('py_isdecimal', S, B)

@functools.lru_cache(None)
def int_form():
    """every text int() accepts has this form (beyond ASCII: over-approximated)"""
    ws = z3.Star(z3.Union(z3.Range(strval(chr(9)), strval(chr(13))), z3.Range(strval(chr(28)), strval(' ')), z3.Range(strval(chr(128)), strval(chr(0x2ffff)))))
    d = z3.Union(z3.Range('0', '9'), z3.Range(strval(chr(128)), strval(chr(0x2ffff))))
    return z3.Concat(ws, z3.Option(z3.Union(z3.Re('+'), z3.Re('-'))), d, z3.Star(z3.Union(d, z3.Re('_'))), ws)

def without_first(s):
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_string_value(s.arg(0)) and len(s.arg(0).as_string()) == 1:
        return s.arg(1) if s.num_args() == 2 else z3.Concat(*s.children()[1:])
    return z3.SubString(s, 1, z3.Length(s) - 1)

def minus_facts(f, ok, s):
    w = without_first(s)
    lead = [] if not z3.is_app_of(w, z3.Z3_OP_SEQ_EXTRACT) else [z3.PrefixOf(strval('-'), s)]
    return [z3.Implies(z3.And(*lead, z3.InRe(w, DIGITS)), z3.And(ok(s), f(s) == 0 - f(w)))] if lead or s.arg(0).as_string() == '-' else []
def int_facts(f, ok, st, dec, s):
    """sound facts about int(s) (int is an uninterpreted function of the string otherwise)"""
    d = z3.InRe(s, DIGITS)
    return [z3.Implies(d, z3.And(ok(s), f(s) >= 0)),
            z3.Implies(z3.InRe(s, NEGDIGITS), z3.And(ok(s), f(s) <= 0)),
            *minus_facts(f, ok, s),
            z3.Implies(z3.And(d, z3.Length(s) <= 3), f(s) <= z3.If(z3.Length(s) == 1, 9, z3.If(z3.Length(s) == 2, 99, 999))),
            z3.Implies(z3.InRe(s, CANON), st(f(s)) == s),
            z3.Implies(ok(s), z3.InRe(s, int_form())),
            z3.Implies(dec(s), ok(s))]

def str_facts(f, ok, st, n):
    r = st(n)
    return [f(r) == n, ok(r), (n >= 0) == z3.InRe(r, CANON), z3.Implies(n < 0, z3.InRe(r, NEGDIGITS)),
            z3.Implies(n >= 0, z3.And((n <= 9) == (z3.Length(r) == 1), (n <= 99) == (z3.Length(r) <= 2), (n <= 999) == (z3.Length(r) <= 3)))]

def int_literals(it):
    f, ok, st, dec = int_fns()
    for x in sorted(DIGIT_LITERALS):
        if ('lit', x) in it.unfolded: continue
        it.unfolded.add(('lit', x))
        it.assume(z3.And(f(z3.StringVal(x)) == int(x), ok(z3.StringVal(x)), st(z3.IntVal(int(x))) == z3.StringVal(str(int(x)))))

def int_global(it):
    if ('intglobal',) in it.unfolded: return
    it.unfolded.add(('intglobal',))
    f, ok, st, dec = int_fns()
    s, n = z3.Const('gi_s', S), z3.Const('gi_n', I)
    it.assume(z3.ForAll([s], z3.And(z3.Implies(z3.InRe(s, DIGITS), z3.And(ok(s), f(s) >= 0)), z3.Implies(z3.InRe(s, CANON), st(f(s)) == s)), patterns=[f(s)]))
    it.assume(z3.ForAll([n], z3.And(f(st(n)) == n, (n >= 0) == z3.InRe(st(n), CANON)), patterns=[st(n)]))

def py_int(it, s):
    f, ok, st, dec = int_fns()
    int_literals(it)
    if it.in_binder: int_global(it)
    elif ('int', s.get_id()) not in it.unfolded:
        it.unfolded.add(('int', s.get_id())); it.keep.append(s)
        for x in int_facts(f, ok, st, dec, s): it.assume(x)
    return f(s), ok(s)

def py_str(it, n):
    if it.mode == 'bmc': return z3.If(n >= 0, z3.IntToStr(n), z3.Concat(z3.StringVal('-'), z3.IntToStr(-n)))
    f, ok, st, dec = int_fns()
    int_literals(it)
    if it.in_binder: int_global(it)
    elif ('str', n.get_id()) not in it.unfolded:
        it.unfolded.add(('str', n.get_id())); it.keep.append(n)
        for x in str_facts(f, ok, st, n): it.assume(x)
    return st(n)

def int_term(s):
    neg = z3.PrefixOf(strval('-'), s)
    return z3.If(neg, -z3.StrToInt(z3.SubString(s, 1, z3.Length(s) - 1)), z3.StrToInt(s))


def call(it, fn, args, kwargs):
    """call of a non-interpreted callable"""
    if id(fn) in it.diag: return None
    if id(fn) in it.extra_models: return it.extra_models[id(fn)](it, args, kwargs)
    if isinstance(fn, spec.RecDef): return rec_apply(it, fn, args)
    if isinstance(fn, spec.PureFn): return pure_apply(it, fn, args)
    if isinstance(fn, type) and issubclass(fn, BaseException): return ExcV(fn, tuple(args))
    if isinstance(fn, type) and fn.__module__.startswith(('BibleOrgSys', 'contracts.')) and not issubclass(fn, (list, dict, str, int, tuple)):
        return it.instantiate(fn, args, kwargs)
    if fn is len: return length(it, args[0])
    if fn is isinstance: return isinstance_(it, args[0], args[1])
    if fn is hasattr:
        o = it.force(args[0])
        if isinstance(o, ObjV): return args[1] in o.fields or class_attr(o.cls, args[1]) is not None
        if deep_native(o): return hasattr(o, args[1])
        raise Unsupported('hasattr')
    if fn is getattr:
        try: return it.getattr(args[0], args[1])
        except PyRaise as e:
            if e.cls is AttributeError and len(args) > 2: return args[2]
            raise
    if fn is setattr: it.setattr(args[0], args[1], args[2]); return None
    if fn is type:
        v = it.force(args[0]); p = pytype(v)
        return p if p is not None else type(v)
    if fn is int: return to_int(it, args[0], *(args[1:] or ([kwargs['base']] if 'base' in kwargs else []))) if args else 0
    if fn is str:
        if not args: return ''
        return it.to_str(it.force(args[0]))
    if fn is repr:
        v = it.force(args[0])
        if deep_native(v): return repr(v)
        return StrV(z3.String(it.fresh('repr')))
    if fn is bool: return it.mkbool(it.truth_term(args[0])) if args else False
    if fn is range:
        a = [it.force(x) for x in args]
        for x in a:
            if kind(x) not in ('int', 'bool'): raise PyRaise(TypeError, ('range',))
        if all(isinstance(x, int) for x in a): return range(*a)
        t = [IntT.pack(x)[0] for x in a]
        st = a[2] if len(a) > 2 else 1
        return SymRange(z3.IntVal(0) if len(a) == 1 else t[0], t[0] if len(a) == 1 else t[1], st)
    if fn is enumerate:
        st = args[1] if len(args) > 1 else kwargs.get('start', 0)
        items = it.concrete_items(args[0])
        if items is not None:
            return ListV(items=[(binop(it, ast.Add(), st, i), x) for i, x in enumerate(items)])
        si = it.sym_iter(args[0]); s0 = IntT.pack(st)[0]
        return SymIter(si.n, lambda k: (IntV(z3.simplify(k + s0)), si.item(k)), si.src)
    if fn is zip:
        its = [it.concrete_items(a) for a in args]
        if all(x is not None for x in its): return ListV(items=[tuple(t) for t in zip(*its)])
        sis = [it.sym_iter(a) if x is None else None for a, x in zip(args, its)]
        for j, x in enumerate(its):
            if x is not None:
                l = to_symbolic(ListV(items=list(x))) if x else ListV(items=[]); 
                sis[j] = it.sym_iter(l)
        n = sis[0].n
        for s in sis[1:]: n = z3.If(s.n < n, s.n, n)
        return SymIter(z3.simplify(n), lambda k: tuple(s.item(k) for s in sis), tuple(o for s in sis for o in s.src))
    if fn is reversed:
        items = it.concrete_items(args[0])
        if items is not None: return ListV(items=list(reversed(items)))
        si = it.sym_iter(args[0])
        return SymIter(si.n, lambda k: si.item(si.n - 1 - k), si.src)
    if fn is list or fn is tuple:
        if not args: return ListV(items=[]) if fn is list else ()
        a = it.force(args[0])
        items = it.concrete_items(a)
        if items is not None: return ListV(items=items) if fn is list else tuple(items)
        if isinstance(a, GenV): a = a.lst
        if isinstance(a, ListV): r = a.copy(); r.parent = None; return r
        si = it.sym_iter(a)
        i = z3.FreshConst(I, 'li')
        e = si.item(i); T_ = typeof(e)
        return ListV(n=si.n, elemT=T_, leaves=[z3.Lambda([i], x) for x in T_.pack(e)])
    if fn is dict:
        if not args and not kwargs: return DictV(pairs=[])
        if args and isinstance(it.force(args[0]), DictV): return it.force(args[0]).copy()
        if args:
            items = it.concrete_items(args[0])
            if items is None: raise Unsupported('dict(symbolic)')
            d = DictV(pairs=[])
            for x in items:
                k, v = it.unpack_seq(x, 2); dict_set(it, d, k, v)
            return d
        return DictV(pairs=[[k, v] for k, v in kwargs.items()])
    if fn is set or fn is frozenset:
        s = SetV(items=[])
        if args:
            items = it.concrete_items(args[0])
            if items is None:
                a = it.force(args[0]); a = a.lst if isinstance(a, GenV) else a
                if isinstance(a, ListV):
                    k = z3.FreshConst(key_sort(a.elemT), 'se'); i = z3.FreshConst(I, 'si')
                    dom = z3.Lambda([k], z3.Exists([i], z3.And(0 <= i, i < a.n, key_term(a.elemT, a.get(i)) == k)))
                    return SetV(dom=dom, keyT=a.elemT)
                raise Unsupported('set(symbolic)')
            for x in items: set_add(it, s, x)
        return s
    if fn is sorted: return sorted_(it, args[0], **kwargs)
    if fn in (min, max):
        items = list(args) if len(args) > 1 else it.concrete_items(args[0])
        if items is None or kwargs: raise Unsupported('min/max of a symbolic list')
        if not items: raise PyRaise(ValueError, ('empty',))
        r = it.force(items[0])
        for x in items[1:]:
            x = it.force(x)
            c = compare(it, ast.Lt() if fn is min else ast.Gt(), x, r)
            r = it.merge(c, x, r) if isinstance(c, bool) or kind(r) == 'int' else (x if it.decide(c) else r)
        return r
    if fn is sum: return sum_(it, args)
    if fn in (any, all):
        items = it.concrete_items(args[0])
        if items is not None:
            if it.term_mode:
                ts = [it.truth_term(x) for x in items]
                return it.mkbool(it.or_terms(ts) if fn is any else it.and_terms(ts))
            for x in items:
                if it.truth(x) == (fn is any): return fn is any
            return fn is not any
        l = args[0].lst if isinstance(args[0], GenV) else args[0]
        if isinstance(l, ListV):
            i = z3.FreshConst(I, 'q')
            it.term_mode += 1
            try: t = lift_b(it.truth_term(l.get(i)))
            finally: it.term_mode -= 1
            if fn is any: return BoolV(z3.Exists([i], z3.And(0 <= i, i < l.n, t)))
            return BoolV(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n), t)))
        raise Unsupported('any/all')
    if fn is abs:
        v = it.force(args[0])
        if isinstance(v, int): return abs(v)
        return IntV(z3.If(v.t < 0, -v.t, v.t))
    if fn is divmod:
        return (binop(it, ast.FloorDiv(), args[0], args[1]), binop(it, ast.Mod(), args[0], args[1]))
    if fn is ord:
        v = it.force(args[0])
        if isinstance(v, str): return ord(v)
        return IntV(z3.StrToCode(v.t))
    if fn is chr:
        v = it.force(args[0])
        if isinstance(v, int): return chr(v)
        return StrV(z3.StrFromCode(v.t))
    if fn is hash:
        return hash_(it, it.force(args[0]))
    if fn is iter: return args[0]
    if fn is map:
        items = it.concrete_items(args[1])
        if items is not None and len(args) == 2: return ListV(items=[it.call(args[0], [x], {}) for x in items])
        raise Unsupported('map')
    if fn is callable: return isinstance(args[0], (Closure, BoundM, MethodOf, types.FunctionType, type))
    if fn is object: return ObjV(object, {})
    if fn is super: raise Unsupported('super')
    if fn is next:
        raise Unsupported('next')
    if fn is id: return z3.Int(it.fresh('id')) and IntV(z3.Int(it.fresh('id')))
    if isinstance(fn, types.BuiltinMethodType) and isinstance(getattr(fn, '__self__', None), type) and fn.__self__ in (dict, str) and fn.__name__ in ('fromkeys', 'maketrans'):
        a = [tonative(x) for x in args]
        return fromnative(fn(*a)) if fn.__name__ == 'fromkeys' else fn(*a)
    # method of a live built-in object, e.g. a compiled pattern's bound method or 'str'.join
    if isinstance(fn, types.BuiltinMethodType) and not isinstance(fn.__self__, types.ModuleType):
        return method(it, fn.__self__, fn.__name__, args, kwargs)
    if isinstance(fn, (types.MethodDescriptorType,)) :
        return method(it, args[0], fn.__name__, args[1:], kwargs)
    if fn in (_copy.deepcopy, _copy.copy): return ip.snapshot(args[0])
    m = getattr(fn, '__module__', None)
    if m == 're':
        from . import regex
        return regex.module_call(it, fn, args, kwargs)
    # anything else: only with fully known arguments
    try: na = [tonative(x) for x in args]; nk = {k: tonative(v) for k, v in kwargs.items()}
    except Unsupported: raise Unsupported(f'call of {getattr(fn, "__qualname__", fn)!r} with unknown arguments')
    if fn in PURE_NATIVE: 
        try: return fromnative(fn(*na, **nk))
        except Exception as e: raise PyRaise(type(e), e.args)
    raise Unsupported(f'call of {getattr(fn, "__qualname__", fn)!r}')

PURE_NATIVE = {float, bytes, complex, round, ascii, bin, hex, oct, slice, format}


def sum_(it, args):
    items = it.concrete_items(args[0])
    start = args[1] if len(args) > 1 else 0
    if items is not None:
        r = start
        for x in items: r = it.binop_forced(ast.Add(), it.force(r), it.force(x))
        return r
    l = args[0].lst if isinstance(args[0], GenV) else args[0]
    if isinstance(l, ListV) and l.elemT == IntT:
        return binop(it, ast.Add(), sum_rec(it, l, l.n), start)
    raise Unsupported('sum of a symbolic list')

def sum_rec(it, l, k, unfold=True):
    f = z3.Function('py_sum', z3.ArraySort(I, I), I, I)
    arr = strip_stores(l.leaves[0], k)
    r = f(arr, k)
    key = ('sum', r.get_id())
    if unfold and key not in it.unfolded:
        it.unfolded.add(key); it.keep.append(r)
        it.assume(r == z3.If(k <= 0, 0, f(strip_stores(arr, z3.simplify(k - 1)), z3.simplify(k - 1)) + z3.Select(arr, k - 1)))
    return IntV(r)


def hash_(it, v):
    """hash as an uninterpreted function of the value (equal values have equal hashes)"""
    if isinstance(v, ObjV):
        f = class_attr(v.cls, '__hash__')
        if isinstance(f, types.FunctionType): return it.call_function(f, [v], {})
        raise Unsupported('identity hash')
    ts = []
    def flat(x):
        if isinstance(x, tuple):
            for y in x: flat(y)
        elif x is None: ts.append(z3.IntVal(-77))
        else: ts.append(lift(it.hom_term(x)))
    x = v
    flat(x)
    f = z3.Function('py_hash_' + '_'.join(str(t.sort()) for t in ts), *[t.sort() for t in ts], I)
    return IntV(f(*ts))


# ------------------------------------------------------------------------------------------------ specification vocabulary
def _bound(it, v): return IntT.pack(it.force(v) if not it.term_mode else v)[0]

def _quant(it, lo, hi, pred, univ):
    lo_, hi_ = _bound(it, lo), _bound(it, hi)
    slo, shi = z3.simplify(lo_), z3.simplify(hi_)
    if z3.is_int_value(slo) and z3.is_int_value(shi) and shi.as_long() - slo.as_long() <= 12:
        ts = []
        for j in range(slo.as_long(), shi.as_long()):
            ts.append(lift_b(it.truth_term(it_term(it, pred, [j]))))
        if not ts: return univ
        return BoolV(z3.And(*ts) if univ else z3.Or(*ts))
    i = z3.FreshConst(I, 'q')
    t = it_term(it, pred, [IntV(i)], binder=True)
    t = lift_b(it.truth_term(t))
    if univ: return BoolV(z3.ForAll([i], z3.Implies(z3.And(lo_ <= i, i < hi_), t)))
    return BoolV(z3.Exists([i], z3.And(lo_ <= i, i < hi_, t)))

def it_term(it, pred, args, binder=False):
    it.term_mode += 1
    old = getattr(it, 'in_binder', 0)
    if binder: it.in_binder = old + 1
    try: return it.call(pred, args, {})
    except PyRaise: return BoolV(z3.FreshConst(B, 'undef'))
    finally: it.term_mode -= 1; it.in_binder = old

def _forall(it, lo, hi, pred): return _quant(it, lo, hi, pred, True)
def _exists(it, lo, hi, pred): return _quant(it, lo, hi, pred, False)

def _forall_keys(it, d, pred, univ=True):
    if isinstance(d, UnionV): d = it.pick(d, lambda a: kind(a) in ('dict', 'set'))
    items = None
    if isinstance(d, DictV) and d.pairs is not None: items = [k for k, _ in d.pairs]
    elif isinstance(d, SetV) and d.items is not None: items = d.items
    elif isinstance(d, (dict, set, frozenset)): items = list(d)
    if items is not None:
        ts = [it.truth_term(it_term(it, pred, [k])) for k in items]
        return it.mkbool(it.and_terms(ts) if univ else it.or_terms(ts))
    k = z3.FreshConst(key_sort(d.keyT), 'qk')
    t = lift_b(it.truth_term(it_term(it, pred, [key_value(d.keyT, k)], binder=True)))
    g = z3.Select(d.dom, k)
    if univ:
        pats = [g] if z3.is_const(d.dom) else []
        return BoolV(z3.ForAll([k], z3.Implies(g, t), patterns=pats) if pats else z3.ForAll([k], z3.Implies(g, t)))
    return BoolV(z3.Exists([k], z3.And(g, t)))

def _exists_key(it, d, pred): return _forall_keys(it, d, pred, False)

def _forall_sort(sort, mk):
    def f(it, pred, domain=None):
        x = z3.FreshConst(sort, 'qs')
        t = lift_b(it.truth_term(it_term(it, pred, [mk(x)], binder=True)))
        return BoolV(z3.ForAll([x], t))
    return f

def _implies(it, a, b):
    ta, tb = it.truth_term(a), it.truth_term(b)
    return it.mkbool(it.or_terms([it.not_term(ta), tb]))
def _iff(it, a, b):
    ta, tb = lift_b(it.truth_term(a)), lift_b(it.truth_term(b))
    return it.mkbool(ta == tb)
def _ite(it, c, a, b):
    return it.merge(it.truth_term(c), a, b)

def _charmap(it, s, table):
    if isinstance(s, str): return spec.charmap(s, table)
    t = lift(it.hom_term(s))
    return HomV(t, dict(table))

def _charmap_prefix(it, s, k, table):
    t = lift(it.hom_term(s))
    return StrV(hom_prefix(it, t, IntT.pack(k)[0], table))

def hom_prefix(it, t, k, table, unfold=True):
    table = {a: b for a, b in table.items() if a != b}
    nm = 'hom_' + '_'.join(f'{ord(a):x}>{b}' for a, b in sorted(table.items()))
    f = z3.Function(nm, S, I, S)
    r = f(t, k)
    key = (nm, t.get_id(), k.get_id())
    if unfold and not it.in_binder and key not in it.unfolded:
        it.unfolded.add(key); it.keep += [t, k]
        c = z3.SubString(t, k - 1, 1)
        img = c
        for a, b in table.items(): img = z3.If(c == strval(a), strval(b), img)
        it.assume(r == z3.If(k <= 0, strval(''), z3.Concat(f(t, k - 1), img)))
    return r


def _is_digits(it, s):
    if isinstance(s, UnionV): s = it.pick(s, lambda a: kind(a) == 'str')
    if isinstance(s, str): return spec.is_digits(s)
    return BoolV(z3.InRe(lift(it.hom_term(s)), z3.Plus(z3.Range('0', '9'))))

def _key_at(it, d, k):
    if isinstance(d, UnionV): d = it.pick(d, lambda a: kind(a) == 'dict')
    d = asdict(d)
    if d.pairs is not None:
        if isinstance(k, int): return d.pairs[k][0]
        if not d.pairs: raise PyRaise(IndexError, ("key_at of an empty dict",))
        d = DictT(join_keys(d), BoolT, True).unpack(DictT(join_keys(d), BoolT, True).pack(DictV(pairs=[[a, True] for a, _ in d.pairs])))
    if d.order is None: raise Unsupported('key_at of an unordered dict')
    return key_value(d.keyT, z3.Select(d.order, IntT.pack(k)[0]))

def join_keys(d): return typeof(d).k

SPECFN = {}
def register(fn, impl): SPECFN[id(fn)] = impl
register(spec.forall, _forall); register(spec.exists, _exists)
register(spec.forall_keys, _forall_keys); register(spec.exists_key, _exists_key)
register(spec.forall_str, _forall_sort(S, StrV)); register(spec.forall_int, _forall_sort(I, IntV))
def _matches(it, s, pattern):
    s = need_str(it, s) if not isinstance(s, str) else s
    if isinstance(s, str): return spec.matches(s, pattern)
    from . import regex
    return BoolV(z3.InRe(lift(it.hom_term(s)), regex.seq_re(list(regex.sp.parse(pattern)))))
register(spec.matches, _matches); register(spec.is_digits, _is_digits); register(spec.key_at, _key_at)
register(spec.charmap, _charmap); register(spec.charmap_prefix, _charmap_prefix)
register(spec.implies, _implies); register(spec.iff, _iff); register(spec.ite, _ite)


def pack_any(it, v):
    """terms of an argument of a recursive specification function"""
    if isinstance(v, HomV): v = it.hom_term(v)
    if isinstance(v, (ListV, DictV, SetV, list, dict, set, GenV)):
        Tv = typeof(v)
        if isinstance(v, DictV) and v.pairs is None:
            return [v.dom] + list(v.leaves) + ([v.order] if v.order is not None else [])
        return Tv.pack(v)
    if isinstance(v, tuple): return [t for x in v for t in pack_any(it, x)]
    if v is None: return [z3.IntVal(-1)]
    if isinstance(v, UnionV): return typeof(v).pack(v)
    if isinstance(v, ObjV): return [t for x in v.fields.values() for t in pack_any(it, x)]
    if isinstance(v, (Closure, types.FunctionType)): return []
    return [lift(v)]


def rec_apply(it, rd, args):
    args = [a if it.term_mode else it.force(a) for a in args]
    if all(deep_native(a) for a in args):
        return fromnative(rd(*args)) if not isinstance(rd.ret, tuple) else rd(*args)
    ts = [t for a in args for t in pack_any(it, a)]
    rs = rd.ret.sorts()
    if rd.opaque and rd in getattr(it.current, 'reveal', ()): return it.call(rd.fn, list(args), {})
    nm = 'spec_' + rd.fn.__module__ + '.' + rd.__name__ + '_' + '_'.join(sort_id(t.sort()) for t in ts)
    fs = [z3.Function(nm + (f'.{i}' if i else ''), *[t.sort() for t in ts], s) for i, s in enumerate(rs)]
    apps = [f(*ts) for f in fs]
    val = rd.ret.unpack(apps)
    if rd.opaque or getattr(it, 'in_binder', 0) and any(mentions_bound(t) for t in ts): return val
    key = (nm, tuple(t.get_id() for t in ts))
    fuel = getattr(it, 'fuel', 1)
    if fuel > 0 and key not in it.unfolded:
        it.unfolded.add(key); it.keep.extend(ts)
        it.fuel = fuel - 1
        it.term_mode += 1
        try: body = it.call(rd.fn, list(args), {})
        finally: it.fuel = fuel; it.term_mode -= 1
        bts = rd.ret.pack(body)
        for a, b in zip(apps, bts): it.assume(a == b)
        for w in rd.ret.wf(val): it.assume(w)
    return val


_mb = {}
def mentions_bound(t):
    i = t.get_id()
    if i in _mb: return _mb[i][0]
    if z3.is_const(t): r = t.decl().name().startswith(('q!', 'qk!', 'qs!', 'qi!')) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else False
    elif z3.is_quantifier(t): r = mentions_bound(t.body())
    elif z3.is_var(t): r = False
    else: r = any(mentions_bound(c) for c in t.children())
    if len(_mb) > 200000: _mb.clear()
    _mb[i] = (r, t)
    return r


def sort_id(s): return str(s).replace(' ', '').replace('(', '_').replace(')', '_').replace(',', '_')


def pure_apply(it, pf, args):
    args = [a if it.term_mode else it.force(a) for a in args]
    if all(deep_native(a) for a in args): return fromnative(pf.native(*args))
    ts = [t for a in args for t in pack_any(it, a)]
    nm = 'pure_' + pf.name + '_' + '_'.join(sort_id(t.sort()) for t in ts)
    apps = [z3.Function(nm + (f'.{i}' if i else ''), *[t.sort() for t in ts], s)(*ts) for i, s in enumerate(pf.ret.sorts())]
    val = pf.ret.unpack(apps)
    it.trusted.add('pure function ' + pf.name)
    if pf.axioms is not None and not getattr(it, 'in_binder', 0):
        key = ('pure', nm, tuple(t.get_id() for t in ts))
        if key not in it.unfolded:
            it.unfolded.add(key); it.keep.extend(ts)
            ax = it.spec_bool(pf.axioms, list(args) + [val])
            it.assume(ax)
    return val

"""Candidate loop invariants: the templates of the contract instantiated on the variables a loop modifies (by type, not
by name), plus a few generic ones. Candidates that are not inductive are discarded; the ones kept are then proved as
obligations in the final run."""
import inspect, itertools
import z3
from .values import *
from . import interp as ip
from .interp import MISSING, PyRaise, kind, FieldsT


class Cand:
    def __init__(self, name, fn, holes, params):
        self.name = name; self.fn = fn; self.holes = holes; self.params = params; self.alive = True


def type_kind(T_):
    if T_ is IntT: return {'int', 'any'}
    if T_ is StrT: return {'str', 'any'}
    if T_ is BoolT: return {'bool', 'any'}
    if isinstance(T_, ListT): return {'list', 'any'}
    if isinstance(T_, DictT): return {'dict', 'any'}
    if isinstance(T_, SetT): return {'set', 'any'}
    if isinstance(T_, UnionT):
        s = {'opt', 'any'}
        for a in T_.alts: s |= {'opt' + x for x in type_kind(a) if x != 'any'}
        return s
    if isinstance(T_, TupleT): return {'tuple', 'any'}
    if isinstance(T_, ObjT): return {'obj', 'any'}
    return {'any'}


def locs_of(info):
    out = []
    for loc, T_ in info.types.items():
        if isinstance(T_, FieldsT):
            for f, t in T_.items(): out.append((('field', loc[1], f), t))
        else: out.append((loc, T_))
    return out


def loc_name(l): return l[1] if len(l) == 2 else f'{l[1]}.{l[2]}'


def generic_templates():
    def counts(x: 'int', x_0: 'entry', k: 'k'): return x == x_0 + k
    def countdown(x: 'int', x_0: 'entry', k: 'k'): return x == x_0 - k
    def ge_entry(x: 'int', x_0: 'entry'): return x >= x_0
    def le_entry(x: 'int', x_0: 'entry'): return x <= x_0
    def len_counts(x: 'list', x_0: 'entry', k: 'k'): return len(x) == len(x_0) + k
    def len_ge(x: 'list', x_0: 'entry'): return len(x) >= len(x_0)
    def le_len(x: 'int', y: 'var:str'): return x <= len(y)
    def le_len_list(x: 'int', y: 'var:list'): return x <= len(y)
    return [le_len, le_len_list, counts, countdown, ge_entry, le_entry, len_counts, len_ge]

GENERIC = generic_templates()
MAXCANDS = 400


def make_cands(it, info, fr, env, byname, n):
    cands = []
    locs = locs_of(info)
    vis = [(('local', nm), typeof_safe(v)) for nm, (e, v) in env.items()]
    for tm in list(getattr(it.current, 'templates', ()) or ()) + GENERIC:
        sig = inspect.signature(tm)
        holes = []
        for p in sig.parameters.values():
            a = p.annotation
            if a is inspect._empty: a = 'k' if p.name == 'k' else 'n' if p.name == 'n' else 'arg'
            holes.append((p.name, a))
        doms = []
        nonhole = True
        for nm, a in holes:
            if a in ('k', 'n', 'arg', 'entry') or a.startswith(('outer', 'depth')): doms.append([None])
            elif a.startswith('var:'): doms.append([l for l, t in vis if a[4:] in type_kind(t)])
            elif a == 'bound': doms.append([('local', x) for x in sorted(info.partial)])
            elif a == 'idx': doms.append([('k',)] + [l for l, t in locs if t is IntT]); nonhole = False
            else: doms.append([l for l, t in locs if a in type_kind(t) or a == 'any']); nonhole = False
        if any(a == 'n' for _, a in holes) and n is None: continue
        if any(a.startswith('depth') and int(a[5:]) != len(it.loop_depth) for _, a in holes): continue
        if any(a.startswith('outer') and int(a[5:] or 0) >= len(it.loop_depth) for _, a in holes): continue
        if nonhole and not getattr(tm, 'global_', False) and holes and not any(a in ('k',) for _, a in holes): 
            pass
        for combo in itertools.product(*doms):
            if len(cands) > MAXCANDS: break
            used = [c for c in combo if c is not None]
            if len(set(used)) != len(used): continue
            hm = {nm: c for (nm, a), c in zip(holes, combo)}
            name = tm.__name__ + '(' + ','.join(f'{nm}={loc_name(c) if c != ("k",) else "k"}' for nm, c in hm.items() if c is not None) + ')'
            cands.append(Cand(name, tm, hm, holes))
    return cands


def typeof_safe(v):
    try:
        if isinstance(v, ip.MaybeUnbound): v = v.value
        return typeof(v)
    except Exception: return OpaqueT()


def value_of(it, loc, env, byname):
    if loc[0] == 'local':
        if loc[1] not in env: return MISSING
        v = env[loc[1]][1]
        return v.value if isinstance(v, ip.MaybeUnbound) else v
    if loc[0] == 'heap': return byname.get(loc[1], MISSING)
    o = byname.get(loc[1], MISSING)
    if o is MISSING: return MISSING
    return o.fields.get(loc[2], MISSING)


def cand_term(it, c, fr, env, byname, k, cx):
    args = []
    for nm, a in c.params:
        if a == 'k': args.append(IntV(k) if not z3.is_int_value(k) else k.as_long())
        elif a == 'n': args.append(IntV(cx['n']))
        elif a.startswith('depth'): args.append(None)
        elif a.startswith('outer'): args.append(IntV(it.loop_depth[int(a[5:] or 0)][0]))
        elif a == 'arg':
            src = it.spec_args
            if nm not in src: return None
            args.append(src[nm])
        elif a == 'entry':
            l = c.holes[nm[:-2]]
            e = cx['entry'].get(l if l[0] != 'field' else ('heap', l[1]), MISSING)
            if e is not MISSING and l[0] == 'field': e = e.fields.get(l[2], MISSING)
            if e is MISSING or isinstance(e, ip.MaybeUnbound): return None
            args.append(e)
        else:
            l = c.holes[nm]
            if a == 'bound':
                v = env[l[1]][1] if l[1] in env else MISSING
                args.append(BoolV(v.cond) if isinstance(v, ip.MaybeUnbound) else v is not MISSING); continue
            if l == ('k',): args.append(IntV(k) if not z3.is_int_value(k) else k.as_long()); continue
            v = value_of(it, l, env, byname)
            if v is MISSING: return None
            if isinstance(v, list): return None
            args.append(v)
    try:
        return it.spec_bool(c.fn, args)
    except (Unsupported, PyRaise, z3.Z3Exception) as e:
        if getattr(it, 'debug', False): print('   cand', c.name, 'not expressible:', e)
        return None

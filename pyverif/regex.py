"""Python regular expressions on symbolic strings. A successful match is modelled by SOME way of splitting the text that the
pattern allows (greediness and left-most choice are not modelled unless they are the only possibility, so every fact proved
holds for the match Python picks); a failed match by the text having no such way."""
import re, functools
import re._parser as sp
import re._constants as sc
import z3
from .values import *
from .values import strval
from . import interp as ip
from .interp import Unsupported, PyRaise, kind, MatchV, deep_native, tonative, fromnative

S = z3.StringSort()
RS = z3.ReSort(S)
MAXCP = 0x2ffff


@functools.lru_cache(None)
def category_ranges(cat):
    pat = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
           sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[cat]
    p = re.compile(pat); out = []
    for o in range(MAXCP + 1):
        if p.match(chr(o)):
            if out and out[-1][1] == o - 1: out[-1][1] = o
            else: out.append([o, o])
    return tuple((a, b) for a, b in out)

def rng(a, b): return z3.Range(strval(chr(a)), strval(chr(b)))
def union(parts): return parts[0] if len(parts) == 1 else z3.Union(*parts)
def concat(parts): return z3.Re(strval('')) if not parts else parts[0] if len(parts) == 1 else z3.Concat(*parts)
def char_not(r): return z3.Intersect(z3.AllChar(RS), z3.Complement(r))
ANYCHARS = lambda: z3.Star(z3.AllChar(RS))

def in_set(items):
    neg = False; parts = []
    for op, av in items:
        if op is sc.NEGATE: neg = True
        elif op is sc.LITERAL: parts.append(rng(av, av))
        elif op is sc.RANGE: parts.append(rng(av[0], min(av[1], MAXCP)))
        elif op is sc.CATEGORY: parts += [rng(a, b) for a, b in category_ranges(av)]
        else: raise Unsupported(f'regex set {op}')
    r = union(parts)
    return char_not(r) if neg else r

def node_re(n):
    op, av = n
    if op is sc.LITERAL: return z3.Re(strval(chr(av)))
    if op is sc.NOT_LITERAL: return char_not(rng(av, av))
    if op is sc.ANY: return char_not(rng(10, 10))
    if op is sc.IN: return in_set(av)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        r = seq_re(sub)
        if hi is sc.MAXREPEAT:
            if lo == 0: return z3.Star(r)
            if lo == 1: return z3.Plus(r)
            return z3.Concat(*([r] * lo), z3.Star(r))
        if (lo, hi) == (0, 1): return z3.Option(r)
        if lo == hi: return concat([r] * lo)
        return z3.Loop(r, lo, hi)
    if op is sc.SUBPATTERN:
        if av[1] or av[2]: raise Unsupported('regex flags')
        return seq_re(av[3])
    if op is sc.BRANCH: return union([seq_re(b) for b in av[1]])
    raise Unsupported(f'regex {op}')
def seq_re(nodes): return concat([node_re(n) for n in nodes])

def has_group(n):
    op, av = n
    if op is sc.SUBPATTERN: return av[0] is not None or any(has_group(x) for x in av[3])
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT): return any(has_group(x) for x in av[2])
    if op is sc.BRANCH: return any(has_group(x) for b in av[1] for x in b)
    return False


def groups_of(n):
    op, av = n
    if op is sc.SUBPATTERN:
        out = [av[0]] if av[0] is not None else []
        for x in av[3]: out += groups_of(x)
        return out
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT): return [g for x in av[2] for g in groups_of(x)]
    if op is sc.BRANCH: return [g for b in av[1] for x in b for g in groups_of(x)]
    return []


def split(it, nodes, groups, pieces):
    """append to pieces the parts of the text the nodes match; fill groups"""
    plain = []
    def flush():
        if not plain: return
        if all(op is sc.LITERAL for op, _ in plain): pieces.append(strval(''.join(chr(a) for _, a in plain)))
        else:
            v = z3.String(it.fresh('re'))
            it.assume(z3.InRe(v, seq_re(plain)))
            pieces.append(v)
        plain.clear()
    for n in nodes:
        if not has_group(n): plain.append(n); continue
        flush()
        op, av = n
        if op is sc.SUBPATTERN:
            if av[1] or av[2]: raise Unsupported('regex flags')
            sub = []
            if av[0] is not None and not any(has_group(x) for x in av[3]):
                v = z3.String(it.fresh('grp'))
                it.assume(z3.InRe(v, seq_re(av[3]))); sub = [v]
            else: split(it, av[3], groups, sub)
            if av[0] is not None: groups[av[0]] = StrV(join(sub))
            pieces.extend(sub)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and tuple(av[:2]) == (0, 1):
            if it.decide(z3.Bool(it.fresh('opt'))): split(it, av[2], groups, pieces)
            else:
                for g in groups_of(n): groups[g] = None
        elif op is sc.BRANCH:
            for g in groups_of(n): groups[g] = None
            for i, b in enumerate(av[1]):
                if i == len(av[1]) - 1 or it.decide(z3.Bool(it.fresh('alt'))):
                    split(it, b, groups, pieces); break
        else: raise Unsupported('group inside a repetition')
    flush()

def join(pieces):
    return strval('') if not pieces else pieces[0] if len(pieces) == 1 else z3.Concat(*pieces)


def greedy_tail(nodes):
    """how many nodes at the end of an open-ended pattern are greedy repetitions of one character class whose choices are
    local: whatever follows them always matches, so each takes as much as it can"""
    k = 0
    for n in reversed(nodes):
        op, av = n
        if op is sc.SUBPATTERN and not av[1] and not av[2] and len(av[3]) == 1: op, av = av[3][0]
        if op is not sc.MAX_REPEAT or len(av[2]) != 1 or av[2][0][0] not in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN): break
        if not (av[1] is sc.MAXREPEAT or tuple(av[:2]) == (0, 1)): break
        k += 1
        if av[0] > 0: break
    return k

def match_symbolic(it, pat, s, how):
    tree = sp.parse(pat.pattern, pat.flags & ~re.UNICODE)
    if pat.flags & ~re.UNICODE: raise Unsupported('regex flags')
    nodes = list(tree)
    start = how != 'search'
    end = how == 'fullmatch'
    newline = False
    while nodes and nodes[0][0] is sc.AT and nodes[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING): nodes.pop(0); start = True
    while nodes and nodes[-1][0] is sc.AT and nodes[-1][1] in (sc.AT_END, sc.AT_END_STRING):
        newline = newline or (nodes[-1][1] is sc.AT_END and not end)
        nodes.pop(); end = True
    body = seq_re(nodes)
    whole = concat(([] if start else [ANYCHARS()]) + [body] + ([z3.Option(z3.Re(strval('\n')))] if end and newline else [] if end else [ANYCHARS()]))
    t = s.t
    if getattr(it.current, 'loose_regex', False):
        cond = z3.Function('matches!' + str(abs(hash((pat.pattern, how)))), S, z3.BoolSort())(t)
    else: cond = z3.InRe(t, whole)
    if not it.decide(cond): return None
    groups = {i: None for i in range(pat.groups + 1)}
    pieces = []
    g = 0 if end else greedy_tail(nodes)
    split(it, nodes[:len(nodes) - g], groups, pieces)
    tail = []
    for op, av in nodes[len(nodes) - g:]:
        grp = None
        if op is sc.SUBPATTERN: grp = av[0]; op, av = av[3][0]
        if av[1] is not sc.MAXREPEAT and av[2][0][0] is sc.LITERAL:
            v = strval(chr(av[2][0][1])) if it.decide(z3.Bool(it.fresh('opt'))) else strval('')
        else: v = z3.String(it.fresh('greedy')); it.assume(z3.InRe(v, node_re((op, av))))
        if grp is not None: groups[grp] = StrV(v)
        tail.append((v, av)); pieces.append(v)
    if g == len(nodes) and all(av[0] == 0 for _, av in tail): start = True      # matches nothing at the very start
    groups[0] = StrV(join(pieces))
    pre = strval('') if start else z3.String(it.fresh('pre'))
    if end and newline: post = strval('\n') if it.decide(z3.Bool(it.fresh('nl'))) else strval('')
    elif end: post = strval('')
    else: post = z3.String(it.fresh('post'))
    it.assume(t == join([pre] + pieces + [post]))
    at = z3.Length(join([pre] + pieces[:len(pieces) - len(tail)]))
    for v, av in tail:
        cls = node_re(av[2][0]); end_ = at + z3.Length(v)
        stop = z3.Or(end_ == z3.Length(t), z3.Not(z3.InRe(z3.SubString(t, end_, 1), cls)))
        it.assume(stop if av[1] is sc.MAXREPEAT else z3.Or(v != strval(''), stop))
        if av[1] is sc.MAXREPEAT:
            i = z3.Int(it.fresh('i')); c = z3.SubString(t, i, 1)
            at = z3.simplify(at)
            it.assume(z3.ForAll([i], z3.Implies(z3.And(at <= i, i < end_), z3.InRe(c, cls)), patterns=[c]))
            it.assume(v == z3.SubString(t, at, z3.Length(v)))
            part = z3.simplify(z3.SubString(t, at, i - at))       # any part that fits and cannot go on is the one taken
            it.assume(z3.ForAll([i], z3.Implies(z3.And(at <= i, i <= z3.Length(t), z3.InRe(part, z3.Star(cls)), z3.Or(i == z3.Length(t), z3.Not(z3.InRe(c, cls)))),
                                                z3.And(part == v, z3.Length(v) == i - at)), patterns=[c]))
        at = end_
    m = MatchV([groups[i] for i in range(pat.groups + 1)], [IntV(z3.Length(pre))], [IntV(z3.Length(pre) + z3.Length(groups[0].t))])
    m.string = s
    return m


def match_native(pat, s, how):
    m = getattr(pat, how)(s)
    if m is None: return None
    n = pat.groups + 1
    r = MatchV([m.group(i) for i in range(n)], [m.start(i) for i in range(n)], [m.end(i) for i in range(n)])
    r.string = s
    return r


def call(it, pat, name, args, kwargs):
    if kwargs: raise Unsupported(f're.{name} options')
    args = [it.force(a) if hasattr(it, 'force') else a for a in args]
    if name in ('search', 'match', 'fullmatch') and len(args) == 1:
        s = args[0]
        if isinstance(s, UnionV): s = it.pick(s, lambda a: kind(a) == 'str')
        if isinstance(s, str): return match_native(pat, s, name)
        if isinstance(s, HomV): s = it.hom_term(s)
        if not isinstance(s, StrV): raise PyRaise(TypeError, ('expected string',))
        return match_symbolic(it, pat, s, name)
    if all(deep_native(a) for a in args) and name in ('sub', 'findall', 'split', 'subn'):
        return fromnative(getattr(pat, name)(*[tonative(a) for a in args]))
    raise Unsupported(f'regex {name} of an unknown string')


def module_call(it, fn, args, kwargs):
    name = fn.__name__
    if name == 'compile' and all(deep_native(a) for a in args) and not kwargs: return re.compile(*[tonative(a) for a in args])
    if name == 'escape' and deep_native(args[0]): return re.escape(args[0])
    p = args[0]
    if not isinstance(p, re.Pattern):
        if not deep_native(p): raise Unsupported('unknown pattern')
        p = re.compile(tonative(p))
    if len(args) > 2 and name in ('search', 'match', 'fullmatch'): raise Unsupported('regex flags')
    return call(it, p, name, args[1:], kwargs)

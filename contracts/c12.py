"""C12: removing and replacing USFM character fields takes exactly the fields asked for, and always ends."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
from BibleOrgSys.Reference.USFM3Markers import removeUSFMCharacterField, replaceUSFMCharacterFields
M = 'BibleOrgSys.Reference.USFM3Markers'
C = 'contracts.c12'
def bare(m): return ' ' not in m and '*' not in m and '\\' not in m
FIELDS = ('\\f ', '\\f*', '\\fr ', '\\ft ', '\\ft*', '\\+nd ', '\\+nd*', '\\', '\\f', ' ', 'text ', 'x', '', '\\\\', '*', '\n')
def some_text(rng): return ''.join(rng.choice(FIELDS) for _ in range(rng.choice((0, 1, 2, 3, 4, 6, 9))))
def world(rng):
    t = some_text(rng)
    return dict(marker=rng.choice(('f', 'f', 'ft', 'fr', '+nd', '')), originalText=t, t=t), [], []

# ---- removal
def opened(m, t): return t.find('\\' + m + ' ')
def after(m, t): return t.find('\\', opened(m, t) + len(m) + 2)
@recdef(StrT)
def to_any(m, t):
    """t without the fields of m, each going to its closing marker (which goes too), the next marker or the end"""
    if opened(m, t) < 0: return t
    if after(m, t) < 0: return to_any(m, t[:opened(m, t)])
    if t[after(m, t):].startswith('\\' + m + '*'): return to_any(m, t[:opened(m, t)] + t[after(m, t) + len(m) + 2:])
    return to_any(m, t[:opened(m, t)] + t[after(m, t):])
def closing(m, t): return t.find('\\' + m + '*', opened(m, t) + len(m) + 2)
@recdef(StrT)
def to_close(m, t):
    """t without the fields of m, each going to its closing marker, up to one that is not closed"""
    return t if opened(m, t) < 0 or closing(m, t) < 0 else to_close(m, t[:opened(m, t)] + t[closing(m, t) + len(m) + 2:])
@recdef(StrT)
def to_next(m, t):
    """t without the fields of m, each going to the next marker or the end, up to one with a marker inside it"""
    if opened(m, t) < 0: return t
    if after(m, t) < 0: return to_next(m, t[:opened(m, t)])
    if t[after(m, t) + 1:after(m, t) + 2] == '+': return t
    return to_next(m, t[:opened(m, t)] + t[after(m, t):])
class _R(Contract):
    world = world
    target = M + ':removeUSFMCharacterField'
    def size(text: 'str'): return len(text)
    measures = [size]
class remove_any(_R):
    """closing not known"""
    args = dict(marker=StrT, originalText=StrT, closedFlag=NoneT)
    def pre(marker): return bare(marker)
    def post(marker, originalText, result): return result == to_any(marker, originalText)
    def post_gone(marker, result): return '\\' + marker + ' ' not in result
    def post_none(marker, originalText, result): return '\\' + marker + ' ' in originalText or result == originalText
    def post_shorter(originalText, result): return len(result) <= len(originalText)
    def inv(t: 'str', marker, originalText): return to_any(marker, t) == to_any(marker, originalText)
    def inv_len(t: 'str', originalText): return len(t) <= len(originalText)
    def inv_ix(t: 'str', x: 'int', marker): return x == opened(marker, t)
    def inv_same(t: 'str', marker, originalText): return t == originalText or '\\' + marker + ' ' in originalText
    templates = [inv, inv_len, inv_ix, inv_same]
class remove_closed(_R):
    """fields that must be closed"""
    args = dict(marker=StrT, originalText=StrT, closedFlag=ConstT(True))
    def pre(marker): return bare(marker)
    def post(marker, originalText, result): return result == to_close(marker, originalText)
    def post_shorter(originalText, result): return len(result) <= len(originalText)
    def inv(t: 'str', marker, originalText): return to_close(marker, t) == to_close(marker, originalText)
    def inv_len(t: 'str', originalText): return len(t) <= len(originalText)
    def inv_ix(t: 'str', x: 'int', marker): return x == opened(marker, t)
    templates = [inv, inv_len, inv_ix]
class remove_open(_R):
    """fields that are not closed"""
    args = dict(marker=StrT, originalText=StrT, closedFlag=ConstT(False))
    def pre(marker): return bare(marker)
    def post(marker, originalText, result): return result == to_next(marker, originalText)
    def post_shorter(originalText, result): return len(result) <= len(originalText)
    def inv(t: 'str', marker, originalText): return to_next(marker, t) == to_next(marker, originalText)
    def inv_len(t: 'str', originalText): return len(t) <= len(originalText)
    def inv_ix(t: 'str', x: 'int', marker): return x == opened(marker, t)
    templates = [inv, inv_len, inv_ix]
class remove_bad(_R):
    """a marker is given without backslash, space or asterisk"""
    args = dict(marker=StrT, originalText=StrT, closedFlag=NoneT)
    def world(rng): return {}, ['\\f', 'f ', 'f*', 'a b', '*', ' ', '\\'], []
    def pre(marker): return not bare(marker)
    raises = {AssertionError: lambda: True}

# ---- replacement
def once(t, m, o, c):
    """one marker: plain and embedded fields get the new opening and closing"""
    return (t.replace('\\' + m + ' ', o).replace('\\' + m + '*', c)).replace('\\+' + m + ' ', o).replace('\\+' + m + '*', c)
@recdef(StrT)
def some_markers(t, ms, o, c, j):
    """the first j markers replaced"""
    return t if j <= 0 else once(some_markers(t, ms, o, c, j - 1), ms[j - 1], o, c)
@recdef(StrT)
def some_sets(t, rs, i):
    """the first i replacements made"""
    return t if i <= 0 else some_markers(some_sets(t, rs, i - 1), rs[i - 1][0], rs[i - 1][1], rs[i - 1][2], len(rs[i - 1][0]))
RT = ListT(TupleT(ListT(StrT), StrT, StrT))
def rworld(rng):
    ms = ('f', 'nd', 'add', 'wj', 'ft', '+nd', 'n')
    return dict(replacements=[([rng.choice(ms) for _ in range(rng.choice((0, 1, 2, 3)))], rng.choice(('<b>', '', '\\nd ', ' ')), rng.choice(('</b>', '', '\\nd*', 'x'))) for _ in range(rng.choice((0, 1, 2, 3)))],
                originalText=''.join(rng.choice(('\\nd ', '\\nd*', '\\+nd ', '\\+nd*', '\\add ', '\\add*', 'text', '\\', ' ', '\\n ', '\\f ', '\\ft ', '\\wj ')) for _ in range(rng.choice((0, 2, 4, 7))))), [], []
class replace_fields(Contract):
    """every opening and closing marker asked for is replaced, in the order asked for, and nothing else"""
    world = rworld
    target = M + ':replaceUSFMCharacterFields'
    args = dict(replacements=RT, originalText=StrT)
    def pre(replacements): return forall(0, len(replacements), lambda i: forall(0, len(replacements[i][0]), lambda j: bare(replacements[i][0][j])))
    def post(replacements, originalText, result): return result == some_sets(originalText, replacements, len(replacements))
    def outer(t: 'str', replacements, originalText, k: 'k', d: 'depth0'): return t == some_sets(originalText, replacements, k)
    def inner(t: 'str', replacements, originalText, i: 'outer0', k: 'k'):
        return t == some_markers(some_sets(originalText, replacements, i), replacements[i][0], replacements[i][1], replacements[i][2], k)
    templates = [outer, inner]
class replace_bad(Contract):
    """markers are given without backslash, space or asterisk"""
    def world(rng): return {}, ['\\nd', 'nd ', 'nd*', ' '], []
    target = C + ':replace_one'
    args = dict(m=StrT, o=StrT, c=StrT, t=StrT)
    def pre(m): return not bare(m)
    raises = {AssertionError: lambda: True}
class replace_none(Contract):
    """a text without markers stays as it is"""
    world = rworld
    target = C + ':replace_one'
    args = dict(m=StrT, o=StrT, c=StrT, t=StrT)
    def world(rng): return dict(m=rng.choice(('nd', '', 'n')), t=rng.choice(('', 'text', 'n d', '*', 'nd *'))), [], []
    def pre(m, t): return bare(m) and '\\' not in t
    def post(t, result): return result == t
def replace_one(m, o, c, t): return replaceUSFMCharacterFields([([m], o, c)], t)

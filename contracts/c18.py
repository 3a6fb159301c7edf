"""C18: adjusting a text (edits at positions, endings, accents, punctuation around it) changes exactly the parts asked for."""
from pyverif.spec import *
from pyverif.contract import Contract, Known, fact
from pyverif.values import *
from BibleOrgSys import BibleOrgSysGlobals as G
M = 'BibleOrgSys.BibleOrgSysGlobals'
C = 'contracts.c18'

# ---- edits at positions
ADJ = ListT(TupleT(IntT, StrT, StrT))
def end(a, k): return 0 if k <= 0 else a[k - 1][0] + len(a[k - 1][1])
@recdef(StrT)
def edited(t, a, k):
    """the text up to the end of edit k, with the first k edits made (each at its place in the original text)"""
    return '' if k <= 0 else edited(t, a, k - 1) + t[end(a, k - 1):a[k - 1][0]] + a[k - 1][2]
def fits_text(t, a):
    """each edit names the text there, and begins after the end of the one before"""
    return forall(0, len(a), lambda i: 0 <= a[i][0] and a[i][0] + len(a[i][1]) <= len(t) and t[a[i][0]:a[i][0] + len(a[i][1])] == a[i][1])
def in_order(a): return forall(0, len(a) - 1, lambda i: a[i][0] < a[i + 1][0] and a[i][0] + len(a[i][1]) <= a[i + 1][0])
def adj_world(rng):
    t = ''.join(rng.choice('abc de') for _ in range(rng.choice((0, 1, 3, 8, 15)))); at = 0; l = []
    while at <= len(t) and len(l) < 5:
        at += rng.choice((0, 0, 1, 2, 4)); n = rng.choice((0, 1, 1, 2, 3))
        if at + n > len(t): break
        l.append((at, t[at:at + n], rng.choice(('', 'X', 'YY', t[at:at + n], 'ZZZZ')))); at += max(n, 1)
    return t, l
class adjust(Contract):
    """edits given from first to last"""
    def world(rng):
        t, l = adj_world(rng); return dict(originalText=t, adjustmentList=l), [], []
    target = M + ':applyStringAdjustments'
    args = dict(originalText=StrT, adjustmentList=ADJ)
    def pre(originalText, adjustmentList): return fits_text(originalText, adjustmentList) and in_order(adjustmentList)
    def post(originalText, adjustmentList, result):
        n = len(adjustmentList); return result == edited(originalText, adjustmentList, n) + originalText[end(adjustmentList, n):]
    def inv(t: 'str', o: 'int', originalText, adjustmentList, k: 'k'):
        return t == edited(originalText, adjustmentList, k) + originalText[end(adjustmentList, k):] and o == len(edited(originalText, adjustmentList, k)) - end(adjustmentList, k)
    templates = [inv]
class adjust_none(Contract):
    """no edits, no change"""
    target = M + ':applyStringAdjustments'
    args = dict(originalText=StrT, adjustmentList=ConstT([]))
    def post(originalText, result): return result == originalText
class adjust_any_order(Contract):
    """the order in which the edits are given does not matter"""
    bounded = True
    bound_note = 'seeded texts of up to 15 characters with up to 5 edits, in every order drawn'
    def world(rng):
        t, l = adj_world(rng); m = list(l); rng.shuffle(m); return dict(originalText=t, adjustmentList=m), [], []
    target = M + ':applyStringAdjustments'
    args = dict(originalText=StrT, adjustmentList=ADJ)
    def pre(originalText, adjustmentList): return fits_text(originalText, adjustmentList) and in_order(sorted(adjustmentList))
    def post(originalText, adjustmentList, result):
        a = sorted(adjustmentList); return result == edited(originalText, a, len(a)) + originalText[end(a, len(a)):]
    def post_list(adjustmentList, old): return adjustmentList == old.adjustmentList

# ---- endings
@recdef(StrT)
def without(t, l, k):
    """t after the first k endings, each removed where the text then ends with it"""
    return t if k <= 0 else cut(without(t, l, k - 1), l[k - 1])
def cut(t, e): return t[:len(t) - len(e)] if t.endswith(e) else t
class endings(Contract):
    """each ending is taken off, in turn, where the text then ends with it"""
    def world(rng): return dict(originalText=rng.choice(('', 'abab', 'text \\f*', 'x', 'ab')), endingsList=[rng.choice(('', 'b', 'ab', '\\f*', ' ', 'abab')) for _ in range(rng.choice((0, 1, 2, 3)))]), [], []
    target = M + ':removeStringEndings'
    args = dict(originalText=StrT, endingsList=ListT(StrT))
    def post(originalText, endingsList, result): return result == without(originalText, endingsList, len(endingsList))
    def post_start(originalText, result): return originalText.startswith(result)
    def inv(t: 'str', originalText, endingsList, k: 'k'): return t == without(originalText, endingsList, k) and originalText.startswith(t)
    templates = [inv]

# ---- accents
class accents(Contract):
    """each letter is replaced by the plain letter of the table, and no other character is changed"""
    def world(rng): return {}, list(G.ACCENT_DICT)[:40] + ['Ñandú', 'æ', 'ß'], []
    target = M + ':removeAccents'
    args = dict(someString=StrT)
    hom = True
    def post(someString, result): return result == charmap(someString, G.ACCENT_DICT)
    def _acc(acc: 'str', someString, k: 'idx'): return acc == charmap_prefix(someString, k, G.ACCENT_DICT)
    def _lst(acc: 'list', someString, k: 'idx'): return ''.join(acc) == charmap_prefix(someString, k, G.ACCENT_DICT)
    templates = [_acc, _lst]
@fact
def accent_table():
    """every letter of the accent table goes to the plain letter Unicode gives for it (those with a decomposition), in the same case"""
    import unicodedata
    for c, p in G.ACCENT_DICT.items():
        if len(c) != 1 or not p.isascii(): return (c, p)
        d = unicodedata.normalize('NFD', c)[0]
        if d != c and d != p: return (c, p)
        if c.isupper() != p.isupper(): return (c, p)

# ---- punctuation around a word
LEAD, TRAIL = G.LEADING_WORD_PUNCT_CHARS, G.TRAILING_WORD_PUNCT_CHARS
BOTH = set(LEAD) | set(TRAIL) | set('¿?¡!<>')
class punctuation(Contract):
    """only punctuation is taken off, only from the two ends, and none is left there unless its partner is in the word"""
    bounded = True
    bound_note = 'seeded words with up to 4 marks on each side and marks inside'
    native_s = 12
    def world(rng):
        if rng.random() < .1: return dict(wordToken=rng.choice(list(EXAMPLES))), [], []
        w = ''.join(rng.choice(LEAD) for _ in range(rng.choice((0, 1, 1, 2, 4)))) + rng.choice(('word', '', "don't", 'you(pl)', 'a', 'two words', 'x{y}', 'and … so')) + ''.join(rng.choice(TRAIL) for _ in range(rng.choice((0, 1, 1, 2, 4))))
        return dict(wordToken=w), [], []
    target = M + ':stripWordEndsPunctuation'
    args = dict(wordToken=StrT)
    def post_inside(wordToken, result):
        return any(wordToken[i:i + len(result)] == result and all(c in BOTH for c in wordToken[:i] + wordToken[i + len(result):]) for i in range(len(wordToken) + 1))
    def post_bare(wordToken, result):
        """marks without a partner in the word all go; a word without marks stays"""
        w = wordToken.lstrip(LEAD).rstrip(TRAIL)
        if any(c in BOTH for c in w) or any(G.MATCHING_CHARACTERS.get(c) in wordToken for c in wordToken if c in G.MATCHING_CHARACTERS): return True
        return result == w
    known = [Known('C18-quote-pair', lambda wordToken: wordToken == '‘You will & put & to the test.’”', lambda: dict(wordToken='‘You will & put & to the test.’”'),
                   "stripWordEndsPunctuation leaves the full stop of the docstring's own example inside a matched pair of quotes")]
    def post_examples(wordToken, result): return wordToken not in EXAMPLES or result == EXAMPLES[wordToken]
EXAMPLES = {'“The people who are carrying … {the stones}': 'The people who are carrying … {the stones}', '{the stones}': 'the stones', '‘Lord,’': 'Lord', '‘my Lord,’': 'my Lord',
            '‘You will & put & to the test.’”': 'You will & put & to the test', 'you(pl)': 'you(pl)', 'word': 'word', '': '', '(word': 'word', 'word”': 'word', '(word)': 'word'}

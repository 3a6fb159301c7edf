"""C08: a single verse key gives back the parts it was made from; its text parses back to an equal key; equality, hash and
hash text all mean the same parts."""
from pyverif.spec import *
from pyverif.contract import Contract, fact
from pyverif.values import *
from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey as SVK
from .common import BOOKS
M = 'BibleOrgSys.Reference.VerseReferences'
C = 'contracts.c08'
loose_regex = False

class CodesSet:
    """contract of the loaded book codes as seen by the verse keys: a fixed set of valid book codes (the real look-up is verified under C04)"""
    def __init__(self, valid, osis): self.valid = valid; self.osis = osis
    def __contains__(self, BBB): return BBB in self.valid
    def getOSISAbbreviation(self, BBB): return self.osis[BBB]
CodesSet.TYPE = ObjT(CodesSet, {'valid': SetT(StrT), 'osis': DictT(StrT, StrT)})
codes_override = {('BibleOrgSys.BibleOrgSysGlobals', 'loadedBibleBooksCodes'): lambda args: args['codes']}
ASSUMPTIONS = ['strict checking and debug flags are off (as the library loads)']

KEY = ObjT(SVK, {'BBB': StrT, 'C': StrT, 'V': StrT, 'S': OptT(StrT), 'I': OptT(StrT), 'keyType': StrT, 'ignoreParseErrors': BoolT})
suffix_key = ObjT(SVK, {'BBB': StrT, 'C': StrT, 'V': StrT, 'S': StrT, 'I': NoneT, 'keyType': StrT, 'ignoreParseErrors': BoolT})
index_key = ObjT(SVK, {'BBB': StrT, 'C': StrT, 'V': StrT, 'S': NoneT, 'I': StrT, 'keyType': StrT, 'ignoreParseErrors': BoolT})
def book(b): return matches(b, '[A-PR-XZ][A-EG-VX-Z124][A-WYZ1-6]')
def number(x): return matches(x, '[1-9][0-9]?|1[0-9][0-9]')
def letter(x): return x == '' or x == 'a' or x == 'b' or x == 'c' or x == 'd'
def index(x): return matches(x, '[0-9][0-9]?[0-9]?')
def one_of(k): return (k.S is None) != (k.I is None)
def extra(k): return k.I if k.S is None else k.S
def keytext(b, c, v, x): return b + '_' + c + ':' + v + ('!' + x if x else '')

def some_key(rng):
    x = rng.choice(('', '', 'a', 'b', 'd', '0', '1', '12', '999', '2'))
    k = SVK.__new__(SVK); d = x.isdigit()
    k.__dict__.update(BBB=rng.choice(BOOKS[:3]), C=rng.choice(('1', '2', '12', '119', '-1', '0', '150')), V=rng.choice(('1', '2', '12', '176', '0', '3-4', '2b', '1a2', '12b3')),
                      S=None if d else x, I=x if d else None, keyType='AssignedBCV' + ('I' if d else 'S'), ignoreParseErrors=False)
    return k
def the_codes(): return CodesSet(set(BOOKS), {b: b.title() for b in BOOKS})
def world(rng):
    import copy
    k = some_key(rng); o = copy.copy(k) if rng.random() < .7 else some_key(rng)
    if rng.random() < .6:
        f = rng.choice(('BBB', 'C', 'V', 'SI')); z = some_key(rng)
        if f == 'SI': o.S, o.I = z.S, z.I
        else: setattr(o, f, getattr(z, f))
    n = lambda: rng.choice(('1', '9', '10', '19', '99', '100', '119', '199', '150'))
    if rng.random() < .3: x = rng.choice(('0', '1', '12', '999', '001'))
    else: x = rng.choice(('', '', 'a', 'b', 'c', 'd'))
    b, c, v = rng.choice(BOOKS), n(), n()
    ref = keytext(b, c, v, x)
    if rng.random() < .4:
        i = rng.randrange(len(ref) + 1); ref = ref[:i] + rng.choice(('', '!', '0', '1', 'e', '-', '\n', ' ')) + ref[i + rng.randint(0, 1):]
    return dict(self=k, other=o, a=k, b=o, book_=b, c=c, v=v, x=x, codes=the_codes(), BBB=b, text=ref, referenceString=ref), [c, v, x, '-1', '12b', '1a2'], [0, 1, 2, 3, 4, int(c)]

class _K(Contract):
    world = world
class _C(_K):
    overrides = codes_override

# ---- making a key
class assigned(_C):
    """a key made from parts keeps them: every getter, position and text form shows exactly those parts"""
    target = C + ':make_key'
    args = dict(BBB=StrT, c=StrT, v=StrT, x=StrT, codes=CodesSet.TYPE)
    may_raise = {TypeError: lambda BBB, c, v, x, codes: not (BBB in codes.valid and len(BBB) == 3 and number(c) and number(v) and (letter(x) or index(x)) and ',' not in BBB
                 and '.' not in BBB and ' ' not in BBB and '-' not in BBB and ':' not in BBB)}
def make_key(BBB, c, v, x):
    k = SVK(BBB, c, v, x)
    assert k.getBBB() == BBB and k[0] == BBB
    assert k.getChapterNumber() == c and k.getChapterNumStr() == c and k[1] == c
    assert k.getVerseNumber() == v and k.getVerseNumStr() == v and k[2] == v
    assert k[3] == x and len(k) == 4
    assert (k.S is None) != (k.I is None)
    assert k.getVerseSuffix() == k.S and k.getVerseIndex() == k.I
    assert k.getBCV() == (BBB, c, v) and k.getCV() == (c, v)
    assert k.getBCVS() == (BBB, c, v, k.S) and k.getBCVI() == (BBB, c, v, k.I)
    assert k.getCVS() == (c, v, k.S) and k.getCVI() == (c, v, k.I)
class assigned_kind(_C):
    """an all-digit extra is a verse index, any other a verse suffix"""
    target = C + ':kind_of_key'
    args = dict(BBB=StrT, c=StrT, v=StrT, x=StrT, codes=CodesSet.TYPE)
    def pre(x): return letter(x) or index(x)
    may_raise = {TypeError: lambda: True}
    def post(x, result): return result == index(x)
def kind_of_key(BBB, c, v, x):
    k = SVK(BBB, c, v, x)
    return k.S is None
class assigned_numbers(_C):
    """numbers may be given as integers"""
    def world(rng): return dict(BBB=rng.choice(BOOKS), codes=the_codes()), [], [0, 1, 9, 10, 99, 100, 999]
    target = C + ':make_from_ints'
    args = dict(BBB=StrT, c=IntT, v=IntT, codes=CodesSet.TYPE)
    def pre(c, v): return 0 <= c and c <= 999 and 0 <= v and v <= 999
    may_raise = {TypeError: lambda BBB, codes: not (BBB in codes.valid and matches(BBB, '[A-Z0-9][A-Z0-9][A-Z0-9]'))}
    def post(BBB, c, v, result): return result == BBB + '_' + str(c) + ':' + str(v)
def make_from_ints(BBB, c, v): return SVK(BBB, c, v).getVerseKeyText()

# ---- text forms
class key_text(_K):
    target = M + ':SimpleVerseKey.getVerseKeyText'
    args = dict(self=KEY)
    result = StrT
    def pre(self): return one_of(self)
    def post(self, result): return result == keytext(self.BBB, self.C, self.V, extra(self))
class short_text(_K):
    target = M + ':SimpleVerseKey.getShortText'
    args = dict(self=KEY)
    def pre(self): return one_of(self)
    def post(self, result): return result == self.BBB + ' ' + self.C + ':' + self.V + (self.S if self.I is None else '!' + self.I)
class hash_text(_K):
    target = M + ':SimpleVerseKey.makeHash'
    args = dict(self=KEY)
    def pre(self): return one_of(self)
    def post(self, result): return result == self.BBB + '_' + self.C + ':' + self.V + '!' + extra(self)
class item(_K):
    target = M + ':SimpleVerseKey.__getitem__'
    args = dict(self=KEY, keyIndex=IntT)
    def pre(self): return one_of(self)
    raises = {IndexError: lambda keyIndex: not (0 <= keyIndex and keyIndex <= 3)}
    def post(self, keyIndex, result):
        return keyIndex == 0 and result == self.BBB or keyIndex == 1 and result == self.C or keyIndex == 2 and result == self.V or keyIndex == 3 and result == extra(self)

# ---- equality and hash
def same(a, b): return a.BBB == b.BBB and a.C == b.C and a.V == b.V and a.S == b.S and a.I == b.I
class equal(_K):
    target = M + ':SimpleVerseKey.__eq__'
    args = dict(self=KEY, other=KEY)
    result = BoolT
    def pre(self, other): return one_of(self) and one_of(other)
    def post(self, other, result): return result == same(self, other)
class equal_other(_K):
    target = M + ':SimpleVerseKey.__eq__'
    args = dict(self=KEY, other=OptT(StrT))
    def world(rng): return dict(self=some_key(rng)), [], []
    def post(self, result): return result == False
class unequal(_K):
    target = M + ':SimpleVerseKey.__ne__'
    args = dict(self=KEY, other=KEY)
    def pre(self, other): return one_of(self) and one_of(other)
    def post(self, other, result): return result == (not same(self, other))
class equal_hash(_K):
    """equal keys have equal hashes"""
    target = C + ':hashes'
    args = dict(a=KEY, b=KEY)
    def pre(a, b): return one_of(a) and one_of(b)
    def post(a, b, result): return not same(a, b) or result[0] == result[1]
def hashes(a, b): return hash(a), hash(b)
def proper(k): return book(k.BBB) and number(k.C) and number(k.V) and (k.I is None and k.S is not None and letter(k.S) or k.S is None and k.I is not None and index(k.I))
def separable(k): return len(k.BBB) == 3 and plain(k.BBB) and plain(k.C) and plain(k.V) and (k.I is None) != (k.S is None)
def plain(x): return matches(x, '[^:!]*')
class hash_text_unique(_K):
    """two keys have the same hash text only when all their parts are the same"""
    target = C + ':hash_texts'
    args = dict(a=KEY, b=KEY)
    def pre(a, b): return separable(a) and separable(b)
    def post_different(a, b, result): return result[0] == result[1] or not (a.BBB == b.BBB and a.C == b.C and a.V == b.V and extra(a) == extra(b))
    def post_book(a, b, result): return result[0] != result[1] or not aligned(*result) or a.BBB == b.BBB
    def post_chapter(a, b, result): return result[0] != result[1] or not aligned(*result) or a.C == b.C
    def post_verse(a, b, result): return result[0] != result[1] or not aligned(*result) or a.V == b.V
    def post_extra(a, b, result): return result[0] != result[1] or not aligned(*result) or extra(a) == extra(b)
    def post_aligned(result): return result[0] != result[1] or aligned(*result)
def aligned(x, y): return x.find(':') == y.find(':') and x.find('!') == y.find('!')
def hash_texts(a, b): return a.makeHash(), b.makeHash()

# ---- parsing
class parses(_C):
    """a text in the form of a key is accepted, and the key then has that text"""
    target = C + ':parse_and_show'
    args = dict(BBB=StrT, c=StrT, v=StrT, x=StrT, codes=CodesSet.TYPE)
    def pre(BBB, c, v, x): return book(BBB) and number(c) and number(v) and (letter(x) or index(x))
    def post(BBB, c, v, x, result): return result == keytext(BBB, c, v, x)
def parse_and_show(BBB, c, v, x):
    return SVK(BBB + '_' + c + ':' + v + ('!' + x if x else '')).getVerseKeyText()
class parse_only_keys(_C):
    """no other text is accepted (other than one with a trailing line end or a bare exclamation mark, which are dropped)"""
    target = C + ':parsed_text'
    args = dict(text=StrT, codes=CodesSet.TYPE)
    def post(text, result): return result is None or text == result or text == result + '\n' or text == result + '!' or text == result + '!\n'
def parsed_text(text):
    try: return SVK(text).getVerseKeyText()
    except TypeError: return None
class same_key(_C):
    """the key parsed from the text of a key with a suffix, or with none, equals it"""
    target = C + ':round_trip'
    args = dict(a=suffix_key, codes=CodesSet.TYPE)
    def world(rng):
        k = some_key(rng); k.V = rng.choice(('1', '10', '176')); k.C = rng.choice(('1', '22', '150')); return dict(a=k, codes=the_codes()), [], []
    def pre(a): return proper(a)
class same_index_key(same_key):
    """the key parsed from the text of a key with an index equals it"""
    args = dict(a=index_key, codes=CodesSet.TYPE)
def round_trip(a):
    k = SVK(a.getVerseKeyText())
    assert k.BBB == a.BBB
    assert k.C == a.C
    assert k.V == a.V
    assert k.S == a.S and k.I == a.I
    assert k == a and hash(k) == hash(a)

# ---- numbers
def digit(x): return '0' <= x and x <= '9'
def starts(x, d, rest):
    """x is the digits d followed by rest, which does not continue the number"""
    return (x == d + rest and is_digits(d) and forall(0, len(d), lambda i: digit(x[i])) and
            (rest == '' or matches(x, '[0-9]+[a-z,.:;!-](.|\n)*')) and (rest == '' or matches(rest[0], '[a-z,.:;!-]')))
def number_world(rng):
    k = some_key(rng); d = rng.choice(('0', '1', '12', '176', '1')); rest = rng.choice(('', 'b', 'a2', '-3', 'b3', ',4', '-12'))
    setattr(k, rng.choice('CV'), d + rest)
    k.C, k.V = rng.choice(((d + rest, k.V), (k.C, d + rest), (d + rest, d + rest)))
    return dict(self=k, d=d, rest=rest), [], []
class _Num(_K):
    """the number is the one the digits at the start spell"""
    world = number_world
    args = dict(self=KEY, d=StrT, rest=StrT)
    def post_lead(d, result): return result == int(d)
class chapter_number(_Num):
    target = M + ':SimpleVerseKey.getChapterNumberInt'
    def pre(self, d, rest): return starts(self.C, d, rest)
    def inv_lead(n: 'int', d, k: 'k'): return n == k and k <= len(d)
    def inv_digit(n: 'int', self, d, k: 'k'): return k >= len(d) or digit(self.C[k])
    templates = [inv_lead, inv_digit]
class verse_number(_Num):
    target = M + ':SimpleVerseKey.getVerseNumberInt'
    def pre(self, d, rest): return starts(self.V, d, rest)
    def inv_lead(n: 'int', d, k: 'k'): return n == k and k <= len(d)
    def inv_digit(n: 'int', self, d, k: 'k'): return k >= len(d) or digit(self.V[k])
    templates = [inv_lead, inv_digit]
class chapter_intro(_K):
    """chapter -1 (introduction) is the number -1"""
    target = M + ':SimpleVerseKey.getChapterNumberInt'
    args = dict(self=KEY)
    def pre(self): return self.C == '-1'
    def post(self, result): return result == -1

@fact
def codes_fit():
    """the key text of every book code in the loaded tables parses back"""
    from BibleOrgSys import BibleOrgSysGlobals
    BibleOrgSysGlobals.preloadCommonData()
    bad = [b for b in BibleOrgSysGlobals.loadedBibleBooksCodes if not book(b) or SVK(b + '_1:1').getVerseKeyText() != b + '_1:1']
    return bad[:3] or None

"""C15: looking up chapters and verses in the index of a book returns exactly the lines indexed for them."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
from BibleOrgSys.Internals.InternalBibleIndexes import InternalBibleBookCVIndexEntry as IE, InternalBibleBookCVIndex as CVI
from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleEntryList as EntryList
from .c13 import ENTL, LINE, mk_entry
from .c22 import number_at
M = 'BibleOrgSys.Internals.InternalBibleIndexes'
C = 'contracts.c15'
P = '_InternalBibleBookCVIndex__'

IET = ObjT(IE, {'entryIndex': IntT, 'entryCount': IntT, 'context': ListT(StrT)})
CV = TupleT(StrT, StrT)
IXT = ObjT(CVI, {'workName': StrT, 'BBB': StrT, P + 'indexData': DictT(CV, IET, ordered=True), 'givenBibleEntries': ENTL})
def ix(s): return getattr(s, P + 'indexData')
def lines(s): return s.givenBibleEntries.data
def rep(s):
    """what building an index establishes (C14): each entry is a range of lines, at least one"""
    return forall_keys(ix(s), lambda k: 0 <= ix(s)[k].entryIndex and ix(s)[k].entryCount >= 1 and ix(s)[k].entryIndex + ix(s)[k].entryCount <= len(lines(s)))

def mk_index(rng):
    l = EntryList(); l.data = []
    s = CVI('work', 'GEN'); d = {}; at = 0
    def put(k, n):
        nonlocal at
        if k in d: return
        l.data.extend(mk_entry(rng, False) for _ in range(n)); d[k] = IE(at, n, rng.choice(([], ['chapters'], ['chapters', 'c', 'p']))); at += n
    for v in range(rng.choice((0, 1, 3))): put(('-1', str(v)), 1)
    for c in range(1, rng.choice((2, 3, 4))):
        put((str(c), '0'), rng.choice((1, 2)))
        v = 0
        while v < rng.choice((2, 5, 12)):
            k = rng.choice((0, 0, 0, 1, 2, 3)); v += 1
            if k == 0: put((str(c), str(v)), rng.choice((1, 2, 3)))
            elif k == 1:
                w = v + rng.choice((1, 2)); put((str(c), f'{v}{rng.choice(("", "", "a"))}-{w}{rng.choice(("", "", "b"))}'), rng.choice((1, 2))); v = w
            elif k == 2:
                w = v + rng.choice((1, 2)); put((str(c), ','.join(str(x) for x in range(v, w + 1))), 2); v = w
            else: put((str(c), f'{v}a'), 1); put((str(c), f'{v}b'), 2)
    if not d: put(('1', '0'), 1)
    s.givenBibleEntries = l; setattr(s, P + 'indexData', d)
    return s
def world(rng):
    s = mk_index(rng); d = ix(s); k = rng.choice(list(d))
    e = d[k]
    key = rng.choice((k, k, (k[0], str(rng.randint(0, 13))), (k[0], f'{rng.randint(1, 12)}{rng.choice("abc")}'), ('9', '1')))
    return dict(self=s, CVkey=key, keyStartCVDuple=key, C=rng.choice((k[0], k[0], '-1', '0', '9'))), ['1', '2'], []
def world_e(rng): 
    s = mk_index(rng); d = ix(s); return dict(self=d[rng.choice(list(d))]), [], [0, 1, 2, 3]

# ---- an index entry
class _E(Contract):
    world = world_e
    args = dict(self=IET)
class entry_index(_E):
    target = M + ':InternalBibleBookCVIndexEntry.getEntryIndex'
    result = IntT
    def post(self, result): return result == self.entryIndex
class entry_next(_E):
    target = M + ':InternalBibleBookCVIndexEntry.getNextEntryIndex'
    result = IntT
    def post(self, result): return result == self.entryIndex + self.entryCount
class entry_count(_E):
    target = M + ':InternalBibleBookCVIndexEntry.getEntryCount'
    result = IntT
    def post(self, result): return result == self.entryCount
class entry_context(_E):
    target = M + ':InternalBibleBookCVIndexEntry.getContextList'
    def post(self, result): return result == self.context
class entry_len(_E):
    target = M + ':InternalBibleBookCVIndexEntry.__len__'
    def post(result): return result == 3
class entry_item(_E):
    target = M + ':InternalBibleBookCVIndexEntry.__getitem__'
    args = dict(self=IET, keyIndex=IntT)
    raises = {IndexError: lambda keyIndex: keyIndex < 0 or keyIndex > 2}
    def post(self, keyIndex, result): return keyIndex == 0 and result == self.entryIndex or keyIndex == 1 and result == self.entryCount or keyIndex == 2 and result == self.context
class entry_made(Contract):
    """an entry keeps the range and the context it is made with"""
    target = C + ':make_entry'
    args = dict(i=IntT, n=IntT, context=OptT(ListT(StrT)))
def make_entry(i, n, context):
    e = IE(i, n, context)
    assert e.getEntryIndex() == i and e.getEntryCount() == n and e.getNextEntryIndex() == i + n
    assert e[0] == i and e[1] == n
    if context is None: assert len(e.getContextList()) == 0 and len(e[2]) == 0
    else: assert e.getContextList() == context and e[2] == context

# ---- the index as a mapping
def same(a, b): return a.entryIndex == b.entryIndex and a.entryCount == b.entryCount and a.context == b.context
class _X(Contract):
    world = world
class ix_len(_X):
    target = M + ':InternalBibleBookCVIndex.__len__'
    args = dict(self=IXT)
    def post(self, result): return result == len(ix(self))
class ix_contains(_X):
    target = M + ':InternalBibleBookCVIndex.__contains__'
    args = dict(self=IXT, keyStartCVDuple=CV)
    def post(self, keyStartCVDuple, result): return result == (keyStartCVDuple in ix(self))
class ix_item(_X):
    target = M + ':InternalBibleBookCVIndex.__getitem__'
    args = dict(self=IXT, keyStartCVDuple=CV)
    raises = {KeyError: lambda self, keyStartCVDuple: keyStartCVDuple not in ix(self)}
    def post(self, keyStartCVDuple, result): return same(result, ix(self)[keyStartCVDuple])
class ix_iter(_X):
    """going through the index gives every key once, in order"""
    target = C + ':all_keys'
    args = dict(self=IXT)
    def post(self, result): return len(result) == len(ix(self)) and forall(0, len(result), lambda i: result[i] == key_at(ix(self), i))
    def inv(l: 'list', self, k: 'k'): return len(l) == k and forall(0, k, lambda i: l[i] == key_at(ix(self), i))
    templates = [inv]
def all_keys(self):
    l = []
    for k in self: l.append(k)
    return l
class ix_items(_X):
    """going through the items gives every key with its own entry, in order"""
    target = C + ':all_items'
    args = dict(self=IXT)
    def post(self, result): return len(result) == len(ix(self)) and forall(0, len(result), lambda i: is_item(self, result[i], i))
    def inv(l: 'list', self, k: 'k'): return len(l) == k and forall(0, k, lambda i: is_item(self, l[i], i))
    templates = [inv]
def is_item(s, x, i): return x[0] == key_at(ix(s), i) and same(x[1], ix(s)[x[0]])
def all_items(self):
    l = []
    for x in self.items(): l.append(x)
    return l

# ---- verses
def is_range(s, e, r):
    """r is the list of the lines of entry e"""
    return len(r) == e.entryCount and forall(0, len(r), lambda i: r[i] == lines(s)[e.entryIndex + i])
def copied(x, s, i, k): return len(x) == k and forall(0, k, lambda n: x[n] == lines(s)[i + n])
class _Verse(_X):
    def inv_copy(x: 'list', self, CVkey, k: 'k'): return CVkey in ix(self) and copied(x, self, ix(self)[CVkey].entryIndex, k)
    templates = [inv_copy]
class _Chapter(_X):
    def inv_copy(x: 'list', self, C, k: 'k'): return (C, '0') in ix(self) and copied(x, self, ix(self)[(C, '0')].entryIndex, k)
    templates = [inv_copy]
class verse_strict(_Verse):
    """the lines of a verse are those of its entry; a verse without an entry is refused"""
    target = M + ':InternalBibleBookCVIndex.getVerseEntries'
    args = dict(self=IXT, CVkey=CV, strict=ConstT(True))
    def pre(self): return rep(self)
    raises = {KeyError: lambda self, CVkey: CVkey not in ix(self)}
    def post(self, CVkey, result): return is_range(self, ix(self)[CVkey], result.data)
class verse_lenient(_Verse):
    """the lenient look-up gives the same for a verse that has an entry"""
    target = M + ':InternalBibleBookCVIndex.getVerseEntries'
    args = dict(self=IXT, CVkey=CV, strict=ConstT(False))
    def pre(self, CVkey): return rep(self) and CVkey in ix(self)
    def post(self, CVkey, result): return is_range(self, ix(self)[CVkey], result.data)

# ---- chapters
def ends(s, c):
    """where the lines of chapter c end: where the next chapter begins, or at the end of the book"""
    return ix(s)[(str(int(c) + 1), '0')].entryIndex if (str(int(c) + 1), '0') in ix(s) else len(lines(s))
def between(s, i, j, r): return len(r) == (j - i if j > i else 0) and forall(0, len(r), lambda n: r[n] == lines(s)[i + n])
class chapter(_Chapter):
    target = M + ':InternalBibleBookCVIndex.getChapterEntries'
    args = dict(self=IXT, C=StrT)
    def pre(self, C): return rep(self) and is_digits(C)
    raises = {KeyError: lambda self, C: (C, '0') not in ix(self)}
    def post(self, C, result): return between(self, ix(self)[(C, '0')].entryIndex, ends(self, C), result.data)
class chapter_context(_Chapter):
    target = M + ':InternalBibleBookCVIndex.getChapterEntriesWithContext'
    args = dict(self=IXT, C=StrT)
    def pre(self, C): return rep(self) and is_digits(C)
    raises = {KeyError: lambda self, C: (C, '0') not in ix(self)}
    def post_lines(self, C, result): return between(self, ix(self)[(C, '0')].entryIndex, ends(self, C), result[0].data)
    def post_context(self, C, result): return result[1] == ix(self)[(C, '0')].context
def intro_end(s):
    if ('0', '0') in ix(s): return ix(s)[('0', '0')].entryIndex
    return ix(s)[('1', '0')].entryIndex if ('1', '0') in ix(s) else len(lines(s))
class intro(_Chapter):
    """the introduction ends where the first chapter begins"""
    def world(rng): return dict(self=mk_index(rng)), [], []
    target = M + ':InternalBibleBookCVIndex.getChapterEntries'
    args = dict(self=IXT, C=ConstT('-1'))
    def pre(self): return rep(self)
    raises = {KeyError: lambda self: ('-1', '0') not in ix(self)}
    def post(self, result): return between(self, ix(self)[('-1', '0')].entryIndex, intro_end(self), result.data)
class intro_context(_Chapter):
    """the introduction ends where the first chapter begins"""
    def world(rng): return dict(self=mk_index(rng)), [], []
    target = M + ':InternalBibleBookCVIndex.getChapterEntriesWithContext'
    args = dict(self=IXT, C=ConstT('-1'))
    def pre(self): return rep(self)
    raises = {KeyError: lambda self: ('-1', '0') not in ix(self)}
    def post_lines(self, result): return between(self, ix(self)[('-1', '0')].entryIndex, intro_end(self), result[0].data)
    def post_context(self, result): return result[1] == ix(self)[('-1', '0')].context

# ---- verses with their context
class context_strict(_Verse):
    weight = 3
    target = M + ':InternalBibleBookCVIndex.getVerseEntriesWithContext'
    args = dict(self=IXT, CVkey=CV, strict=ConstT(True), complete=ConstT(False))
    def pre(self, CVkey): return rep(self) and is_digits(CVkey[0]) and startnum(CVkey[1])
    raises = {KeyError: lambda self, CVkey: CVkey not in ix(self)}
    def post_lines(self, CVkey, result): return is_range(self, ix(self)[CVkey], result[0].data)
    def post_context(self, CVkey, result): return result[1] == ix(self)[CVkey].context

def wide(v): return len(v) if is_digits(v) else len(v) - 1
def num(v): return int(v[:wide(v)])
def startnum(v): return number_at(v, 0, wide(v))
class leading_verse(Contract):
    """the number of a verse with or without a letter"""
    def world(rng):
        n = str(rng.randint(0, 180)); return dict(someString=n + rng.choice(('', 'a', 'b')), n=len(n)), [], []
    target = 'BibleOrgSys.Internals.InternalBibleInternals:getLeadingInt'
    args = dict(someString=StrT, n=IntT)
    ghost = dict(n=lambda someString: wide(someString))
    result = IntT
    def pre(someString, n): return number_at(someString, 0, n)
    def post(someString, n, result): return result == int(someString[:n])
context_strict.uses = [leading_verse]

def is_number(v): return is_digits(v)
def hit(s, k, c, n):
    """the entry of key k is a range or list of verses, or a part of a verse, with verse n of chapter c in it"""
    if k[0] != c: return False
    if '-' in k[1]: return num(k[1].split('-')[0]) <= n and n <= num(k[1].split('-')[1])
    if ',' in k[1]: return exists(0, len(k[1].split(',')), lambda i: int(k[1].split(',')[i]) == n)
    return not is_digits(k[1]) and num(k[1]) == n
def wf(s):
    """verse numbers are a number, perhaps with a letter; a range of two of these; or a list of numbers"""
    return forall_keys(ix(s), lambda k: wf_v(k[1]))
def wf_v(v):
    if '-' in v: return len(v.split('-')) == 2 and startnum(v.split('-')[0]) and startnum(v.split('-')[1])
    if ',' in v: return forall(0, len(v.split(',')), lambda i: is_digits(v.split(',')[i]))
    return startnum(v)
class context_found(_Verse):
    """a verse with an entry of its own gives just that entry"""
    weight = 3
    target = M + ':InternalBibleBookCVIndex.getVerseEntriesWithContext'
    args = dict(self=IXT, CVkey=CV, strict=ConstT(False), complete=ConstT(False))
    uses = [leading_verse]
    def pre(self, CVkey): return CVkey in ix(self) and rep(self) and is_digits(CVkey[0]) and startnum(CVkey[1])
    def post_lines(self, CVkey, result): return is_range(self, ix(self)[CVkey], result[0].data)
    def post_context(self, CVkey, result): return result[1] == ix(self)[CVkey].context
def first_hit(s, c, n, i): return hit(s, key_at(ix(s), i), c, n) and forall(0, i, lambda j: not hit(s, key_at(ix(s), j), c, n))
class context_search(_X):
    """otherwise the first range, list or part of a verse that has the verse in it is given; the look-up is refused when there is none"""
    bounded = True
    bound_note = 'seeded indexes of up to 3 chapters with ranges, lists and parts of verses'
    native_s = 8
    target = M + ':InternalBibleBookCVIndex.getVerseEntriesWithContext'
    args = dict(self=IXT, CVkey=CV, strict=ConstT(False), complete=ConstT(False))
    def pre(self, CVkey): return rep(self) and wf(self) and is_digits(CVkey[0]) and is_digits(CVkey[1]) and CVkey not in ix(self)
    raises = {KeyError: lambda self, CVkey: not exists_key(ix(self), lambda k: hit(self, k, CVkey[0], int(CVkey[1])))}
    def post(self, CVkey, result):
        return exists(0, len(ix(self)), lambda i: first_hit(self, CVkey[0], int(CVkey[1]), i) and begins(self, ix(self)[key_at(ix(self), i)], result[0].data)
                                                  and result[1] == ix(self)[key_at(ix(self), i)].context)
def begins(s, e, r): return len(r) >= e.entryCount and forall(0, e.entryCount, lambda i: r[i] == lines(s)[e.entryIndex + i])

class verse_bridged(_X):
    """the lenient look-up of a verse without an entry gives the first range that begins with it"""
    bounded = True
    bound_note = 'seeded indexes of up to 3 chapters with ranges, lists and parts of verses'
    native_s = 8
    target = M + ':InternalBibleBookCVIndex.getVerseEntries'
    args = dict(self=IXT, CVkey=CV, strict=ConstT(False))
    def pre(self, CVkey): return rep(self) and CVkey not in ix(self)
    raises = {KeyError: lambda self, CVkey: not any(k[0] == CVkey[0] and k[1].startswith(CVkey[1] + '-') for k in ix(self))}
    def post(self, CVkey, result):
        k = next(k for k in ix(self) if k[0] == CVkey[0] and k[1].startswith(CVkey[1] + '-'))
        return is_range(self, ix(self)[k], result.data)
class context_complete(_X):
    """asked for everything, the look-up gives each range, list or part with the verse in it, in order, and then the verse itself"""
    bounded = True
    bound_note = 'seeded indexes of up to 3 chapters with ranges, lists and parts of verses'
    native_s = 8
    target = M + ':InternalBibleBookCVIndex.getVerseEntriesWithContext'
    args = dict(self=IXT, CVkey=CV, strict=ConstT(False), complete=ConstT(True))
    def pre(self, CVkey): return rep(self) and wf(self) and is_digits(CVkey[0]) and is_digits(CVkey[1])
    raises = {KeyError: lambda self, CVkey: not all_hits(self, CVkey)}
    def post(self, CVkey, result):
        hits = all_hits(self, CVkey); want = [l for e in hits for l in lines(self)[e.entryIndex:e.entryIndex + e.entryCount]]
        return result[0].data == want and result[1] == hits[0].context
def all_hits(s, k): return [ix(s)[j] for j in ix(s) if hit(s, j, k[0], num(k[1]))] + ([ix(s)[k]] if k in ix(s) else [])

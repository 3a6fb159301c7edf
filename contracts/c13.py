"""C13: lists of Bible entries and of extras behave as sequences of immutable-by-sharing records."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleEntry as Entry, InternalBibleEntryList as EntryList, \
    InternalBibleExtra as Extra, InternalBibleExtraList as ExtraList
M = 'BibleOrgSys.Internals.InternalBibleInternals'
C = 'contracts.c13'

EXT = ObjT(Extra, {'myType': StrT, 'index': IntT, 'noteText': StrT, 'cleanNoteText': StrT})
EXTL = ObjT(ExtraList, {'data': ListT(EXT)})
def entry_type(extras): return ObjT(Entry, {'marker': StrT, 'originalMarker': StrT, 'adjustedText': StrT, 'cleanText': StrT, 'extras': extras, 'originalText': StrT})
ENT = entry_type(OptT(EXTL))
LINE = entry_type(NoneT)
ENTL = ObjT(EntryList, {'data': ListT(LINE)})

def mk_extra(rng): return Extra(rng.choice(('fn', 'xr', 'fig', 'str', 'pp')), rng.randint(0, 4), rng.choice(('', 'note', 'x', '\\ft n')), rng.choice(('', 'note', 'x')), None)
def mk_extras(rng):
    l = ExtraList(); l.data = [mk_extra(rng) for _ in range(rng.choice((0, 1, 2, 2, 3, 5)))]; return l
def mk_entry(rng, extras=True):
    e = Entry.__new__(Entry); t = rng.choice(('', 'text', 'In_the _beginning_ _of', 'a_b'))
    m = rng.choice(('v', 'p', 'v~', 'c', 'id', 's1'))
    e.marker, e.originalMarker, e.adjustedText, e.cleanText, e.originalText = m, rng.choice((m, 'q1')), t, rng.choice((t, t + 'x')), rng.choice((t, 'orig'))
    e.extras = rng.choice((None, mk_extras(rng))) if extras else None
    return e
def mk_list(rng):
    l = EntryList(); l.data = [mk_entry(rng, False) for _ in range(rng.choice((0, 1, 2, 3, 5, 9)))]; return l
def twin(rng, make):
    """two objects, often equal or differing in one field"""
    import copy
    a = make(rng); b = copy.deepcopy(a) if rng.random() < .8 else make(rng)
    if rng.random() < .6:
        f = rng.choice([f for k in type(b).__mro__ for f in getattr(k, '__slots__', ())])
        if f == 'data':
            if b.data: b.data[-1] = mk_extra(rng) if isinstance(b, ExtraList) else mk_entry(rng)
        else: setattr(b, f, getattr(make(rng), f))
    return a, b

def world(rng):
    a, b = mk_list(rng), mk_list(rng)
    e = mk_entry(rng, False); n = len(a.data)
    return dict(self=a, l=a, m=b, additionalList=b, listToAppend=b, newBibleEntry=e, e=e), ['v', 'p', 'v~', 'c', 'id', 's1', 'zz'], [-n - 1, -n, -1, 0, n - 1, n, n + 1]
def world_extra(rng):
    a, b = twin(rng, mk_extras); x = mk_extra(rng); y = twin(rng, mk_extra)
    return dict(self=a, l=a, m=b, other=b, newExtraList=mk_extras(rng), newExtraEntry=x, e=x, a=y[0], b=y[1]), ['fn', 'xr'], [x_.index for x_ in a.data] + [0, -1, len(a.data)]
def world_entry(rng):
    a, b = twin(rng, mk_entry)
    return dict(self=a, other=b), ['x', 'text', 'a_b'], range(-1, 8)

def same_seq(a, b): return len(a) == len(b) and forall(0, len(a), lambda i: a[i] == b[i])
def is_cat(r, a, b):
    return len(r) == len(a) + len(b) and forall(0, len(a), lambda i: r[i] == a[i]) and forall(0, len(b), lambda i: r[len(a) + i] == b[i])

# ---- one entry
class entry_build(Contract):
    """an entry keeps the six values it is made from, and gives them back by name and by position"""
    target = C + ':build_entry'
    args = dict(marker=StrT, originalMarker=StrT, adjustedText=StrT, cleanText=StrT, extras=OptT(EXTL), originalText=StrT)
def build_entry(marker, originalMarker, adjustedText, cleanText, extras, originalText):
    e = Entry(marker, originalMarker, adjustedText, cleanText, extras, originalText)
    assert e.getMarker() == marker and e[0] == marker
    assert e.getOriginalMarker() == originalMarker and e[1] == originalMarker
    assert e.getAdjustedText() == adjustedText and e.getText() == adjustedText and e[2] == adjustedText
    assert e.getCleanText() == cleanText and e[3] == cleanText
    assert e.getExtras() == extras and e[4] == extras
    assert e.getOriginalText() == originalText and e.getFullText() == originalText and e[5] == originalText
    assert len(e) == 6

class entry_index(Contract):
    world = world_entry
    target = M + ':InternalBibleEntry.__getitem__'
    args = dict(self=entry_type(NoneT), keyIndex=IntT)
    raises = {IndexError: lambda keyIndex: not (0 <= keyIndex and keyIndex <= 5)}
    def post(self, keyIndex, result):
        return (keyIndex == 0 and result == self.marker or keyIndex == 1 and result == self.originalMarker or keyIndex == 2 and result == self.adjustedText
                or keyIndex == 3 and result == self.cleanText or keyIndex == 4 and result == self.extras or keyIndex == 5 and result == self.originalText)

class entry_clean(Contract):
    world = world_entry
    target = M + ':InternalBibleEntry.getCleanText'
    args = dict(self=ENT, removeESFMUnderlines=BoolT)
    def post_as_stored(self, removeESFMUnderlines, result): return removeESFMUnderlines or result == self.cleanText
    def post_no_underlines(self, removeESFMUnderlines, result): return not removeESFMUnderlines or '_' not in result
    def post_unmarked(self, removeESFMUnderlines, result): return '_' in self.cleanText or result == self.cleanText

class entry_set_clean(Contract):
    world = world_entry
    target = M + ':InternalBibleEntry.setCleanText'
    args = dict(self=ENT, newValue=StrT)
    modifies = ['self.cleanText', 'self.adjustedText', 'self.originalText']
    raises = {AssertionError: lambda self: self.extras is not None and len(self.extras.data) > 0}
    def post(self, newValue): return self.cleanText == newValue and self.adjustedText == newValue and self.originalText == newValue

def same_extra(a, b): return a.myType == b.myType and a.index == b.index and a.noteText == b.noteText and a.cleanNoteText == b.cleanNoteText
def same_extras(a, b):
    if a is None or b is None: return a is None and b is None
    return len(a.data) == len(b.data) and forall(0, len(a.data), lambda i: same_extra(a.data[i], b.data[i]))
class extra_eq(Contract):
    def world(rng):
        a, b = twin(rng, mk_extra); return dict(self=a, other=b), [], []
    target = M + ':InternalBibleExtra.__eq__'
    args = dict(self=EXT, other=EXT)
    result = BoolT
    def post(self, other, result): return result == same_extra(self, other)
class extra_ne(Contract):
    world = extra_eq.__dict__['world']
    target = M + ':InternalBibleExtra.__ne__'
    args = dict(self=EXT, other=EXT)
    def post(self, other, result): return result == (not same_extra(self, other))
class extras_eq(Contract):
    world = world_extra
    target = M + ':InternalBibleExtraList.__eq__'
    args = dict(self=EXTL, other=EXTL)
    result = BoolT
    def post(self, other, result): return result == same_extras(self, other)
class extras_ne(Contract):
    world = world_extra
    target = M + ':InternalBibleExtraList.__ne__'
    args = dict(self=EXTL, other=EXTL)
    def post(self, other, result): return result == (not same_extras(self, other))
def same_entry(a, b):
    return (a.marker == b.marker and a.originalMarker == b.originalMarker and a.adjustedText == b.adjustedText and a.cleanText == b.cleanText
            and same_extras(a.extras, b.extras) and a.originalText == b.originalText)
class entry_eq(Contract):
    world = world_entry
    target = M + ':InternalBibleEntry.__eq__'
    args = dict(self=ENT, other=ENT)
    result = BoolT
    def post(self, other, result): return result == same_entry(self, other)
class entry_ne(Contract):
    world = world_entry
    target = M + ':InternalBibleEntry.__ne__'
    args = dict(self=ENT, other=ENT)
    def post(self, other, result): return result == (not same_entry(self, other))

# ---- lists of entries
class _L(Contract):
    world = world
    cls = 'InternalBibleEntryList'
class list_len(_L):
    target = M + ':InternalBibleEntryList.__len__'
    args = dict(self=ENTL)
    def post(self, result): return result == len(self.data)
class list_index(_L):
    target = M + ':InternalBibleEntryList.__getitem__'
    args = dict(self=ENTL, keyIndex=IntT)
    raises = {IndexError: lambda self, keyIndex: not (-len(self.data) <= keyIndex and keyIndex < len(self.data))}
    def post(self, keyIndex, result): return result == self.data[keyIndex if keyIndex >= 0 else len(self.data) + keyIndex]
class list_append(_L):
    target = M + ':InternalBibleEntryList.append'
    args = dict(self=ENTL, newBibleEntry=LINE)
    modifies = ['self.data']
    def post(self, newBibleEntry, old):
        return len(self.data) == len(old.self.data) + 1 and self.data[len(old.self.data)] == newBibleEntry and forall(0, len(old.self.data), lambda i: self.data[i] == old.self.data[i])
class list_append_other(_L):
    """nothing but an entry can be appended"""
    def world(rng): return dict(self=mk_list(rng)), [], []
    target = M + ':InternalBibleEntryList.append'
    args = dict(self=ENTL, newBibleEntry=UnionT(StrT, NoneT, IntT, EXT))
    raises = {AssertionError: lambda self: True}
class list_pop(_L):
    target = M + ':InternalBibleEntryList.pop'
    args = dict(self=ENTL)
    modifies = ['self.data']
    def post(self, result, old):
        n = len(old.self.data)
        if n == 0: return result is None and len(self.data) == 0
        return result == old.self.data[n - 1] and len(self.data) == n - 1 and forall(0, n - 1, lambda i: self.data[i] == old.self.data[i])
class list_extend(_L):
    target = M + ':InternalBibleEntryList.extend'
    args = dict(self=ENTL, additionalList=ENTL)
    modifies = ['self.data']
    def post(self, additionalList, old): return is_cat(self.data, old.self.data, additionalList.data)
class list_copy(_L):
    target = C + ':copy_list'
    args = dict(l=ENTL, e=LINE)
    modifies = ['l']
    def post(l, result, e, old): return same_seq(result.data, old.l.data) and len(l.data) == len(old.l.data) + 1
    def inv(d: 'list', l, k: 'k'): return len(d) == k and forall(0, k, lambda i: d[i] == l.data[i])
    templates = [inv]
def copy_list(l, e):
    """a copy does not see what happens to the original"""
    c = EntryList(l)
    l.append(e)
    return c
class list_from_plain(_L):
    target = C + ':list_from'
    args = dict(x=ListT(LINE))
    def gen(rng): return dict(x=mk_list(rng).data)
    def post(x, result): return same_seq(result.data, x)
    def inv(d: 'list', x, k: 'k'): return len(d) == k and forall(0, k, lambda i: d[i] == x[i])
    templates = [inv]
def list_from(x): return EntryList(x)
class list_add(_L):
    target = M + ':InternalBibleEntryList.__add__'
    args = dict(self=ENTL, listToAppend=ENTL)
    def post(self, listToAppend, result): return is_cat(result.data, self.data, listToAppend.data)
    def inv(d: 'list', self, listToAppend, k: 'k'):
        n = len(self.data)
        return len(d) == k and forall(0, k, lambda i: d[i] == (self.data[i] if i < n else listToAppend.data[i - n]))
    templates = [inv]
def clamp(x, n): return (0 if x + n < 0 else x + n) if x < 0 else (n if x > n else x)
class list_slice(_L):
    target = C + ':slice_list'
    args = dict(l=ENTL, a=IntT, b=IntT)
    def post(l, a, b, result):
        n = len(l.data); lo = clamp(a, n); hi = clamp(b, n)
        return len(result.data) == (hi - lo if hi > lo else 0) and forall(0, len(result.data), lambda i: result.data[i] == l.data[lo + i])
    def inv_copy(x: 'list', l, a, k: 'k'): return len(x) == k and forall(0, k, lambda i: x[i] == l.data[clamp(a, len(l.data)) + i])
    templates = [inv_copy]
def slice_list(l, a, b): return l[a:b]
class list_contains(_L):
    target = M + ':InternalBibleEntryList.contains'
    args = dict(self=ENTL, searchMarker=StrT, maxLines=OptT(IntT))
    def pre(maxLines): return maxLines is None or maxLines >= 0
    def post_found(self, searchMarker, maxLines, result):
        if result is None: return forall(0, len(self.data), lambda i: self.data[i].marker != searchMarker or (maxLines is not None and i > maxLines))
        return (0 <= result and result < len(self.data) and self.data[result].marker == searchMarker and forall(0, result, lambda i: self.data[i].marker != searchMarker)
                and (maxLines is None or result <= maxLines))
    def inv(self, searchMarker, k: 'k'): return forall(0, k, lambda i: self.data[i].marker != searchMarker)
    def inv_max(self, maxLines, k: 'k'): return maxLines is None or k <= maxLines or k == 0
    templates = [inv, inv_max]

# ---- extras
class extra_build(Contract):
    target = C + ':build_extra'
    args = dict(t=StrT, i=IntT, n=StrT, c=StrT)
def build_extra(t, i, n, c):
    e = Extra(t, i, n, c, None)
    assert e.getType() == t and e[0] == t and e.getIndex() == i and e[1] == i
    assert e.getText() == n and e[2] == n and e.getCleanText() == c and e[3] == c and len(e) == 4
class extra_index(Contract):
    def world(rng): return dict(self=mk_extra(rng)), [], list(range(-1, 6))
    target = M + ':InternalBibleExtra.__getitem__'
    args = dict(self=EXT, keyIndex=IntT)
    raises = {IndexError: lambda keyIndex: not (0 <= keyIndex and keyIndex <= 3)}
class _X(Contract):
    world = world_extra
class extras_len(_X):
    target = M + ':InternalBibleExtraList.__len__'
    args = dict(self=EXTL)
    def post(self, result): return result == len(self.data)
class extras_index(_X):
    target = M + ':InternalBibleExtraList.__getitem__'
    args = dict(self=EXTL, keyIndex=IntT)
    raises = {IndexError: lambda self, keyIndex: not (-len(self.data) <= keyIndex and keyIndex < len(self.data))}
    def post(self, keyIndex, result): return same_extra(result, self.data[keyIndex if keyIndex >= 0 else len(self.data) + keyIndex])
class extras_append(_X):
    target = M + ':InternalBibleExtraList.append'
    args = dict(self=EXTL, newExtraEntry=EXT)
    modifies = ['self.data']
    def post(self, newExtraEntry, old):
        n = len(old.self.data)
        return len(self.data) == n + 1 and self.data[n] == newExtraEntry and forall(0, n, lambda i: self.data[i] == old.self.data[i])
class extras_append_other(_X):
    def world(rng): return dict(self=mk_extras(rng)), [], []
    target = M + ':InternalBibleExtraList.append'
    args = dict(self=EXTL, newExtraEntry=UnionT(StrT, NoneT, LINE))
    raises = {AssertionError: lambda self: True}
class extras_pop(_X):
    target = M + ':InternalBibleExtraList.pop'
    args = dict(self=EXTL)
    modifies = ['self.data']
    def post(self, result, old):
        n = len(old.self.data)
        if n == 0: return result is None and len(self.data) == 0
        return result == old.self.data[n - 1] and len(self.data) == n - 1 and forall(0, n - 1, lambda i: self.data[i] == old.self.data[i])
class extras_extend(_X):
    target = M + ':InternalBibleExtraList.extend'
    args = dict(self=EXTL, newExtraList=EXTL)
    modifies = ['self.data']
    def post(self, newExtraList, old): return is_cat(self.data, old.self.data, newExtraList.data)
class extras_slice(_X):
    target = C + ':slice_list'
    args = dict(l=EXTL, a=IntT, b=IntT)
    post = list_slice.__dict__['post']
    inv_copy = list_slice.__dict__['inv_copy']
    def world(rng):
        d, s, i = world_extra(rng); return dict(l=d['l']), s, list(i) + [len(d['l'].data) + 1, -len(d['l'].data)]
    templates = [inv_copy]

@recdef(IntT)
def at(d, x, k):
    """how many of the first k extras are at position x"""
    return 0 if k <= 0 else at(d, x, k - 1) + (1 if d[k - 1].index == x else 0)
class extras_at(_X):
    """the extras at a position: nothing, the one there is, or the list of them in order"""
    target = M + ':InternalBibleExtraList.checkForIndex'
    args = dict(self=EXTL, stringIndex=IntT)
    def post_none(self, stringIndex, result): return (result is None) == (at(self.data, stringIndex, len(self.data)) == 0)
    def post_one(self, stringIndex, result):
        if result is None or isinstance(result, list): return True
        return at(self.data, stringIndex, len(self.data)) == 1 and exists(0, len(self.data), lambda i: self.data[i].index == stringIndex and result == self.data[i])
    def post_many(self, stringIndex, result):
        if not isinstance(result, list): return True
        return (len(result) == at(self.data, stringIndex, len(self.data)) and len(result) > 1
                and forall(0, len(self.data), lambda i: self.data[i].index != stringIndex or result[at(self.data, stringIndex, i)] == self.data[i]))
    def inv_count(l: 'list', self, stringIndex, k: 'k'): return len(l) == at(self.data, stringIndex, k)
    def inv_each(l: 'list', self, stringIndex, k: 'k'):
        return forall(0, k, lambda i: self.data[i].index != stringIndex or (0 <= at(self.data, stringIndex, i) and at(self.data, stringIndex, i) < len(l) and l[at(self.data, stringIndex, i)] == self.data[i]))
    def inv_sound(l: 'list', self, stringIndex, k: 'k'): return forall(0, len(l), lambda j: exists(0, k, lambda i: self.data[i].index == stringIndex and l[j] == self.data[i]))
    templates = [inv_count, inv_each, inv_sound]

"""C06: expanding a reference range gives exactly the verses of the range, in order: it starts at the first reference, every
entry is followed by the very next verse, and it ends at the last reference."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
from .c05 import BVST, CD, OM, rep, M, omitted, BVS, P
from .common import CodesStub, codes_override, BOOKS
from . import c05

@opaque(IntT)
def nverses(d, c):
    """number of verses the table of a book gives for chapter c (0 if it has no such chapter)"""
    return int(d[c]) if c in d else 0
def nv(s, b, c): return nverses(CD(s)[b], c) if b in CD(s) else 0

class verses_of_chapter(c05.getNumVerses):
    """getNumVerses, stated with the opaque function nverses"""
    result = IntT
    reveal = [c05.rep_table, nverses]
    def pre(self, BBB): return rep(self)
    def post_table(self, BBB, C, result): return result == nv(self, BBB, C) and result >= 0

def valid(s, r):
    """the reference exists: its book, its chapter, and its verse if it names one"""
    b, c, v = r[0], r[1], r[2]
    return b in CD(s) and c in CD(s)[b] and (v == '' or 1 <= int(v) and int(v) <= int(CD(s)[b][c]) and not omitted(s, b, c, v))
class accepts(c05.isValidBCVRef):
    """isValidBCVRef, in the (default) strict mode"""
    args = dict(self=BVST, referenceTuple=TupleT(StrT, StrT, StrT, StrT), referenceString=OptT(StrT), extended=ConstT(False))
    result = BoolT
    uses = []
    reveal = [c05.rep_table, nverses]
    def pre(self, referenceTuple):
        return (rep(self) and len(referenceTuple[0]) == 3 and (referenceTuple[2] == '' or is_digits(referenceTuple[2])) and suffix(referenceTuple[3])
                and referenceTuple[1] != 'numChapters')
    def post_table(self, referenceTuple, result): return result == valid(self, referenceTuple)
    def post_verses(self, referenceTuple, result):
        return not result or referenceTuple[2] == '' or 1 <= int(referenceTuple[2]) and int(referenceTuple[2]) <= nv(self, referenceTuple[0], referenceTuple[1])

REF = TupleT(StrT, StrT, StrT, StrT)
def suffix(x): return x == '' or x == 'a' or x == 'b' or x == 'c'
def wellformed(r): return len(r[0]) == 3 and is_digits(r[1]) and str(int(r[1])) == r[1] and (r[2] == '' or is_digits(r[2])) and suffix(r[3])
def V1(a): return int(a[2]) if a[2] else 1
def V2(s, b): return int(b[2]) if b[2] else nv(s, b[0], b[1])

@opaque(BoolT)
def full(d, c1, c2):
    """every chapter from c1 to c2 has a verse"""
    return forall(c1, c2 + 1, lambda c: nverses(d, str(c)) >= 1)
def item(b, c, v, x): return (b, str(c), str(v), x)

@opaque(BoolT)
def runs(d, b, c1, v1, c2, v2, s1, s2, l, c, n):
    """l lists, in order, the verses from b c1:v1 to the last one of the chapter before chapter c, and is n long"""
    return True

def some_system(rng):
    cd = {}; om = {}
    seq = rng.sample(BOOKS, rng.randint(2, 5))
    for b in seq:
        n = rng.choice((1, 1, 2, 3, 4))
        cd[b] = {'numChapters': str(n), **{str(i + 1): str(rng.choice((1, 2, 3, 5))) for i in range(n)}}
        if rng.random() < .2: om[b] = [(str(rng.randint(1, n)), '2')]
    s = BVS.__new__(BVS)
    s.__dict__.update({'_systemName': 'test', P + 'chapterDataDict': cd, P + 'omittedVersesDict': om})
    return s, seq
def some_ref(rng, s, b):
    n = len(CD(s)[b]) - 1; c = str(rng.randint(1, n)); t = int(CD(s)[b][c])
    return (b, rng.choice((c, c, c, c, c, str(n + 1))), rng.choice(('', '1', str(t), str(t), str(rng.randint(1, t)), '0', str(t + 1))), rng.choice(('', '', '', 'a', 'b')))
def world(rng):
    s, seq = some_system(rng)
    b = rng.choice(seq)
    return dict(self=s, startRef=some_ref(rng, s, b), endRef=some_ref(rng, s, b), codes=CodesStub(set(BOOKS)),
                referenceTuple=some_ref(rng, s, b), extended=False), [b, '1', '2', '3'], [1, 2, 3]
accepts.world = verses_of_chapter.world = world

def wanted(s, a, b):
    """the range, spelt out (only used when replaying)"""
    out = []
    for c in range(int(a[1]), int(b[1]) + 1):
        for v in range(V1(a) if c == int(a[1]) else 1, (V2(s, b) if c == int(b[1]) else nv(s, a[0], str(c))) + 1): out.append((c, v))
    return out

class _Same(Contract):
    world = world
    target = M + ':BibleVersificationSystem.expandCVRange'
    args = dict(self=BVST, startRef=REF, endRef=REF, codes=CodesStub.TYPE)
    overrides = codes_override
    uses = [verses_of_chapter, accepts]
    def pre(self, startRef, endRef, codes):
        return (rep(self) and wellformed(startRef) and wellformed(endRef) and startRef[0] == endRef[0] and startRef[0] in codes.valid and startRef[0] in CD(self)
                and full(CD(self)[startRef[0]], int(startRef[1]), int(endRef[1])))

class one_book_accepted(_Same):
    """a range is refused exactly when an end is not a reference of the system, or the ends are not in order"""
    def post_refused(self, startRef, endRef, result):
        ok = (valid(self, startRef) and valid(self, endRef) and (int(startRef[1]) < int(endRef[1]) or
              int(startRef[1]) == int(endRef[1]) and V1(startRef) < V2(self, endRef)))
        return (result is not None) == ok

class one_book_verses(_Same):
    reveal = [full]
    weight = 5; quick_ms = 5000; patient = True
    def post_first(self, startRef, endRef, result):
        if result is None: return True
        return len(result) > 0 and result[0] == item(startRef[0], int(startRef[1]), V1(startRef), startRef[3])
    def post_last(self, startRef, endRef, result):
        if result is None: return True
        return result[len(result) - 1] == item(startRef[0], int(endRef[1]), V2(self, endRef), endRef[3])
    def post_next(self, startRef, endRef, result):
        if result is None: return True
        return chain(CD(self)[startRef[0]], startRef[0], result, len(result))
    def post_form(self, startRef, result): return result is None or entries(startRef[0], result, len(result))
    def inv_form(l: 'list', self, startRef): return entries(startRef[0], l, len(l))
    def inv_chain(l: 'list', self, startRef): return chain(CD(self)[startRef[0]], startRef[0], l, len(l))
    def inv_first(l: 'list', self, startRef, k: 'k'): 
        return len(l) >= k and (len(l) == 0 or l[0] == item(startRef[0], int(startRef[1]), V1(startRef), startRef[3]))
    def inv_outer(l: 'list', self, startRef, endRef, k: 'k', at: 'depth0'):
        c1, c2 = int(startRef[1]), int(endRef[1])
        if k == 0: return len(l) == 0
        return len(l) > 0 and l[len(l) - 1] == item(startRef[0], c1 + k - 1, (V2(self, endRef) if c1 + k - 1 == c2 else nv(self, startRef[0], str(c1 + k - 1))), endRef[3] if c1 + k - 1 == c2 else (startRef[3] if len(l) == 1 else ''))
    def inv_inner(l: 'list', l_0: 'entry', self, startRef, endRef, k: 'k', o: 'outer0'):
        c1, c2 = int(startRef[1]), int(endRef[1]); v = (V1(startRef) if o == 0 else 1) + k - 1
        return (len(l) == len(l_0) + k and (k == 0 or l[len(l) - 1] == item(startRef[0], c1 + o, v, startRef[3] if len(l) == 1 else endRef[3] if c1 + o == c2 and v == V2(self, endRef) else ''))
                and (k > 0 or len(l) == 0 or l[len(l) - 1] == l_0[len(l) - 1]))
    templates = [inv_form, inv_chain, inv_first, inv_outer, inv_inner]

class one_book_suffix(_Same):
    """only the two ends may carry a verse suffix"""
    reveal = [full]
    weight = 4; quick_ms = 5000; patient = True
    def post_suffix(self, startRef, endRef, result):
        if result is None: return True
        return forall(1, len(result) - 1, lambda i: result[i][3] == '')
    def inv_outer(l: 'list', self, startRef, endRef, k: 'k', at: 'depth0'):
        return (len(l) >= k and (len(l) == 0) == (k == 0) and
                (len(l) <= 1 or int(startRef[1]) + k - 1 == int(endRef[1]) or l[len(l) - 1][3] == ''))
    def inv_inner(l: 'list', l_0: 'entry', self, startRef, endRef, k: 'k', o: 'outer0'):
        c1, c2 = int(startRef[1]), int(endRef[1]); v = (V1(startRef) if o == 0 else 1) + k - 1
        return (len(l) == len(l_0) + k and (len(l_0) == 0) == (o == 0) and (len(l) <= 1 or k == 0 or l[len(l) - 1][3] == '' or c1 + o == c2 and v == V2(self, endRef))
                and (k > 0 or len(l) == 0 or l[len(l) - 1] == l_0[len(l) - 1]))
    def inv_suffix(l: 'list'): return forall(1, len(l), lambda i: i == len(l) - 1 or l[i][3] == '')
    templates = [inv_outer, inv_inner, inv_suffix]

def plain(x): return str(int(x)) == x
def entries(b, l, n):
    """the first n entries are of book b, with the numbers in plain form"""
    return forall(0, n, lambda i: l[i][0] == b and plain(l[i][1]) and plain(l[i][2]))
def chain(d, b, l, n):
    """each of the first n entries but the last is followed by the next verse of the book"""
    return forall(0, n - 1, lambda i: follows(d, l[i], l[i + 1]))
def follows(d, x, y):
    return (y[1] == x[1] and int(y[2]) == int(x[2]) + 1) or (int(y[1]) == int(x[1]) + 1 and int(y[2]) == 1 and int(x[2]) == nverses(d, x[1]))

# ---- ranges over several books: bounded check of the real code against the range spelt out
from .c03 import BOST, BOS, L

def some_order(rng, seq):
    l = [b for b in seq]
    for b in rng.sample([b for b in BOOKS if b not in seq], rng.randint(0, 1)): l.insert(rng.choice((0, len(l))), b)
    s = BOS.__new__(BOS); Q = '_BibleBookOrderSystem__'
    s.__dict__.update({Q + 'systemName': 'test', Q + 'BookOrderBookDict': {b: i + 1 for i, b in enumerate(l)},
                       Q + 'BookOrderNumberDict': {i + 1: b for i, b in enumerate(l)}, Q + 'BookOrderList': l})
    return s
def several_world(rng):
    s, seq = some_system(rng)
    order = some_order(rng, seq)
    def ref():
        b = rng.choice(seq); return some_ref(rng, s, b)
    x, y = ref(), ref()
    if rng.random() < .7 and seq.index(x[0]) > seq.index(y[0]): x, y = y, x
    if rng.random() < .5: x = (seq[0],) + some_ref(rng, s, seq[0])[1:]; y = (seq[-1],) + some_ref(rng, s, seq[-1])[1:]
    return dict(self=s, startRef=x, endRef=y, referenceString=rng.choice((None, 'ref')), bookOrderSystem=rng.choice((order, order, order, None)), codes=CodesStub(set(BOOKS))), [], []

def spelt_out(s, order, a, b):
    """every verse from a to b, in the order of the books (only used natively)"""
    books = L(order); out = []
    for book in books[books.index(a[0]):books.index(b[0]) + 1]:
        first, last = (int(a[1]) if book == a[0] else 1), (int(b[1]) if book == b[0] else int(CD(s)[book]['numChapters']))
        for c in range(first, last + 1):
            v1 = V1(a) if book == a[0] and c == first else 1
            v2 = V2(s, b) if book == b[0] and c == last else nv(s, book, str(c))
            for v in range(v1, v2 + 1):
                x = a[3] if (book, c, v) == (a[0], int(a[1]), V1(a)) else b[3] if (book, c, v) == (b[0], int(b[1]), V2(s, b)) else ''
                out.append((book, str(c), str(v), x))
    return out

class several_books(Contract):
    """ranges over different books, against the range spelt out"""
    bounded = True
    bound_note = 'seeded versification tables of 2-5 books of 1-4 chapters of 1-5 verses; every kind of reference in and just outside them'
    native_s = 15
    target = M + ':BibleVersificationSystem.expandCVRange'
    args = dict(self=BVST, startRef=REF, endRef=REF, referenceString=OptT(StrT), bookOrderSystem=OptT(BOST), codes=CodesStub.TYPE)
    overrides = codes_override
    world = several_world
    def pre(self, startRef, endRef): return wellformed(startRef) and wellformed(endRef)
    def post_range(self, startRef, endRef, bookOrderSystem, result):
        if not valid(self, startRef) or not valid(self, endRef): return result is None
        if startRef[0] == endRef[0]: return True
        if bookOrderSystem is None: return result is None
        books = L(bookOrderSystem)
        if books.index(startRef[0]) >= books.index(endRef[0]): return result is None
        return result == spelt_out(self, bookOrderSystem, startRef, endRef)

"""C07: absolute verse numbers enumerate the verses of an organisational system in order, without gaps."""
from pyverif.spec import *
from pyverif.contract import Contract, fact
from pyverif.values import *
from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem as BOS
M = 'BibleOrgSys.Reference.BibleOrganisationalSystems'
V = 'BibleOrgSys.Reference.BibleVersificationSystems'
PO = '_BibleOrganisationalSystem__'
PV = '_BibleVersificationSystem__'

TABLE = DictT(TupleT(StrT, IntT), TupleT(IntT, IntT), True)
ORG = ObjT(BOS, {PO + 'dataDict': RecT({'includesBooks': ListT(StrT)}), PV + 'systemName': StrT,
                 PV + 'chapterDataDict': DictT(StrT, DictT(StrT, StrT, True)), PO + 'absoluteVerseDict': TABLE})
def A(s): return s._BibleOrganisationalSystem__absoluteVerseDict
def CD(s): return s._BibleVersificationSystem__chapterDataDict
def books(s): return s._BibleOrganisationalSystem__dataDict['includesBooks']
def nc(s, i): return len(CD(s)[books(s)[i]]) - 1
def count(s, b, c): return int(CD(s)[b][str(c)])

@opaque(BoolT)
def regular(d):
    """chapters 1, 2, 3... in order, after the chapter count"""
    return (len(d) > 0 and key_at(d, 0) == 'numChapters' and forall(1, len(d), lambda j: key_at(d, j) == str(j))
            and forall_keys(d, lambda c: is_digits(d[c])))
@opaque(BoolT)
def listing(cd, bl):
    """the books of the system are different, and each has a regular verse table"""
    return (forall(0, len(bl), lambda i: len(bl[i]) == 3 and bl[i] in cd and regular(cd[bl[i]]))
            and forall(0, len(bl), lambda i: forall(0, i, lambda j: bl[i] != bl[j])))
def listing_ok(s): return listing(CD(s), books(s))

@recdef(IntT)
def cv(cd, b, j):
    """verses in the first j chapters of a book"""
    return 0 if j <= 0 else cv(cd, b, j - 1) + int(cd[b][str(j)])
@recdef(IntT)
def bv(cd, bl, i):
    """verses in the first i books"""
    return 0 if i <= 0 else bv(cd, bl, i - 1) + cv(cd, bl[i - 1], len(cd[bl[i - 1]]) - 1)

def system(rng, made=False):
    """a small organisational system, with or without its table of absolute numbers"""
    names = rng.sample(['GEN', 'EXO', 'PSA', 'JDE', 'MAT', 'REV'], rng.randint(1, 4))
    cd = {}
    for b in names + ['LEV']:
        n = rng.choice((1, 1, 2, 3, 5, 12))
        cd[b] = {'numChapters': str(n), **{str(i + 1): str(rng.choice((0, 1, 2, 7, 30, 176))) for i in range(n)}}
    s = BOS.__new__(BOS)
    s.__dict__.update({PO + 'dataDict': {'includesBooks': names}, PV + 'systemName': 'test', PV + 'chapterDataDict': cd, PO + 'absoluteVerseDict': {}})
    if made or rng.random() < .5:
        t = 0
        for b in names:
            for c in range(1, len(cd[b])):
                n = int(cd[b][str(c)]); A(s)[(b, c)] = (t + 1, t + n); t += n
    return s
def some_verse(rng):
    s = system(rng)
    i = rng.randrange(len(books(s))); c = rng.randint(1, nc(s, i)); n = count(s, books(s)[i], c)
    return s, i, str(c), str(rng.choice((0, 1, n, n + 1, rng.randint(1, n + 1))))
def gen_one(rng):
    s, i, c, v = some_verse(rng)
    return dict(self=s, BBB=rng.choice(books(s) * 3 + ['LEV', 'MAL']), C=rng.choice((c, c, c, '0', '99')), V=v)
def gen_number(rng):
    s = system(rng); t = sum(count(s, b, c) for b in books(s) for c in range(1, len(CD(s)[b])))
    return dict(self=s, avNumber=rng.choice((0, 1, t, t + 1, rng.randint(1, t + 1), rng.randint(1, t + 1))))
def gen_back(rng):
    s, i, c, v = some_verse(rng)
    return dict(s=s, i=i, c=c, v=v)

class verses_of_book(Contract):
    def gen(rng):
        s = system(rng); return dict(self=s, BBB=rng.choice(books(s)))
    target = V + ':BibleVersificationSystem.getNumVersesList'
    args = dict(self=ORG, BBB=StrT)
    result = ListT(IntT)
    reveal = [regular]
    def pre(self, BBB): return len(BBB) == 3 and BBB in CD(self) and regular(CD(self)[BBB])
    def post_count(self, BBB, result): return len(result) == len(CD(self)[BBB]) - 1
    def post_each(self, BBB, result): return forall(0, len(result), lambda j: result[j] == count(self, BBB, j + 1) and result[j] >= 0)
    def inv(l: 'list', self, BBB, k: 'k'): 
        return len(l) == (0 if k == 0 else k - 1) and forall(0, len(l), lambda j: l[j] == count(self, BBB, j + 1) and l[j] >= 0)
    templates = [inv]

def entry(cd, bl, d, i, j):
    """chapter j of book i covers the verses that follow all the chapters before it"""
    return (bl[i], j) in d and d[(bl[i], j)][0] == bv(cd, bl, i) + cv(cd, bl[i], j - 1) + 1 \
        and d[(bl[i], j)][1] - d[(bl[i], j)][0] + 1 == int(cd[bl[i]][str(j)])
def known(d, cd, bl, n): return forall_keys(d, lambda q: exists(0, n, lambda a: q[0] == bl[a] and 1 <= q[1] and q[1] <= len(cd[bl[a]]) - 1))
@opaque(BoolT)
def table(cd, bl, d):
    return (forall(0, len(bl), lambda i: forall(1, len(cd[bl[i]]), lambda j: entry(cd, bl, d, i, j))) and known(d, cd, bl, len(bl)))
def table_ok(s): return table(CD(s), books(s), A(s))

class make_list(Contract):
    def gen(rng): return dict(self=system(rng))
    target = M + ':BibleOrganisationalSystem._BibleOrganisationalSystem__makeAbsoluteVerseList'
    args = dict(self=ORG)
    modifies = ['self.' + PO + 'absoluteVerseDict']
    uses = [verses_of_book]
    reveal = [listing, table]
    def pre(self): return listing_ok(self)
    def post_table(self): return table_ok(self)
    def acc_outer(acc: 'int', self, k: 'k', at: 'depth0'): return acc == bv(CD(self), books(self), k)
    def acc_inner(acc: 'int', self, k: 'k', i: 'outer0'): return acc == bv(CD(self), books(self), i) + cv(CD(self), books(self)[i], k)
    def outer(d: 'dict', self, k: 'k', at: 'depth0'): return forall(0, k, lambda a: forall(1, nc(self, a) + 1, lambda j: entry(CD(self), books(self), d, a, j)))
    def inner(d: 'dict', self, i: 'outer0'): return forall(0, i, lambda a: forall(1, nc(self, a) + 1, lambda j: entry(CD(self), books(self), d, a, j)))
    def inner_new(d: 'dict', self, k: 'k', i: 'outer0'): return forall(1, k + 1, lambda j: entry(CD(self), books(self), d, i, j))
    def known_outer(d: 'dict', self, k: 'k', at: 'depth0'): return known(d, CD(self), books(self), k)
    def known_inner(d: 'dict', self, k: 'k', i: 'outer0'):
        return forall_keys(d, lambda q: exists(0, i, lambda a: q[0] == books(self)[a] and 1 <= q[1] and q[1] <= nc(self, a)) or q[0] == books(self)[i] and 1 <= q[1] and q[1] <= k)
    templates = [acc_outer, acc_inner, outer, inner, inner_new, known_outer, known_inner]

class getAbsoluteVerseNumber(Contract):
    gen = gen_one
    target = M + ':BibleOrganisationalSystem.getAbsoluteVerseNumber'
    args = dict(self=ORG, BBB=StrT, C=StrT, V=StrT)
    reveal = [listing, table]
    modifies = ['self.' + PO + 'absoluteVerseDict']
    uses = [make_list]
    result = OptT(IntT)
    def pre(self, C, V): return listing_ok(self) and is_digits(C) and is_digits(V) and (len(A(self)) == 0 or table_ok(self))
    raises = {KeyError: lambda self, BBB, C: not exists(0, len(books(self)), lambda i: books(self)[i] == BBB and 1 <= int(C) and int(C) <= nc(self, i))}
    def post_number(self, BBB, C, V, result):
        return forall(0, len(books(self)), lambda i: implies(books(self)[i] == BBB,
            result == bv(CD(self), books(self), i) + cv(CD(self), BBB, int(C) - 1) + int(V) if 1 <= int(V) and int(V) <= count(self, BBB, int(C)) else result is None))
    def post_table(self): return table_ok(self)

class convertAbsoluteVerseNumber(Contract):
    gen = gen_number
    target = M + ':BibleOrganisationalSystem.convertAbsoluteVerseNumber'
    args = dict(self=ORG, avNumber=IntT)
    modifies = ['self.' + PO + 'absoluteVerseDict']
    uses = [make_list]
    result = OptT(TupleT(StrT, StrT, StrT))
    def pre(self): return listing_ok(self) and (len(A(self)) == 0 or table_ok(self))
    def post_inverse(self, avNumber, result):
        """the answer is the verse with that number"""
        return result is None or exists(0, len(books(self)), lambda i: books(self)[i] == result[0] and is_digits(result[1]) and is_digits(result[2]) and str(int(result[1])) == result[1] and str(int(result[2])) == result[2]
            and 1 <= int(result[1]) and int(result[1]) <= nc(self, i) and 1 <= int(result[2]) and int(result[2]) <= count(self, result[0], int(result[1]))
            and avNumber == bv(CD(self), books(self), i) + cv(CD(self), result[0], int(result[1]) - 1) + int(result[2]))
    def post_table(self): return table_ok(self)
    def post_none(self, avNumber, result):
        """no answer exactly when no verse has that number"""
        return result is not None or forall(0, len(books(self)), lambda i: forall(1, nc(self, i) + 1, lambda j:
            not (1 <= avNumber - bv(CD(self), books(self), i) - cv(CD(self), books(self)[i], j - 1) and avNumber - bv(CD(self), books(self), i) - cv(CD(self), books(self)[i], j - 1) <= count(self, books(self)[i], j))))
    reveal = [table]
    def none_so_far(s: 'var:obj', avNumber, k: 'k'): return forall(0, k, lambda j: not (A(s)[key_at(A(s), j)][0] <= avNumber and avNumber <= A(s)[key_at(A(s), j)][1]))
    templates = [none_so_far]

# ---- converting back gives the verse started from: chapters do not overlap
def before(cd, b, j, a): return cv(cd, b, j - 1) + int(cd[b][str(j)]) <= cv(cd, b, a)
def chapters_apart(s, b):
    n = s.getNumVersesList(b)
    for x in n: assert x >= 0
class lemma_chapters_apart(Contract):
    def gen(rng):
        s = system(rng); return dict(s=s, b=rng.choice(books(s)))
    target = 'contracts.c07:chapters_apart'
    args = dict(s=ORG, b=StrT)
    uses = [verses_of_book]
    def pre(s, b): return len(b) == 3 and b in CD(s) and regular(CD(s)[b])
    def post_positive(s, b): return forall(0, len(CD(s)[b]), lambda a: cv(CD(s), b, a) >= 0) and cv(CD(s), b, len(CD(s)[b]) - 1) >= 0
    def post_apart(s, b): return forall(0, len(CD(s)[b]), lambda a: forall(1, a + 1, lambda j: before(CD(s), b, j, a)))
    def inv(s, b, k: 'k'): return forall(0, k + 1, lambda a: forall(1, a + 1, lambda j: before(CD(s), b, j, a)))
    def positive(s, b, k: 'k'): return forall(0, k + 1, lambda a: cv(CD(s), b, a) >= 0)
    def last(s, b, k: 'k'): return cv(CD(s), b, k) >= 0 and forall(1, k + 1, lambda j: before(CD(s), b, j, k))
    templates = [last, positive, inv]

def ahead(cd, bl, i, j, a): return bv(cd, bl, i) + cv(cd, bl[i], j - 1) + int(cd[bl[i]][str(j)]) <= bv(cd, bl, a)
def books_apart(s):
    for b in s.getBookList(): chapters_apart(s, b)
class lemma_books_apart(Contract):
    def gen(rng): return dict(s=system(rng))
    target = 'contracts.c07:books_apart'
    args = dict(s=ORG)
    uses = [lemma_chapters_apart]
    reveal = [listing]
    def pre(s): return listing_ok(s)
    def post_apart(s): return forall(0, len(books(s)) + 1, lambda a: forall(0, a, lambda i: forall(1, nc(s, i) + 1, lambda j: ahead(CD(s), books(s), i, j, a))))
    def inv(s, k: 'k'): return forall(0, k + 1, lambda a: forall(0, a, lambda i: forall(1, nc(s, i) + 1, lambda j: ahead(CD(s), books(s), i, j, a))))
    def last(s, k: 'k'): return forall(0, k, lambda i: forall(1, nc(s, i) + 1, lambda j: ahead(CD(s), books(s), i, j, k)))
    def grows(s, k: 'k'): return bv(CD(s), books(s), k) >= 0 and forall(0, k, lambda i: bv(CD(s), books(s), i) <= bv(CD(s), books(s), k))
    templates = [grows, last, inv]

def apart(s, i, j, a): books_apart(s)
class lemma_apart(Contract):
    target = 'contracts.c07:apart'
    args = dict(s=ORG, i=IntT, j=IntT, a=IntT)
    uses = [lemma_books_apart]
    def pre(s, i, j, a): return listing_ok(s) and 0 <= i and i < a and a <= len(books(s)) and 1 <= j and j <= nc(s, i)
    def post_apart(s, i, j, a): return ahead(CD(s), books(s), i, j, a)

def where(s, b):
    for k, x in enumerate(s.getBookList()):
        if x == b: return k
class lemma_where(Contract):
    target = 'contracts.c07:where'
    args = dict(s=ORG, b=StrT)
    result = OptT(IntT)
    def post_found(s, b, result): return result is None or (0 <= result and result < len(books(s)) and books(s)[result] == b)
    def post_missing(s, b, result): return result is not None or forall(0, len(books(s)), lambda j: books(s)[j] != b)
    def pre(s, b): return listing_ok(s)
    reveal = [listing]
    def post_only(s, b, result): return result is None or forall(0, len(books(s)), lambda j: books(s)[j] != b or j == result)
    def post_table(s, b, result): return result is None or (len(b) == 3 and b in CD(s) and regular(CD(s)[b]))
    def inv(s, b, k: 'k'): return forall(0, k, lambda j: books(s)[j] != b)
    templates = [inv]

def there_and_back(s, i, c, v):
    b = s.getBookList()[i]
    n = s.getAbsoluteVerseNumber(b, c, v)
    if n is not None:
        r = s.convertAbsoluteVerseNumber(n)
        assert r is not None
        i2 = where(s, r[0])
        assert i2 is not None and where(s, b) == i
        chapters_apart(s, b); chapters_apart(s, r[0])
        if i2 < i: apart(s, i2, int(r[1]), i)
        if i < i2: apart(s, i, int(c), i2)
        assert i2 == i
        assert int(r[1]) == int(c)
        assert int(r[2]) == int(v)
        assert r[1] == c and r[2] == v
        assert r == (b, c, v)
class lemma_there_and_back(Contract):
    gen = gen_back
    target = 'contracts.c07:there_and_back'
    args = dict(s=ORG, i=IntT, c=StrT, v=StrT)
    modifies = ['s.' + PO + 'absoluteVerseDict']
    uses = [getAbsoluteVerseNumber, convertAbsoluteVerseNumber, lemma_apart, lemma_chapters_apart, lemma_where]
    reveal = []
    def pre(s, i, c, v):
        return (listing_ok(s) and (len(A(s)) == 0 or table_ok(s)) and is_digits(c) and str(int(c)) == c and is_digits(v) and str(int(v)) == v
                and 0 <= i and i < len(books(s)) and 1 <= int(c) and int(c) <= nc(s, i))

"""C05: versification queries agree with the loaded table."""
from pyverif.spec import *
from pyverif.contract import Contract, fact
from pyverif.values import *
from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystem as BVS
from .common import CodesStub, codes_override, BOOKS
M = 'BibleOrgSys.Reference.BibleVersificationSystems'
P = '_BibleVersificationSystem__'

BVST = ObjT(BVS, {'_systemName': StrT, P + 'chapterDataDict': DictT(StrT, DictT(StrT, StrT, True)),
                  P + 'omittedVersesDict': DictT(StrT, ListT(TupleT(StrT, StrT)))})

def CD(s): return s._BibleVersificationSystem__chapterDataDict
def OM(s): return s._BibleVersificationSystem__omittedVersesDict

def rep(s): return rep_table(CD(s))

@opaque(BoolT)
def rep_table(cd):
    """what the loader establishes: every book has a chapter count and every entry is a number"""
    return forall_keys(cd, lambda b: len(b) == 3 and 'numChapters' in cd[b] and forall_keys(cd[b], lambda c: is_digits(cd[b][c])
                                     and (c == 'numChapters' or is_digits(c))))

@recdef(IntT)
def total(d, k):
    """verses in the first k entries of a book's table"""
    return 0 if k <= 0 else total(d, k - 1) + (0 if key_at(d, k - 1) == 'numChapters' else int(d[key_at(d, k - 1)]))

@recdef(IntT)
def chapters(d, k):
    return 0 if k <= 0 else chapters(d, k - 1) + (0 if key_at(d, k - 1) == 'numChapters' else 1)

def world(rng):
    """a small versification system"""
    cd = {}; om = {}
    for b in rng.sample(BOOKS, rng.randint(0, 4)):
        n = rng.choice((1, 1, 2, 3, 11))
        cd[b] = {'numChapters': str(n), **{str(i + 1): str(rng.choice((0, 1, 2, 7, 30, 176))) for i in range(n)}}
        if rng.random() < .5: om[b] = [(str(rng.randint(1, n)), str(rng.choice((1, 2, 7)))) for _ in range(rng.randint(0, 3))]
    s = BVS.__new__(BVS)
    s.__dict__.update({'_systemName': 'test', P + 'chapterDataDict': cd, P + 'omittedVersesDict': om})
    b = rng.choice(list(cd) * 4 + BOOKS); n = len(cd.get(b, '12')); c = str(rng.choice((1, n - 1, n, rng.randint(1, n))))
    top = int(cd.get(b, {}).get(c, 5))
    v = str(rng.choice((0, 1, 2, 7, top, top + 1, 198, 199, 200))); c2 = rng.choice((c, c, c, '-1', '0', ''))
    d = dict(self=s, codes=CodesStub(set(BOOKS[:8])), referenceTuple=(b, c2, rng.choice((v, v, v, '')), ''))
    return d, [b] * 4 + [c, v], [0, 1, n - 1, n]

class _B(Contract):
    world = world
    reveal = [rep_table]
    args = dict(self=BVST, BBB=StrT, codes=CodesStub.TYPE)
    overrides = codes_override
    def pre(self, BBB): return rep(self) and len(BBB) == 3

class getNumChapters(_B):
    target = M + ':BibleVersificationSystem.getNumChapters'
    raises = {KeyError: lambda BBB, codes: BBB not in codes.valid}
    def post_table(self, BBB, result): return result == int(CD(self)[BBB]['numChapters']) if BBB in CD(self) else result is None

class isSingleChapterBook(_B):
    target = M + ':BibleVersificationSystem.isSingleChapterBook'
    raises = {KeyError: lambda BBB, codes: BBB not in codes.valid}
    def post_table(self, BBB, result): return result == (CD(self)[BBB]['numChapters'] == '1') if BBB in CD(self) else result is None

class getNumVerses(_B):
    target = M + ':BibleVersificationSystem.getNumVerses'
    args = dict(self=BVST, BBB=StrT, C=StrT, codes=CodesStub.TYPE)
    raises = {KeyError: lambda BBB, codes: BBB not in codes.valid}
    def pre(self, BBB): return rep(self)
    def post_table(self, BBB, C, result):
        return result == int(CD(self)[BBB][C]) if BBB in CD(self) and C in CD(self)[BBB] else result == 0

class getNumVerses_int(getNumVerses):
    args = dict(self=BVST, BBB=StrT, C=IntT, codes=CodesStub.TYPE)
    def post_table(self, BBB, C, result):
        return result == int(CD(self)[BBB][str(C)]) if BBB in CD(self) and str(C) in CD(self)[BBB] else result == 0

class getTotalNumVerses(_B):
    target = M + ':BibleVersificationSystem.getTotalNumVerses'
    raises = {KeyError: lambda self, BBB: BBB not in CD(self)}
    def post_total(self, BBB, result): return result == total(CD(self)[BBB], len(CD(self)[BBB]))
    def inv(t: 'int', self, BBB, k: 'idx'): return t == total(CD(self)[BBB], k)
    templates = [inv]

class getNumVersesList(_B):
    target = M + ':BibleVersificationSystem.getNumVersesList'
    raises = {KeyError: lambda self, BBB: BBB not in CD(self)}
    def post_count(self, BBB, result): return len(result) == chapters(CD(self)[BBB], len(CD(self)[BBB]))
    def post_sum(self, BBB, result): return sum(result) == total(CD(self)[BBB], len(CD(self)[BBB]))
    def post_each(self, BBB, result):
        d = CD(self)[BBB]
        return forall(0, len(d), lambda j: key_at(d, j) == 'numChapters' or result[chapters(d, j)] == int(d[key_at(d, j)]))
    def inv_count(l: 'list', self, BBB, k: 'idx'): return len(l) == chapters(CD(self)[BBB], k)
    def inv_sum(l: 'list', self, BBB, k: 'idx'): return sum(l) == total(CD(self)[BBB], k)
    def inv_each(l: 'list', self, BBB, k: 'idx'):
        d = CD(self)[BBB]
        return forall(0, k, lambda j: key_at(d, j) == 'numChapters' or (0 <= chapters(d, j) and chapters(d, j) < len(l) and l[chapters(d, j)] == int(d[key_at(d, j)])))
    templates = [inv_count, inv_sum, inv_each]

class book_count(Contract):
    world = world
    target = M + ':BibleVersificationSystem.__len__'
    args = dict(self=BVST)
    def post_table(self, result): return result == len(CD(self))

class contains_book(Contract):
    world = world
    target = M + ':BibleVersificationSystem.__contains__'
    args = dict(self=BVST, BBB=StrT)
    def post_table(self, BBB, result): return result == (BBB in CD(self))

class getOmittedVerseList(Contract):
    world = world
    target = M + ':BibleVersificationSystem.getOmittedVerseList'
    args = dict(self=BVST, BBB=StrT)
    def post_table(self, BBB, result):
        return result is None if BBB not in OM(self) else len(result) == len(OM(self)[BBB]) and forall(0, len(result), lambda i: result[i] == OM(self)[BBB][i])

class getOmittedVerseList_full(Contract):
    world = world
    target = M + ':BibleVersificationSystem.getOmittedVerseList'
    args = dict(self=BVST, BBB=StrT, fullRefs=ConstT(True))
    def pre(self, BBB): return BBB in OM(self)
    def post_table(self, BBB, result):
        o = OM(self)[BBB]
        return len(result) == len(o) and forall(0, len(o), lambda i: result[i] == (BBB, o[i][0], o[i][1]))
    def inv(l: 'list', self, BBB, k: 'idx'):
        o = OM(self)[BBB]
        return len(l) == k and forall(0, k, lambda i: l[i] == (BBB, o[i][0], o[i][1]))
    templates = [inv]

def omitted(s, b, c, v): return b in OM(s) and exists(0, len(OM(s)[b]), lambda i: OM(s)[b][i] == (c, v))

class isOmittedVerse(Contract):
    world = world
    target = M + ':BibleVersificationSystem.isOmittedVerse'
    args = dict(self=BVST, referenceTuple=TupleT(StrT, StrT, StrT, StrT))
    def post_table(self, referenceTuple, result):
        return result == omitted(self, referenceTuple[0], referenceTuple[1], referenceTuple[2])

class isOmittedVerse_int(isOmittedVerse):
    def world(rng):
        d, s, i = world(rng); b, c, v, _ = d['referenceTuple']
        d['referenceTuple'] = (b, int(c or '3'), int(v or '3'), '')
        return d, s, i
    args = dict(self=BVST, referenceTuple=TupleT(StrT, IntT, IntT, StrT))
    def post_table(self, referenceTuple, result):
        return result == omitted(self, referenceTuple[0], str(referenceTuple[1]), str(referenceTuple[2]))

class isValidBCVRef(Contract):
    world = world
    target = M + ':BibleVersificationSystem.isValidBCVRef'
    args = dict(self=BVST, referenceTuple=TupleT(StrT, StrT, StrT, StrT), referenceString=OptT(StrT), extended=BoolT)
    uses = [isOmittedVerse]
    reveal = [rep_table]
    def pre(self, referenceTuple, extended):
        return (rep(self) and len(referenceTuple[0]) == 3 and (referenceTuple[2] == '' or is_digits(referenceTuple[2])) and referenceTuple[3] == ''
                and referenceTuple[1] != 'numChapters' and not (extended and referenceTuple[1] == '-1' and referenceTuple[2] == ''))
    def post_table(self, referenceTuple, extended, result):
        b, c, v = referenceTuple[0], referenceTuple[1], referenceTuple[2]
        if b not in CD(self): return not result
        if extended and c == '-1': return result == (int(v) <= 199)
        if c not in CD(self)[b]: return not result
        if v == '' or (extended and v == '0'): return result == True
        return result == (1 <= int(v) and int(v) <= int(CD(self)[b][c]) and not omitted(self, b, c, v))


@fact
def loaded_tables_are_wellformed():
    """every loaded versification table satisfies the representation invariant assumed above, over valid book codes, and omits only verses it has"""
    import BibleOrgSys.BibleOrgSysGlobals as G
    from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystems
    G.preloadCommonData()
    names = BibleVersificationSystems().loadData().getAvailableVersificationSystemNames()
    if len(names) < 5: return f'only {len(names)} systems loaded'
    for n in names:
        s = BVS(n)
        if not rep(s): return n
        for b, d in CD(s).items():
            if not G.loadedBibleBooksCodes.isValidBBB(b): return f'{n}: {b}'
        for b, l in OM(s).items():
            if b not in CD(s): return f'{n}: omitted verses of {b}'
            for c, v in l:
                if c not in CD(s)[b] or not (1 <= int(v) <= int(CD(s)[b][c])): return f'{n}: omitted verse {b} {c}:{v}'

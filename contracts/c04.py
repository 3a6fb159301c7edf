"""C04: book code lookups agree with the loaded tables, in both directions."""
from pyverif.spec import *
from pyverif.contract import Contract, fact
from pyverif.values import *
import BibleOrgSys.BibleOrgSysGlobals as G_
from BibleOrgSys.Reference.BibleBooksCodes import BibleBooksCodes as _single
M = 'BibleOrgSys.Reference.BibleBooksCodes'
BBC = type(_single())

REC = RecT({'referenceNumber': IntT, 'referenceAbbreviation': StrT})
OS = OptT(StrT)
RECA = RecT({'referenceNumber': IntT, 'shortAbbreviation': OS, 'SBLAbbreviation': OS, 'OSISAbbreviation': OS, 'SwordAbbreviation': OS,
             'USFMAbbreviation': OS, 'numExpectedChapters': OS})
HIT = TupleT(IntT, UnionT(StrT, ListT(StrT)))
HIT1 = TupleT(IntT, StrT)
def typ(*names):
    t = {'referenceNumberDict': DictT(IntT, REC), 'referenceAbbreviationDict': DictT(StrT, RECA, True), 'sequenceList': ListT(StrT),
         'shortAbbreviationDict': DictT(StrT, HIT), 'SBLAbbreviationDict': DictT(StrT, HIT), 'OSISAbbreviationDict': DictT(StrT, HIT),
         'SwordAbbreviationDict': DictT(StrT, HIT), 'NETBibleAbbreviationDict': DictT(StrT, HIT), 'DrupalBibleAbbreviationDict': DictT(StrT, HIT),
         'UnboundCodeDict': DictT(StrT, HIT1), 'USFMAbbreviationDict': DictT(StrT, HIT), 'allAbbreviationsDict': DictT(StrT, StrT)}
    return ObjT(BBC, {'_BibleBooksCodes__DataDicts': RecT({n: t[n] for n in names})})

def D(s, n): return s._BibleBooksCodes__DataDicts[n]
def RA(s): return D(s, 'referenceAbbreviationDict')
def RN(s): return D(s, 'referenceNumberDict')

def numbers_ok(s):
    """reference numbers and three-character codes are in one-to-one correspondence"""
    return (forall_keys(RA(s), lambda b: len(b) == 3 and 1 <= RA(s)[b]['referenceNumber'] and RA(s)[b]['referenceNumber'] <= 999
                        and RA(s)[b]['referenceNumber'] in RN(s) and RN(s)[RA(s)[b]['referenceNumber']]['referenceAbbreviation'] == b)
            and forall_keys(RN(s), lambda n: RN(s)[n]['referenceAbbreviation'] in RA(s) and RA(s)[RN(s)[n]['referenceAbbreviation']]['referenceNumber'] == n)
            and len(RA(s)) == len(RN(s)))

def world(rng):
    """the loaded code tables, cut down to a few books"""
    import copy
    full = table()
    bs = rng.sample(sorted(RA(full)), rng.randint(1, 6)) + rng.sample(['GEN', 'ESA', 'PSA', 'PS2', 'LJE', 'JDG', 'SA1'], 2)
    if rng.random() < .3: bs = list(bs) + list(NAMED)
    bs = [b for i, b in enumerate(bs) if b in RA(full) and b not in bs[:i]]
    d = {'referenceAbbreviationDict': {b: dict(RA(full)[b]) for b in bs}, 'sequenceList': [b for b in D(full, 'sequenceList') if b in bs]}
    d['referenceNumberDict'] = {r['referenceNumber']: dict(RN(full)[r['referenceNumber']]) for r in d['referenceAbbreviationDict'].values()}
    near = []
    for n in full._BibleBooksCodes__DataDicts:
        if n in d: continue
        t = D(full, n)
        if not isinstance(t, dict): continue
        ks = rng.sample(sorted(t), min(len(t), 5)) + [k for k in t if (t[k] if isinstance(t[k], str) else t[k][1]) in bs][:12]
        d[n] = {k: copy.copy(t[k]) for k in ks if n != 'allAbbreviationsDict' or t[k] in bs}
        near += list(d[n])[:6] + list(d[n])[-3:]
    s = BBC.__new__(BBC); s.__dict__['_BibleBooksCodes__DataDicts'] = d
    nums = list(d['referenceNumberDict'])
    ref = lambda: (rng.choice(bs), str(rng.choice((0, 1, 2, 50, 99, 100, 101, 150, 200))), str(rng.choice((0, 1, 2, 99, 100, 101, 176, 200))))
    return dict(self=s, bc=s, a=ref(), b=ref()), bs * 3 + near + [str(n) for n in nums] + [' '.join(rng.sample(bs, 2))], nums * 2 + [0, 999, 1000]

class _N(Contract):
    world = world
    args = dict(self=typ('referenceNumberDict', 'referenceAbbreviationDict'), BBB=StrT)
    def pre(self): return numbers_ok(self)

class isValidBBB(_N):
    target = M + ':BibleBooksCodes.isValidBBB'
    def post(self, BBB, result): return result == (BBB in RA(self))
class contains(isValidBBB):
    target = M + ':BibleBooksCodes.__contains__'
class length(_N):
    target = M + ':BibleBooksCodes.__len__'
    def post(self, result): return result == len(RA(self))
class iterate(_N):
    target = M + ':BibleBooksCodes.__iter__'
    def post(self, result):
        return len(result) == len(RA(self)) and forall(0, len(result), lambda i: result[i] == key_at(RA(self), i))
    def inv(l: 'list', self, k: 'idx'): return len(l) == k and forall(0, k, lambda i: l[i] == key_at(RA(self), i))
    templates = [inv]
class getAllReferenceAbbreviations(iterate):
    target = M + ':BibleBooksCodes.getAllReferenceAbbreviations'

class getReferenceNumber(_N):
    target = M + ':BibleBooksCodes.getReferenceNumber'
    raises = {KeyError: lambda self, BBB: BBB not in RA(self)}
    def post(self, BBB, result): return result == RA(self)[BBB]['referenceNumber']

class getBBBFromReferenceNumber(_N):
    target = M + ':BibleBooksCodes.getBBBFromReferenceNumber'
    args = dict(self=typ('referenceNumberDict', 'referenceAbbreviationDict'), referenceNumber=IntT)
    raises = {ValueError: lambda referenceNumber: not (1 <= referenceNumber and referenceNumber <= 999),
              KeyError: lambda self, referenceNumber: 1 <= referenceNumber and referenceNumber <= 999 and referenceNumber not in RN(self)}
    def post(self, referenceNumber, result): return result == RN(self)[referenceNumber]['referenceAbbreviation']
class getBBBFromReferenceNumber_str(_N):
    target = M + ':BibleBooksCodes.getBBBFromReferenceNumber'
    args = dict(self=typ('referenceNumberDict', 'referenceAbbreviationDict'), referenceNumber=StrT)
    raises = {ValueError: lambda referenceNumber: not (1 <= int(referenceNumber) and int(referenceNumber) <= 999),
              KeyError: lambda self, referenceNumber: 1 <= int(referenceNumber) and int(referenceNumber) <= 999 and int(referenceNumber) not in RN(self)}
    def pre(self, referenceNumber): return numbers_ok(self) and is_digits(referenceNumber)
    def post(self, referenceNumber, result): return result == RN(self)[int(referenceNumber)]['referenceAbbreviation']

def number_round_trip(bc, BBB, n):
    assert bc.getBBBFromReferenceNumber(bc.getReferenceNumber(BBB)) == BBB
    assert bc.getReferenceNumber(bc.getBBBFromReferenceNumber(n)) == n
class lemma_number_round_trip(Contract):
    world = world
    target = 'contracts.c04:number_round_trip'
    args = dict(bc=typ('referenceNumberDict', 'referenceAbbreviationDict'), BBB=StrT, n=IntT)
    def pre(bc, BBB, n): return numbers_ok(bc) and BBB in RA(bc) and n in RN(bc) and 1 <= n and n <= 999

def order_numbers(bc, a, b):
    ra = bc.getReferenceNumber(a); rb = bc.getReferenceNumber(b)
    assert (ra == rb) == (a == b)
class lemma_numbers_distinct(Contract):
    def world(rng):
        d, s, i = world(rng); a, b = rng.choice(list(RA(d['bc']))), rng.choice(list(RA(d['bc'])))
        d.update(a=a, b=b); return d, s, i
    target = 'contracts.c04:order_numbers'
    args = dict(bc=typ('referenceNumberDict', 'referenceAbbreviationDict'), a=StrT, b=StrT)
    def pre(bc, a, b): return numbers_ok(bc) and a in RA(bc) and b in RA(bc)

# ---- abbreviations
def up(s): return s.upper()
class getBBBFromUSFMAbbreviation(Contract):
    world = world
    target = M + ':BibleBooksCodes.getBBBFromUSFMAbbreviation'
    args = dict(self=typ('USFMAbbreviationDict'), USFMAbbreviation=StrT)
    def pre(self):
        d = D(self, 'USFMAbbreviationDict')
        return forall_keys(d, lambda k: implies(isinstance(d[k][1], list), len(d[k][1]) > 0))
    raises = {AssertionError: lambda USFMAbbreviation: len(USFMAbbreviation) != 3,
              KeyError: lambda self, USFMAbbreviation: len(USFMAbbreviation) == 3 and USFMAbbreviation.upper() not in D(self, 'USFMAbbreviationDict')}
    def post(self, USFMAbbreviation, result):
        h = D(self, 'USFMAbbreviationDict')[USFMAbbreviation.upper()][1]
        return result == (h if isinstance(h, str) else h[0])

class getBBBFromOSISAbbreviation(Contract):
    world = world
    target = M + ':BibleBooksCodes.getBBBFromOSISAbbreviation'
    args = dict(self=typ('OSISAbbreviationDict', 'SwordAbbreviationDict'), osisAbbreviation=StrT, strict=BoolT)
    raises = {KeyError: lambda self, osisAbbreviation, strict: osisAbbreviation.upper() not in D(self, 'OSISAbbreviationDict')
              and (strict or osisAbbreviation.upper() not in D(self, 'SwordAbbreviationDict'))}
    def post(self, osisAbbreviation, result):
        u = osisAbbreviation.upper()
        return result == (D(self, 'OSISAbbreviationDict')[u][1] if u in D(self, 'OSISAbbreviationDict') else D(self, 'SwordAbbreviationDict')[u][1])

def short_hit(s, a, strict):
    u = a.upper(); v = u.replace(' ', '')
    sd = D(s, 'shortAbbreviationDict')
    if u in sd: return 1
    if strict: return 0
    return 2 if v in sd else 3 if u in D(s, 'SBLAbbreviationDict') else 4 if u in D(s, 'NETBibleAbbreviationDict') else 0
class getBBBFromShortAbbreviation(Contract):
    world = world
    target = M + ':BibleBooksCodes.getBBBFromShortAbbreviation'
    args = dict(self=typ('shortAbbreviationDict', 'SBLAbbreviationDict', 'NETBibleAbbreviationDict'), shortAbbreviation=StrT, strict=BoolT)
    raises = {KeyError: lambda self, shortAbbreviation, strict: short_hit(self, shortAbbreviation, strict) == 0}
    def post(self, shortAbbreviation, strict, result):
        u = shortAbbreviation.upper(); h = short_hit(self, shortAbbreviation, strict)
        return (result == D(self, 'shortAbbreviationDict')[u][1] if h == 1 else result == D(self, 'shortAbbreviationDict')[u.replace(' ', '')][1] if h == 2
                else result == D(self, 'SBLAbbreviationDict')[u][1] if h == 3 else result == D(self, 'NETBibleAbbreviationDict')[u][1])

class getBBBFromUnboundBibleCode(Contract):
    world = world
    target = M + ':BibleBooksCodes.getBBBFromUnboundBibleCode'
    args = dict(self=typ('UnboundCodeDict'), UnboundBibleCode=StrT)
    raises = {KeyError: lambda self, UnboundBibleCode: UnboundBibleCode.upper() not in D(self, 'UnboundCodeDict')}
    def post(self, UnboundBibleCode, result): return result == D(self, 'UnboundCodeDict')[UnboundBibleCode.upper()][1]
class getBBBFromDrupalBibleCode(Contract):
    world = world
    target = M + ':BibleBooksCodes.getBBBFromDrupalBibleCode'
    args = dict(self=typ('DrupalBibleAbbreviationDict'), DrupalBibleCode=StrT)
    raises = {KeyError: lambda self, DrupalBibleCode: DrupalBibleCode.upper() not in D(self, 'DrupalBibleAbbreviationDict')}
    def post(self, DrupalBibleCode, result): return result == D(self, 'DrupalBibleAbbreviationDict')[DrupalBibleCode.upper()][1]

class _field(Contract):
    world = world
    args = dict(self=typ('referenceAbbreviationDict'), BBB=StrT)
    raises = {KeyError: lambda self, BBB: BBB not in RA(self)}
class getShortAbbreviation(_field):
    target = M + ':BibleBooksCodes.getShortAbbreviation'
    def post(self, BBB, result): return result == RA(self)[BBB]['shortAbbreviation']
class getSBLAbbreviation(_field):
    target = M + ':BibleBooksCodes.getSBLAbbreviation'
    def post(self, BBB, result): return result == RA(self)[BBB]['SBLAbbreviation']
class getOSISAbbreviation(_field):
    target = M + ':BibleBooksCodes.getOSISAbbreviation'
    def post(self, BBB, result): return result == RA(self)[BBB]['OSISAbbreviation']
class getSwordAbbreviation(_field):
    target = M + ':BibleBooksCodes.getSwordAbbreviation'
    def post(self, BBB, result): return result == RA(self)[BBB]['SwordAbbreviation']
class getUSFMAbbreviation(_field):
    target = M + ':BibleBooksCodes.getUSFMAbbreviation'
    def post(self, BBB, result): return result == RA(self)[BBB]['USFMAbbreviation']
class isSingleChapterBook(_field):
    target = M + ':BibleBooksCodes.isSingleChapterBook'
    def post(self, BBB, result): return result == (RA(self)[BBB]['numExpectedChapters'] == '1')
class isChapterVerseBook(_field):
    target = M + ':BibleBooksCodes.isChapterVerseBook'
    def post(self, BBB, result): return result == (RA(self)[BBB]['numExpectedChapters'] is not None)

class getBBBFromText(Contract):
    world = world
    target = M + ':BibleBooksCodes.getBBBFromText'
    args = dict(self=typ('referenceAbbreviationDict', 'allAbbreviationsDict'), someText=StrT)
    weight = 5
    def pre(self):
        return (forall_keys(D(self, 'allAbbreviationsDict'), lambda a: D(self, 'allAbbreviationsDict')[a] in RA(self)) and has_named(RA(self)))
    def post_valid(self, result): return result is None or result in RA(self)
    def post_code(self, someText, result): return implies(someText.upper() in RA(self), result == someText.upper())
    def post_abbreviation(self, someText, result):
        u = someText.upper(); d = D(self, 'allAbbreviationsDict')
        return u in RA(self) or u not in d or result == d[u]
    def inv(n: 'int', found: 'opt', self, k: 'idx'): return 0 <= n and n <= k and (n == 0 or found in RA(self))
    templates = [inv]
NAMED = ('LJE', 'DEU', 'JDG', 'SA1', 'SA2', 'CH1', 'CH2', 'ECC', 'LAM', 'HAB', 'ZEP', 'ZEC', 'ROM', 'CO1', 'CO2', 'TI1', 'TI2', 'KI1', 'KI2', 'SNG',
         'MRK', 'PHP', 'TH1', 'TH2', 'PHM', 'PE1', 'PE2', 'PS2')
def has_named(ra):
    return ('LJE' in ra and 'DEU' in ra and 'JDG' in ra and 'SA1' in ra and 'SA2' in ra and 'CH1' in ra and 'CH2' in ra and 'ECC' in ra and 'LAM' in ra
            and 'HAB' in ra and 'ZEP' in ra and 'ZEC' in ra and 'ROM' in ra and 'CO1' in ra and 'CO2' in ra and 'TI1' in ra and 'TI2' in ra and 'KI1' in ra
            and 'KI2' in ra and 'SNG' in ra and 'MRK' in ra and 'PHP' in ra and 'TH1' in ra and 'TH2' in ra and 'PHM' in ra and 'PE1' in ra and 'PE2' in ra
            and 'PS2' in ra)

# ---- sequences
class getSequenceList_all(Contract):
    world = world
    target = M + ':BibleBooksCodes.getSequenceList'
    args = dict(self=typ('sequenceList'))
    def post(self, result):
        s = D(self, 'sequenceList')
        return len(result) == len(s) and forall(0, len(s), lambda i: result[i] == s[i])

class getSingleChapterBooksList(Contract):
    world = world
    target = M + ':BibleBooksCodes.getSingleChapterBooksList'
    args = dict(self=typ('referenceAbbreviationDict'))
    def post_sound(self, result): return forall(0, len(result), lambda i: result[i] in RA(self) and RA(self)[result[i]]['numExpectedChapters'] == '1')
    def post_complete(self, result): return forall_keys(RA(self), lambda b: implies(RA(self)[b]['numExpectedChapters'] == '1', b in result))
    def inv_sound(l: 'list', self, k: 'idx'): return forall(0, len(l), lambda i: l[i] in RA(self) and RA(self)[l[i]]['numExpectedChapters'] == '1')
    def inv_complete(l: 'list', self, k: 'idx'): return forall(0, k, lambda i: implies(RA(self)[key_at(RA(self), i)]['numExpectedChapters'] == '1', key_at(RA(self), i) in l))
    templates = [inv_sound, inv_complete]

class getExpectedChaptersList(_field):
    target = M + ':BibleBooksCodes.getExpectedChaptersList'
    def pre(self): return forall_keys(RA(self), lambda b: RA(self)[b]['numExpectedChapters'] is None or len(RA(self)[b]['numExpectedChapters']) > 0)
    def post(self, BBB, result):
        e = RA(self)[BBB]['numExpectedChapters']
        return len(result) == 0 if e is None else len(result) == len(e.split(',')) and forall(0, len(result), lambda i: result[i] == e.split(',')[i])
    def inv(l: 'list', self, BBB, k: 'idx'):
        p = RA(self)[BBB]['numExpectedChapters'].split(',')
        return len(l) == k and forall(0, k, lambda i: l[i] == p[i])
    templates = [inv]

# ---- references as sort keys
def before(bc, a, b):
    """canonical order of two (book, chapter, verse) references"""
    ra = RA(bc)[a[0]]['referenceNumber']; rb = RA(bc)[b[0]]['referenceNumber']
    ca = int(a[1]); cb = int(b[1]); va = int(a[2]); vb = int(b[2])
    return ra < rb or ra == rb and (ca < cb or ca == cb and va < vb)
def in_range(bc, t): return t[0] in RA(bc) and is_digits(t[1]) and is_digits(t[2]) and int(t[1]) <= 200 and int(t[2]) <= 200
def order_of_references(bc, a, b):
    x = bc.BCVReferenceToInt(a); y = bc.BCVReferenceToInt(b)
    assert (x < y) == before(bc, a, b)
class lemma_reference_order(Contract):
    world = world
    target = 'contracts.c04:order_of_references'
    args = dict(bc=typ('referenceNumberDict', 'referenceAbbreviationDict'), a=TupleT(StrT, StrT, StrT), b=TupleT(StrT, StrT, StrT))
    def pre(bc, a, b): return numbers_ok(bc) and in_range(bc, a) and in_range(bc, b)

# ---- the loaded tables
def table(): return G_.loadedBibleBooksCodes if getattr(G_, 'loadedBibleBooksCodes', None) is not None else (G_.preloadCommonData(), G_.loadedBibleBooksCodes)[1]

@fact
def loaded_numbers_one_to_one():
    """the loaded reference numbers and three-character book codes are in one-to-one correspondence"""
    s = table()
    if not numbers_ok(s): return 'numbers_ok is false for the loaded tables'
    for b in RA(s):
        if s.getBBBFromReferenceNumber(s.getReferenceNumber(b)) != b: return b
        if b != b.upper() or not b.isalnum(): return f'{b!r} is not an upper-case code'

@fact
def loaded_abbreviations_name_books():
    """every abbreviation table entry names a loaded book (or a non-empty list of them) with the number of that book, keyed in upper case"""
    s = table()
    for n in s._BibleBooksCodes__DataDicts:
        if not n.endswith('AbbreviationDict') or n == 'referenceAbbreviationDict': continue
        for a, v in D(s, n).items():
            if a != a.upper(): return f'{n}: {a!r} is not upper case'
            for b in ([v[1]] if isinstance(v[1], str) else v[1]):
                if b not in RA(s): return f'{n}[{a!r}] names {b!r}'
            if isinstance(v[1], list) and not v[1]: return f'{n}[{a!r}] is empty'
            if isinstance(v[1], str) and RA(s)[v[1]]['referenceNumber'] != v[0]: return f'{n}[{a!r}] number {v[0]}'
    for a, b in D(s, 'allAbbreviationsDict').items():
        if b not in RA(s): return f'allAbbreviationsDict[{a!r}] names {b!r}'
    if not has_named(RA(s)): return 'a book named in getBBBFromText is not loaded'

@fact
def loaded_abbreviations_round_trip():
    """a book's own abbreviation looks up to that book (or to a list of books containing it)"""
    s = table()
    for f, n in (('shortAbbreviation', 'shortAbbreviationDict'), ('SBLAbbreviation', 'SBLAbbreviationDict'), ('OSISAbbreviation', 'OSISAbbreviationDict'),
                 ('SwordAbbreviation', 'SwordAbbreviationDict'), ('USFMAbbreviation', 'USFMAbbreviationDict'), ('NETBibleAbbreviation', 'NETBibleAbbreviationDict'),
                 ('DrupalBibleAbbreviation', 'DrupalBibleAbbreviationDict'), ('ByzantineAbbreviation', 'ByzantineAbbreviationDict')):
        for b in RA(s):
            a = RA(s)[b][f]
            if a is None: continue
            if a.upper() not in D(s, n): return f'{n} lacks {a!r} of {b}'
            h = D(s, n)[a.upper()][1]
            if not (h == b if isinstance(h, str) else b in h): return f'{n}[{a!r}] is {h!r}, not {b}'

@fact
def loaded_sequence_complete():
    """the sequence list is a permutation of the loaded books"""
    s = table()
    if sorted(D(s, 'sequenceList')) != sorted(RA(s)): return 'sequenceList'

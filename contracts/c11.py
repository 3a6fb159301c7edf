"""C11: every query about a USFM marker answers from the one table of markers; and the markers found in a text are those written there."""
from pyverif.spec import *
from pyverif.contract import Contract, fact
from pyverif.values import *
from BibleOrgSys.Reference.USFM3Markers import USFM3Markers as _make
M = 'BibleOrgSys.Reference.USFM3Markers'
C = 'contracts.c11'
MK = type(_make())
P = '_USFM3Markers__DataDict'

RAW = RecT({'compulsoryFlag': BoolT, 'level': StrT, 'highestNumberSuffix': StrT, 'nestsFlag': BoolT, 'hasContent': StrT, 'occursIn': StrT, 'printedFlag': BoolT,
            'closed': StrT, 'deprecatedFlag': BoolT, 'description': OptT(StrT), 'nameEnglish': StrT})
LS = ListT(StrT)
TABLES = RecT({'rawMarkerDict': DictT(StrT, RAW, ordered=True), 'numberedMarkerList': LS, 'combinedMarkerDict': DictT(StrT, StrT), 'conversionDict': DictT(StrT, StrT),
               'newlineMarkersList': LS, 'numberedNewlineMarkersList': LS, 'combinedNewlineMarkersList': LS, 'internalMarkersList': LS, 'noteMarkersList': LS, 'deprecatedMarkersList': LS})
MKT = ObjT(MK, {P: TABLES})
def T_(s): return getattr(s, P)
def has(s, m): return m in T_(s)['combinedMarkerDict']
def raw(s, m): return T_(s)['combinedMarkerDict'][m]
def row(s, m): return T_(s)['rawMarkerDict'][raw(s, m)]
def rep(s):
    """what loading establishes (fact table_is_loaded_whole): every marker has a row, with values of the fixed sets"""
    return (forall_keys(T_(s)['combinedMarkerDict'], lambda m: raw(s, m) in T_(s)['rawMarkerDict'] and raw(s, m) in T_(s)['combinedMarkerDict'])
            and forall_keys(T_(s)['rawMarkerDict'], lambda m: T_(s)['rawMarkerDict'][m]['closed'] in ('No', 'Always', 'Optional', 'Self')
                            and T_(s)['rawMarkerDict'][m]['hasContent'] in ('Never', 'Always', 'Sometimes') and m in T_(s)['combinedMarkerDict'])
            and forall_keys(T_(s)['conversionDict'], lambda m: m in T_(s)['combinedMarkerDict']))

def numbered_form(r, i):
    """q and 2 give q2; a milestone has its number before the -s or -e"""
    return r[:-2] + str(i) + r[-2:] if r.endswith(('-s', '-e')) else r + str(i)
def loaded():
    s = MK(); s.loadData(); return s
@fact
def table_is_loaded_whole():
    """the marker tables shipped satisfy the invariant of the contracts; numbered, raw and combined views agree"""
    s = loaded(); t = T_(s)
    if not rep(s): return 'rep'
    for m, r in t['combinedMarkerDict'].items():
        if r != m and m not in [numbered_form(r, i) for i in range(1, int(t['rawMarkerDict'][r]['highestNumberSuffix']) + 1)]: return (m, r)
    for m, r in t['rawMarkerDict'].items():
        if t['combinedMarkerDict'].get(m) != m: return m
        n = r['highestNumberSuffix']
        if n != 'None' and any(t['combinedMarkerDict'].get(numbered_form(m, i)) != m for i in range(1, int(n) + 1)): return (m, n)
        lists = [l for l in ('newlineMarkersList', 'internalMarkersList', 'noteMarkersList') if m in t[l]]
        if r['level'] == 'Newline' and lists != ['newlineMarkersList']: return (m, lists)
        if r['level'] != 'Newline' and lists not in (['internalMarkersList'], ['noteMarkersList']): return (m, lists)
    for l in ('newlineMarkersList', 'internalMarkersList', 'noteMarkersList', 'numberedMarkerList', 'numberedNewlineMarkersList', 'combinedNewlineMarkersList'):
        if len(set(t[l])) != len(t[l]): return l
        if any(m not in t['combinedMarkerDict'] for m in t[l]): return l
    for m, n in t['conversionDict'].items():
        if t['combinedMarkerDict'].get(n) != m or n != numbered_form(m, 1): return (m, n)
    for m in t['combinedNewlineMarkersList']:
        if t['combinedMarkerDict'][m] not in t['newlineMarkersList']: return m

def some_table(rng):
    ms = ['id', 'p', 'q', 's', 'add', 'f', 'fr', 'w', 'pr', 'h']; raws = rng.sample(ms, rng.randint(1, 6))
    t = {'rawMarkerDict': {}, 'numberedMarkerList': [], 'combinedMarkerDict': {}, 'conversionDict': {}}
    for m in raws:
        n = rng.choice(('None', 'None', '1', '3'))
        t['rawMarkerDict'][m] = {'compulsoryFlag': rng.random() < .5, 'level': rng.choice(('Newline', 'Internal', 'Note')), 'highestNumberSuffix': n, 'nestsFlag': rng.random() < .5,
            'hasContent': rng.choice(('Never', 'Always', 'Sometimes')), 'occursIn': rng.choice(('Text', 'Canonical Text', 'Footnote', 'Header', 'Introduction')),
            'printedFlag': rng.random() < .5, 'closed': rng.choice(('No', 'Always', 'Optional', 'Self')), 'deprecatedFlag': rng.random() < .5, 'description': rng.choice((None, 'some ' + m)), 'nameEnglish': 'name ' + m}
        t['combinedMarkerDict'][m] = m
        if n != 'None':
            t['conversionDict'][m] = m + '1'
            for i in range(1, int(n) + 1): t['combinedMarkerDict'][m + str(i)] = m
    for l in ('newlineMarkersList', 'numberedNewlineMarkersList', 'combinedNewlineMarkersList', 'internalMarkersList', 'noteMarkersList', 'deprecatedMarkersList', 'numberedMarkerList'):
        pool = raws if l[:6] != 'number' and l[:8] != 'combined' else list(t['combinedMarkerDict'])
        t[l] = rng.sample(pool, rng.randint(0, len(pool)))
    s = MK.__new__(MK); s.__dict__[P] = t
    return s
REAL = []
def world(rng):
    if rng.random() < .3:
        if not REAL: REAL.append(loaded())
        s = REAL[0]
    else: s = some_table(rng)
    ms = list(T_(s)['combinedMarkerDict'])
    return dict(self=s, marker=rng.choice(ms + ['zz', 'q9', '', 'p'])), ms, []

class _Q(Contract):
    world = world
    args = dict(self=MKT, marker=StrT)
    def pre(self): return rep(self)
class toRaw(_Q):
    target = M + ':USFM3Markers.toRawMarker'
    raises = {KeyError: lambda self, marker: not has(self, marker)}
    def post(self, marker, result): return result == raw(self, marker)
class valid(_Q):
    target = M + ':USFM3Markers.isValidMarker'
    def post(self, marker, result): return result == has(self, marker)
class contains(_Q):
    target = M + ':USFM3Markers.__contains__'
    def post(self, marker, result): return result == has(self, marker)
class length(_Q):
    target = M + ':USFM3Markers.__len__'
    args = dict(self=MKT)
    def post(self, result): return result == len(T_(self)['combinedMarkerDict'])
class numbered(_Q):
    target = M + ':USFM3Markers.__getitem__'
    args = dict(self=MKT, keyIndex=IntT)
    raises = {IndexError: lambda self, keyIndex: not (-len(T_(self)['numberedMarkerList']) <= keyIndex and keyIndex < len(T_(self)['numberedMarkerList']))}
    def post(self, keyIndex, result): return result == T_(self)['numberedMarkerList'][keyIndex if keyIndex >= 0 else len(T_(self)['numberedMarkerList']) + keyIndex]
class newline(_Q):
    target = M + ':USFM3Markers.isNewlineMarker'
    def post(self, marker, result): return result == (has(self, marker) and raw(self, marker) in T_(self)['combinedNewlineMarkersList'])
class internal(_Q):
    target = M + ':USFM3Markers.isInternalMarker'
    def post(self, marker, result): return result == (has(self, marker) and raw(self, marker) in T_(self)['internalMarkersList'])
class note(_Q):
    target = M + ':USFM3Markers.isNoteMarker'
    def post(self, marker, result): return result == (has(self, marker) and raw(self, marker) in T_(self)['noteMarkersList'])
class deprecated(_Q):
    target = M + ':USFM3Markers.isDeprecatedMarker'
    def post(self, marker, result): return result == (marker in T_(self)['deprecatedMarkersList'])
class compulsory(_Q):
    target = M + ':USFM3Markers.isCompulsoryMarker'
    def post(self, marker, result): return result == (has(self, marker) and row(self, marker)['compulsoryFlag'])
class numberable(_Q):
    target = M + ':USFM3Markers.isNumberableMarker'
    def post(self, marker, result): return result == (has(self, marker) and row(self, marker)['highestNumberSuffix'] != 'None')
class nesting(_Q):
    target = M + ':USFM3Markers.isNestingMarker'
    def post(self, marker, result): return result == (has(self, marker) and row(self, marker)['nestsFlag'])
class printed(_Q):
    target = M + ':USFM3Markers.isPrinted'
    def post(self, marker, result): return result == (has(self, marker) and row(self, marker)['printedFlag'])
class closure(_Q):
    """N, A, O or S as the table says never, always, optionally or self-closed"""
    target = M + ':USFM3Markers.getMarkerClosureType'
    def post(self, marker, result):
        if not has(self, marker): return result == False
        c = row(self, marker)['closed']
        return c == 'No' and result == 'N' or c == 'Always' and result == 'A' or c == 'Optional' and result == 'O' or c == 'Self' and result == 'S'
class content(_Q):
    target = M + ':USFM3Markers.getMarkerContentType'
    def post(self, marker, result):
        if not has(self, marker): return result == False
        c = row(self, marker)['hasContent']
        return c == 'Never' and result == 'N' or c == 'Always' and result == 'A' or c == 'Sometimes' and result == 'S'
class standard(_Q):
    target = M + ':USFM3Markers.toStandardMarker'
    raises = {KeyError: lambda self, marker: not has(self, marker)}
    def post(self, marker, result):
        if marker in T_(self)['conversionDict']: return result == T_(self)['conversionDict'][marker]
        return result == marker
class occurs(_Q):
    target = M + ':USFM3Markers.markerOccursIn'
    raises = {KeyError: lambda self, marker: not has(self, marker)}
    def post(self, marker, result): return result == row(self, marker)['occursIn']
class name(_Q):
    target = M + ':USFM3Markers.getMarkerEnglishName'
    raises = {KeyError: lambda self, marker: not has(self, marker)}
    def post(self, marker, result): return result == row(self, marker)['nameEnglish']
class description(_Q):
    target = M + ':USFM3Markers.getMarkerDescription'
    raises = {KeyError: lambda self, marker: not has(self, marker)}
    def post(self, marker, result): return result == row(self, marker)['description']
class occurs_list(_Q):
    """each place a marker occurs in, once"""
    target = M + ':USFM3Markers.getOccursInList'
    args = dict(self=MKT)
    def post_all(self, result): return forall(0, len(T_(self)['rawMarkerDict']), lambda i: T_(self)['rawMarkerDict'][key_at(T_(self)['rawMarkerDict'], i)]['occursIn'] in result)
    def post_once(self, result): return forall(0, len(result), lambda i: forall(0, i, lambda j: result[i] != result[j]))
    def all(l: 'list', self, k: 'k'): return forall(0, k, lambda i: T_(self)['rawMarkerDict'][key_at(T_(self)['rawMarkerDict'], i)]['occursIn'] in l)
    def once(l: 'list'): return forall(0, len(l), lambda i: forall(0, i, lambda j: l[i] != l[j]))
    templates = [all, once]
class newline_lists(_Q):
    """the list asked for"""
    target = M + ':USFM3Markers.getNewlineMarkersList'
    args = dict(self=MKT, option=StrT)
    def world(rng):
        return dict(world(rng)[0], option=rng.choice(('Raw', 'Numbered', 'Combined', 'x'))), [], []
    def pre(self, option): return rep(self) and option != 'CanonicalText'
    raises = {AssertionError: lambda option: option not in ('Raw', 'Numbered', 'Combined', 'CanonicalText')}
    def post(self, option, result):
        t = T_(self)
        return option == 'Raw' and result == t['newlineMarkersList'] or option == 'Numbered' and result == t['numberedNewlineMarkersList'] or option == 'Combined' and result == t['combinedNewlineMarkersList']
class internal_list(_Q):
    target = M + ':USFM3Markers.getInternalMarkersList'
    args = dict(self=MKT)
    def post(self, result): return result == T_(self)['internalMarkersList']
class note_list(_Q):
    target = M + ':USFM3Markers.getNoteMarkersList'
    args = dict(self=MKT)
    def post(self, result): return result == T_(self)['noteMarkersList']

class canonical_list(_Q):
    """the numbered new-line markers that occur in canonical text, in order"""
    bounded = True
    bound_note = 'seeded marker tables of 1-6 raw markers'
    target = M + ':USFM3Markers.getNewlineMarkersList'
    args = dict(self=MKT, option=ConstT('CanonicalText'))
    def pre(self): return rep(self)
    def post(self, result): return result == [m for m in T_(self)['numberedNewlineMarkersList'] if row(self, m)['occursIn'] == 'Canonical Text']

INLINE = ('Text', 'Canonical Text', 'Poetry', 'Table row', 'Introduction', 'Numbering', 'Acrostic verse')
class character_list(_Q):
    """the inline markers in all the forms asked for, in order"""
    bounded = True
    bound_note = 'the shipped table, all sixteen combinations of options'
    target = M + ':USFM3Markers.getCharacterMarkersList'
    args = dict(self=MKT, includeBackslash=BoolT, includeEndMarkers=BoolT, includeNestedMarkers=BoolT, expandNumberableMarkers=BoolT)
    def world(rng): return dict(self=loaded()), [], []
    def post(self, includeBackslash, includeEndMarkers, includeNestedMarkers, expandNumberableMarkers, result):
        want = []
        for m in T_(self)['internalMarkersList']:
            if row(self, m)['occursIn'] not in INLINE: continue
            top = row(self, m)['highestNumberSuffix']
            for d in [''] + ([str(i) for i in range(1, int(top) + 1)] if expandNumberableMarkers and top != 'None' else []):
                for end in ('', '*') if includeEndMarkers else ('',):
                    for nest in ('', '+') if includeNestedMarkers else ('',): want.append(('\\' if includeBackslash else '') + nest + m + d + end)
        return result == want

# ---- the markers in a text
NEW, CHAR = ('p', 'v', 's1', 'q2', 'c'), ('add', 'nd', 'wj', 'f', 'ft', 'fr', 'x', 'bd', 'zz')
def pieces_world(rng):
    n = rng.choice((1, 1, 2, 3, 4, 6)); ps = []
    for i in range(n):
        kind = rng.choice((' ', ' ', '+', '-', '*', '*')) if i < n - 1 or rng.random() < .7 else rng.choice(('', '+.'))
        ps.append((kind, rng.choice(NEW + CHAR if kind in (' ', '') else CHAR), rng.choice(('', 'text', ' some words ', '1 In', '*', '+', '1:1', ' ')) if kind not in ('', '+.') else ''))
    first = rng.choice(('', '', 'Before', ' x ', '*'))
    return dict(self=loaded(), text=first + ''.join('\\' + spell(p) + p[2] for p in ps), pieces=ps, first=first, includeInitialText=rng.random() < .5, verifyMarkers=rng.random() < .2), [], []
def spell(p): return {' ': p[1] + ' ', '+': '+' + p[1] + ' ', '-': '+' + p[1] + '*', '*': p[1] + '*', '': p[1], '+.': '+' + p[1]}[p[0]]
def contexts(self, ps):
    """the character markers in force after each marker"""
    out = []; c = []
    for kind, m, t in ps:
        if has(self, m) and raw(self, m) in T_(self)['newlineMarkersList'] or kind == '*': c = []
        elif kind in (' ', ''): c = [m]
        elif kind in ('+', '+.'): c = c + [m]
        else: c = c[:-1]
        out.append(c)
    return out
class text_markers(Contract):
    """each marker written in the text, in order, with its position, kind, spelling, context, closing marker and the text after it"""
    bounded = True
    bound_note = 'seeded texts of 1-6 plain, nested and closing markers with texts between them, in every order'
    native_s = 15
    world = pieces_world
    target = M + ':USFM3Markers.getMarkerListFromText'
    args = dict(self=MKT, text=StrT, includeInitialText=BoolT, verifyMarkers=BoolT, pieces=ListT(TupleT(StrT, StrT, StrT)), first=StrT)
    def post_markers(self, text, pieces, first, includeInitialText, result):
        r = result
        if includeInitialText and first:
            if r[0] != (None, 0, None, None, None, 1, first): return False
            r = r[1:]
        at = len(first)
        if len(r) != len(pieces): return False
        for p, x in zip(pieces, r):
            s = '\\' + spell(p)
            if x[:4] != (p[1], at, p[0][:1], s) or x[6] != p[2]: return False
            at += len(s) + len(p[2])
        return at == len(text)
    def post_contexts(self, pieces, first, includeInitialText, result):
        cs = contexts(self, pieces); off = 1 if includeInitialText and first else 0
        for i, p in enumerate(pieces):
            x = result[i + off]
            if list(x[4]) != cs[i]: return False
            end = None
            if p[0] in (' ', '+', '+.') and cs[i]:
                n = len(cs[i])
                end = next((k for k in range(i + 1, len(pieces)) if len(cs[k]) < n or cs[k][n - 1] != p[1]), None)
            if x[5] != (None if end is None else end + off): return False
        return True
class no_markers(Contract):
    """a text without a backslash has no markers"""
    def world(rng): return dict(self=loaded(), text=rng.choice(('', ' ', 'text', 'p ', 'wj*', '+nd ', '/p'))), [], []
    target = M + ':USFM3Markers.getMarkerListFromText'
    args = dict(self=MKT, text=StrT, includeInitialText=BoolT, verifyMarkers=BoolT)
    def pre(text): return '\\' not in text
    def post(result): return len(result) == 0

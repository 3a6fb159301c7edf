"""C23: taking marks off Hebrew and Greek text removes exactly the marks asked for."""
from pyverif.spec import *
from pyverif.contract import Contract, fact
from pyverif.values import *
from BibleOrgSys.OriginalLanguages import Hebrew as H, Greek as GR
M = 'BibleOrgSys.OriginalLanguages.Hebrew'
N = 'BibleOrgSys.OriginalLanguages.Greek'
C = 'contracts.c23'
ASSUMPTIONS = ['the check of Greek.removeAccents for accents left over finds none (it only raises or stays silent; it runs as it is in the bounded contract greek_checked)']

METEG = '\u05bd'
METEGS = {METEG: ''}
ACCENTS = {chr(c): '' for c in range(0x0591, 0x05b0)}
POINTS = {chr(c): '' for c in range(0x05b0, 0x05bc)}
DOTS = {'\u05c1': '', '\u05c2': ''}
OTHERS_KEPT_DOTS = {c: '' for c in '\u05bd\u05bc\u05bf\u05c0\u05c4\u05c5\u05c7'}
OTHERS = OTHERS_KEPT_DOTS | DOTS
HEB = ObjT(H.Hebrew, {'originalText': StrT, 'currentText': StrT})
GRK = ObjT(GR.Greek, {'originalText': StrT, 'currentText': StrT})
LETTERS = 'אבגדהוזחטיכלמנסעפצקרשתםןץך'

@fact
def mark_tables():
    """the tables of accents, points and other marks are those of Unicode's Hebrew block, each mark in just one of them"""
    import unicodedata
    ts = [list(H.cantillationMarks), list(H.vowelPoints), list(H.otherMarks) + [H.metegOrSiluq]]
    if sorted(ts[0]) != sorted(ACCENTS) or sorted(ts[1]) != sorted(POINTS) or sorted(ts[2]) != sorted(OTHERS): return 'tables'
    for i, t in enumerate(ts):
        if len(set(t)) != len(t): return ('twice', i)
        for c in t:
            if len(c) != 1 or unicodedata.name(c)[:6] != 'HEBREW' or c in H.consonants: return repr(c)
@fact
def greek_table():
    """every letter of the Greek accent table goes to the plain letter Unicode gives for it, in the same case; the koronis goes away"""
    import unicodedata
    for c, p in GR.GREEK_ACCENT_DICT.items():
        if c == '\u1fbd':
            if p != '': return c
        elif len(c) != 1 or p != unicodedata.normalize('NFD', c)[0] or p in GR.GREEK_ACCENT_DICT: return (c, p)

def heb_text(rng): return ''.join(rng.choice((rng.choice(LETTERS), rng.choice(list(ACCENTS)), rng.choice(list(POINTS)), rng.choice(list(OTHERS)), METEG, '\u05b7', '\u05b6', ' ', '־', 'a')) for _ in range(rng.choice((0, 1, 3, 6, 12))))
def world(rng):
    t = heb_text(rng); h = H.Hebrew(heb_text(rng))
    return dict(self=h, text=t, givenText=t), [], []
def own_world(rng): return dict(self=H.Hebrew(heb_text(rng)), removeMetegOrSiluq=rng.random() < .5), [], []
class _H(Contract):
    world = world
    hom = True
class cantillation(_H):
    """the accents go, and nothing else"""
    target = M + ':Hebrew.removeCantillationMarks'
    args = dict(self=HEB, givenText=StrT, removeMetegOrSiluq=ConstT(False))
    def post(givenText, result): return result == charmap(givenText, ACCENTS)
    def post_self(self, old): return self.currentText == old.self.currentText
class vowels(_H):
    """the vowel points go, and nothing else"""
    target = M + ':Hebrew.removeVowelPointing'
    args = dict(self=HEB, text=StrT, removeMetegOrSiluq=ConstT(False))
    def post(text, result): return result == charmap(text, POINTS)
    def post_self(self, old): return self.currentText == old.self.currentText
class meteg(_H):
    target = M + ':Hebrew.removeAllMetegOrSiluq'
    args = dict(self=HEB, text=StrT)
    def post(text, result): return result == charmap(text, METEGS)
    def post_self(self, old): return self.currentText == old.self.currentText
class others(_H):
    """the other marks go, with the dots of shin and sin, and nothing else"""
    target = M + ':Hebrew.removeOtherMarks'
    args = dict(self=HEB, text=StrT, removeSinShinDots=ConstT(True))
    def post(text, result): return result == charmap(text, OTHERS)
    def post_self(self, old): return self.currentText == old.self.currentText
class others_not_dots(_H):
    """the other marks go, but the dots of shin and sin stay"""
    target = M + ':Hebrew.removeOtherMarks'
    args = dict(self=HEB, text=StrT, removeSinShinDots=ConstT(False))
    def post(text, result): return result == charmap(text, OTHERS_KEPT_DOTS)
    def post_self(self, old): return self.currentText == old.self.currentText

# ---- the text of the object itself
class _Own(_H):
    def world(rng): return dict(self=H.Hebrew(heb_text(rng))), [], []
    modifies = ['self']
    def post_original(self, old): return self.originalText == old.self.originalText
class own_vowels(_Own):
    target = M + ':Hebrew.removeVowelPointing'
    args = dict(self=HEB, text=ConstT(None), removeMetegOrSiluq=ConstT(False))
    def post(self, result, old): return result == charmap(old.self.currentText, POINTS) and self.currentText == result
class own_meteg(_Own):
    target = M + ':Hebrew.removeAllMetegOrSiluq'
    args = dict(self=HEB, text=ConstT(None))
    def post(self, result, old): return result == charmap(old.self.currentText, METEGS) and self.currentText == result
class own_others(_Own):
    target = M + ':Hebrew.removeOtherMarks'
    args = dict(self=HEB, text=ConstT(None), removeSinShinDots=ConstT(True))
    def post(self, result, old): return result == charmap(old.self.currentText, OTHERS) and self.currentText == result
class own_others_not_dots(_Own):
    """the dots stay when asked for, also in the object's own text"""
    target = M + ':Hebrew.removeOtherMarks'
    args = dict(self=HEB, text=ConstT(None), removeSinShinDots=ConstT(False))
    def post(self, result, old): return result == charmap(old.self.currentText, OTHERS_KEPT_DOTS) and self.currentText == result
class made(_H):
    target = M + ':Hebrew.__init__'
    args = dict(self=ObjT(H.Hebrew, {}), text=StrT)
    def world(rng): return dict(self=H.Hebrew.__new__(H.Hebrew), text=heb_text(rng)), [], []
    modifies = ['self']
    def post(self, text): return self.originalText == text and self.currentText == text

def plain(t):
    """all marks off, in either order: the same text, the one without any mark"""
    h = H.Hebrew('')
    a = h.removeOtherMarks(h.removeVowelPointing(h.removeCantillationMarks(t)))
    b = h.removeCantillationMarks(h.removeVowelPointing(h.removeOtherMarks(t)))
    assert a == b
    assert h.removeOtherMarks(a) == a and h.removeVowelPointing(a) == a and h.removeCantillationMarks(a) == a
class all_marks(_H):
    target = C + ':plain'
    args = dict(t=StrT)
    def world(rng): return dict(t=heb_text(rng)), [], []

# ---- meteg or siluq, by what stands before it (bounded)
def scan(t, vowel):
    o = ''
    for c in t:
        if c == METEG and (o[-1:] in ('\u05b7', '\u05b6') and o != '') == vowel: continue
        o += c
    return o
class _Meteg(Contract):
    bounded = True
    bound_note = 'seeded Hebrew texts of up to 12 characters'
    native_s = 5
    world = world
class cantillation_meteg(_Meteg):
    """a meteg after patah or segol belongs to the vowels; any other goes with the accents"""
    target = M + ':Hebrew.removeCantillationMarks'
    args = dict(self=HEB, givenText=StrT, removeMetegOrSiluq=ConstT(True))
    def post(givenText, result): return result == charmap(scan(givenText, False), ACCENTS)
class vowel_meteg(_Meteg):
    target = M + ':Hebrew.removeVowelPointing'
    args = dict(self=HEB, text=StrT, removeMetegOrSiluq=ConstT(True))
    def post(text, result): return result == charmap(scan(text, True), POINTS)
class own_vowel_meteg(_Meteg):
    def world(rng): return dict(self=H.Hebrew(heb_text(rng))), [], []
    target = M + ':Hebrew.removeVowelPointing'
    args = dict(self=HEB, text=ConstT(None), removeMetegOrSiluq=ConstT(True))
    modifies = ['self']
    def post(self, result, old): return result == charmap(scan(old.self.currentText, True), POINTS) and self.currentText == result
class own_cantillation(_Meteg):
    world = own_world
    target = M + ':Hebrew.removeCantillationMarks'
    args = dict(self=HEB, givenText=ConstT(None), removeMetegOrSiluq=BoolT)
    modifies = ['self']
    def post(self, removeMetegOrSiluq, result, old):
        t = old.self.currentText
        return result == charmap(scan(t, False) if removeMetegOrSiluq else t, ACCENTS) and self.currentText == result

# ---- Greek
def grk_text(rng): return ''.join(rng.choice((rng.choice(list(GR.GREEK_ACCENT_DICT)), rng.choice('αβγδεζηθικλμνξοπρσςτυφχψω '))) for _ in range(rng.choice((0, 1, 3, 8))))
class names_stub:
    def name(self, c): return ''
NAMES = names_stub()
class greek(Contract):
    """each accented letter is replaced by the plain letter of the table, and nothing else is changed"""
    weight = 3
    hom = True
    def world(rng): return dict(self=GR.Greek('α'), text=grk_text(rng)), [], []
    target = N + ':Greek.removeAccents'
    args = dict(self=GRK, text=StrT)
    overrides = {(N, 'unicodedata'): lambda a: NAMES}
    def post(text, result): return result == charmap(text, GR.GREEK_ACCENT_DICT)
    def post_self(self, old): return self.currentText == old.self.currentText
    def _acc(acc: 'str', text, k: 'idx'): return acc == charmap_prefix(text, k, GR.GREEK_ACCENT_DICT)
    def _lst(acc: 'list', text, k: 'idx'): return ''.join(acc) == charmap_prefix(text, k, GR.GREEK_ACCENT_DICT)
    templates = [_acc, _lst]
class greek_checked(Contract):
    """the same with the check for left-over accents in place; the object's own text is not changed"""
    bounded = True
    bound_note = 'seeded texts of up to 8 plain or accented Greek letters of the table'
    native_s = 4
    def world(rng): return dict(self=GR.Greek(grk_text(rng)), text=rng.choice((None, grk_text(rng)))), [], []
    target = N + ':Greek.removeAccents'
    args = dict(self=GRK, text=OptT(StrT))
    def post(self, text, result): return result == charmap(self.currentText if text is None else text, GR.GREEK_ACCENT_DICT)
    def post_self(self, old): return self.currentText == old.self.currentText

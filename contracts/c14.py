"""C14: the index of a book puts every line of the book into exactly one entry, under its chapter and verse."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
from BibleOrgSys.Internals.InternalBibleIndexes import InternalBibleBookCVIndexEntry as IE, InternalBibleBookCVIndex as CVI
from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleEntryList as EntryList, InternalBibleEntry as Entry, BOS_NESTING_MARKERS
from .c13 import ENTL, LINE
M = 'BibleOrgSys.Internals.InternalBibleIndexes'
P = '_InternalBibleBookCVIndex__'
class BookKind:
    """the book codes as seen by the index: does the book have chapters and verses?"""
    def __init__(self, cv): self.cv = cv
    def isChapterVerseBook(self, BBB): return self.cv
KIND = ObjT(BookKind, {'cv': BoolT})
kind_override = {('BibleOrgSys.BibleOrgSysGlobals', 'loadedBibleBooksCodes'): lambda args: args['codes']}
NEW = ObjT(CVI, {'workName': StrT, 'BBB': StrT})
def ix(s): return getattr(s, P + 'indexData')

def cv(e, j): return e[j].marker == 'c' or e[j].marker == 'v'
@recdef(StrT)
def chap(e, j):
    """the chapter in force after the first j lines"""
    return '-1' if j <= 0 else e[j - 1].cleanText if e[j - 1].marker == 'c' else chap(e, j - 1)
def key(e, j): return (chap(e, j + 1), '0' if e[j].marker == 'c' else e[j].cleanText)
@recdef(IntT)
def seen(e, k, j):
    """how many of the first j lines are the chapter or verse line of k"""
    return 0 if j <= 0 else seen(e, k, j - 1) + (1 if cv(e, j - 1) and key(e, j - 1) == k else 0)
@recdef(IntT)
def last(e, j):
    """the last chapter or verse line among the first j"""
    return -1 if j <= 0 else j - 1 if cv(e, j - 1) else last(e, j - 1)
def proper(e):
    """chapters before verses, none numbered -1; no chapter and verse given twice; verse ranges have a hyphen"""
    return forall(0, len(e), lambda j: len(e[j].marker) > 0 and (not cv(e, j) or seen(e, key(e, j), j) == 0) and (e[j].marker != 'c' or e[j].cleanText != '-1')
                  and (e[j].marker != 'v' or chap(e, j) != '-1' and '–' not in e[j].cleanText))

def mk_lines(rng, dup=False):
    l = EntryList(); d = l.data
    def put(m, t=''):
        x = Entry.__new__(Entry); x.marker = x.originalMarker = m; x.adjustedText = x.cleanText = x.originalText = t; x.extras = None; d.append(x)
    for m in rng.choice(((), ('id',), ('headers', 'id', 'h', 'toc1', '¬headers'), ('id', 'intro', 'is1', 'ip', '¬intro', 'chapters'))): put(m, 'text' if m not in ('headers', 'intro', 'chapters') else '')
    used = set()
    for c in rng.sample(range(1, 12), rng.choice((1, 1, 2, 3))):
        if rng.random() < .2: put('ms1', 'Part')
        put('c', str(c))
        for m in rng.choice(((), ('s1',), ('c#', 's1', 'r'), ('p',), ('d', 'q1'))): put(m, 'x')
        v = 0
        while v < rng.choice((0, 2, 4, 6)):
            w = v + rng.choice((1, 1, 1, 2)); t = str(v + 1) if w == v + 1 else f'{v + 1}{rng.choice("-,")}{w}'
            if rng.random() < .1: t += 'a'
            v = w
            for m in rng.choice(((), (), ('¬p', 'p'), ('¬p', 's1', 'p'), ('s1', 'p'), ('q1',), ('¬q1', 'q1'), ('p', 'vp#'))): put(m, '')
            put('v', t); put('v~', 'words')
            for m in rng.choice(((), ('¬v',), ('p', 'p~'), ('q2', 'p~', '¬v'), ('¬v', '¬p'), ('b',))): put(m, 'words' if m == 'p~' else '')
        if rng.random() < .5: put('¬c')
    if rng.random() < .5: put('¬chapters')
    return l
def plain_lines(rng):
    l = mk_lines(rng); l.data = [x for x in l.data if x.marker not in ('c', 'v')] or mk_lines(rng).data[:1]
    if l.data[0].marker in ('c', 'v'): l.data[0].marker = 'p'
    return l
def world(rng): return dict(self=CVI('work', 'GEN'), givenBibleEntries=mk_lines(rng), codes=BookKind(True)), [], []

class _B(Contract):
    world = world
    target = M + ':InternalBibleBookCVIndex.makeBookCVIndex'
    args = dict(self=NEW, givenBibleEntries=ENTL, codes=KIND)
    overrides = kind_override
    ordered = True
    modifies = ['self']

# ---- bounded: the whole index, spelt out
def wanted(e):
    """key, first line, number of lines, open markers: for each entry, in order"""
    out = []; owner = None; c = '-1'; start = 0
    for j, x in enumerate(e):
        if x.marker == 'c': c = x.cleanText; out.append([(c, '0'), j])
        elif x.marker == 'v':
            r = j
            while r >= 1 and e[r - 1].marker not in ('c', 'v', 'v~', 'p~') and not e[r - 1].marker.startswith('¬'): r -= 1
            out.append([(c, x.cleanText), r])
        elif c == '-1': out.append([('-1', str(j)), j])
    ends = [s for k, s in out[1:]] + [len(e)]
    return [(k, s, t - s, opened(e, s)) for (k, s), t in zip(out, ends)]
def opened(e, n):
    """the nesting markers still open after the first n lines"""
    o = []
    for x in e[:n]:
        if x.marker[0] == '¬' and x.marker != '¬v':
            if x.marker[1:] in o: o.remove(x.marker[1:])
        if (x.marker in BOS_NESTING_MARKERS or x.marker in ('ms', 'ms1', 'ms2', 'ms3', 'ms4')) and x.marker != 'v': o.append(x.marker)
    return o
class whole_index(_B):
    """the whole index, entry by entry, with the markers still open at each"""
    bounded = True
    bound_note = 'seeded books of up to 3 chapters of up to 6 verses (ranges, lists, parts, headings, paragraphs, closing markers in varied places)'
    native_s = 15
    def pre(givenBibleEntries, codes): return codes.cv and len(givenBibleEntries.data) > 0 and proper(givenBibleEntries.data)
    def post(self, givenBibleEntries): 
        return [(k, v.entryIndex, v.entryCount, v.context) for k, v in ix(self).items()] == wanted(givenBibleEntries.data)
    def post_lines(self, givenBibleEntries): return self.givenBibleEntries is givenBibleEntries
class other_book(_B):
    """in a book without chapters and verses, every line is an entry of its own"""
    bounded = True
    bound_note = 'seeded lines as for whole_index'
    def world(rng): return dict(self=CVI('work', 'FRT'), givenBibleEntries=plain_lines(rng), codes=BookKind(False)), [], []
    def pre(givenBibleEntries, codes): return not codes.cv
    def post(self, givenBibleEntries):
        return [(k, v.entryIndex, v.entryCount, v.context) for k, v in ix(self).items()] == [(('-1', str(j)), j, 1, opened(givenBibleEntries.data, j)) for j in range(len(givenBibleEntries.data))]

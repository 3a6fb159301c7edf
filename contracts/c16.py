"""C16: lines added to a book are kept, each as given, in order."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
from BibleOrgSys.Internals.InternalBibleBook import InternalBibleBook as IBB
from BibleOrgSys.Internals.InternalBibleInternals import BOS_CUSTOM_CONTENT_MARKERS as CUSTOM
M = 'BibleOrgSys.Internals.InternalBibleBook'
C = 'contracts.c16'
ASSUMPTIONS = ['what is printed about a book has no effect on it']

class Markers:
    """the marker table as seen by a book: is it a marker, and does it start a line?"""
    def __init__(self, known, newline): self.known = known; self.newline = newline
    def __contains__(self, m): return m in self.known
    def isNewlineMarker(self, m): return m in self.newline
MK = ObjT(Markers, {'known': SetT(StrT), 'newline': SetT(StrT)})
RAW = ListT(TupleT(StrT, StrT))
BOOK = ObjT(IBB, {'workName': StrT, 'BBB': StrT, 'objectTypeString': StrT, '_rawLines': RAW, 'badMarkers': ListT(StrT), 'badMarkerCounts': ListT(IntT),
                  'pntsCount': IntT, 'maxNoncriticalErrorsPerBook': IntT, '_processedFlag': BoolT})
over = {('BibleOrgSys.BibleOrgSysGlobals', 'loadedUSFMMarkers'): lambda args: args['markers']}
def known(mk, m): return m in mk.known or m in CUSTOM
def rep(s):
    """a count for each bad marker, and each bad marker once"""
    return len(s.badMarkers) == len(s.badMarkerCounts) and forall(0, len(s.badMarkers), lambda i: forall(0, i, lambda j: s.badMarkers[j] != s.badMarkers[i]))
def at(s, i): return s._rawLines[i]

MS, TS = ('p', 'v', 'c', 'q1', 'zz', 'xx', 'v~', 'c#', 'wj', ''), ('', '1', '12', 'words', ' words ', 'end ', 'x*', 'open (', '1a', 'two\nlines', '“')
class Book(IBB):
    def __str__(self): return 'book'
def mk_book(rng):
    s = Book.__new__(Book); s.workName = 'W'; s.BBB = 'GEN'; s.objectTypeString = rng.choice(('USFM', 'USX', 'uW Notes')); s._rawLines = [(rng.choice(MS[:-1]), rng.choice(TS)) for _ in range(rng.choice((0, 1, 2, 4)))]
    s.badMarkers = rng.sample(['zz', 'xx', 'yy'], rng.randint(0, 3)); s.badMarkerCounts = [rng.randint(1, 3) for _ in s.badMarkers]; s.pntsCount = rng.choice((-1, 0, 3, 4)); s.maxNoncriticalErrorsPerBook = 4; s._processedFlag = False
    s.containerBibleObject = None; s.reloadedFlag = False; s.isBook = True
    return s
def world(rng):
    ms = Markers({'p', 'v', 'c', 'q1', 'wj'}, {'p', 'v', 'c', 'q1'})
    return dict(self=mk_book(rng), markers=ms, marker=rng.choice(MS), text=rng.choice(TS + (None,)), additionalText=rng.choice(TS[1:] + (',', '\\f', 'more', ' more')), expectedLastMarker=rng.choice((None, 'p', 'v')),
                m1=rng.choice(MS[:-1]), t1=rng.choice(TS), m2=rng.choice(MS[:-1]), t2=rng.choice(TS), more=rng.choice(TS[1:])), [], []
class _B(Contract):
    world = world
    overrides = over
    modifies = ['self']
class add_line(_B):
    """the line goes to the end, with its text as given; the lines before stay"""
    weight = 3
    target = M + ':InternalBibleBook.addLine'
    args = dict(self=BOOK, marker=StrT, text=OptT(StrT), markers=MK)
    def pre(self): return rep(self)
    raises = {AssertionError: lambda marker: len(marker) == 0}
    def post_rep(self): return rep(self)
    def post_last(self, marker, text, old):
        n = len(old.self._rawLines); return len(self._rawLines) == n + 1 and at(self, n)[0] == marker and at(self, n)[1] == ('' if text is None else text)
    def post_before(self, old): return forall(0, len(old.self._rawLines), lambda i: at(self, i) == at(old.self, i))
class bad_markers(_B):
    """each unknown marker is in the list of bad markers once, with the number of times it came"""
    weight = 3
    target = M + ':InternalBibleBook.addLine'
    args = dict(self=BOOK, marker=StrT, text=OptT(StrT), markers=MK)
    def pre(self, marker): return rep(self) and len(marker) > 0
    def post_rep(self): return rep(self)
    def post_known(self, marker, markers, old): return not known(markers, marker) or self.badMarkers == old.self.badMarkers and self.badMarkerCounts == old.self.badMarkerCounts
    def post_new(self, marker, markers, old):
        n = len(old.self.badMarkers)
        if known(markers, marker) or exists(0, n, lambda i: old.self.badMarkers[i] == marker): return True
        return len(self.badMarkers) == n + 1 and self.badMarkers[n] == marker and self.badMarkerCounts[n] == 1 and forall(0, n, lambda i: self.badMarkers[i] == old.self.badMarkers[i] and self.badMarkerCounts[i] == old.self.badMarkerCounts[i])
    def post_again(self, marker, markers, old):
        n = len(old.self.badMarkers)
        if known(markers, marker) or not exists(0, n, lambda i: old.self.badMarkers[i] == marker): return True
        return self.badMarkers == old.self.badMarkers and forall(0, n, lambda i: self.badMarkerCounts[i] == old.self.badMarkerCounts[i] + (1 if old.self.badMarkers[i] == marker else 0))
NOGAP, NOGAP2 = ' *“‘(⌊—/', ' .,?!;:”’\u2003)⌋/\\'
def spaced(m, t, a):
    """a space goes between a bare verse number and a word after it"""
    return len(t) > 0 and t[-1] not in NOGAP and a[0] not in NOGAP2 and m == 'v' and t.isdigit()
class append_text(_B):
    """the text goes to the end of the last line, and every other line stays"""
    target = M + ':InternalBibleBook.appendToLastLine'
    args = dict(self=BOOK, additionalText=StrT, expectedLastMarker=OptT(StrT))
    overrides = {}
    def pre(self, additionalText): return len(additionalText) > 0
    raises = {IndexError: lambda self: len(self._rawLines) == 0}
    def post_last(self, additionalText, old):
        n = len(old.self._rawLines); m, t = old.self._rawLines[n - 1]
        return len(self._rawLines) == n and at(self, n - 1)[0] == m and at(self, n - 1)[1] == t + (' ' if spaced(m, t, additionalText) else '') + additionalText
    def post_before(self, old): return len(self._rawLines) == len(old.self._rawLines) and forall(0, len(old.self._rawLines) - 1, lambda i: at(self, i) == at(old.self, i))
def three(self, m1, t1, m2, t2, more):
    """a short history: two lines, and text added to the second"""
    n = len(self._rawLines)
    self.addLine(m1, t1)
    self.addLine(m2, t2)
    self.appendToLastLine(more)
    assert len(self._rawLines) == n + 2
    assert self._rawLines[n] == (m1, t1)
    assert self._rawLines[n + 1][0] == m2 and self._rawLines[n + 1][1].startswith(t2) and self._rawLines[n + 1][1].endswith(more)
class history(_B):
    target = C + ':three'
    uses = [add_line, append_text]
    args = dict(self=BOOK, m1=StrT, t1=StrT, m2=StrT, t2=StrT, more=StrT, markers=MK)
    def pre(self, m1, m2, more): return rep(self) and len(m1) > 0 and len(m2) > 0 and len(more) > 0

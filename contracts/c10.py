"""C10: a USFM file is read line by line into markers and texts without losing anything."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
from BibleOrgSys.InputOutput.USFMFile import USFMFile, splitUSFMMarkerFromText
M = 'BibleOrgSys.InputOutput.USFMFile'
C = 'contracts.c10'
LIMIT = 999_999
ASSUMPTIONS = ['a line is shorter than 999,999 characters (the code uses that number for "not found")',
               'the lines given by iterating over the opened file are the lines of the file (checked against real files by the bounded contract read_file)',
               'the verbosity level is the default one']

# ---- one line
def bare(m): return ' ' not in m and '*' not in m and '\\' not in m
MARKS = ('\\', '\\v', '\\v 1 text', '\\p', '\\c 1', '\\ts\\*', '\\ts\\*more', '\\f + \\ft x\\f*', '\\add x\\add*', '\\q1\\v 2 x', '\\fig*', '\\fig*x y', '\\v  2 spaces', 'plain', '', ' \\v', '\\v\\', '\\\\', '\\ x', '\\*',
         '\\\\*x', '\\id\tGEN', 'ordinary text \\nd Lord\\nd*')
class _S(Contract):
    def world(rng): return {}, MARKS, []
    target = M + ':splitUSFMMarkerFromText'
class split_plain(_S):
    """a line that does not begin with a backslash has no marker, and is all text"""
    args = dict(line=StrT)
    def pre(line): return line[:1] != '\\'
    def post(line, result): return result[0] is None and result[1] == line
TEXTS = ('', 'text', ' two', '1 In\\nd x\\nd*', '*', '\\*', '\\', 'p')
class _Put(Contract):
    """a line put together from a marker and a text"""
    args = dict(m=StrT, t=StrT)
    def world(rng): return dict(m=rng.choice(('v', 'p', '', 'q1', '+nd', 'zé')), t=rng.choice(TEXTS)), [], []
    def pre(m, t): return bare(m) and len(m) + len(t) < LIMIT - 5
class split_space(_Put):
    """a marker that ends at a space: the text is what follows that space"""
    target = C + ':with_space'
    def post(m, t, result): return result == (m, t)
def with_space(m, t): return splitUSFMMarkerFromText('\\' + m + ' ' + t)
class split_star(_Put):
    """a marker that ends at an asterisk includes it"""
    target = C + ':with_star'
    def post(m, t, result): return result == (m + '*', t)
def with_star(m, t): return splitUSFMMarkerFromText('\\' + m + '*' + t)
class split_selfclosed(_Put):
    r"""a milestone closed by \* includes the closing"""
    target = C + ':with_closing'
    def post(m, t, result): return result == (m + '\\*', t)
def with_closing(m, t): return splitUSFMMarkerFromText('\\' + m + '\\*' + t)
class split_backslash(_Put):
    """a marker that ends at another marker: the text begins with that one"""
    target = C + ':with_marker'
    def pre(m, t): return bare(m) and len(m) + len(t) < LIMIT - 5 and t[:1] != '*'
    def post(m, t, result): return result == (m, '\\' + t)
def with_marker(m, t): return splitUSFMMarkerFromText('\\' + m + '\\' + t)
class split_only(_Put):
    """a line that is only a marker has no text"""
    target = C + ':with_nothing'
    def post(m, result): return result == (m, '')
def with_nothing(m, t): return splitUSFMMarkerFromText('\\' + m)
class split_lossless(_S):
    """marker and text together are the line, but for one space between them"""
    args = dict(line=StrT)
    def pre(line): return len(line) < LIMIT
    def post(line, result):
        m = result[0]; t = result[1]
        if m is None: return t == line
        return line == '\\' + m + t or line == '\\' + m + ' ' + t

# ---- a file of lines
def least(a, b): return a if b < 0 or (a >= 0 and a < b) else b
@opaque(IntT)
def stop(rest):
    """where the marker ends in what follows the backslash (-1: at the end of the line)"""
    return least(least(rest.find(' '), rest.find('*')), rest.find('\\'))
@opaque(StrT)
def s_marker(line):
    r = line[1:]; e = stop(r)
    return r if e < 0 else r[:e + 1] if r[e] == '*' else r[:e + 2] if r[e:e + 2] == '\\*' else r[:e]
@opaque(StrT)
def s_text(line):
    r = line[1:]; e = stop(r)
    return '' if e < 0 else r[e + 1:] if r[e] != '\\' else r[e + 2:] if r[e:e + 2] == '\\*' else r[e:]
class split_use(_S):
    """the marker and the text of a line, as reading uses them"""
    args = dict(line=StrT)
    result = TupleT(OptT(StrT), StrT)
    reveal = (stop, s_marker, s_text)
    def pre(line): return len(line) < LIMIT
    def post_plain(line, result): return line[:1] == '\\' or (result[0] is None and result[1] == line)
    def post_marker(line, result): return line[:1] != '\\' or (result[0] == s_marker(line) and result[1] == s_text(line))

class Lines:
    """stands for an opened file: the path is the list of its lines"""
    def __init__(self, ls): self.ls = ls
    def __enter__(self): return self.ls
    def __exit__(self, a, b, c): return None
def open_lines(path, encoding=None): return Lines(path)

BOM = chr(0xFEFF)
@opaque(StrT)
def cl(ls, k):
    """line k of the file, without the byte order mark and the newline character"""
    t = ls[k][1:] if k == 0 and ls[k][0] == BOM else ls[k]
    return t[:len(t) - 1] if t[-1:] == '\n' else t
def skipped(ls, k): return cl(ls, k) == '' or cl(ls, k)[0] == '#'
def starts(ls, k): return not skipped(ls, k) and cl(ls, k)[0] == '\\'
@recdef(IntT)
def entries(ls, k):
    """how many entries the first k lines make"""
    return 0 if k <= 0 else entries(ls, k - 1) + (1 if starts(ls, k - 1) or (not skipped(ls, k - 1) and entries(ls, k - 1) == 0) else 0)
@recdef(StrT)
def text(ls, k):
    """the text of the entry that is open after k lines"""
    return ('' if k <= 0 else text(ls, k - 1) if skipped(ls, k - 1) else s_text(cl(ls, k - 1)) if starts(ls, k - 1)
            else cl(ls, k - 1) if entries(ls, k - 1) == 0 else text(ls, k - 1) + ' ' + cl(ls, k - 1))
@recdef(OptT(StrT))
def mark(ls, k):
    return None if k <= 0 else s_marker(cl(ls, k - 1)) if starts(ls, k - 1) else mark(ls, k - 1)
def closed(result, ls, i):
    return result[entries(ls, i) - 1][0] == mark(ls, i) and result[entries(ls, i) - 1][1] == text(ls, i)
LINES = ('\\id GEN x\n', '\\c 1\n', '\n', '# comment\n', 'and on\n', '\\p\n', '\\v 1 text\n', BOM + '\\id GEN\n', '\\ts\\*\n', '\\v 2 a\\add b\\add*\n', ' indented\n', '\\b', '#', 'last', BOM + '\n', '\\#x\n')
class read(Contract):
    """every line of a file is in the entries: a marker line makes one, other lines continue the last one"""
    def gen(rng):
        from BibleOrgSys.InputOutput.USFMFile import USFMFile
        return dict(self=USFMFile(), USFMFilepath=[rng.choice(LINES) for _ in range(rng.choice((0, 1, 2, 3, 5, 8)))])
    target = M + ':USFMFile.read'
    args = dict(self=ObjT(USFMFile, {'lines': ListT(TupleT(OptT(StrT), StrT))}), USFMFilepath=ListT(StrT))
    modifies = ['self.lines']
    uses = [split_use]
    reveal = (cl,)
    overrides = {(M, 'open'): lambda a: open_lines}
    def pre(USFMFilepath): return forall(0, len(USFMFilepath), lambda i: len(USFMFilepath[i]) > 0 and len(USFMFilepath[i]) < LIMIT)
    def post_count(self, USFMFilepath): return len(self.lines) == entries(USFMFilepath, len(USFMFilepath))
    def post_entries(self, USFMFilepath): return forall(0, len(USFMFilepath), lambda i: not (starts(USFMFilepath, i) and entries(USFMFilepath, i) > 0) or closed(self.lines, USFMFilepath, i))
    def post_last(self, USFMFilepath): return len(self.lines) == 0 or closed(self.lines, USFMFilepath, len(USFMFilepath))
    def inv_count(result: 'list', USFMFilepath, k: 'k'): return len(result) == entries(USFMFilepath, k) and entries(USFMFilepath, k) >= 0
    def inv_open(result: 'list', USFMFilepath, k: 'k'): return not entries(USFMFilepath, k) > 0 or closed(result, USFMFilepath, k)
    def inv_below(USFMFilepath, k: 'k'): return forall(0, k, lambda i: implies(starts(USFMFilepath, i), entries(USFMFilepath, i) < entries(USFMFilepath, k)))
    def inv_entries(result: 'list', USFMFilepath, k: 'k'): return forall(0, k, lambda i: not (starts(USFMFilepath, i) and entries(USFMFilepath, i) > 0) or closed(result, USFMFilepath, i))
    def inv_bound(b: 'bound', USFMFilepath, k: 'k'): return b or entries(USFMFilepath, k) == 0
    def inv_none(USFMFilepath, k: 'k'): return entries(USFMFilepath, k) > 0 or mark(USFMFilepath, k) is None
    templates = [inv_bound, inv_none, inv_count, inv_open, inv_below, inv_entries]
class read_file(Contract):
    """the lines of a real file"""
    bounded = True
    bound_note = 'seeded UTF-8 files of up to 12 lines, with byte order mark, comments, blank and continuation lines, and ignored markers'
    def gen(rng): return dict(ls=[rng.choice(LINES) for _ in range(rng.choice((0, 1, 3, 5, 8, 12)))], ign=rng.choice((None, ('p',), ('b', 'q1'), ('v', 'p'))))
    target = C + ':read_real'
    args = dict(ls=ListT(StrT), ign=OptT(TupleT(StrT)))
    def pre(ls): return forall(0, len(ls) - 1, lambda i: ls[i][-1:] == '\n' and BOM not in ls[i + 1])
    def post(ls, ign, result): return result == by_hand(ls, ign or ())
def read_real(ls, ign):
    import os, tempfile
    d = tempfile.mkdtemp(prefix='c10_'); f = os.path.join(d, 'x.usfm')
    try:
        with open(f, 'wb') as h: h.write(''.join(ls).encode('utf-8'))
        u = USFMFile(); u.read(f, ign)
        return u.lines
    finally:
        if os.path.exists(f): os.remove(f)
        os.rmdir(d)
def by_hand(ls, ign):
    out = []; last = None
    for k in range(len(ls)):
        if skipped(ls, k): continue
        l = cl(ls, k)
        if l[0] == '\\':
            last = s_marker(l)
            if last not in ign: out.append((last, s_text(l)))
        elif not out: out.append((None, l)); last = None
        elif last not in ign: out[-1] = (out[-1][0], out[-1][1] + ' ' + l)
    return out

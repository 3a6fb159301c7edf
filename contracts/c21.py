"""C21: control and list files are read as the entries written in them."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
M = 'BibleOrgSys.InputOutput.ControlFiles'
C = 'contracts.c21'
ASSUMPTIONS = ['the lines given by iterating over the opened file are the lines of the file, none of them empty (checked against real files by the bounded contract real_file)']

class Lines:
    """stands for an opened file: the path is the list of its lines"""
    def __init__(self, ls): self.ls = ls
    def __enter__(self): return self.ls
    def __exit__(self, a, b, c): return None
def open_lines(path, mode='r', encoding=None): return Lines(path)
class Folder:
    """stands for os: any name in any folder leads to the one file"""
    def __init__(self, ls): self.ls = ls
    @property
    def path(self): return self
    def join(self, a, b): return self.ls
    def getcwd(self): return '.'
FOLDER = ObjT(Folder, {'ls': ListT(StrT)})
def over(): return {(M, 'open'): lambda a: open_lines, (M, 'os'): lambda a: a['fs']}

@opaque(StrT)
def cl(ls, k):
    """line k without its newline character"""
    return ls[k][:len(ls[k]) - 1] if ls[k][-1:] == '\n' else ls[k]
def skipped(ls, k): return cl(ls, k) == '' or cl(ls, k)[0] == '#'
@opaque(BoolT)
def gives(ls, k, s):
    """line k gives a value to the name s"""
    return not skipped(ls, k) and '=' in cl(ls, k) and len(s) > 0 and cl(ls, k)[:cl(ls, k).find('=')].strip() == s
@opaque(StrT)
def value(ls, k): return cl(ls, k)[cl(ls, k).find('=') + 1:].strip()
@recdef(IntT)
def first(ls, k, s):
    """the first of the first k lines that gives a value to s (-1 if none)"""
    return -1 if k <= 0 else first(ls, k - 1, s) if first(ls, k - 1, s) >= 0 else k - 1 if gives(ls, k - 1, s) else -1
LINES = ('a=1\n', 'a = 2\n', 'b= x = y \n', '\n', '# a=3\n', '#\n', 'nothing\n', '=x\n', ' = x\n', 'c=\n', 'c=1\n', ' d =\t4\n', 'last=5', 'b', ' #e=6\n', 'a=1\n', 'é=ü\n')
class control(Contract):
    """the value of a name is that of the first line that gives one; names that have a value keep it"""
    bounded = True
    bound_note = 'seeded files of up to 8 lines, up to 4 values already there'
    native_s = 6
    target = M + ':readControlFile'
    def gen(rng):
        return dict(filename='x.txt', fs=Folder([rng.choice(LINES) for _ in range(rng.choice((0, 1, 2, 3, 5, 8)))]), controls={k: 'old' for k in 'abcd' if rng.random() < .2}, s=rng.choice(('a', 'b', 'c', 'd', '#e', 'é', '', 'last')), folder=rng.choice(('', 'f')), haveLog=rng.random() < .5)
    args = dict(folder=StrT, filename=ConstT('x.txt'), controls=DictT(StrT, StrT), haveLog=BoolT, fs=FOLDER, s=StrT)
    overrides = over()
    modifies = ['controls']
    reveal = (cl, gives, value)
    def pre(fs): return forall(0, len(fs.ls), lambda i: len(fs.ls[i]) > 0)
    def post_there(fs, controls, s, old): return (s in controls) == (s in old.controls or first(fs.ls, len(fs.ls), s) >= 0)
    def post_value(fs, controls, s, old): return s not in controls or controls[s] == (old.controls[s] if s in old.controls else value(fs.ls, first(fs.ls, len(fs.ls), s)))
    def inv_first(fs, s, k: 'k'): return first(fs.ls, k, s) >= -1 and first(fs.ls, k, s) < k
    def inv_there(fs, controls, s, k: 'k', old): return (s in controls) == (s in old.controls or first(fs.ls, k, s) >= 0)
    def inv_value(fs, controls, s, k: 'k', old): return s not in controls or controls[s] == (old.controls[s] if s in old.controls else value(fs.ls, first(fs.ls, k, s)))
    templates = [inv_first, inv_there, inv_value]

@recdef(IntT)
def count(ls, k):
    """how many different lines with text there are among the first k"""
    return 0 if k <= 0 else count(ls, k - 1) + (1 if isnew(ls, k - 1) else 0)
@opaque(BoolT)
def isnew(ls, k): return not skipped(ls, k) and forall(0, k, lambda j: cl(ls, j) != cl(ls, k))
class list_file(Contract):
    """each different line with text goes to the end of the list, once, in the order of the file; what the list held before stays"""
    bounded = True
    bound_note = 'seeded files of up to 8 lines, lists of up to 3 lines already there'
    native_s = 6
    target = M + ':readListFile'
    def gen(rng):
        return dict(folder=rng.choice(('', 'f')), filename='x.txt', fs=Folder([rng.choice(LINES) for _ in range(rng.choice((0, 1, 2, 3, 5, 8)))]), outputList=[rng.choice(('x', 'b', 'a=1')) for _ in range(rng.choice((0, 1, 3)))])
    args = dict(folder=StrT, filename=ConstT('x.txt'), outputList=ListT(StrT), fs=FOLDER)
    overrides = over()
    modifies = ['outputList']
    reveal = (cl, isnew)
    def pre(fs): return forall(0, len(fs.ls), lambda i: len(fs.ls[i]) > 0)
    def post_count(fs, outputList, old): return len(outputList) == len(old.outputList) + count(fs.ls, len(fs.ls))
    def post_before(fs, outputList, old): return forall(0, len(old.outputList), lambda i: outputList[i] == old.outputList[i])
    def post_lines(fs, outputList, old): return forall(0, len(fs.ls), lambda i: not isnew(fs.ls, i) or outputList[len(old.outputList) + count(fs.ls, i)] == cl(fs.ls, i))
    def inv_count(l: 'list', fs, k: 'k', old): return len(l) == count(fs.ls, k)
    def inv_total(outputList, fs, k: 'k', old): return len(outputList) == len(old.outputList) + count(fs.ls, k)
    def inv_before(outputList, old): return forall(0, len(old.outputList), lambda i: outputList[i] == old.outputList[i])
    def inv_below(fs, k: 'k'): return count(fs.ls, k) >= 0 and forall(0, k, lambda i: implies(isnew(fs.ls, i), count(fs.ls, i) < count(fs.ls, k)))
    def inv_lines(outputList, fs, k: 'k', old): return forall(0, k, lambda i: not isnew(fs.ls, i) or outputList[len(old.outputList) + count(fs.ls, i)] == cl(fs.ls, i))
    def inv_seen(l: 'list', fs, k: 'k'): return forall(0, k, lambda i: skipped(fs.ls, i) or exists(0, len(l), lambda m: l[m] == cl(fs.ls, i)))
    def inv_from(l: 'list', fs, k: 'k'): return forall(0, len(l), lambda m: exists(0, k, lambda i: cl(fs.ls, i) == l[m]))
    templates = [inv_count, inv_total, inv_before, inv_below, inv_lines, inv_seen, inv_from]

# ---- values that mean yes or no
YES, NO = ('true', 'yes', 'on'), ('false', 'no', 'off')
def word(v):
    i = v.find('#')
    return (v if i < 0 else v[:i].rstrip()).lower()
def meaning(v): return True if word(v) in YES else False if word(v) in NO else None
VALUES = ('TRUE', 'yes', 'On', 'false # x', 'No', 'off', '', '#', 'maybe', 'yes # no', 'true#', ' true', 'o', 'of')
class boolean(Contract):
    """yes and no words in any case, with a comment after them or not; anything else means neither"""
    target = M + ':booleanValue'
    def gen(rng): return dict(value=rng.choice(VALUES))
    args = dict(value=StrT)
    def post(value, result): return result == meaning(value)
class boolean_control(Contract):
    target = M + ':booleanControl'
    def gen(rng): return dict(controlName=rng.choice('ab'), controlDict={k: rng.choice(VALUES) for k in 'ab' if rng.random() < .7})
    args = dict(controlName=StrT, controlDict=DictT(StrT, StrT))
    def post(controlName, controlDict, result): return result == (meaning(controlDict[controlName]) if controlName in controlDict else False)

class real_file(Contract):
    """the lines of a real file"""
    bounded = True
    bound_note = 'seeded UTF-8 files of up to 8 lines'
    target = C + ':read_real'
    native_s = 4
    def gen(rng): return dict(ls=[rng.choice(LINES) for _ in range(rng.choice((0, 1, 2, 3, 5, 8)))])
    args = dict(ls=ListT(StrT))
    def pre(ls): return forall(0, len(ls) - 1, lambda i: ls[i][-1:] == '\n')
    def post(ls, result):
        d = {}; o = []
        for k in range(len(ls)):
            l = cl(ls, k)
            if skipped(ls, k): continue
            if l not in o: o.append(l)
            n, e, v = l.partition('=')
            if e and n.strip(): d.setdefault(n.strip(), v.strip())
        return result == (d, o)
def read_real(ls):
    import os, tempfile
    from BibleOrgSys.InputOutput.ControlFiles import readControlFile, readListFile
    f = tempfile.mkdtemp(prefix='c21_'); p = os.path.join(f, 'x.txt'); d = {}; o = []
    try:
        with open(p, 'wb') as h: h.write(''.join(ls).encode('utf-8'))
        readControlFile(f, 'x.txt', d); readListFile(f, 'x.txt', o)
        return d, o
    finally:
        if os.path.exists(p): os.remove(p)
        os.rmdir(f)

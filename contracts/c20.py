"""C20: backing up a file moves it and its older copies one step on and touches no other file."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
M = 'BibleOrgSys.BibleOrgSysGlobals'
ASSUMPTIONS = ['the file system is a mapping from names to contents: os.access/exists tell whether a name is there, os.remove takes it away, os.rename moves its content (over any content of the new name)']

class FS:
    """the operations of os and os.path on a mapping from names to contents"""
    F_OK = 0
    def __init__(self, files): self.files = files
    @property
    def path(self): return self
    def access(self, p, mode): return p in self.files
    def exists(self, p): return p in self.files
    def isfile(self, p): return p in self.files
    def remove(self, p): del self.files[p]
    def unlink(self, p): del self.files[p]
    def rename(self, p, q):
        t = self.files[p]
        del self.files[p]
        self.files[q] = t
    def replace(self, p, q): self.rename(p, q)

def dotted(e): return e if e[0] == '.' else '.' + e
def nth(f, e, i):
    """the name of the i-th copy (0: the file itself)"""
    return f if i == 0 else f + dotted(e) if i == 1 else f + dotted(e) + str(i)
def kept(old, new, f, e, n, i):
    """what is under name i afterwards: what was under the name before; nothing if there was none - but the last name keeps its content then"""
    a, b = nth(f, e, i), nth(f, e, i - 1)
    if i > 0 and b in old: return a in new and new[a] == old[b]
    if i == n: return (a in new) == (a in old) and (a not in old or new[a] == old[a])
    return a not in new
def own(s, f, e, n): return any(s == nth(f, e, i) for i in range(n + 1))
NAMES = ['f', 'f.bak', 'f.bak2', 'f.bak3', 'f.bak4', 'f.bak1', 'g', 'f.b', 'f.b2', 'f.bak5', 'f.bak22', 'f.bak9', 'f.bak10', 'f.bak8', 'f.bak7', 'f.bak6']
class _Backup(Contract):
    overrides = {(M, 'os'): lambda args: args['fs']}
    modifies = ['fs']
    def pre(filenameOrFilepath, extension): return len(extension) > 0
def backups(n):
    def world(rng):
        fs = FS({s: f'text {i}' for i, s in enumerate(NAMES) if rng.random() < .6})
        return dict(fs=fs, filenameOrFilepath='f', extension=rng.choice(('bak', '.bak', 'b', '.b')), s=rng.choice(NAMES)), NAMES, []
    def post_copies(fs, filenameOrFilepath, extension, old):
        return all([kept(old.fs.files, fs.files, filenameOrFilepath, extension, n, i) for i in range(n + 1)])
    def post_others(fs, filenameOrFilepath, extension, s, old):
        return own(s, filenameOrFilepath, extension, n) or ((s in fs.files) == (s in old.fs.files) and (s not in old.fs.files or fs.files[s] == old.fs.files[s]))
    return type(f'backups_{n}', (_Backup,), dict(target=M + ':backupAnyExistingFile', __doc__=f'with {n} copies kept', __module__=__name__, world=world, post_copies=post_copies, post_others=post_others,
                args=dict(fs=ObjT(FS, {'files': DictT(StrT, StrT)}), filenameOrFilepath=StrT, numBackups=ConstT(n), extension=StrT, s=StrT)))
backups_1, backups_2, backups_3, backups_4, backups_5 = [backups(n) for n in (1, 2, 3, 4, 5)]
backups_9 = backups(9)
backups_9.bounded = True
backups_9.bound_note = 'seeded sets of files with names f, f.bak, f.bak1 ... and others'
backups_9.native_s = 6
backups_5.weight = 2

"""Stand-ins used by several contracts."""
from pyverif.values import *

class CodesStub:
    """contract of the loaded book codes as seen by their users: a fixed set of valid book codes (the real lookup
    functions are verified against their own contracts under C04)"""
    def __init__(self, valid): self.valid = valid
    def isValidBBB(self, BBB): return BBB in self.valid
CodesStub.TYPE = ObjT(CodesStub, {'valid': SetT(StrT)})
codes_override = {('BibleOrgSys.BibleOrgSysGlobals', 'loadedBibleBooksCodes'): lambda args: args['codes']}

class OrderStub:
    """contract of a book order system as seen by its users: one duplicate-free sequence (the real functions are verified under C03)"""
    def __init__(self, seq): self.seq = seq
    def correctlyOrdered(self, a, b): return self.seq.index(a) < self.seq.index(b)
    def getNextBookCode(self, a):
        i = self.seq.index(a) + 1
        return self.seq[i] if i < len(self.seq) else None
BOOKS = ['GEN', 'EXO', 'PSA', 'PS2', 'MAT', 'MRK', 'JDE', 'REV', 'LJE', 'EPH']

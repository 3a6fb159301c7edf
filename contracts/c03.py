"""C03: every book order system is a duplicate-free sequence; position, previous and next all describe that sequence."""
from pyverif.spec import *
from pyverif.contract import Contract, fact
from pyverif.values import *
from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem as BOS
from .common import BOOKS
import BibleOrgSys.Reference.BibleBookOrders as BO
M = 'BibleOrgSys.Reference.BibleBookOrders'

BOST = ObjT(BOS, {'_BibleBookOrderSystem__systemName': StrT,
                  '_BibleBookOrderSystem__BookOrderBookDict': DictT(StrT, IntT),
                  '_BibleBookOrderSystem__BookOrderNumberDict': DictT(IntT, StrT),
                  '_BibleBookOrderSystem__BookOrderList': ListT(StrT)})

def L(s): return s._BibleBookOrderSystem__BookOrderList
def rep(s):
    bd = s._BibleBookOrderSystem__BookOrderBookDict
    nd = s._BibleBookOrderSystem__BookOrderNumberDict
    l = s._BibleBookOrderSystem__BookOrderList
    return (forall_keys(bd, lambda b: 1 <= bd[b] and bd[b] <= len(l) and l[bd[b]-1] == b and len(b) == 3)
        and forall_keys(nd, lambda n: 1 <= n and n <= len(l) and nd[n] == l[n-1])
        and forall(0, len(l), lambda i: l[i] in bd and bd[l[i]] == i+1 and (i+1) in nd and nd[i+1] == l[i])
        and forall(1, len(l)+1, lambda n: n in nd) and len(bd) == len(l) and len(nd) == len(l))
def has(s, b): return exists(0, len(L(s)), lambda i: L(s)[i] == b)

def world(rng):
    l = rng.sample(BOOKS, rng.randint(0, 5))
    s = BOS.__new__(BOS)
    P = '_BibleBookOrderSystem__'
    s.__dict__.update({P + 'systemName': 'test', P + 'BookOrderBookDict': {b: i + 1 for i, b in enumerate(l)},
                       P + 'BookOrderNumberDict': {i + 1: b for i, b in enumerate(l)}, P + 'BookOrderList': l})
    return dict(self=s, s=s), l * 3 + BOOKS, list(range(0, len(l) + 2))

class _S(Contract):
    world = world
    args = dict(self=BOST, BBB=StrT)
    def pre(self): return rep(self)
    raises = {AssertionError: lambda BBB: len(BBB) != 3,
              KeyError: lambda self, BBB: len(BBB) == 3 and not has(self, BBB)}

class next_book(_S):
    target = M + ':BibleBookOrderSystem.getNextBookCode'
    def post_next(self, BBB, result):
        return exists(0, len(L(self)), lambda i: L(self)[i] == BBB and (result is None if i == len(L(self))-1 else result == L(self)[i+1]))

class previous_book(_S):
    target = M + ':BibleBookOrderSystem.getPreviousBookCode'
    def post_previous(self, BBB, result):
        return exists(0, len(L(self)), lambda i: L(self)[i] == BBB and (result is None if i == 0 else result == L(self)[i-1]))

class position(_S):
    target = M + ':BibleBookOrderSystem.getBookOrderPosition'
    def post_position(self, BBB, result): return 1 <= result and result <= len(L(self)) and L(self)[result-1] == BBB

class at_position(Contract):
    world = world
    target = M + ':BibleBookOrderSystem.getBookAtOrderPosition'
    args = dict(self=BOST, n=IntT)
    def pre(self): return rep(self)
    raises = {KeyError: lambda self, n: not (1 <= n and n <= len(L(self)))}
    def post_book(self, n, result): return result == L(self)[n-1]

class contains(_S):
    target = M + ':BibleBookOrderSystem.__contains__'
    raises = {AssertionError: lambda BBB: len(BBB) != 3}
    def post(self, BBB, result): return result == has(self, BBB)
class containsBook(contains):
    target = M + ':BibleBookOrderSystem.containsBook'

class length(Contract):
    world = world
    target = M + ':BibleBookOrderSystem.__len__'
    args = dict(self=BOST)
    def post(self, result): return result == len(L(self))
class numBooks(length):
    target = M + ':BibleBookOrderSystem.numBooks'
class order_list(length):
    target = M + ':BibleBookOrderSystem.getBookOrderList'
    def post(self, result): return len(result) == len(L(self)) and forall(0, len(result), lambda i: result[i] == L(self)[i])

class correctlyOrdered(Contract):
    world = world
    target = M + ':BibleBookOrderSystem.correctlyOrdered'
    args = dict(self=BOST, BBB1=StrT, BBB2=StrT)
    def pre(self): return rep(self)
    raises = {AssertionError: lambda BBB1, BBB2: len(BBB1) != 3 or len(BBB2) != 3,
              KeyError: lambda self, BBB1, BBB2: len(BBB1) == 3 and len(BBB2) == 3 and not (has(self, BBB1) and has(self, BBB2))}
    def post_order(self, BBB1, BBB2, result):
        return result == exists(0, len(L(self)), lambda i: L(self)[i] == BBB1 and exists(i+1, len(L(self)), lambda j: L(self)[j] == BBB2))

def walk_laws(s, a, b):
    """previous undoes next; the order relation is strict and total; positions are inverse"""
    n = s.getNextBookCode(a)
    if n is not None:
        assert s.getPreviousBookCode(n) == a
        assert s.correctlyOrdered(a, n) and not s.correctlyOrdered(n, a)
    p = s.getPreviousBookCode(a)
    if p is not None: assert s.getNextBookCode(p) == a
    assert s.getBookAtOrderPosition(s.getBookOrderPosition(a)) == a
    if a == b: assert not s.correctlyOrdered(a, b)
    else: assert s.correctlyOrdered(a, b) != s.correctlyOrdered(b, a)
class lemma_walk_laws(Contract):
    world = world
    target = 'contracts.c03:walk_laws'
    args = dict(s=BOST, a=StrT, b=StrT)
    def pre(s, a, b): return rep(s) and has(s, a) and has(s, b)

# ---- matching a sequence of books against the loaded systems
BOSS = type(BO.BibleBookOrderSystems())
SYST = ObjT(BOSS, {'_BibleBookOrderSystems__DataDicts': DictT(StrT, TupleT(DictT(StrT, IntT), DictT(IntT, StrT))),
                   '_BibleBookOrderSystems__DataLists': DictT(StrT, ListT(StrT))})
class getBookOrderSystem(Contract):
    target = M + ':BibleBookOrderSystems.getBookOrderSystem'
    args = dict(self=SYST, systemName=StrT)
    def pre(self): return forall_keys(self._BibleBookOrderSystems__DataDicts, lambda n: n in self._BibleBookOrderSystems__DataLists)
    def post(self, systemName, result):
        dd = self._BibleBookOrderSystems__DataDicts
        return result is None if systemName not in dd else result == (dd[systemName][0], dd[systemName][1], self._BibleBookOrderSystems__DataLists[systemName])

@fact
def loaded_orders_are_sequences():
    """every loaded book order system satisfies the representation invariant assumed above, over valid book codes"""
    import BibleOrgSys.BibleOrgSysGlobals as G
    G.preloadCommonData()
    names = BO.BibleBookOrderSystems().loadData().getAvailableBookOrderSystemNames()
    if len(names) < 10: return f'only {len(names)} systems loaded'
    for n in names:
        s = BOS(n)
        if not rep(s): return n
        if len(set(L(s))) != len(L(s)): return f'{n}: duplicates'
        for b in L(s):
            if not G.loadedBibleBooksCodes.isValidBBB(b): return f'{n}: {b}'

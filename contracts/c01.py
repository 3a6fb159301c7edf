"""C01: text made safe for file names, XML and HTML."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *

G = 'BibleOrgSys.BibleOrgSysGlobals'

FILE = {'/': '-', '\\': '_BACKSLASH_', ':': '_COLON_', ';': '_SEMICOLON_', '#': '_HASH_', '?': '_QUESTIONMARK_',
        '*': '_ASTERISK_', '<': '_LT_', '>': '_GT_'}
XML = {'&': '&amp;', '"': '&quot;', '<': '&lt;', '>': '&gt;'}
SAFE = {'<': '_LT_', '>': '_GT_'}


class makeSafeFilename(Contract):
    target = G + ':makeSafeFilename'
    args = dict(someName=StrT)
    hom = True
    def post_charwise(someName, result): return result == charmap(someName, FILE)
    def _acc(acc: 'str', someName, k: 'idx'): return acc == charmap_prefix(someName, k, FILE)
    def _lst(acc: 'list', someName, k: 'idx'): return ''.join(acc) == charmap_prefix(someName, k, FILE)
    templates = [_acc, _lst]


class makeSafeXML(Contract):
    target = G + ':makeSafeXML'
    args = dict(someString=StrT)
    hom = True
    def post_charwise(someString, result): return result == charmap(someString, XML)
    def _acc(acc: 'str', someString, k: 'idx'): return acc == charmap_prefix(someString, k, XML)
    def _lst(acc: 'list', someString, k: 'idx'): return ''.join(acc) == charmap_prefix(someString, k, XML)
    templates = [_acc, _lst]


class makeSafeString(Contract):
    target = G + ':makeSafeString'
    args = dict(someString=StrT)
    hom = True
    def post_charwise(someString, result): return result == charmap(someString, SAFE)
    def _acc(acc: 'str', someString, k: 'idx'): return acc == charmap_prefix(someString, k, SAFE)
    def _lst(acc: 'list', someString, k: 'idx'): return ''.join(acc) == charmap_prefix(someString, k, SAFE)
    templates = [_acc, _lst]


def images_are_safe(s):
    """the three maps produce no character that they are there to remove"""
    f = charmap(s, FILE)
    for c in FILE: assert c not in f
    x = charmap(s, XML)
    assert '"' not in x and '<' not in x and '>' not in x
    t = charmap(s, SAFE)
    assert '<' not in t and '>' not in t


class lemma_images_are_safe(Contract):
    target = 'contracts.c01:images_are_safe'
    args = dict(s=StrT)
    hom = True

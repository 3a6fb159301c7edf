"""C22: leading numbers, and the attributes of words and figures, are read exactly as written."""
from pyverif.spec import *
from pyverif.contract import Contract
from pyverif.values import *
M = 'BibleOrgSys.Internals.InternalBibleInternals'
C = 'contracts.c22'
ASSUMPTIONS = ['int() of a digit string longer than 4300 digits (refused by CPython) is outside the model']

def digit(x): return matches(x, '[0-9]')
def number_at(s, p, n):
    """s has the n digits and no more from position p on"""
    return (n >= 1 and p + n <= len(s) and digit(s[p]) and forall(p, p + n, lambda i: digit(s[i])) and matches(s[p:p + n], '[0-9]+') and (p + n == len(s) or not digit(s[p + n])))
def a_number(rng, sign):
    d = rng.choice(('0', '1', '12', '176', '007')); rest = rng.choice(('', 'a', '-3', ' 4', '.5', '\n7', '²', '٣', 'b-17'))
    return dict(someString=sign + d + rest, n=len(d)), [], []
class leading(Contract):
    """the number is the one the digits at the start spell"""
    def world(rng): return a_number(rng, '')
    target = M + ':getLeadingInt'
    args = dict(someString=StrT, n=IntT)
    def pre(someString, n): return number_at(someString, 0, n)
    def post(someString, n, result): return result == int(someString[:n])
class leading_minus(Contract):
    """after a minus sign, the number is negative"""
    bounded = True
    bound_note = 'seeded texts of a minus sign, digits and a rest'
    def world(rng): return a_number(rng, '-')
    target = M + ':getLeadingInt'
    args = dict(someString=StrT, n=IntT)
    def pre(someString, n): return someString[:1] == '-' and number_at(someString, 1, n)
    def post(someString, n, result): return result == 0 - int(someString[1:1 + n])
class leading_none(Contract):
    """a text without a number at its start is refused"""
    def world(rng): return {}, ['-', '', 'a1', '-a', ' 1', '12', '-12b', '--1', '²', '-²', '٣'], []
    target = M + ':getLeadingInt'
    args = dict(someString=StrT)
    raises = {ValueError: lambda someString: not matches(someString, '-?[0-9](.|\n)*')}

# ---- words
WARGS = dict(workName=StrT, BBB=StrT, C=StrT, V=StrT, wordAttributeString=StrT, errorList=NoneT)
class word_lemma(Contract):
    """after the bar, a text without = is the lemma"""
    def world(rng):
        w, l = rng.choice(('word', '', 'λόγος', 'a b', "don't")), rng.choice(('lemma', '', 'lógos', 'c d', 'x'))
        return dict(wordAttributeString=w + '|' + l, word=w, lemma=l), [], []
    target = M + ':parseWordAttributes'
    args = dict(WARGS, word=StrT, lemma=StrT)
    def pre(wordAttributeString, word, lemma): return wordAttributeString == word + '|' + lemma and '|' not in word and '|' not in lemma and '=' not in lemma
    def post_word(word, result): return result['word'] == word
    def post_lemma(lemma, result): return result['lemma'] == lemma
    def post_only(result): return len(result) == 2

NAMES = ('lemma', 'strong', 'x-morph', 'x-strongs', 'x-occurrence', 'srcloc', 'link-href')
def some_attributes(rng, names, plain):
    """attributes as (name, value, text of the attribute)"""
    out = []; left = list(names)
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        n = rng.choice(left); left.remove(n)
        v = rng.choice(('H01254', 'creó', 'Gr,N,,,,,NMS,', '1', 'a b', "l'x", 'x=y', 'a|b', '2:1', ' x '))
        if plain and ' ' not in v and rng.random() < .3: out.append((n, v, f'{n}={v}'))
        else: out.append((n, v, f'{n}="{v}"'))
    return out
def attribute_string(rng, l): return rng.choice(('', ' ')) + rng.choice((' ', '  ', '\t')).join(t for _, _, t in l) + rng.choice(('', '', ' '))
class word_named(Contract):
    """named attributes are given by name (without x-), with their values as written"""
    bounded = True
    bound_note = 'seeded strings of one to four named attributes, quoted or not, with values of spaces, bars, equal signs and letters outside ASCII'
    native_s = 5
    def gen(rng):
        l = some_attributes(rng, NAMES, True); w = rng.choice(('word', '', 'λόγος', 'a b'))
        return dict(workName='w', BBB='GEN', C='1', V='1', wordAttributeString=w + '|' + attribute_string(rng, l), errorList=None, word=w, l=[x[:2] for x in l])
    target = M + ':parseWordAttributes'
    args = dict(WARGS, word=StrT, l=ListT(TupleT(StrT, StrT)))
    def post(word, l, result): return result == dict([('word', word)] + [(n[2:] if n.startswith('x-') else n, v) for n, v in l])

# ---- figures
OLD_NAMES = ('altDescription', 'sourceFilename', 'relativeSize', 'locationOrRange', 'copyrightOrRightsHolder', 'caption', 'referenceCV')
NEW_NAMES = dict(alt='altDescription', src='sourceFilename', size='relativeSize', loc='locationOrRange', copy='copyrightOrRightsHolder', ref='referenceCV')
FARGS = dict(workName=StrT, BBB=StrT, C=StrT, V=StrT, figureAttributeString=StrT, errorList=NoneT)
class figure_old(Contract):
    """in the older form the attributes go by position"""
    bounded = True
    bound_note = 'seeded strings of one to seven parts between bars'
    def gen(rng):
        l = [rng.choice(('', 'A boat', 'avnt016.jpg', 'col', '© x', 'él', '1.18', 'x y')) for _ in range(rng.randint(1, 7))]
        if len(l) == 2 and rng.random() < .5: l[0] = 'no equal sign'
        return dict(workName='w', BBB='GEN', C='1', V='1', figureAttributeString='|'.join(l), errorList=None, l=l)
    target = M + ':parseFigureAttributes'
    args = dict(FARGS, l=ListT(StrT))
    def post(l, result): return result == dict([('USFM', 2)] + list(zip(OLD_NAMES, l)))
class figure_new(Contract):
    """in the newer form the caption comes first, then named attributes"""
    bounded = True
    bound_note = 'seeded strings of a caption and one to four named attributes'
    def gen(rng):
        l = [(n, v, t) for n, v, t in some_attributes(rng, NEW_NAMES, False) if '|' not in v] or [('src', 'x.jpg', 'src="x.jpg"')]
        c = rng.choice(('At once they left.', '', 'él = él'))
        return dict(workName='w', BBB='GEN', C='1', V='1', figureAttributeString=c + '|' + attribute_string(rng, l), errorList=None, caption=c, l=[x[:2] for x in l])
    target = M + ':parseFigureAttributes'
    args = dict(FARGS, caption=StrT, l=ListT(TupleT(StrT, StrT)))
    def post(caption, l, result): return result == dict([('USFM', 3), ('caption', caption)] + [(NEW_NAMES[n], v) for n, v in l])

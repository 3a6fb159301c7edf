"""C02: what MLWriter writes is exactly the mark-up asked for, in order; the tags open in the output are those on its stack."""
from pyverif.spec import *
from pyverif.contract import Contract, fact
from pyverif.values import *
from BibleOrgSys.InputOutput.MLWriter import MLWriter
import BibleOrgSys.InputOutput.MLWriter as W
M = 'BibleOrgSys.InputOutput.MLWriter'
C = 'contracts.c02'
ASSUMPTIONS = ['the output file object accepts every write and appends it (opening it is only covered by the bounded contract written_file)',
               'haltOnErrors is off (as the library loads) except where a contract says otherwise']

class Out:
    """contract of the file being written: what is written is appended"""
    def __init__(self): self.text = ''; self.open = True
    def write(self, s): self.text = self.text + s
    def close(self): self.open = False
OUT = ObjT(Out, {'text': StrT, 'open': BoolT})
FIELDS = {'_outputType': StrT, 'spaceBeforeSelfcloseTag': BoolT, '_suppressFollowingIndent': BoolT, '_humanReadable': StrT, '_indentPerLevel': IntT,
          '_limitColumns': BoolT, '_maxColumns': IntT, '_status': StrT, '_sectionName': StrT, '_buffer': StrT, '_bufferFlushSize': IntT, '_bufferSaveSize': IntT,
          '_openStack': ListT(StrT), '_currentColumn': IntT, '_nl': StrT, 'linesWritten': IntT, 'haltOnErrors': BoolT, '_MLWriter__outputFile': OUT}
ML = ObjT(MLWriter, FIELDS)

def some_writer(rng):
    w = MLWriter('x.xml', outputType=rng.choice(('XML', 'HTML')))
    o = Out(); o.text = rng.choice(('', 'a', '<p>\n')); w._MLWriter__outputFile = o
    w._status = 'Open'; w._buffer = rng.choice(('', 'x', '<b>text</b>\n', '\n', 'y' * 35, 'z' * 1001 + '\n'))
    w._humanReadable = rng.choice(('All', 'None', 'Header', 'NLSpace')); w._sectionName = rng.choice(('None', 'Header', 'Main'))
    w._limitColumns = rng.random() < .6; w._maxColumns = rng.choice((10, 70)); w._currentColumn = rng.choice((0, 5, 9, 69, 71))
    w._suppressFollowingIndent = rng.random() < .3; w._indentPerLevel = rng.choice((0, 1, 2)); w._nl = rng.choice(('\n', '\r\n'))
    w._openStack = [rng.choice(('p', 'b', 'div', 'osis')) for _ in range(rng.choice((0, 1, 2, 4)))]
    w.spaceBeforeSelfcloseTag = rng.random() < .5
    return w
def world(rng):
    w = some_writer(rng); t = rng.choice(('p', 'b', 'div', 'osis', 'a', 'span', ''))
    attr = lambda: (rng.choice(('id', 'n', 'osisID')), rng.choice(('x', '1', 'Gen.1.1', '', 'a"b')))
    return dict(self=w, string=rng.choice(('', 'abc', '<i>')), openTag=t, closeTag=rng.choice((t, w._openStack[-1] if w._openStack else t)), tag=t,
                text=rng.choice(('hello', 'a &amp; b', 'x & y', '', 'a<b')), textString=rng.choice(('hello', 'a &amp; b', 'x & y', '', 'a<b', '&&amp;;', 'a;b&lt;&')),
                attribInfo=[attr() for _ in range(rng.choice((0, 1, 2, 3)))]), ['p', 'b'], [0, 1, 2, 30]

def halting_world(rng):
    g, a, b = world(rng); g['self'].haltOnErrors = True; return g, a, b
def written(w): return w._MLWriter__outputFile.text + w._buffer
OUTPUT = ['self._buffer', 'self._MLWriter__outputFile.text']
LINE = OUTPUT + ['self._suppressFollowingIndent', 'self._currentColumn']
def spaces(s): return matches(s, ' *')
def line_end(s, w): return s == '' or s == ' ' or s == w._nl

class _W(Contract):
    world = world

# ---- buffering: nothing is lost, doubled or reordered on its way to the file
class write_file(_W):
    target = M + ':MLWriter._writeToFile'
    args = dict(self=ML, string=StrT)
    modifies = ['self._MLWriter__outputFile.text']
    def post(self, string, old): return self._MLWriter__outputFile.text == old.self._MLWriter__outputFile.text + string
class flush(_W):
    target = M + ':MLWriter._writeBuffer'
    args = dict(self=ML, writeAll=BoolT)
    modifies = OUTPUT
    uses = [write_file]
    def pre(self): return self._bufferSaveSize >= 1
    def post_same(self, old): return written(self) == written(old.self)
    def post_all(self, writeAll): return not writeAll or self._buffer == ''
    def post_kept(self, writeAll, old): return writeAll or len(self._buffer) >= min(len(old.self._buffer), self._bufferSaveSize)
class buffered(_W):
    target = M + ':MLWriter._writeToBuffer'
    args = dict(self=ML, string=StrT)
    modifies = OUTPUT
    uses = [flush]
    def pre(self): return self._bufferSaveSize >= 1
    def post(self, string, old): return written(self) == written(old.self) + string
    def post_last(self, string): return len(self._buffer) >= len(string) and self._buffer[len(self._buffer) - len(string):] == string
def laid_out(w):
    """indents and line ends are wanted here"""
    return w._humanReadable == 'All' or w._humanReadable == 'NLSpace' or w._humanReadable != 'None' and w._sectionName != 'Main'
def indent_text(w, depth):
    return ' ' * depth * w._indentPerLevel if not w._suppressFollowingIndent and laid_out(w) else ''
def end_text(w, column):
    return w._nl if w._limitColumns and column >= w._maxColumns else '' if not laid_out(w) else ' ' if w._humanReadable == 'NLSpace' else w._nl
def line_text(w, depth, body, no_end):
    """the text of a line: indent, body and line end, as the settings of the writer (as it was before) ask"""
    return indent_text(w, depth) + body + ('' if no_end else end_text(w, w._currentColumn + len(indent_text(w, depth)) + len(body)))
class indent(_W):
    target = M + ':MLWriter._SP'
    args = dict(self=ML)
    modifies = ['self._suppressFollowingIndent']
    result = StrT
    def post(self, result, old): return result == indent_text(old.self, len(self._openStack))
    def post_spaces(result): return matches(result, ' *')
    def post_flag(self): return not self._suppressFollowingIndent
class ending(_W):
    target = M + ':MLWriter._NL'
    args = dict(self=ML)
    modifies = ['self._currentColumn']
    result = StrT
    def post(self, result, old): return result == end_text(old.self, old.self._currentColumn)
class auto_write(_W):
    """an indent, then the text, then a line end (none when asked for none) are added to the output"""
    target = M + ':MLWriter._autoWrite'
    args = dict(self=ML, string=StrT, noNL=BoolT)
    modifies = LINE
    uses = [buffered, indent, ending]
    result = IntT
    def pre(self): return self._bufferSaveSize >= 1
    def post(self, string, noNL, old): return written(self) == written(old.self) + line_text(old.self, len(self._openStack), string, noNL)
    def post_length(self, string, result): return result >= len(string)
class new_lines(_W):
    target = M + ':MLWriter.writeNewLine'
    args = dict(self=ML, count=IntT)
    modifies = OUTPUT + ['self._currentColumn']
    uses = [buffered]
    def pre(self): return self._bufferSaveSize >= 1
    def post(self, count, old): return written(self) == written(old.self) + old.self._nl * count
class unline(_W):
    """taking back the final line end takes just that"""
    target = M + ':MLWriter.removeFinalNewline'
    args = dict(self=ML, suppressFollowingIndent=BoolT)
    modifies = OUTPUT + ['self._suppressFollowingIndent']
    may_raise = {Exception: lambda self: self.haltOnErrors}
    def pre(self): return self._nl == '\n' or self._nl == '\r\n'
    def post(self, suppressFollowingIndent, old):
        return ((written(self) + self._nl == written(old.self) if old.self._buffer.endswith(self._nl) else written(self) == written(old.self))
                and self._suppressFollowingIndent == suppressFollowingIndent)

# ---- names, text and attributes
def safe(s): return '<' not in s and '>' not in s and '"' not in s
class tag_name(_W):
    target = M + ':MLWriter.checkTag'
    args = dict(self=ML, tagString=StrT)
    result = StrT
    raises = {AssertionError: lambda tagString: tagString == '' or not safe(tagString)}
    def post(tagString, result): return result == tagString
class attribute_name(_W):
    target = M + ':MLWriter.checkAttribName'
    args = dict(self=ML, nameString=StrT)
    result = StrT
    raises = {AssertionError: lambda nameString: nameString == '' or not safe(nameString)}
    def post(nameString, result): return result == nameString
class attribute_value(_W):
    target = M + ':MLWriter.checkAttribValue'
    args = dict(self=ML, valueString=StrT)
    result = StrT
    raises = {AssertionError: lambda valueString: valueString == '' or not safe(valueString)}
    def post(valueString, result): return result == valueString
class attribute_number(_W):
    target = M + ':MLWriter.checkAttribValue'
    args = dict(self=ML, valueString=IntT)
    def post(valueString, result): return result == str(valueString)
class text_checked(_W):
    """checking a text never changes it"""
    target = M + ':MLWriter.checkText'
    args = dict(self=ML, textString=StrT)
    result = StrT
    raises = {AssertionError: lambda textString: textString == ''}
    def pre(self): return not self.haltOnErrors and (self._outputType == 'XML' or self._outputType == 'HTML')
    def found(textString, ix: 'int'): return -1 <= ix and ix <= len(textString)
    templates = [found]
    def left(textString, ix: 'int'): return len(textString) - ix if ix >= 0 else 0
    measures = [left]
    def post(textString, result): return result == textString
def attr(a): return a[0] + '="' + a[1] + '"'
def attr_ok(a): return a[0] != '' and a[1] != '' and safe(a[0]) and safe(a[1])
class one_attribute(_W):
    target = M + ':MLWriter.getAttributes'
    args = dict(self=ML, attribInfo=TupleT(StrT, StrT))
    uses = [attribute_name, attribute_value]
    raises = {AssertionError: lambda attribInfo: not attr_ok(attribInfo)}
    result = StrT
    def post(attribInfo, result): return result == attr(attribInfo)
@recdef(StrT)
def attrs(l, k):
    """the first k attributes, with a space between"""
    return '' if k <= 0 else attrs(l, k - 1) + (' ' if k > 1 else '') + attr(l[k - 1])
class attributes(_W):
    target = M + ':MLWriter.getAttributes'
    args = dict(self=ML, attribInfo=ListT(TupleT(StrT, StrT)))
    uses = [attribute_name, attribute_value]
    raises = {AssertionError: lambda attribInfo: exists(0, len(attribInfo), lambda i: not attr_ok(attribInfo[i]))}
    result = StrT
    def inv_text(r: 'str', attribInfo, k: 'k'): return r == attrs(attribInfo, k)
    def inv_some(r: 'str', attribInfo, k: 'k'): return (r == '') == (k == 0)
    def inv_good(attribInfo, k: 'k'): return forall(0, k, lambda i: attr_ok(attribInfo[i]))
    templates = [inv_text, inv_some, inv_good]
    def post(attribInfo, result): return result == attrs(attribInfo, len(attribInfo))

# ---- lines of mark-up
def ready(w): return w._bufferSaveSize >= 1 and not w.haltOnErrors and (w._outputType == 'XML' or w._outputType == 'HTML')
def named(t): return t != '' and safe(t)
def inside(t): return t == 'a' or t == 'b' or t == 'em' or t == 'i' or t == 'sup' or t == 'sub' or t == 'span'
class open_line(_W):
    target = M + ':MLWriter.writeLineOpen'
    args = dict(self=ML, openTag=StrT, attribInfo=NoneT, noNL=BoolT)
    modifies = LINE + ['self._openStack']
    uses = [auto_write, tag_name]
    def pre(self): return ready(self)
    raises = {AssertionError: lambda openTag: not named(openTag)}
    def post(self, openTag, noNL, old):
        return (written(self) == written(old.self) + line_text(old.self, len(old.self._openStack), '<' + openTag + '>', noNL)
                and pushed(self._openStack, old.self._openStack, openTag))
def pushed(new, old, x): return len(new) == len(old) + 1 and new[len(old)] == x and forall(0, len(old), lambda i: new[i] == old[i])
class open_line_attrs(open_line):
    args = dict(self=ML, openTag=StrT, attribInfo=ListT(TupleT(StrT, StrT)), noNL=BoolT)
    uses = [auto_write, tag_name, attributes]
    raises = {AssertionError: lambda openTag, attribInfo: not named(openTag) or exists(0, len(attribInfo), lambda i: not attr_ok(attribInfo[i]))}
    def post(self, openTag, attribInfo, noNL, old):
        return (written(self) == written(old.self) + line_text(old.self, len(old.self._openStack), '<' + openTag + ' ' + attrs(attribInfo, len(attribInfo)) + '>', noNL)
                and pushed(self._openStack, old.self._openStack, openTag))
class open_text(_W):
    target = M + ':MLWriter.writeLineOpenText'
    args = dict(self=ML, openTag=StrT, text=StrT, attribInfo=NoneT, noTextCheck=BoolT)
    modifies = LINE + ['self._openStack']
    uses = [auto_write, tag_name, text_checked]
    def pre(self): return ready(self)
    raises = {AssertionError: lambda openTag, text, noTextCheck: not named(openTag) or not noTextCheck and text == ''}
    def post(self, openTag, text, old):
        return (written(self) == written(old.self) + line_text(old.self, len(old.self._openStack), '<' + openTag + '>' + text, False)
                and pushed(self._openStack, old.self._openStack, openTag))
class text_line(_W):
    target = M + ':MLWriter.writeLineText'
    args = dict(self=ML, text=StrT, noTextCheck=BoolT, noNL=BoolT)
    modifies = LINE
    uses = [auto_write, text_checked]
    def pre(self): return ready(self)
    raises = {AssertionError: lambda text, noTextCheck: not noTextCheck and text == ''}
    def post(self, text, noNL, old): return written(self) == written(old.self) + line_text(old.self, len(self._openStack), text, noNL)
class comment_line(_W):
    target = M + ':MLWriter.writeLineComment'
    args = dict(self=ML, text=StrT, noTextCheck=BoolT)
    modifies = LINE
    uses = [auto_write, text_checked]
    def pre(self): return ready(self)
    raises = {AssertionError: lambda text, noTextCheck: not noTextCheck and text == ''}
    def post(self, text, old): return written(self) == written(old.self) + line_text(old.self, len(self._openStack), '<!-- ' + text + ' -->', False)
class open_close(_W):
    target = M + ':MLWriter.writeLineOpenClose'
    args = dict(self=ML, tag=StrT, text=StrT, attribInfo=NoneT, noTextCheck=BoolT)
    modifies = LINE
    uses = [auto_write, tag_name, text_checked]
    def pre(self): return ready(self)
    raises = {AssertionError: lambda tag, text, noTextCheck: not named(tag) or not noTextCheck and text == ''}
    def post(self, tag, text, old):
        return written(self) == written(old.self) + line_text(old.self, len(self._openStack), '<' + tag + '>' + text + '</' + tag + '>', self._outputType == 'HTML' and inside(tag))
class open_close_attrs(open_close):
    args = dict(self=ML, tag=StrT, text=StrT, attribInfo=ListT(TupleT(StrT, StrT)), noTextCheck=BoolT)
    uses = [auto_write, tag_name, text_checked, attributes]
    raises = {AssertionError: lambda tag, text, attribInfo, noTextCheck: not named(tag) or not noTextCheck and text == '' or exists(0, len(attribInfo), lambda i: not attr_ok(attribInfo[i]))}
    def post(self, tag, text, attribInfo, old):
        return written(self) == written(old.self) + line_text(old.self, len(self._openStack), '<' + tag + ' ' + attrs(attribInfo, len(attribInfo)) + '>' + text + '</' + tag + '>', self._outputType == 'HTML' and inside(tag))
class self_close(_W):
    target = M + ':MLWriter.writeLineOpenSelfclose'
    args = dict(self=ML, tag=StrT, attribInfo=ListT(TupleT(StrT, StrT)))
    modifies = LINE
    uses = [auto_write, tag_name, attributes]
    def pre(self): return ready(self)
    raises = {AssertionError: lambda tag, attribInfo: not named(tag) or exists(0, len(attribInfo), lambda i: not attr_ok(attribInfo[i]))}
    def post(self, tag, attribInfo, old):
        return written(self) == written(old.self) + line_text(old.self, len(self._openStack), '<' + tag + ' ' + attrs(attribInfo, len(attribInfo)) + (' ' if self.spaceBeforeSelfcloseTag else '') + '/>', False)
class close_line(_W):
    """closing the tag opened last takes it off the stack"""
    target = M + ':MLWriter.writeLineClose'
    args = dict(self=ML, closeTag=StrT)
    modifies = LINE + ['self._openStack']
    uses = [auto_write, tag_name]
    def pre(self, closeTag): return ready(self) and len(self._openStack) > 0 and named(closeTag)
    def post(self, closeTag, old):
        return written(self) == written(old.self) + line_text(old.self, len(self._openStack), '</' + closeTag + '>', self._outputType == 'HTML' and inside(closeTag))
    def post_stack(self, old): return pushed(old.self._openStack, self._openStack, old.self._openStack[len(old.self._openStack) - 1])
class close_mismatch(_W):
    world = halting_world
    """with halting on, only the tag opened last can be closed"""
    target = M + ':MLWriter.writeLineClose'
    args = dict(self=ML, closeTag=StrT)
    modifies = LINE + ['self._openStack']
    uses = [auto_write, tag_name]
    def pre(self, closeTag): return self.haltOnErrors and self._bufferSaveSize >= 1 and (self._outputType == 'XML' or self._outputType == 'HTML') and named(closeTag)
    raises = {Exception: lambda old, closeTag: len(old.self._openStack) == 0 or old.self._openStack[len(old.self._openStack) - 1] != closeTag}
class finish(_W):
    """closing writes all that is still buffered"""
    target = M + ':MLWriter.close'
    args = dict(self=ML, writeFinalNL=BoolT)
    modifies = OUTPUT + ['self._currentColumn', 'self._status', 'self._MLWriter__outputFile.open']
    uses = [flush, new_lines]
    def pre(self): return ready(self)
    def post(self, writeFinalNL, old):
        return self._MLWriter__outputFile.text == written(old.self) + (old.self._nl if writeFinalNL else '') and self._buffer == '' and not self._MLWriter__outputFile.open
class finish_open(_W):
    world = halting_world
    """with halting on, closing with tags still open is refused"""
    target = M + ':MLWriter.close'
    args = dict(self=ML, writeFinalNL=BoolT)
    modifies = OUTPUT + ['self._currentColumn', 'self._status', 'self._MLWriter__outputFile.open']
    uses = [flush, new_lines]
    raises = {Exception: lambda self: len(self._openStack) > 0}
    def pre(self): return self.haltOnErrors and self._bufferSaveSize >= 1
class finish_all(_W):
    """closing automatically closes every open tag, and the file"""
    target = M + ':MLWriter.autoClose'
    args = dict(self=ML)
    modifies = LINE + ['self._openStack', 'self._status', 'self._sectionName', 'self._MLWriter__outputFile.open']
    uses = [close_line, finish]
    def pre(self): return ready(self) and self._status == 'Open' and forall(0, len(self._openStack), lambda i: named(self._openStack[i]))
    def inv(st: 'list', self, k: 'k'): return len(st) == len(self._openStack) - k and forall(0, len(st), lambda i: st[i] == self._openStack[i])
    templates = [inv]
    def post(self): return len(self._openStack) == 0 and self._buffer == '' and not self._MLWriter__outputFile.open

# ---- escaping
XML_TABLE = {'&': '&amp;', '"': '&quot;', '<': '&lt;', '>': '&gt;'}
class escaped(Contract):
    """escaping replaces each of & " < > by its entity and keeps every other character"""
    target = M + ':MLWriter.escape_characters'
    args = dict(rawTextString=StrT, checkFirst=BoolT)
    hom = True
    def pre(rawTextString, checkFirst): return not checkFirst or '&' not in rawTextString
    def post_charwise(rawTextString, result): return result == charmap(rawTextString, XML_TABLE)
    def _acc(acc: 'str', rawTextString, k: 'idx'): return acc == charmap_prefix(rawTextString, k, XML_TABLE)
    templates = [_acc]

# ---- the file on disk (real files, bounded)
def write_document(kind, endings, layout, steps, way):
    """drive a real writer through the steps into a scratch file; -> (text of the file, bytes of the file)"""
    import os, tempfile
    d = tempfile.mkdtemp()
    try:
        w = MLWriter('t.xml', d, kind)
        w.setHumanReadable(*layout)
        w.start(endings)
        for what, *a in steps:
            if what == 'position':
                n = w.getFilePosition()
                assert n == os.path.getsize(os.path.join(d, 't.xml')), 'position in the file'
            else: getattr(w, what)(*a)
        if way == 'auto': w.autoClose()
        else:
            while w._openStack: w.writeLineClose(w._openStack[-1])
            w.close(way == 'newline')
        with open(os.path.join(d, 't.xml'), 'rb') as f: return f.read()
    finally:
        for n in os.listdir(d): os.remove(os.path.join(d, n))
        os.rmdir(d)
def expected_events(steps):
    """the mark-up events asked for"""
    out = []; stack = []
    def attributes_(a): return {} if a is None else dict([a] if isinstance(a, tuple) else [(k, str(v)) for k, v in (a.items() if isinstance(a, dict) else a)])
    def text(t): out.append(('text', t))
    for what, *a in steps:
        if what == 'writeLineOpen': out.append(('open', a[0], attributes_(a[1]))); stack.append(a[0])
        elif what == 'writeLineOpenText': out.append(('open', a[0], attributes_(a[2]))); text(a[1]); stack.append(a[0])
        elif what == 'writeLineText': text(a[0])
        elif what == 'writeLineComment': out.append(('comment', a[0]))
        elif what == 'writeLineOpenClose': out.append(('open', a[0], attributes_(a[2]))); text(a[1]); out.append(('close', a[0]))
        elif what == 'writeLineOpenSelfclose': out.append(('open', a[0], attributes_(a[1]))); out.append(('close', a[0]))
        elif what == 'writeLineClose': out.append(('close', stack.pop()))
    while stack: out.append(('close', stack.pop()))
    return merged(out)
def merged(events):
    """white space is layout: not compared; neighbouring texts are joined"""
    import html
    out = []
    for e in events:
        if e[0] == 'text':
            t = ''.join(html.unescape(e[1]).split())
            if not t: continue
            if out and out[-1][0] == 'text': out[-1] = ('text', out[-1][1] + t)
            else: out.append(('text', t))
        elif e[0] == 'comment': out.append(('comment', ''.join(e[1].split())))
        else: out.append(e)
    return out
def parsed_events(data):
    import xml.parsers.expat
    out = []; p = xml.parsers.expat.ParserCreate('utf-8')
    p.StartElementHandler = lambda n, a: out.append(('open', n, dict(a)))
    p.EndElementHandler = lambda n: out.append(('close', n))
    p.CharacterDataHandler = lambda t: out.append(('text', t.replace('&', '&amp;')))
    p.CommentHandler = lambda t: out.append(('comment', t))
    p.Parse(data, True)
    return merged(out)
def some_document(rng):
    tags = ('p', 'b', 'div', 'osis', 'a', 'span', 'verse', 'li')
    def att():
        one = lambda: (rng.choice(('id', 'n', 'osisID', 'href')), rng.choice(('x', '1', 'Gen.1.1', 'é', 'a b')))
        return rng.choice((None, None, one(), [one()], list(dict([one(), one(), one()]).items()), [('n', 12)], dict([one(), one()])))
    def txt(): return rng.choice(('hello', 'a &amp; b', 'α β', 'Ελλην', 'x &lt; y', 'long ' * 30, 'שלום', 'y' * 990))
    steps = [('writeLineOpen', 'root', att())]; depth = 1
    for _ in range(rng.choice((0, 2, 5, 12, 40))):
        k = rng.randrange(9); t = rng.choice(tags)
        if k <= 1: steps.append(('writeLineOpen', t, att())); depth += 1
        elif k == 2: steps.append(('writeLineOpenText', t, txt(), att())); depth += 1
        elif k == 3: steps.append(('writeLineText', txt()))
        elif k == 4: steps.append(('writeLineComment', rng.choice(('note', 'α', 'n &amp; m')).replace('&amp;', 'and')))
        elif k == 5: steps.append(('writeLineOpenClose', t, txt(), att()))
        elif k == 6: steps.append(('writeLineOpenSelfclose', t, att()))
        elif k == 7: steps.append(rng.choice((('writeNewLine', rng.choice((1, 2))), ('position',), ('setSectionName', rng.choice(('None', 'Header', 'Main'))))))
        elif depth > 1:
            stack = []
            for s in steps:
                if s[0] in ('writeLineOpen', 'writeLineOpenText'): stack.append(s[1])
                elif s[0] == 'writeLineClose': stack.pop()
            steps.append(('writeLineClose', stack[-1])); depth -= 1
    return dict(kind=rng.choice(('XML', 'XML', 'HTML')), endings=rng.choice('lw'), layout=rng.choice((('All', 2), ('All', 0), ('None', 2), ('Header', 1), ('NLSpace', 2))), steps=steps,
                way=rng.choice(('auto', 'plain', 'newline')))
class written_file(Contract):
    """the file written is well formed UTF-8, and an XML parser finds in it exactly the mark-up asked for, in order"""
    bounded = True
    bound_note = 'seeded documents of up to 41 steps over every kind of line, attribute form, layout, line ending and way of closing; parsed by expat'
    native_s = 10
    target = C + ':write_document'
    args = dict(kind=StrT, endings=StrT, layout=TupleT(StrT, IntT), steps=ListT(StrT), way=StrT)
    gen = some_document
    def post(steps, result): return parsed_events(result) == expected_events(steps)
    def post_start(kind, result): return kind != 'XML' or result.startswith(b'<?xml version="1.0" encoding="utf-8"?>')
    def post_ends(endings, layout, way, result):
        return layout[0] != 'All' or (result.count(b'\r\n') == result.count(b'\n') if endings == 'w' else b'\r' not in result)

@fact
def utf8_everywhere():
    """a document with letters outside ASCII is written as UTF-8 also where that is not the default of the system (C locale)"""
    import subprocess, sys, os
    code = "from contracts.c02 import write_document as w; import sys; d = w('XML', 'l', ('All', 2), [('writeLineOpen', 'root', None), ('writeLineText', '\\u03b1 \\xe9')], 'plain'); sys.exit(0 if '\\u03b1 \\xe9'.encode('utf-8') in d else 3)"
    env = dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
    r = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True, timeout=120)
    return None if r.returncode == 0 else (r.stderr.strip().splitlines() or ['other bytes'])[-1]

"""XML parsing of symbolic documents.

The parser is not modelled: the real xml.dom.minidom (expat) parses the document with every
symbolic character replaced by a placeholder of the same lexical class, and the placeholders in the
resulting tree are replaced by the symbolic characters. The assumption is that expat treats all
characters of one class alike in the same context. Classes: each markup character on its own, white
space, name-start characters, other name characters, other legal characters, illegal characters."""
import re
from xml.dom import minidom
from . import ival, core, strs
from .core import ctx, PathEnd, Unsupported
from .strs import SymStr, SymBytes, Ch, Hole, Choice, items, mk, P, fork_all

REAL_PARSE = minidom.parseString
MARKUP = '<&>"\'\r\n\t /=?![]-;#:%'
TEXT_ACTIVE = ival.of_str('<&\r')
ATTR_ACTIVE = ival.of_str('"\'\n\t')
_CLS = {}


def classes():
    if not _CLS:
        def ok(doc):
            try:
                REAL_PARSE(doc)
                return True
            except Exception:
                return False
        # name classes of the real parser, by bisection over blocks is not possible: ask it for
        # every BMP character through one document with many elements is costly, so use XML 1.0
        # (4th edition) as implemented by expat: tabulated once from the parser itself, per range
        start = []
        name = []
        for c in range(0x20, 0x3000):
            ch = chr(c)
            if ch in MARKUP or 0xD800 <= c <= 0xDFFF:
                continue
            if ok('<' + ch + '/>'):
                start.append(c)
            elif ok('<a' + ch + '/>'):
                name.append(c)
        _CLS['start'] = ival.of_codes(start)
        _CLS['name'] = ival.of_codes(name)
    return _CLS


def fork_set(ch, iv):
    """Decide membership; if in iv, decide the character itself."""
    c = ctx()
    iv = ival.inter(ch.dom, iv)
    if not iv:
        return False
    if not c.branch(ch.isin(iv)):
        return False
    for v in list(ival.codes(ch.dom)):
        if c.branch(ch.isin(((v, v),))):
            return True
    raise PathEnd()


def in_quotes(its):
    """The positions within attribute values, as far as that is plain to see."""
    out = set()
    state = ''                  # '' text, '<' inside a tag, or the quote
    for i, x in enumerate(its):
        if not isinstance(x, str):
            if state in ('"', "'"):
                out.add(i)
        elif state == '':
            if x == '<':
                if i + 1 < len(its) and its[i + 1] in ('!', '?'):
                    return out
                state = '<'
        elif state == '<':
            if x in '"\'':
                state = x
            elif x == '>':
                state = ''
        elif x == state:
            state = '<'
    return out


def parse(xml, parser=None):
    if isinstance(xml, SymBytes):
        xml = xml.s
    if not isinstance(xml, SymStr):
        return REAL_PARSE(xml)
    cls = {}
    while True:
        its = items(xml)
        if all(isinstance(x, str) for x in its):
            return REAL_PARSE(''.join(its))
        again = False
        quoted = in_quotes(its)
        for i, x in enumerate(its):
            if isinstance(x, Hole):
                # a value may stay empty: nothing but the value depends on it
                if i not in quoted and not x.nonempty():
                    again = True
            elif isinstance(x, Choice):
                # alternatives without active characters stay together
                if any(s == '' or set(s) & set('<&\r"\'\n\t') or not all(ival.has(ival.XMLCHAR, ord(q)) for q in s)
                       for _, s in x.live()):
                    if not x.narrow(lambda s: s != '' and not set(s) & set('<&\r"\'\n\t')
                                    and all(ival.has(ival.XMLCHAR, ord(q)) for q in s)):
                        x.fork()
                    again = True
            elif isinstance(x, Ch):
                if fork_set(x, TEXT_ACTIVE):
                    again = True
                elif x.name not in cls:
                    if ctx().branch(x.isin(ival.compl(ival.XMLCHAR))):
                        cls[x.name] = 'illegal'
        if again:
            continue
        # "]]>" in character data
        base = 0xE000
        used = {x for x in its if isinstance(x, str)}
        ph = {}
        byname = {}
        doc = []
        for i, x in enumerate(its):
            if isinstance(x, str):
                doc.append(x)
                if x == '>' and i >= 1 and not isinstance(its[i - 1], str) and isinstance(its[i - 1], Ch):
                    if ival.has(its[i - 1].dom, 0x5D) and i >= 2 and its[i - 2] == ']':
                        if fork_set(its[i - 1], ival.of_str(']')):
                            again = True
                continue
            k = cls.get(x.name) if isinstance(x, Ch) else None
            if k == 'illegal':
                doc.append('\x01')
                continue
            if not isinstance(x, Choice):
                n = cls.get(('=', x.name), x.name)
                if n in byname:
                    doc.append(byname[n])     # the same variable again, or an equal one
                    continue
            if k == 'start':
                b = 0x4E00
            elif k == 'name':
                b = None
            else:
                b = base
            if b is None:
                # a name character that cannot start a name
                ch = next(chr(v) for v in ival.codes(classes()['name']) if v > 0x300 and chr(v) not in used
                          and chr(v) not in ph)
            else:
                while chr(b + len(ph)) in used:
                    base += 1
                    b += 1
                ch = chr(b + len(ph))
            ph[ch] = x
            if not isinstance(x, Choice):
                byname[x.name] = ch
            doc.append(ch)
        if again:
            continue
        try:
            d = REAL_PARSE(''.join(doc))
        except Exception:
            if classify_all(its, cls):
                continue
            raise
        found = set()
        if not walk(d, ph, found):
            continue
        if found != set(ph):
            if classify_all(its, cls):
                continue
            if any(k not in found for k in ph if isinstance(ph[k], (Hole, Choice))):
                raise Unsupported('abstract text inside markup')
        subst(d, ph)
        return d


def classify_all(its, cls):
    """Fork on the lexical class of every unclassified character; True if anything was decided."""
    did = False
    for x in its:
        if isinstance(x, Ch) and x.name not in cls:
            did = True
            if fork_set(x, ival.of_str(MARKUP)):
                return True
            k = classes()
            if ctx().branch(x.isin(k['start'])):
                cls[x.name] = 'start'
            elif ctx().branch(x.isin(k['name'])):
                cls[x.name] = 'name'
            elif ctx().branch(x.isin(((0x3000, ival.MAXC),))):
                v = ctx().ex.int_choice(ctx(), x.expr)
                if not ctx().branch(x.isin(((v, v),))):
                    ctx().ex.cut('character above U+3000 inside markup')
                    raise PathEnd()
                return True
            else:
                cls[x.name] = 'other'
    if did:
        return True
    named = []
    for x in its:
        if isinstance(x, Ch) and cls.get(x.name) in ('start', 'name') and x not in named \
                and ('=', x.name) not in cls:
            named.append(x)
    for i, x in enumerate(named):
        for y in named[:i]:
            if ('?', x.name, y.name) not in cls:
                cls['?', x.name, y.name] = True
                if ctx().branch(strs.eqg(mk([x]), mk([y]))):
                    cls['=', x.name] = y.name
                return True
    for x in its:
        if isinstance(x, Hole):
            x.expand()
            return True
        if isinstance(x, Choice):
            x.fork()
            return True
    return False


def nodes(n):
    yield n
    at = getattr(n, 'attributes', None)
    if at is not None and n.nodeType == 1:
        for a in at.values():
            yield a
    for c in n.childNodes or ():
        yield from nodes(c)


def walk(d, ph, found):
    """Find the placeholders; False if a character had to be decided first."""
    for n in nodes(d):
        t = n.nodeType
        if t in (3, 4, 8, 7):
            for c in n.data:
                if c in ph:
                    found.add(c)
                    x = ph[c]
                    if t != 3 and isinstance(x, Ch) and fork_set(x, ival.of_str('-]?>')):
                        return False
            if t == 3 and ']' in n.data or t == 3 and False:
                pass
        elif t == 2:
            for c in n.value:
                if c in ph:
                    found.add(c)
                    x = ph[c]
                    if isinstance(x, Ch) and fork_set(x, ATTR_ACTIVE):
                        return False
            for c in n.name:
                if c in ph:
                    found.add(c)
        elif t == 1:
            for c in n.tagName:
                if c in ph:
                    found.add(c)
    return True


def sub(s, ph):
    if not any(c in ph for c in s):
        return s
    return mk([ph.get(c, c) for c in s])


def subst(d, ph):
    for n in list(nodes(d)):
        t = n.nodeType
        if t in (3, 4, 8):
            n._data = sub(n._data, ph)
        elif t == 2:
            n._value = sub(n._value, ph)
            n._name = sub(n._name, ph)
            for c in n.childNodes:
                c._data = n._value
        elif t == 1:
            n.tagName = n.nodeName = sub(n.tagName, ph)

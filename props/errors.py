"""C12-C15: child counts, totality, malformed documents, recovery of valueless attributes."""
import re
from . import lib
from .lib import N, mn, shape, xml, math
from sx import ival

S = {}


def add(name, pid, fn, thorough=None, /, tier=None, **params):
    if name in S:
        name = '%s %s' % (pid, name)
    assert name not in S, name
    S[name] = dict(property=pid, fn=fn, params=params, thorough=thorough or {})
    if tier:
        S[name]['tier'] = tier


# C12 child counts
NEED = {'mfrac': 2, 'mroot': 2, 'msup': 2, 'msub': 2, 'mover': 2, 'munder': 2, 'msubsup': 3, 'munderover': 3}


def wrap(h, where, n):
    if where == 'row':
        return N('mrow', mn(h, 'w'), n)
    if where == 'deep':
        return N('msqrt', N('mfrac', mn(h, 'w'), N('mrow', n)))
    if where == 'cell':
        return N('mtable', N('mtr', N('mtd', n)))
    if where == 'fence':
        return N('mfenced', mn(h, 'w'), n)
    if where == 'action':
        return N('maction', n, at={'actiontype': 'statusline'})
    if where == 'styled':
        return N('mstyle', n)
    return n


def arity(h, tags, hi, where, kinds, at=()):
    t = h.pick('tag', tags)
    k = h.pick('n', list(range(hi + 1)))
    w = h.pick('where', where)
    text = h.pick('text', ['', 'q']) if k == 0 else ''
    ks = [shape(h, 'c%d' % i, kinds) for i in range(k)]
    n = N(t, *ks, text=text, at=at)
    r = h.run(math(h, wrap(h, w, n)))
    if t in NEED:
        good, txt, need = k == NEED[t], '', NEED[t]
    elif t == 'mmultiscripts':
        good, txt, need = k >= 3, 'at least', 3
    else:
        good, txt, need = k >= 1, 'at least', 1
    if good:
        h.check(r.ok, lambda f: '%s with %d children fails: %s %s' % (t, k, r.kind, f(r.msg)))
        return
    h.check(not r.ok, lambda f: '%s with %d children converts to %r' % (t, k, f(r.value)))
    h.check(r.kind == 'InvalidNumberOfChildrenError', '%s with %d children raises %s' % (t, k, r.kind))
    m = str(r.exc)
    nums = re.findall(r'\d+', m)
    h.check(bool(re.search(r'\b%s\b' % t, m)), 'error of %s with %d children does not name it: %r' % (t, k, m))
    h.check(nums == [str(need), str(k)], 'error of %s with %d children names counts %r' % (t, k, m))
    h.check(('at least' in m) == bool(txt), 'error of %s with %d children: %r' % (t, k, m))


W = ['alone', 'row', 'deep', 'cell', 'fence', 'action', 'styled']
for t in NEED:
    add('arity ' + t, 'C12', arity, dict(hi=8, where=W), tags=[t], hi=5, where=['alone', 'row', 'deep', 'cell'], kinds=['num'])
add('arity mmultiscripts', 'C12', arity, dict(hi=9, where=W), tags=['mmultiscripts'], hi=6, where=['alone', 'row', 'deep'], kinds=['num'])
add('arity maction', 'C12', arity, dict(where=W), tags=['maction'], hi=3, where=['alone', 'row', 'deep'], kinds=['num'], at=[('actiontype', 'statusline')])
add('arity bevelled', 'C12', arity, tags=['mfrac'], hi=4, where=['alone', 'row'], kinds=['num'], at=[('bevelled', 'true')])
add('arity of parts', 'C12', arity, dict(kinds=['num', 'empty', 'none', 'space', 'phantom', 'frac', 'row']), tags=list(NEED), hi=3, where=['alone'], kinds=['empty', 'none', 'row'])


# C13 totality
ALLTAGS = ['math', 'mi', 'mo', 'mn', 'msqrt', 'mfenced', 'mfrac', 'mroot', 'maction', 'menclose', 'merror', 'mphantom', 'msup',
           'msub', 'msubsup', 'mmultiscripts', 'mtext', 'munderover', 'mtable', 'mtr', 'mtd', 'mover', 'munder', 'mrow',
           'mpadded', 'mprescripts', 'none', 'mspace', 'foo']
ATTR = ['bevelled', 'notation', 'actiontype', 'open', 'close', 'separators', 'mathvariant', 'innerTable', 'foo']
CHARS = ival.XMLCHAR


def total_ok(h, r, x):
    if r.ok:
        h.check(isinstance(r.value, str) or type(r.value).__name__ == 'SymStr', lambda f: 'convert returns %r' % (type(r.value),))
    else:
        h.check(r.kind == 'InvalidNumberOfChildrenError', lambda f: '%s: %s for the well-formed %r' % (r.kind, f(r.msg), f(x)))


def any_text(h, tag, n, at=()):
    """Every text of up to n characters in a token."""
    k = h.text('t', CHARS, 0, n)
    x = h.cat('<math><', tag, *at, '>', h.escape(k), '</', tag, '></math>')
    total_ok(h, h.run(x), x)


def any_attr(h, tag, attr, n, kids):
    """Every value of up to n characters of an attribute."""
    v = h.text('v', CHARS, 0, n)
    x = h.cat('<math><', tag, ' ', attr, '="', h.escape(v), '">', kids, '</', tag, '></math>')
    total_ok(h, h.run(x), x)


def any_tree(h, tags, depth, width, leaf):
    """Every tree of the given depth and width over the element names."""
    def gen(name, d):
        t = h.pick(name + '.t', tags if d else leaf)
        n = h.pick(name + '.n', list(range(width + 1))) if d else 0
        ks = [gen('%s.%d' % (name, i), d - 1) for i in range(n)]
        return N(t, *ks, text='' if ks else 'x' if t in ('mi', 'mn', 'mtext') else '')
    x = math(h, gen('r', depth))
    total_ok(h, h.run(x), x)


def any_two(h, outer, inner, ns, ms, attr):
    """Every pair of element names, with 0 to 3 children on each level."""
    a = h.pick('a', outer)
    n = h.pick('n', ns)
    b = h.pick('b', inner)
    m = h.pick('m', ms)
    at = h.pick('attr', attr)
    q = [(k, {'bad': '\u00e9 {', 'empty': ''}[at]) for k in ATTR] if at != 'none' else []
    kid = lambda: N(b, *[N('mn', text='1') for _ in range(m)], at=q)
    x = math(h, N(a, *[kid() for _ in range(n)], at=q))
    total_ok(h, h.run(x), x)


def roots(h, n):
    """Documents whose root is not math."""
    t = h.pick('root', ['div', 'mrow', 'mi', 'math', 'foo'])
    k = h.text('t', CHARS, 0, n)
    x = h.cat('<', t, '>', h.escape(k), '<math><mn>1</mn>', h.escape(k), '</math></', t, '>')
    total_ok(h, h.run(x), x)


for t in ('mi', 'mo', 'mn', 'mtext', 'mrow', 'mspace'):
    add('text of ' + t, 'C13', any_text, dict(n=2), tag=t, n=1)
for t, a, kids in (('mfenced', 'open', '<mn>1</mn>'), ('mfenced', 'close', '<mtable/>'), ('mfenced', 'separators', '<mn>1</mn><mn>2</mn>'),
                   ('menclose', 'notation', '<mn>1</mn>'), ('maction', 'actiontype', '<mn>1</mn>'), ('mfrac', 'bevelled', '<mn>1</mn><mn>2</mn>'),
                   ('mi', 'mathvariant', 'x'), ('mtext', 'mathvariant', 'x+'), ('mtable', 'innerTable', '<mtr/>'), ('mrow', 'foo', '<mi/>')):
    add('value of %s %s' % (t, a), 'C13', any_attr, dict(n=3), tag=t, attr=a, n=2, kids=kids)
def value(h, name, kind):
    """An attribute value: a word or a number with a unit of any length, or any one character."""
    if kind == 'word':
        return h.hole(name, ival.of_str('abcdefghijklmnopqrstuvwxyz-'))
    if kind == 'number':
        return h.hole(name, ival.of_str('0123456789+-.%empxcti#'))
    return h.text(name, CHARS, 0, 1)


FILL = {'mi': 'x', 'mo': '+', 'mn': '2', 'mtext': 'a b'}
KIDS = {'mfrac': 2, 'mroot': 2, 'msup': 2, 'msub': 2, 'mover': 2, 'munder': 2, 'msubsup': 3, 'munderover': 3, 'mmultiscripts': 3, 'mfenced': 2,
        'menclose': 2, 'maction': 2}


def real_attrs(h, tags, names, kinds):
    """Every attribute of MathML on every element, one at a time."""
    t = h.pick('tag', tags)
    a = h.pick('attr', names)
    v = value(h, 'v', h.pick('kind', kinds))
    kids = FILL.get(t, '<mn>1</mn>' * KIDS.get(t, 1))
    x = h.cat('<math><', t, ' ', a, '="', h.escape(v), '">', kids, '</', t, '></math>')
    total_ok(h, h.run(x), x)


def all_attrs(h, tags, kinds):
    """All attributes of MathML at once, each with its own value."""
    t = h.pick('tag', tags)
    k = h.pick('kind', kinds)
    at = [h.cat(' ', a, '="', h.hole('v%d' % i, ival.of_str('0123456789+-.%empxcti#' if k == 'number' else 'ABCDEFGHIJKLMNOPQRSTUVWXYZ')), '"')
          for i, a in enumerate(lib.REAL)]
    x = h.cat('<math><', t, *at, '>', FILL.get(t, '<mn>1</mn>' * KIDS.get(t, 1)), '</', t, '></math>')
    total_ok(h, h.run(x), x)


for i in range(0, len(ALLTAGS), 6):
    add('attributes %d' % (i // 6), 'C13', real_attrs, dict(kinds=['word', 'number', 'character']), tags=ALLTAGS[i:i + 6], names=lib.REAL, kinds=['word', 'number'])
add('all attributes', 'C13', all_attrs, tags=ALLTAGS, kinds=['upper', 'number'])
for i, q in enumerate([ALLTAGS[:7], ALLTAGS[7:14], ALLTAGS[14:21], ALLTAGS[21:]]):
    add('pairs %d' % i, 'C13', any_two, dict(inner=ALLTAGS, ns=[0, 1, 2, 3], ms=[0, 1, 2, 3], attr=['none', 'bad', 'empty']), outer=q,
        inner=['mi', 'mfrac', 'mtable', 'mprescripts', 'math'], ns=[1, 2, 3], ms=[0, 2, 3], attr=['none', 'bad'])
add('trees', 'C13', any_tree, dict(tags=['mrow', 'mfrac', 'msup', 'mtable', 'mfenced', 'mmultiscripts', 'maction']),
    tags=['mrow', 'mfrac', 'mtable', 'mfenced'], depth=2, width=2, leaf=['mi'])
add('roots', 'C13', roots, dict(n=2), n=1)


# C14 malformed documents
def malformed(h, kind):
    a = h.text('t', ival.of_str('abcxyz'), 1, 1)
    docs = {
        'mismatched': ['<math><mi>', a, '</mo></math>'],
        'unclosed': ['<math><mrow><mi>', a, '</mi></math>'],
        'truncated': ['<math><mi>', a, '</mi>'],
        'ampersand': ['<math><mi>', a, ' & ', a, '</mi></math>'],
        'entity': ['<math><mi>&', a, 'nosuch;</mi></math>'],
        'two roots': ['<math><mi>', a, '</mi></math><math/>'],
        'no markup': [a],
        'less': ['<math><mi>', a, ' < 1</mi></math>'],
        'duplicate': ['<math><mi q="1" q="2">', a, '</mi></math>'],
        'prefix': ['<math><zz:mi>', a, '</zz:mi></math>'],
        'open quote': ['<math><mi q="', a, '>x</mi></math>'],
        'end only': ['</math>', a],
        'empty': [''],
        'space': ['  '],
    }
    x = h.cat(*docs[kind])
    r = h.run(x)
    h.check(not r.ok, lambda f: 'malformed %r converts to %r' % (f(x), f(r.value)))
    h.check(r.kind == 'ExpatError', lambda f: 'malformed %r raises %s' % (f(x), r.kind))


def illegal(h, tag):
    """A character that XML does not allow."""
    c = h.char('c', ival.minus(ival.compl(ival.XMLCHAR), ((0xD800, 0xDFFF),)))
    x = h.cat('<math><', tag, '>', c, '</', tag, '></math>')
    r = h.run(x)
    h.check(not r.ok and r.kind == 'ExpatError', lambda f: 'illegal character in %r: %s' % (f(x), r.kind if not r.ok else f(r.value)))


def cut(h, doc):
    """Every proper prefix of a document."""
    i = h.pick('length', list(range(1, len(doc))))
    r = h.run(doc[:i])
    h.check(not r.ok and r.kind == 'ExpatError', lambda f: 'prefix %r: %s' % (doc[:i], r.kind if not r.ok else f(r.value)))


def not_well_formed(doc):
    from xml.parsers import expat
    try:
        expat.ParserCreate().Parse(doc, True)
        return False
    except expat.ExpatError:
        return True


VALUELESS = re.compile(r'''\s[\w:-]+\s*(?:=(?!\s*["'])|(?=[\s>/]))''')


def fails(h, x, what):
    r = h.run(x)
    h.check(not r.ok, lambda f: '%s: %r converts to %r' % (what, f(x), f(r.value)))
    h.check(r.kind == 'ExpatError', lambda f: '%s: %r raises %s' % (what, f(x), r.kind))


def two_roots(h, firsts, seconds, n):
    """A second root element, or text outside the root."""
    t = h.text('t', lib.ALNUM, 1, 1)
    w = h.text('between', ival.of_str(' \n'), 0, n)
    c = h.pick('comment', ['', ' <!-- a b -->'])
    x = h.cat(h.cat(*[t if q is None else q for q in h.pick('first', firsts)]), w, c, h.pick('second', seconds))
    fails(h, x, 'two roots')


def damaged(h, docs, marks):
    """A document with one character of its markup removed, doubled, replaced or added."""
    d = h.pick('doc', docs)
    i = h.pick('at', list(range(len(d))))
    k = h.pick('edit', ['remove', 'double'] + marks)
    if d[i] == '@':
        return
    t = h.text('t', lib.LETTERS, 1, 1)
    e = d[:i] + {'remove': '', 'double': d[i] * 2}.get(k, k) + d[i + 1:]
    if k not in ('remove', 'double') and h.pick('add', [0, 1]):
        e = d[:i] + k + d[i:]
    q = [e.replace('@', w) for w in ('n', 'Q')]
    if not all(not_well_formed(w) for w in q) or any(VALUELESS.search(w) for w in q):
        return
    a = e.split('@')
    fails(h, h.cat(*[p for w in a[:-1] for p in (w, t)], a[-1]), 'damaged')


def undefined(h, names, where):
    """A reference to an entity nobody defined, in a text or an attribute value."""
    n = h.pick('name', names)
    t = h.text('t', lib.ALNUM, 1, 1)
    n = h.cat(h.text('n', lib.LETTERS, 1, 3), 'q') if n is None else n
    if n == '' or isinstance(n, str) and n in ('lt', 'gt', 'amp', 'quot', 'apos'):
        return
    w = h.pick('where', where)
    if w == 'value':
        x = h.cat('<math><mfenced open="&', n, ';"><mi>a</mi></mfenced></math>')
    elif w == 'between':
        x = h.cat('<math><mi>a</mi>&', n, ';<mi>b</mi></math>')
    else:
        x = h.cat('<math><', w, '>a&', n, ';', t, '</', w, '></math>')
    if n is not None and not isinstance(n, str):
        h.assume(h.lnot(h.test(n[:1], str.isdigit)))
    fails(h, x, 'undefined entity')


ROOT1 = [['<math><mi>', None, '</mi></math>'], ['<math/>'], ['<math><mfenced open="(" close=")"><mi>', None, '</mi></mfenced></math>'], ['<div><math><mn>', None, '</mn></math></div>'], ['<math display="block">', None, '</math>'],
         ['<?xml version="1.0"?><math><mi>', None, '</mi></math>']]
ROOT2 = ['<b/>', '<math/>', '<math><mi>x</mi></math>', '<math display="block"><mi>x</mi></math>', '<mi id="a">q</mi>', '<b>', '</b>', 'x', '&#65;', '<![CDATA[x]]>', '<?xml version="1.0"?>',
         '</math>', '<br />', '<p class="x">y</p>', 'a = "b"', '<!DOCTYPE math>', '<!', '<', '>', '&', '"']
add('second root', 'C14', two_roots, dict(n=3), firsts=ROOT1, seconds=ROOT2, n=1)
DAMAGE = ['<math><mi>@</mi><mo>+</mo></math>', '<math><mfenced open="(" close=\'|\'><mi mathvariant="bold">@</mi><mspace/></mfenced></math>',
          '<math display="block"><mtext><![CDATA[@<]]></mtext><!--c--><mn>&#945;&amp;1</mn></math>', '<mml:math><mml:mi>@</mml:mi></mml:math>']
for i, q in enumerate(DAMAGE):
    add('damaged %d' % i, 'C14', damaged, docs=[q], marks=['<', '>', '&', '/', '"', ' ', '='] if i else ['<', '>', '&', '/', '"', "'", ' ', '=', '!', '-', ';', ']', '\x01'])
add('undefined entities', 'C14', undefined, names=['nbsp', 'alpha', 'sum', 'InvisibleTimes', 'ApplyFunction', 'af', 'it', 'hellip', 'mdash', 'times', 'Sum', 'pi', 'infin', 'LT', 'Amp', 'lt1', 'le', 'ThinSpace', None],
    where=['mi', 'mo', 'mn', 'mtext', 'value', 'between'])
for k in ('mismatched', 'unclosed', 'truncated', 'ampersand', 'entity', 'two roots', 'no markup', 'less', 'duplicate', 'prefix',
          'open quote', 'end only', 'empty', 'space'):
    add(k, 'C14', malformed, kind=k)
for t in ('mi', 'mtext'):
    add('illegal in ' + t, 'C14', illegal, tag=t)
add('prefixes', 'C14', cut, doc='<math><mfenced open="(" q=\'1\'><mi>&#945;</mi><!-- c --><mn>1</mn></mfenced></math>')


# C15 valueless attributes
def recover(h, spots, names, styles, text):
    """Attributes without value at the end of a start tag: the document converts as without them."""
    k = h.pick('spots', spots)
    bad, good = ['<math><mrow>'], ['<math><mrow>']
    for i in range(k):
        nm = h.pick('name%d' % i, names)
        st = h.pick('style%d' % i, styles)
        tx = h.pick('text%d' % i, text)
        tx = nm if tx == 'name' else tx
        pre = h.pick('pre%d' % i, ['', ' id="a"'])
        bad.append('<mi%s %s%s>%s</mi>' % (pre, nm, st, tx))
        good.append('<mi%s>%s</mi>' % (pre, tx))
    x, y = ''.join(bad + ['</mrow></math>']), ''.join(good + ['</mrow></math>'])
    same(h, x, y)


def same(h, x, y):
    a, b = h.run(x), h.run(y)
    if not b.ok:
        h.check(False, lambda f: 'the repaired document %r fails' % (f(y),))
        return
    if not a.ok:
        h.check(False, lambda f: '%r is not recovered: %s %s' % (f(x), a.kind, f(a.msg)))
        return
    h.check(h.eq(a.value, b.value), lambda f: '%r gives %r, without the attribute %r' % (f(x), f(a.value), f(b.value)))


def recover_text(h, tag, n, style, name):
    """A valueless attribute next to any text, its own name included."""
    t = h.text('t', ival.of_str('abx= 1'), n, n)
    x = h.cat('<math><', tag, ' ', name, style, '>', t, '</', tag, '></math>')
    y = h.cat('<math><', tag, '>', t, '</', tag, '></math>')
    same(h, x, y)


def recover_name(h, n, style, text):
    """A valueless attribute of any short name."""
    nm = h.text('name', ival.of_str('abmix-_'), 1, n)
    if n:
        first = nm[0] if isinstance(nm, str) else nm[0]
        h.assume(h.lnot(h.lor(h.eq(first, '-'), h.eq(first, '_'))))
    x = h.cat('<math><mi ', nm, style, '>', text, '</mi></math>')
    y = h.cat('<math><mi>', text, '</mi></math>')
    same(h, x, y)


def recover_tag(h, tags, names, styles):
    t = h.pick('tag', tags)
    nm = h.pick('name', names)
    st = h.pick('style', styles)
    k = {'mfrac': 2, 'msup': 2, 'math': 1, 'mfenced': 2, 'mtable': 0, 'mrow': 1, 'menclose': 1}[t]
    body = ''.join('<mn>%d</mn>' % i for i in range(k)) if t != 'mtable' else '<mtr><mtd><mi>open</mi></mtd></mtr>'
    tail = h.pick('tail', ['', ' ', '\n', ' id="1"'])
    f = lambda a: '<math><%s%s>%s</%s><mi>%s</mi></math>' % (t, a, body, t, nm) if t != 'math' else '<math%s>%s<mi>%s</mi></math>' % (a, body, nm)
    if tail:
        return
    same(h, f(' ' + nm + st), f(''))


def noop(h, n):
    """Attributes with values are never touched, whatever their text."""
    v = h.text('v', ival.of_str('ab= x'), n, n)
    q = h.pick('quote', ['"', "'"])
    x = h.cat('<math><mi a=', q, v, q, ' b=', q, 'b=', q, '>', v, 'a</mi></math>')
    y = h.cat('<math><mi>', v, 'a</mi></math>')
    same(h, x, y)


def beside_value(h, n, name, styles, quotes):
    """A valueless attribute beside an attribute whose value reads like one."""
    v = h.text('v', ival.of_str('ax= >/'), 0, n)
    st = h.pick('style', styles)
    q = h.pick('quote', quotes)
    o = h.pick('order', [0, 1, 2])
    a = h.cat(' ', h.pick('attr', ['open', 'id']), '=', q, v, q)
    b = h.cat(' ', name, st)
    e = '' if o < 2 else h.pick('after', [' close="]"', " close='x='"])
    at = h.cat(a, b) if o == 0 else h.cat(b, a) if o == 1 else h.cat(a, b, e)
    f = lambda q: h.cat('<math><mfenced', q, '><mi>', name, '</mi></mfenced></math>')
    same(h, f(at), f(h.cat(a, e)))


def among(h, n, names, styles, blanks, values, ids, first, forms):
    """Valueless attributes at any place among those with values, after any white space."""
    k = h.pick('n', n)
    m = h.pick('values', values)
    at = [' open="["', " close='|'", h.pick('id', ids) if m > 2 else ''][:m]
    o = h.pick('first', first)
    used, ins = [], {}
    for i in range(k):
        c = [q for q in names if q not in used]
        used.append(h.pick('name%d' % i, c))
        ins.setdefault(h.pick('place%d' % i, list(range(len(at) + 1))), []).append(h.cat(h.pick('blank%d' % i, blanks), used[-1], h.pick('style%d' % i, styles)))
    at = at[o % len(at):] + at[:o % len(at)]
    x = [q for i in range(len(at) + 1) for q in ins.get(i, []) + at[i:i + 1]]
    t = h.text('t', lib.ALNUM, 1, 1)
    w = h.pick('tail', ['', ' '])
    e = h.pick('form', forms)
    f = lambda q: h.cat('<math><mfenced', *q, *(['><mi>', t, names[0], '=', '</mi></mfenced>'] if e == 'full' else ['/><mi>', t, '</mi>']), '</math>')
    same(h, f(x + [w]), f(at))


def beside_section(h, n, name, styles, tags):
    """A valueless attribute beside a CDATA section, a comment or an instruction that reads like one."""
    v = h.text('v', ival.of_str('ax= >/'), n, n)
    st = h.pick('style', styles)
    t = h.pick('tag', tags)
    k = h.pick('kind', ['<![CDATA[<a @]]>', '<![CDATA[@]]>', '<!--<a @-->', '<!--@-->', '<?a @?>'])
    k = k.split('@')
    c = h.cat(k[0], v, k[1])
    o = h.pick('order', [0, 1])
    f = lambda q: h.cat('<math>', '' if o else c if k[0][2] != '[' else h.cat('<mtext>', c, '</mtext>'), '<', t, q, '>b', c if o else '', '</', t, '></math>')
    same(h, f(h.cat(' ', name, st)), f(''))


def beside_history(h, names, styles):
    """Documents with valueless attributes one after the other, each with its own name, mostly at the same place."""
    st = h.pick('style', styles)
    docs = []
    for i in range(3):
        n = h.pick('n%d' % i, names)
        t = h.text('t%d' % i, lib.ALNUM, 1, 1)
        docs.append((h.cat('<math><mi ', n, st, '>', n, '=', t, '</mi></math>'), h.cat('<math><mi>', n, '=', t, '</mi></math>')))
    for x, y in docs:
        same(h, x, y)


for i, nm in enumerate(('x', 'ax')):
    add('beside a value %d' % i, 'C15', beside_value, dict(n=3), n=2, name=nm, styles=['', '='], quotes=['"', "'"])
    add('beside a section %d' % i, 'C15', beside_section, dict(n=3, tags=['mi', 'mtext', 'mn']), n=2, name=nm, styles=['', '='], tags=['mi'])
for q in ['x', 'a-b', 'xlink:q', 'a_1.b']:
    add('among others ' + q, 'C15', among, n=[1], names=[q], styles=['', '='], blanks=[' ', '  ', '\t', '\n'],
        values=[1, 3], ids=[' id = "x y="', ' id= "x y="', ' id ="x y="'], first=[0, 2], forms=['full', 'empty'])
add('two among others', 'C15', among, dict(n=[3], names=['x', 'ax', 'y', 'open2']), n=[2], names=['x', 'ax', 'y'], styles=['', '='], blanks=[' '],
    values=[3], ids=[' id = "x y="'], first=[0], forms=['full'])
add('one after the other', 'C15', beside_history, names=['x', 'y', 'ab', 'mi'], styles=['', '='])
NM = ['x', 'open', 'mathvariant', 'xlink', 'a-b']
add('spots', 'C15', recover, dict(spots=[1, 2, 3, 4]), spots=[1, 2], names=['x', 'open', 'a-b'], styles=['', '='], text=['name', 'a'])
def recover_many(h, spots, same_name):
    """Attributes with different names, at most four of them, in many places."""
    k = h.pick('spots', spots)
    first = h.pick('first', [0, 1, 2, 3])
    st = h.pick('style', ['', '='])
    bad, good = [], []
    for i in range(k):
        nm = DISTINCT[(first + (i if not same_name else i // same_name)) % 4]
        bad.append('<mi %s%s>%s</mi>' % (nm, st, nm[0]))
        good.append('<mi>%s</mi>' % nm[0])
    w = h.pick('around', [('<math><mrow>', '</mrow></math>'), ('<math><msqrt><mfrac><mrow>', '</mrow><mn>2</mn></mfrac></msqrt></math>')])
    same(h, w[0] + ''.join(bad) + w[1], w[0] + ''.join(good) + w[1])


DISTINCT = ['open', 'x', 'a-b', 'mathsize']
add('distinct names', 'C15', recover_many, spots=[1, 2, 3, 4], same_name=0)
add('repeated names', 'C15', recover_many, dict(spots=[1, 2, 3, 5, 8, 20, 40]), spots=[2, 5, 8], same_name=12)
add('names in turn', 'C15', recover_many, spots=[4, 6, 8], same_name=0)
add('spots many', 'C15', recover, spots=[3, 4], names=['x'], styles=['', '='], text=['a'])
for st in ('', '='):
    for nm in ('x', 'ab'):
        add('text %s%s' % (nm, st), 'C15', recover_text, dict(n=3), tag='mi', n=2, style=st, name=nm)
    add('mtext ' + st, 'C15', recover_text, dict(n=3), tag='mtext', n=2, style=st, name='x')
    add('name' + st, 'C15', recover_name, dict(n=3), n=2, style=st, text='ma')
add('tags', 'C15', recover_tag, tags=['mfrac', 'msup', 'math', 'mfenced', 'mtable', 'mrow', 'menclose'], names=NM, styles=['', '='])
add('with values', 'C15', noop, dict(n=3), n=2)

SCENARIOS = S
BOUNDS = {
    'C12': 'each element with 0 to 5 (thorough 8) children, alone and inside other elements; mmultiscripts 0 to 6 (9), maction 0 to 3',
    'C13': 'token texts of up to 1 (2) arbitrary XML characters, attribute values of up to 2 (3), each of 109 attributes of MathML with any word or number of any length '
           'or one arbitrary character on each of 29 elements, every pair of element names with 0 to 3 '
           'children each, trees of depth 2 and width 2',
    'C14': '14 kinds of malformed document, every illegal character, every proper prefix of one document, 21 things after the root of 6 documents, four documents with one character removed, '
           'doubled, replaced by or preceded by one of 7 (one document: 13) others at any place, 19 entity names and any of 2 to 4 letters at 6 places',
    'C15': 'names of up to 2 (3) characters, texts of up to 2 (3) characters over a, b, x, =, 1 and space, up to 4 places (40 of one name); beside attribute values, CDATA sections, comments and instructions over up to 2 (3) of 6 characters; '
           'one or two (three) of 5 names at any place among up to three attributes; three documents one after the other',
}

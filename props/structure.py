"""C01-C11: where the parts of each construct go."""
from . import lib
from .lib import N, mn, shape, check_tree, xml, math

KQ = ['num', 'row', 'frac', 'sup', 'text', 'sum', 'let']
KT = KQ + ['row1', 'sub', 'root', 'sqrt', 'over', 'fence', 'unknown', 'alpha', 'bold', 'err', 'box', 'sub3', 'op']
KE = ['num', 'row', 'frac', 'empty', 'none', 'space', 'phantom']
S = {}


def add(name, pid, fn, thorough=None, /, tier=None, **params):
    if name in S:
        name = '%s %s' % (pid, name)
    assert name not in S, name
    S[name] = dict(property=pid, fn=fn, params=params, thorough=thorough or {})
    if tier:
        S[name]['tier'] = tier


def attrs(h, at):
    """Attribute list; a list value is a symbolic choice, None leaves the attribute out."""
    out = []
    for k, v in at:
        v = h.pick(k, v) if isinstance(v, list) else v
        if v is not None:
            out.append((k, v))
    return out


def node(h, tag, n, kinds, at=()):
    ks = [shape(h, 'c%d' % i, kinds[i] if isinstance(kinds[0], list) else kinds) for i in range(n)]
    check_tree(h, N(tag, *ks, at=attrs(h, at)), what=tag)


def count(h, tag, lo, hi, kinds, at=()):
    n = h.pick('n', list(range(lo, hi + 1)))
    node(h, tag, n, kinds, at)


# C01 fractions
add('plain', 'C01', node, dict(kinds=KT), tag='mfrac', n=2, kinds=KQ)
add('empty parts', 'C01', node, tag='mfrac', n=2, kinds=KE)
def bevelled_any(h, n, fixed):
    v = h.text('bevelled', lib.ival.minus(lib.ival.XMLCHAR, lib.ival.union(lib.WSI, lib.ival.of_str('<&"'))), 1, n) if fixed is None else h.pick('bevelled', fixed)
    if not isinstance(v, str):
        h.assume(h.lnot(h.eq(v, 'false')))
    a, b = mn(h, 'a'), mn(h, 'b')
    check_tree(h, N('mfrac', a, b, at=[('bevelled', v)]), what='bevelled')


add('any bevelled', 'C01', bevelled_any, dict(n=3), n=2, fixed=None)
add('spellings of bevelled', 'C01', bevelled_any, n=0, fixed=['TRUE', 'True', 'False', 'FALSE', 'yes', 'no', '0', '1', 'off', ' true', 'false ', 'true false', 'none', 'null', 'bevelled', 'bevelled=true', 'fals', 'falsee'])
for v in ('true', 'false', '', 'bevelled'):
    add('bevelled=' + (v or 'empty'), 'C01', node, dict(kinds=KT), tag='mfrac', n=2, kinds=KQ, at=[('bevelled', v)])
add('nested', 'C01', node, dict(kinds=KT + ['table']), tag='mfrac', n=2, kinds=[['frac'], KQ + ['root', 'over', 'fence']],
    at=[('linethickness', [None, '0', '1'])])


# C02 roots
add('mroot', 'C02', node, dict(kinds=KT), tag='mroot', n=2, kinds=KQ)
add('mroot empty parts', 'C02', node, tag='mroot', n=2, kinds=KE)
add('msqrt', 'C02', count, dict(hi=4), tag='msqrt', lo=0, hi=3, kinds=['num', 'row', 'frac', 'let'])
add('msqrt empty parts', 'C02', count, tag='msqrt', lo=1, hi=3, kinds=['num', 'empty', 'space'])
add('msqrt any part', 'C02', node, dict(n=2), tag='msqrt', n=1, kinds=KT)

# C03 scripts
BASE = ['num', 'row', 'row1', 'frac', 'sup', 'sqrt', 'text', 'sum', 'let', 'alpha', 'bold', 'sub3', 'fence', 'unknown', 'op']
for t in ('msup', 'msub'):
    add(t, 'C03', node, dict(kinds=[KT, KT]), tag=t, n=2, kinds=[BASE, ['num', 'row', 'frac', 'sup', 'let', 'empty']])
add('msubsup', 'C03', node, dict(kinds=[BASE, KQ, KQ]), tag='msubsup', n=3,
    kinds=[BASE, ['num', 'row', 'let', 'empty'], ['num', 'frac', 'let', 'none']])


# C04 under and over


def accent(h, tag, kinds):
    """Accent written as an operator of the base."""
    b = shape(h, 'c0', kinds)
    a = h.pick('accent', [('^', '\\hat'), ('\u00af', '\\bar'), ('\u23df', '\\underbrace'), ('\u23de', '\\overbrace'),
                          ('\u2192', '\\rightarrow'), ('.', '.'), ('\u2211', '\\sum'), ('~', '\\sim')])
    check_tree(h, N(tag, b, N('mo', text=a[0], tex=a[1])), what=tag)


for t in ('munder', 'mover'):
    add(t, 'C04', node, dict(kinds=KT), tag=t, n=2, kinds=KQ + ['empty'])
    add(t + ' accents', 'C04', accent, dict(kinds=KT), tag=t, kinds=KQ)
add('munderover', 'C04', node, dict(kinds=KT[:12]), tag='munderover', n=3, kinds=['num', 'row', 'frac', 'sum', 'empty'])


# C05 multiscripts
def multi(h, npost, npre, base, kinds, pre):
    p = h.pick('post', npost)
    q = h.pick('pre', npre)
    if p + q == 0 or p == 0 and not pre:
        return
    ks = [shape(h, 'base', base)]
    ks += [shape(h, 'p%d' % i, kinds) for i in range(2 * p)]
    if q or (pre and p == 0):
        ks.append(N('mprescripts'))
    ks += [shape(h, 'q%d' % i, kinds) for i in range(2 * q)]
    check_tree(h, N('mmultiscripts', *ks), what='mmultiscripts')


MB = ['num', 'row', 'frac', 'let', 'sum', 'row1', 'sup']
add('post', 'C05', multi, dict(kinds=['num', 'row', 'none', 'let', 'frac', 'sup']), npost=[1], npre=[0], base=MB, kinds=['num', 'row', 'none', 'let'], pre=False)
add('pre', 'C05', multi, dict(kinds=['num', 'row', 'none', 'let', 'frac', 'sup']), npost=[0], npre=[1], base=MB, kinds=['num', 'row', 'none', 'let'], pre=True)
add('both', 'C05', multi, dict(base=MB, kinds=['num', 'none', 'row']), npost=[1], npre=[1], base=['num', 'row'], kinds=['num', 'none', 'row'], pre=True)
add('many', 'C05', multi, dict(npost=[0, 1, 2, 3, 4], npre=[0, 1, 2, 3, 4]), npost=[0, 1, 2, 3], npre=[0, 1, 2, 3], base=['num', 'row'], kinds=['num'], pre=True)
add('many with gaps', 'C05', multi, dict(base=['num', 'row', 'frac'], npre=[0, 1, 2]), npost=[2], npre=[0, 1], base=['num'], kinds=['num', 'none'], pre=True)

# C06 containers
CONT = ['mrow', 'mpadded', 'mstyle', 'semantics', 'mtd', 'mlabeledtr', 'ms', 'maligngroup', 'foo', 'annotation-xml']
CK = ['num', 'row', 'frac', 'let', 'op', 'empty', 'space']


def container(h, tags, lo, hi, kinds):
    t = h.pick('tag', tags)
    n = h.pick('n', list(range(lo, hi + 1)))
    ks = [shape(h, 'c%d' % i, kinds) for i in range(n)]
    if t == 'math':
        check_tree(h, *ks, what='math')
    else:
        check_tree(h, N(t, *ks), what=t)


def deep(h, depth, tags):
    """A chain of containers with a leaf on each side."""
    n = mn(h, 'core')
    for i in range(depth):
        t = h.pick('t%d' % i, tags)
        n = N(t, mn(h, 'l%d' % i), n, mn(h, 'r%d' % i))
    check_tree(h, n, what='nested containers')


def long_row(h, tag, n):
    ks = [mn(h, 'c%d' % i) for i in range(n)]
    check_tree(h, *(ks if tag == 'math' else [N(tag, *ks)]), what=tag)


def unknown_name(h):
    """Any element name of five letters outside the converter's vocabulary."""
    nm = h.text('name', lib.ival.of_str('bdgjkvwz'), 3, 3)
    a, b = mn(h, 'a'), mn(h, 'b')
    r = h.ok(h.cat('<math><', nm, '>', xml(h, a), xml(h, b), '</', nm, '></math>'))
    h.check_eq(r, h.cat(a.tex, ' ', b.tex), 'unknown element')


add('containers', 'C06', container, dict(tags=CONT, kinds=KT), tags=CONT, lo=0, hi=2, kinds=CK)
add('math children', 'C06', container, dict(hi=4), tags=['math'], lo=0, hi=3, kinds=CK)
add('mrow children', 'C06', container, dict(hi=4), tags=['mrow', 'mpadded'], lo=3, hi=3, kinds=['num', 'let', 'row', 'empty'])
add('nested', 'C06', deep, dict(depth=4), depth=3, tags=['mrow', 'mpadded', 'mstyle', 'foo'])
NAMES = ['mi', 'mo', 'mn', 'msqrt', 'mfenced', 'mfrac', 'mroot', 'maction', 'menclose', 'merror', 'mphantom', 'msup', 'msub', 'msubsup', 'mmultiscripts', 'mtext',
         'munderover', 'mtable', 'mtr', 'mover', 'munder', 'mprescripts']


def near_name(h, names):
    """A name that resembles one the converter knows: other case, a prefix, a letter more or less."""
    w = h.pick('name', names)
    c = h.text('c', lib.ival.of_str('abdefghijkl'), 1, 1)
    k = h.pick('how', ['upper', 'title', 'camel', 'prefix', 'more', 'before', 'twice', 'less', 'dash', 'digit', 'mixed'])
    nm = {'upper': w.upper(), 'title': w.capitalize(), 'camel': w[0] + w[1:].capitalize(), 'prefix': h.cat('q:', w), 'more': h.cat(w, c), 'before': h.cat(c, w), 'twice': w + w,
          'less': w[:-1], 'dash': w + '-', 'digit': w + '1', 'mixed': w[:-1] + w[-1].upper()}[k]
    if nm == 'm':
        return
    if k == 'more':
        h.assume(h.lnot(h.eq(nm, 'mtd')))
    a, b, z = mn(h, 'a'), mn(h, 'b'), mn(h, 'z')
    r = h.ok(h.cat('<math xmlns:q="u"><', nm, '>', xml(h, a), xml(h, b), xml(h, z), '</', nm, '></math>'))
    h.check_eq(r, h.cat(a.tex, ' ', b.tex, ' ', z.tex), 'unknown element')


def ends(h, tag, kinds, middle):
    """Any two characters at the ends of a container, and around an element: each child is converted as alone."""
    c, d = h.char('c', MARKS), h.char('d', MARKS)
    k, m = h.pick('k', kinds), h.pick('m', kinds)
    x, y = [h.cat('<', q, '>', h.escape(v), '</', q, '>') for q, v in ((k, c), (m, d))]
    u, v = [h.ok(h.cat('<math>', q, '</math>')) for q in (x, y)]
    h.assume(h.lnot(h.lor(h.eq(u, ''), h.eq(v, ''))))
    w = h.pick('middle', middle)
    f = lambda t: h.cat(*(['<', tag, '>', t, '</', tag, '>'] if tag == 'math' else ['<math><', tag, '>', t, '</', tag, '></math>']))
    xs = {'inside': [x, '<mi>a</mi><mo>+</mo><mi>b</mi>', y], 'one': [x, '<mi>a</mi>', y], 'none': [x, y], 'outside': ['<mi>a</mi>', x, y, '<mi>b</mi>'],
          'again': [x, '<mi>a</mi>', x, '<mi>b</mi>', x, y]}[w]
    e = {'inside': [u, 'a + b', v], 'one': [u, 'a', v], 'none': [u, v], 'outside': ['a', u, v, 'b'], 'again': [u, 'a', u, 'b', u, v]}[w]
    h.check_eq(h.ok(f(h.cat(*xs))), h.join(' ', e), tag)


def big(h, what, ns):
    """Many parts, each with its own text, one of them of any length."""
    t = h.pick('what', what)
    n = h.pick('n', ns)
    j = h.pick('any', [0, n // 2, n - 1])
    ks = [mn(h, 'c') if i == j else N('mn', text=str(i), tex=str(i)) for i in range(n)]
    o = N('mi', text='x', tex='x')
    rows = lambda m: [N('mtr', *[N('mtd', k) for k in ks[i:i + m]]) for i in range(0, n, m)]
    x = {'math': lambda: ks, 'mmultiscripts': lambda: [N('mmultiscripts', o, *ks)], 'pre': lambda: [N('mmultiscripts', o, N('mprescripts'), *ks)],
         'column': lambda: [N('mtable', *rows(1))], 'line': lambda: [N('mtable', *rows(n))], 'square': lambda: [N('mtable', *rows(int(n ** .5)))],
         'separated': lambda: [N('mfenced', *ks, at=[('open', '['), ('separators', ';|')])], 'matrix': lambda: [N('mfenced', N('mtable', *rows(int(n ** .5))))],
         'toggle': lambda: [N('maction', *ks, at=[('actiontype', 'toggle')])], 'box': lambda: [N('menclose', *ks, at=[('notation', 'box')])],
         'phantom': lambda: [o, N('mphantom', *ks), o], 'base': lambda: [N('msup', N('mrow', *ks), o)], 'frac': lambda: [N('mfrac', N('mrow', *ks), o)],
         'limits': lambda: [N('munderover', o, N('mrow', *ks), o)], 'root': lambda: [N('mroot', N('mrow', *ks), o)]}.get(t, lambda: [N(t, *ks)])()
    check_tree(h, *x, what='%s of %d' % (t, n))


def tall(h, what, ns):
    """An element inside the same element, many times."""
    t, k, at = h.pick('what', what)
    n = h.pick('n', ns)
    where = h.pick('where', list(range(k)))
    x = mn(h, 'c')
    for i in range(n):
        ks = [N('mn', text=str(i), tex=str(i)) for _ in range(k)]
        ks[where] = x
        x = N('mtable', N('mtr', *[N('mtd', q) for q in ks])) if t == 'table' else N(t, *ks, at=at)
    check_tree(h, x, what='%d times %s' % (n, t))


MARKS = lib.ival.minus(lib.ival.XMLCHAR, lib.WSI) if hasattr(lib, 'WSI') else lib.ival.XMLCHAR
ALLM = ['inside', 'one', 'none', 'outside', 'again']
add('ends of mrow', 'C06', ends, dict(middle=ALLM, kinds=['mo', 'mi', 'mn']), tag='mrow', kinds=['mo'], middle=['inside', 'none'])
add('ends of math', 'C06', ends, dict(middle=ALLM, kinds=['mo', 'mi', 'mn']), tag='math', kinds=['mo'], middle=['inside'])
for t in ('mstyle', 'semantics', 'mpadded', 'foo'):
    add('ends of ' + t, 'C06', ends, tier='thorough', tag=t, kinds=['mo'], middle=ALLM)
def annotated(h, tags, encodings):
    """What an annotation says changes nothing."""
    a = mn(h, 'a')
    t, e = h.pick('tag', tags), h.pick('encoding', encodings)
    w = h.text('w', lib.ival.of_str('x^{\\\\ '), 1, 2)
    n = h.pick('n', [1, 2])
    at = '' if e is None else h.cat(' encoding="', e, '"')
    s = h.cat('<', t, at, '>', w, '</', t, '>')
    i = h.pick('host', ['semantics', 'mrow', 'maction'])
    f = lambda q: h.cat('<math><', i, '><mfrac>', xml(h, a), '<mn>2</mn></mfrac>', *[q] * n, '</', i, '></math>')
    h.check_eq(h.ok(f(s)), h.ok(f('<mrow></mrow>')), 'annotation')


add('annotations', 'C06', annotated, tags=['annotation', 'annotation-xml'], encodings=[None, 'TeX', 'application/x-tex', 'LaTeX', 'MathML-Content', 'text/html', 'StarMath 5.0', ''])
add('near names', 'C06', near_name, names=NAMES)
MANY = [9, 17, 51, 101, 260]
for q, w in {'C01': ['frac'], 'C02': ['msqrt', 'root'], 'C03': ['base'], 'C04': ['limits'], 'C05': ['mmultiscripts', 'pre'], 'C06': ['math', 'mrow', 'mstyle', 'mpadded', 'semantics'],
             'C07': ['mfenced', 'separated'], 'C08': ['matrix'], 'C09': ['column', 'line', 'square'], 'C10': ['menclose', 'box'], 'C11': ['toggle', 'merror', 'phantom']}.items():
    add('many parts ' + q, q, big, what=w, ns=MANY)
for q, w in {'C01': [('mfrac', 2, ()), ('mfrac', 2, (('bevelled', 'true'),))], 'C02': [('msqrt', 2, ()), ('mroot', 2, ())], 'C03': [('msup', 2, ()), ('msub', 2, ()), ('msubsup', 3, ())],
             'C04': [('munder', 2, ()), ('mover', 2, ()), ('munderover', 3, ())], 'C05': [('mmultiscripts', 5, ())], 'C06': [('mrow', 2, ()), ('mpadded', 1, ()), ('semantics', 2, ())],
             'C07': [('mfenced', 2, (('open', '['),))], 'C09': [('table', 2, ())], 'C10': [('menclose', 2, (('notation', 'top'),)), ('menclose', 1, ())],
             'C11': [('maction', 2, (('actiontype', 'toggle'),)), ('maction', 2, (('actiontype', 'tooltip'),)), ('merror', 2, ())]}.items():
    add('deep ' + q, q, tall, what=w, ns=[6, 13, 40])
add('unknown', 'C06', unknown_name)
for t in ('mrow', 'math', 'mstyle'):
    add('long ' + t, 'C06', long_row, dict(n=60), tag=t, n=20)


# C07 fences
def fence(h, opens, closes, seps, n, kinds):
    k = h.pick('n', n)
    o = h.pick('open', opens)
    c = h.pick('close', closes)
    s = h.pick('separators', seps)
    at = [(a, v) for a, v in (('open', o), ('close', c), ('separators', s)) if v is not None]
    ks = [shape(h, 'c%d' % i, kinds) for i in range(k)]
    check_tree(h, N('mfenced', *ks, at=at), what='mfenced')


def fence_any(h, n, nsep):
    """Any delimiter characters and any separator characters."""
    plain = lib.ival.minus(lib.ival.minus(lib.ival.XMLCHAR, lib.WSI), lib.ival.of_str('<>&"\'\r\n\t'))
    o, c = h.char('open', plain), h.char('close', plain)
    s = h.text('sep', plain, 0, nsep)
    k = h.pick('n', n)
    ks = [mn(h, 'c%d' % i) for i in range(k)]
    x = h.cat('<math><mfenced open="', o, '" close="', c, '" separators="', s, '">', *[xml(h, q) for q in ks], '</mfenced></math>')
    r = h.ok(x)
    m = len(s) if isinstance(s, str) else h.length(s)
    sep = (lambda i: ',') if s == '' else (lambda i: s[min(i, m) - 1])
    out = []
    for i, q in enumerate(ks):
        out += [sep(i)] if i else []
        out.append(q.tex)
    h.check_eq(r, h.cat('\\left', o, *out, '\\right', c), 'mfenced')


OPEN = [None, '', '(', '[', '{', '|', '||', '\u27e8', 'open']
CLOSE = [None, '', ')', ']', '}', '|', '||', '\u27e9', 'close']
add('delimiters', 'C07', fence, dict(n=[0, 1, 2, 3]), opens=OPEN, closes=CLOSE, seps=[None], n=[1, 2], kinds=['num'])
add('separators', 'C07', fence, dict(n=list(range(7))), opens=[None], closes=[None], seps=[None, '', ',', ';', ';,', '|;:', ',,', ';,|-'], n=[0, 1, 2, 3, 4, 5], kinds=['num'])
add('parts', 'C07', fence, dict(n=[1, 2, 3]), opens=['['], closes=[')'], seps=[None, ';'], n=[2], kinds=KQ + ['empty'])
add('any characters', 'C07', fence_any, dict(n=[0, 1, 2, 3, 4, 5], nsep=4), n=[1, 2, 3, 4], nsep=3)


# C08, C09 tables
def table(h, name, rows, cols, kinds=('num',), tags=('mtr',)):
    rs = []
    for i in range(rows):
        rs.append(N('mtr', *[N('mtd', shape(h, '%s.%d.%d' % (name, i, j), list(kinds))) for j in range(cols[i] if isinstance(cols, list) else cols)]))
    return N('mtable', *rs)


def env(h, opens, closes, rows, cols, kinds):
    at = [(k, v) for k, v in (('open', h.pick('open', opens)), ('close', h.pick('close', closes))) if v is not None]
    t = table(h, 't', h.pick('rows', rows), h.pick('cols', cols), kinds)
    w = h.pick('wrap', ['none', 'mrow', 'extra'])
    ks = [t] if w == 'none' else [N('mrow', t)] if w == 'mrow' else [mn(h, 'x'), t]
    check_tree(h, N('mfenced', *ks, at=at), what='fenced table')


def env_any(h):
    """Any pair of delimiter characters."""
    plain = lib.ival.minus(lib.ival.minus(lib.ival.XMLCHAR, lib.WSI), lib.ival.of_str('<>&"\'\r\n\t'))
    o, c = h.char('open', plain), h.char('close', plain)
    a = mn(h, 'a')
    r = h.ok(h.cat('<math><mfenced open="', o, '" close="', c, '"><mtable><mtr><mtd>', xml(h, a), '</mtd></mtr></mtable></mfenced></math>'))
    for (p, q), e in lib.ENV.items():
        if len(p) == 1 and h.decide(h.land(h.eq(o, p), h.eq(c, q))):
            break
    else:
        e = 'bmatrix' if h.decide(h.eq(o, c)) else 'matrix'
    m = h.cat('\\begin{', e, '} ', a.tex, ' \\end{', e, '}')
    h.check_eq(r, h.cat('\\left', o, m, '\\right', c) if e == 'matrix' else m, 'fenced table')


D1 = [None, '', '(', '[', '{', '|', '||', 'open']
D2 = [None, '', ')', ']', '}', '|', '||', 'close']
add('pairs', 'C08', env, opens=D1, closes=D2, rows=[1], cols=[1], kinds=['num'])
add('mixed', 'C08', env, dict(rows=[0, 1, 2, 3], cols=[0, 1, 2, 3]), opens=['(', '|', '['], closes=[')', '|', ')'], rows=[1, 2], cols=[1, 2], kinds=['num'])
add('any delimiters', 'C08', env_any)


def env_deep(h, pairs, places, depth, rows):
    """The table stands deep inside the fence."""
    o, c = h.pick('pair', pairs)
    x = table(h, 't', *h.pick('size', rows))
    for d in range(depth):
        x = lib.PLACES[h.pick('place%d' % d, places)](h, 'p%d' % d, x)
    out = h.pick('around', ['none', 'row', 'cell', 'fence', 'sup'])
    at = [(k, v) for k, v in (('open', o), ('close', c)) if v is not None]
    x = N('mfenced', x, at=at)
    check_tree(h, x if out == 'none' else lib.PLACES[out](h, 'out', x), what='fenced table')


def env_content(h, pairs, kinds):
    """Any contents of the cells, the table alone or beside other parts."""
    o, c = h.pick('pair', pairs)
    k = h.pick('kind', kinds)
    t = N('mtable', N('mtr', N('mtd', lib.SHAPES[k](h, 'c0')), N('mtd', mn(h, 'c1'))), N('mtr', N('mtd', mn(h, 'c2'))))
    w = h.pick('with', ['alone', 'before', 'after', 'two'])
    ks = {'alone': [t], 'before': [mn(h, 'x'), t], 'after': [t, mn(h, 'x')], 'two': [t, table(h, 'u', 1, 2)]}[w]
    check_tree(h, N('mfenced', *ks, at={'open': o, 'close': c, 'separators': ';'}), what='fenced table', decor=h.pick('decor', ['', 'id', 'layout']))


ROUND = [('(', ')'), ('[', ']'), ('{', '}'), ('|', '|'), ('||', '||'), (None, None), ('(', ']'), ('/', '/')]
for i in range(4):
    add('deep %d' % i, 'C08', env_deep, dict(depth=2 if i else 3, rows=[(1, 1), (2, 2)]), pairs=ROUND[i * 2:i * 2 + 2], places=['row', 'style', 'unknown', 'top', 'sqrt', 'cell', 'math', 'sup', 'fence'], depth=2, rows=[(1, 2)])
add('very deep', 'C08', env_deep, pairs=ROUND[:2], places=['style', 'unknown'], depth=5, rows=[(1, 2)])
add('every place', 'C08', env_deep, pairs=ROUND[3:4], places=list(lib.PLACES), depth=1, rows=[(1, 2)])
for i in range(4):
    add('contents %d' % i, 'C08', env_content, dict(pairs=ROUND), pairs=ROUND[i:i + 1], kinds=['num', 'row', 'frac', 'empty', 'fence', 'table', 'matrix', 'text', 'op', 'none', 'row3', 'sup'])


def tab(h, rows, cols, kinds):
    check_tree(h, table(h, 't', h.pick('rows', rows), h.pick('cols', cols), kinds), what='mtable')


def ragged(h, rows, cols, kinds):
    n = h.pick('rows', rows)
    check_tree(h, table(h, 't', n, [h.pick('cols%d' % i, cols) for i in range(n)], kinds), what='mtable')


def nested(h, outer, depth):
    """A table in a cell (or deeper) of another one."""
    def build(d):
        t = N('mtable', N('mtr', N('mtd', mn(h, 'a%d' % d)), N('mtd', build(d - 1) if d else mn(h, 'z'))),
              N('mtr', N('mtd', mn(h, 'b%d' % d))))
        w = h.pick('wrap%d' % d, ['none', 'mrow', 'fence', 'pfence', 'frac', 'sqrt'])
        if w == 'mrow':
            return N('mrow', mn(h, 'w%d' % d), t)
        if w == 'fence':
            return N('mfenced', t, at={'open': '[', 'close': ')'})
        if w == 'pfence':
            return N('mfenced', t, at={'open': '|', 'close': '|'})
        if w == 'frac':
            return N('mfrac', t, mn(h, 'w%d' % d))
        if w == 'sqrt':
            return N('msqrt', t)
        return t
    o = h.pick('outer', outer)
    n = build(depth)
    if o == 'mrow':
        n = N('mrow', n, mn(h, 'q'))
    elif o == 'fence':
        n = N('mfenced', n, at={'open': '(', 'close': ')'})
    check_tree(h, n, what='nested table')


add('cells', 'C09', tab, dict(rows=list(range(6)), cols=list(range(6))), rows=[0, 1, 2, 3], cols=[0, 1, 2, 3], kinds=['num'])
add('cell parts', 'C09', tab, dict(kinds=['num', 'frac', 'empty', 'row', 'sup']), rows=[2], cols=[2], kinds=['num', 'frac', 'empty', 'row'])
add('ragged', 'C09', ragged, dict(rows=[1, 2, 3, 4], cols=[0, 1, 2, 3]), rows=[1, 2, 3], cols=[0, 1, 2], kinds=['num'])
add('nested tables', 'C09', nested, dict(depth=2), outer=['none', 'mrow', 'fence'], depth=1)
def blanks(h, rows, cols, empties, where):
    """Any cells of a table empty, in any way of being empty."""
    m, k = h.pick('rows', rows), h.pick('cols', cols)
    e = h.pick('empty', empties)
    gone = {'none': N('mtd'), 'row': N('mtd', N('mrow')), 'space': N('mtd', N('mspace')), 'token': N('mtd', N('mi'))}[e]
    n = m * k
    rs = [N('mtr', *[gone if h.pick('e%d.%d' % (i, j), [0, 1]) else N('mtd', mn(h, 'c%d.%d' % (i, j))) for j in range(k)]) for i in range(m)]
    t = N('mtable', *rs)
    w = h.pick('where', where)
    check_tree(h, {'alone': t, 'fence': N('mfenced', t, at=[('open', '['), ('close', ']')]), 'bracket': N('mrow', N('mo', text='[', tex='['), t, N('mo', text=']', tex=']'))}[w], what='empty cells')


def gaps(h, what, n, empties):
    """Any children of an element empty."""
    t, at = h.pick('what', what)
    e = h.pick('empty', empties)
    gone = {'row': N('mrow'), 'token': N('mi'), 'space': N('mspace'), 'none': N('none'), 'text': N('mtext'), 'nested': N('mrow', N('mstyle', N('mrow')))}[e]
    ks = [gone if h.pick('e%d' % i, [0, 1]) else mn(h, 'c%d' % i) for i in range(n)]
    x = N('mmultiscripts', mn(h, 'b'), *ks) if t == 'post' else N('mmultiscripts', mn(h, 'b'), N('mprescripts'), *ks) if t == 'pre' else N('mmultiscripts', mn(h, 'b'), *ks[:2], N('mprescripts'), *ks[2:]) if t == 'both' \
        else N('msup', N('mrow', *ks), mn(h, 'q')) if t == 'base' else N(t, *ks, at=at)
    check_tree(h, x, what='gaps in ' + t)


for q, w, n in (('C02', [('msqrt', ())], 4), ('C05', [('post', ()), ('pre', ()), ('both', ())], 4), ('C06', [('mrow', ()), ('math', ()), ('mstyle', ()), ('foo', ())], 5), ('C03', [('base', ())], 4),
                ('C07', [('mfenced', ()), ('mfenced', (('open', '['), ('separators', ';|.')))], 5), ('C10', [('menclose', ()), ('menclose', (('notation', 'box'),))], 4),
                ('C11', [('maction', (('actiontype', 'toggle'),)), ('merror', ()), ('mphantom', ())], 4), ('C01', [('mfrac', ()), ('mfrac', (('bevelled', 'true'),))], 2), ('C04', [('munderover', ())], 3)):
    add('gaps ' + q, q, gaps, what=w, n=n, empties=['row', 'token', 'space', 'none', 'text', 'nested'])
for m, k in ((1, 4), (4, 1), (2, 3), (3, 2)):
    add('empty cells %d %d' % (m, k), 'C09', blanks, dict(where=['alone', 'fence'], empties=['none', 'row', 'space', 'token']), rows=[m], cols=[k], empties=['none', 'row'], where=['alone'])
add('empty cells 3 3', 'C09', blanks, tier='thorough', rows=[3], cols=[3], empties=['none'], where=['alone'])
add('two tables', 'C09', lambda h, rows: check_tree(h, N('mrow', table(h, 't', h.pick('r1', rows), 2), table(h, 'u', h.pick('r2', rows), 2))), rows=[0, 1, 2])


# C10 enclosures
NOTE = ['actuarial', 'radical', 'box', 'roundedbox', 'circle', 'left', 'right', 'top', 'bottom', 'updiagonalstrike',
        'downdiagonalstrike', 'updiagonalarrow', 'verticalstrike', 'horizontalstrike', 'madruwb', 'phasorangle', 'longdiv']


def enclose(h, notes, n, kinds):
    a = h.pick('notation', notes)
    k = h.pick('n', n)
    ks = [shape(h, 'c%d' % i, kinds) for i in range(k)]
    check_tree(h, N('menclose', *ks, at=[('notation', a)] if a is not None else []), what='menclose')


def enclose_any(h, n):
    """Any other notation text is the long division."""
    t = h.text('notation', lib.ival.of_str('abcdefghijklmnopqrstuvwxyz'), 1, n)
    for w in NOTE:
        h.assume(h.lnot(h.eq(t, w)))
    a = mn(h, 'a')
    h.check_eq(h.ok(h.cat('<math><menclose notation="', t, '">', xml(h, a), '</menclose></math>')),
               h.cat('\\overline{\\left.\\right)', a.tex, '}'), 'menclose')


add('notations', 'C10', enclose, dict(n=[0, 1, 2, 3, 4]), notes=NOTE + [None], n=[0, 1, 2, 3], kinds=['num'])
add('parts', 'C10', enclose, dict(kinds=KT), notes=NOTE + [None], n=[1], kinds=KQ + ['empty', 'table'])
add('pairs of parts', 'C10', enclose, dict(kinds=KQ + ['empty']), notes=['longdiv', 'actuarial', 'left', 'madruwb', 'box', 'phasorangle', 'updiagonalarrow'], n=[2], kinds=['num', 'row', 'empty'])
def spelled(h, name, words):
    """A known word in another spelling: other case, blanks around it, or one of two words."""
    w = h.pick(name, words)
    k = h.pick(name + '.how', ['upper', 'title', 'before', 'after', 'two', 'comma', 'same', 's'])
    v = h.pick(name + '.other', words) if k in ('two', 'comma') else ''
    return {'upper': w.upper(), 'title': w.capitalize(), 'before': ' ' + w, 'after': w + ' ', 'two': w + ' ' + v, 'comma': w + ',' + v, 'same': w + w, 's': w + 's'}[k]


def enclose_spelled(h, words):
    n = spelled(h, 'notation', words)
    a, b = mn(h, 'a'), mn(h, 'b')
    check_tree(h, N('menclose', a, b, at=[('notation', n)]), what='menclose')


def action_spelled(h, words):
    n = spelled(h, 'type', words)
    a, b = mn(h, 'a'), mn(h, 'b')
    check_tree(h, N('maction', a, b, at=[('actiontype', n)]), what='maction')


add('other notations', 'C10', enclose_any, dict(n=6), n=4)
add('spelling of notations', 'C10', enclose_spelled, words=NOTE)


# C11 actions, errors, phantoms
def action(h, types, n, kinds):
    a = h.pick('actiontype', types)
    k = h.pick('n', n)
    if k == 0 and a not in (None, '', 'toggle', 'actiontype'):
        return
    ks = [shape(h, 'c%d' % i, kinds) for i in range(k)]
    at = [] if a is None else [('actiontype', a)]
    e = N('maction', *ks, at=[('actiontype', '' if a == 'actiontype' else a)] if a is not None else [])
    x = math(h, N('maction', *ks, at=at))
    r = h.ok(x)
    h.check_eq(r, lib.expect(h, e), 'maction')


def action_any(h, n):
    t = h.text('type', lib.ival.of_str('abcdefghijklmnopqrstuvwxyz'), 1, n)
    h.assume(h.lnot(h.eq(t, 'toggle')))
    a, b = mn(h, 'a'), mn(h, 'b')
    h.check_eq(h.ok(h.cat('<math><maction actiontype="', t, '">', xml(h, a), xml(h, b), '</maction></math>')), a.tex, 'maction')


def phantom(h, kinds):
    k = shape(h, 'p', kinds)
    a, b = mn(h, 'a'), mn(h, 'b')
    w = h.pick('where', ['alone', 'row', 'frac', 'sup', 'bare'])
    p = N('mphantom', k) if w != 'bare' else N('mphantom', text='xyz', tex='')
    t = {'alone': p, 'bare': p, 'row': N('mrow', a, p, b), 'frac': N('mfrac', a, p), 'sup': N('msup', a, p)}[w]
    check_tree(h, t, what='mphantom')


add('maction', 'C11', action, dict(n=[0, 1, 2, 3, 4]), types=[None, '', 'toggle', 'statusline', 'tooltip', 'input', 'highlight', 'TOGGLE', 'actiontype'], n=[0, 1, 2, 3], kinds=['num'])
add('maction parts', 'C11', action, dict(kinds=KT), types=[None, 'toggle', 'statusline'], n=[2], kinds=KQ + ['empty'])
add('spelling of types', 'C11', action_spelled, words=['toggle', 'tooltip'])
add('other types', 'C11', action_any, dict(n=7), n=4)
add('merror', 'C11', count, dict(hi=4), tag='merror', lo=0, hi=3, kinds=['num', 'row', 'frac', 'empty'])
add('merror parts', 'C11', node, tag='merror', n=1, kinds=KT)
add('mphantom', 'C11', phantom, dict(kinds=KT + ['table']), kinds=KQ)

# Every construct: one part of each unusual kind, inside other elements, next to itself, and decorated with what must not matter
RICH = list(lib.RICH)
PL = list(lib.PLACES)
SOME = {
    'C01': [('mfrac', 2, ()), ('mfrac', 2, (('bevelled', 'true'),)), ('mfrac', 2, (('bevelled', 'false'),))],
    'C02': [('msqrt', 1, ()), ('msqrt', 3, ()), ('mroot', 2, ())],
    'C03': [('msup', 2, ()), ('msub', 2, ()), ('msubsup', 3, ())],
    'C04': [('munder', 2, ()), ('mover', 2, ()), ('munderover', 3, ())],
    'C05': [('mmultiscripts', 3, ()), ('mmultiscripts', 4, ()), ('mmultiscripts', 5, ())],
    'C06': [('mrow', 2, ()), ('mstyle', 3, ()), ('mpadded', 1, ()), ('semantics', 2, ()), ('mtd', 2, ())],
    'C07': [('mfenced', 2, ()), ('mfenced', 3, (('open', '['), ('separators', ';|'))), ('mfenced', 1, (('open', '{'), ('close', '|')))],
    'C09': [('table', 4, ())],
    'C10': [('menclose', 2, (('notation', q),)) for q in ('top', 'bottom', 'radical', 'updiagonalarrow', 'longdiv', 'actuarial')] + [('menclose', 1, ())],
    'C11': [('maction', 2, ()), ('maction', 3, (('actiontype', 'toggle'),)), ('maction', 2, (('actiontype', 'tooltip'),)), ('merror', 2, ()), ('mphantom', 1, ())],
}


def construct(h, t, ks, at):
    """The element, its scripts or cells laid out."""
    if t == 'table':
        return N('mtable', N('mtr', N('mtd', ks[0]), N('mtd', ks[1])), N('mtr', N('mtd', ks[2]), N('mtd', ks[3])))
    if t == 'mmultiscripts' and len(ks) > 3:
        return N(t, *ks[:3], N('mprescripts'), *ks[3:], at=at)
    return N(t, *ks, at=at)


def rich_part(h, what, kinds, both):
    """One part (or all) of each unusual kind."""
    t, n, at = h.pick('what', what)
    i = h.pick('part', list(range(n)))
    k = h.pick('kind', kinds)
    ks = [lib.SHAPES[k](h, 'c%d' % j) if j == i or both else mn(h, 'c%d' % j) for j in range(n)]
    if both and i:
        return
    check_tree(h, construct(h, t, ks, at), what=t)


def placed(h, what, places, depth):
    """The construct inside other elements."""
    t, n, at = h.pick('what', what)
    x = construct(h, t, [mn(h, 'c%d' % j) for j in range(n)], at)
    for d in range(depth):
        x = lib.PLACES[h.pick('place%d' % d, places)](h, 'p%d' % d, x)
    check_tree(h, x, what=t)


def again(h, what, kinds):
    """The construct next to itself and inside itself."""
    t, n, at = h.pick('what', what)
    k = h.pick('how', ['beside', 'inside', 'twice inside', 'same'])
    mk = lambda p, first=None: construct(h, t, ([first] if first else [mn(h, p + '0')]) + [mn(h, '%s%d' % (p, j)) for j in range(1, n)], at)
    if k == 'beside':
        check_tree(h, mk('a'), N('mi', text='x', tex='x'), mk('b'), what=t)
    elif k == 'same':
        x = mk('a')
        check_tree(h, N('mrow', x, x), x, what=t)
    else:
        x = mk('b', mk('a'))
        check_tree(h, x if k == 'inside' else mk('d', x), what=t)


def decorated(h, what, decors, kinds):
    """Attributes, layout and comments in every element."""
    t, n, at = h.pick('what', what)
    i = h.pick('part', list(range(n)))
    k = h.pick('kind', kinds)
    ks = [lib.SHAPES[k](h, 'c%d' % j) if j == i else mn(h, 'c%d' % j) for j in range(n)]
    check_tree(h, construct(h, t, ks, at), what=t, decor=h.pick('decor', decors))


for q, w in SOME.items():
    for part in w:
        nm = '%s%d%s' % (part[0], part[1], ''.join(' ' + v for _, v in part[2]))
        add('unusual part of ' + nm, q, rich_part, dict(kinds=RICH + [k for k in lib.SHAPES if k not in lib.RICH]), what=[part], kinds=RICH, both=False)
        add('unusual parts of ' + nm, q, rich_part, what=[part], kinds=RICH, both=True)
        add('places of ' + nm, q, placed, dict(depth=3), what=[part], places=PL, depth=2)
    add('repeated ' + q, q, again, what=w, kinds=['num'])
    add('decorated ' + q, q, decorated, dict(kinds=KQ + RICH[:8]), what=w, decors=list(lib.DECOR), kinds=['num', 'row', 'empty', 'frac'])

SCENARIOS = S
B = 'documents of the listed shapes; token texts are ASCII alphanumeric strings of any length from 1 up; any of 2 to 5 parts empty; up to 260 parts; 40 levels of the element; '
BOUNDS = {
    'C01': B + 'numerator and denominator each of the listed kinds, depth 3',
    'C02': B + 'up to 3 (thorough 4) children of msqrt, depth 3',
    'C03': B + 'base of 15 kinds, scripts of 6 kinds, depth 3',
    'C04': B + 'base and script of 8 kinds, 8 accent operators, depth 3',
    'C05': B + 'up to 3 (thorough 4) script pairs on each side',
    'C06': B + '10 container names and any unknown 3-letter name over bdgjkvwz, up to 3 (4) children, chains of 3 (4) containers, rows of 20 (60); 22 element names in 11 other spellings; any two characters of Unicode in mo at the ends of a row',
    'C07': B + 'any one-character delimiters, up to 3 (4) separators of any characters, up to 5 (6) children',
    'C08': B + 'any one-character delimiter pair and the listed pairs, tables up to 2x2 (3x3)',
    'C09': B + 'up to 3x3 (5x5) cells, ragged rows, nesting depth 2 (3), any cells of tables of up to 6 (9) cells empty',
    'C10': B + 'all 17 notations, no notation, any other lower case notation of up to 4 (6) letters, 8 spellings of each notation and of pairs of them, up to 3 (4) children',
    'C11': B + 'up to 3 (4) children, any other lower case action type of up to 4 (7) letters, 8 spellings of two',
}

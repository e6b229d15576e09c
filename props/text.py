"""C16-C25: token text, white space, escaping, and what in a document must not matter."""
import unicodedata
from . import lib
from .lib import N, mn, xml, math
from sx import ival

S = {}
TOK = ['mi', 'mo', 'mn', 'mtext']


def add(name, pid, fn, thorough=None, /, tier=None, **params):
    if name in S:
        name = '%s %s' % (pid, name)
    assert name not in S, name
    S[name] = dict(property=pid, fn=fn, params=params, thorough=thorough or {})
    if tier:
        S[name]['tier'] = tier


def doc(h, tag, body, at=''):
    return h.cat('<math><', tag, at, '>', body, '</', tag, '></math>')


def same(h, x, y, what):
    """Two documents with one meaning."""
    a, b = h.run(x), h.run(y)
    h.check(a.ok == b.ok and a.kind == b.kind, lambda f: '%s: %r gives %s %s, %r gives %s %s' % (
        what, f(x), a.kind, f(a.value if a.ok else a.msg), f(y), b.kind, f(b.value if b.ok else b.msg)))
    if a.ok and b.ok:
        h.check(h.eq(a.value, b.value), lambda f: '%s: %r gives %r, %r gives %r' % (what, f(x), f(a.value), f(y), f(b.value)))


# C16 white space
NOWS = ival.minus(ival.XMLCHAR, lib.WSI)


def tidy(h, r, x):
    """No white space but single inner spaces."""
    h.check(h.lnot(not_tidy(h, r)), lambda f: 'untidy white space: %r gives %r' % (f(x), f(r)))


def not_tidy(h, r):
    if isinstance(r, str):
        return r != ' '.join(r.split())
    from sx import strs
    ps = strs.P(r)
    for p in ps:
        if isinstance(p, str) and p.strip(' ') != ' '.join(p.split()):
            return True
    s = r
    bad = [h.contains(s, '  '), h.eq(s[:1], ' '), h.eq(s[-1:], ' ')]
    for p in ps:
        if isinstance(p, strs.Ch) and ival.inter(p.dom, lib.WSI):
            bad.append(strs.mkbool(p.isin(ival.minus(lib.WSI, ((32, 32),)))))
        elif isinstance(p, strs.Choice):
            for g, t in p.alts:
                if any(q.isspace() and q != ' ' for q in t):
                    bad.append(strs.mkbool(g))
        elif isinstance(p, strs.Hole) and ival.inter(p.alpha, lib.WSI):
            return True
    return h.lor(*bad)


def spread(h, tag, n, m, alpha=None):
    """White space before, after and between words."""
    w = [h.text('w%d' % i, lib.XMLWS, 1 if 0 < i < m else 0, n if 0 < i < m or m == 1 else 1) for i in range(m + 1)]
    c = [h.text('c%d' % i, alpha or NOWS, 1, 1) for i in range(m)]
    e = [h.escape(q) for q in c]
    out = [w[0]]
    for i in range(m):
        out += [e[i], w[i + 1]]
    x = doc(h, tag, h.cat(*out))
    same(h, x, doc(h, tag, h.join(' ', e)), 'white space in ' + tag)


def between(h, n):
    """White space between elements."""
    w = [h.text('w%d' % i, lib.XMLWS, 0, n) for i in range(4)]
    t = h.pick('tag', ['mrow', 'mfrac', 'mtable', 'mfenced', 'msup', 'munder', 'menclose'])
    a, b = '<mn>1</mn>', '<mrow><mn>2</mn><mi/></mrow>'
    x = h.cat('<math>', w[0], '<', t, '>', w[1], a, w[2], b, w[3], '</', t, '></math>')
    same(h, x, '<math><%s>%s%s</%s></math>' % (t, a, b, t), 'white space between elements')


def outside(h, n):
    """White space around the document."""
    a, b = h.text('a', lib.XMLWS, 0, n), h.text('b', lib.XMLWS, 0, n)
    same(h, h.cat(a, '<math><mi>x</mi></math>', b), '<math><mi>x</mi></math>', 'white space around the document')


def normal(h, tag, n, alpha):
    """The result of any token text is tidy."""
    c = h.text('t', alpha, n, n)
    x = doc(h, tag, h.escape(c))
    r = h.ok(x)
    tidy(h, r, x)


def normal_tree(h, tags, kinds):
    t = h.pick('tag', tags)
    ks = [lib.shape(h, 'c%d' % i, kinds) for i in range(h.pick('n', [2, 3] if t not in ('mfrac', 'msup', 'mover') else [2]))]
    x = math(h, N('mrow', N('mrow'), N(t, *ks), N('mrow')))
    r = h.ok(x)
    tidy(h, r, x)


for t in TOK:
    al = None if t != 'mtext' else ival.minus(NOWS, ival.of_str('\u00a0'))
    add('spread ' + t, 'C16', spread, dict(n=2), tag=t, n=1, m=1)
    add('spread words ' + t, 'C16', spread, dict(n=3), tag=t, n=2, m=2, alpha=ival.of_str('a+\u03b1' if t == 'mtext' else 'ab1+%\u03b1\u00e9'))
    add('tidy ' + t, 'C16', normal, tag=t, n=1, alpha=ival.XMLCHAR)
    add('tidy two ' + t, 'C16', normal, dict(n=3), tag=t, n=2, alpha=ival.of_str(' \t\n\u00a0\u2003a~\\^\u03b1+'))
add('between', 'C16', between, dict(n=2), n=1)
add('outside', 'C16', outside, dict(n=4), n=2)
add('tidy trees', 'C16', normal_tree, dict(kinds=['num', 'empty', 'phantom', 'row', 'space', 'table', 'frac']),
    tags=['mrow', 'mfrac', 'msqrt', 'mtable', 'mtr', 'mfenced', 'msup', 'mover', 'menclose'], kinds=['num', 'empty', 'phantom', 'row'])


ESC = {'\\': '\\backslash ', '{': '\\{', '}': '\\}', '_': '\\_', '^': '\\hat{} ', '~': '\\sim ', '#': '\\#', '$': '\\$',
       '%': '\\%', '&': '\\&'}


# C17 plain text
PLAIN_MO = "!\"'+,-./:;<=>?@`"


def plain(h, tag, n):
    c = h.text('t', lib.ALNUM, 1, n)
    h.check_eq(h.ok(doc(h, tag, c)), c, tag)


def plain_mixed(h, tag, n, alpha):
    c = h.text('t', ival.of_str(alpha), 1, n)
    h.check_eq(h.ok(doc(h, tag, h.escape(c))), c, tag)


def plain_long(h, tag, alpha):
    c = h.hole('t', ival.of_str(alpha))
    h.check_eq(h.ok(doc(h, tag, c)), c, tag)


def decimal(h, n):
    """Numbers with signs, separators and exponents."""
    a, b = h.hole('a', ival.of_str('0123456789')), h.hole('b', ival.of_str('0123456789'))
    s = h.pick('sep', ['.', ',', '/', 'e', 'e-', '+', ':', '...'])
    p = h.pick('sign', ['', '-', '+'])
    t = h.cat(p, a, s, b)
    h.check_eq(h.ok(doc(h, 'mn', t)), t, 'mn')


def number_forms(h, forms):
    """Numbers as people write them: exponents, units, hexadecimal, groups of digits."""
    d = ival.of_str('0123456789')
    p = [h.text('d%d' % i, d, 1, 1) for i in range(4)]
    f = h.pick('form', forms)
    t = h.cat(*[p['0123'.index(q)] if q in '0123' else q for q in f])
    h.check_eq(h.ok(doc(h, h.pick('tag', ['mn', 'mi']), t)), t, 'number')


def long_name(h, tags, ns):
    """Names far longer than any symbol, built from any two characters."""
    a, b = h.text('a', lib.ALNUM, 1, 1), h.text('b', lib.ALNUM, 1, 2)
    n = h.pick('n', ns)
    k = h.pick('how', ['first', 'mid', 'last', 'all'])
    f = ('xyzw' * n)[:n - 1]
    t = {'first': lambda: h.cat(a, b, f), 'mid': lambda: h.cat(f[:n // 2], a, b, f[n // 2:]), 'last': lambda: h.cat(f, a, b), 'all': lambda: h.cat(*[a, b] * (n // 2))}[k]()
    h.check_eq(h.ok(doc(h, h.pick('tag', tags), t)), t, 'long name')


def single_plain(h, tag, alpha):
    c = h.char('t', ival.of_str(alpha))
    h.check_eq(h.ok(doc(h, tag, h.escape(c))), c, tag)


A = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
for t in ('mi', 'mo', 'mn'):
    add('text ' + t, 'C17', plain, dict(n=6), tag=t, n=4)
    add('long ' + t, 'C17', plain_long, tag=t, alpha=A)
    add('mixed ' + t, 'C17', plain_mixed, dict(n=3), tag=t, n=2, alpha=A + '.')
def plain_ascii(h, tag, n, alpha, least=1):
    """Printable ASCII: each character as it is, a reserved one as its command."""
    c = h.text('t', ival.of_str(alpha), min(n, least), n)
    h.check_eq(h.ok(doc(h, tag, h.escape(c))), h.cat(*[h.smap(q, lambda t: ESC.get(t, t)) for q in c]), tag)


# a blank after some commands is C18's, the end of an entity is C32's
ASCII = ''.join(c for c in map(chr, range(33, 127)) if c not in ';\\~^')
for t in ('mi', 'mn'):
    add('ascii ' + t, 'C17', plain_ascii, dict(n=5), tag=t, n=4, alpha=ASCII, least=4)
    add('unfinished references ' + t, 'C17', plain_ascii, dict(n=7), tag=t, n=6, alpha='&#xA0gtlm', least=5)
for t in ('mi', 'mn'):
    add('punctuation ' + t, 'C17', single_plain, tag=t, alpha="!\"'()*+,-./:;<=>?@[]`" + A)
add('punctuation mo', 'C17', single_plain, tag='mo', alpha=PLAIN_MO + A)
add('decimal', 'C17', decimal, n=1)
add('number forms', 'C17', number_forms, forms=['0.1E23', '0e1', '0.1e-2', '0E+1', '0E1', '1.5E10', '0E-12', '0x1F', '0xff', '0b1', '0,123.1', '0.123,1', '0:1:2', '0/1', '0-1', '0+1', '0pt', '0.1em', '.0', '0.', '-0',
    '+0', '-.0', '(0)', '[0,1]', '0!', '0i', '0.1.2', '0..1', '0...1', '1st', '0=1', '0*1', "0'1", '0e', 'e0', 'E0', '0E', '0@1', 'inf', 'NaN', 'nan', 'Infinity', '1e400', '0_1'.replace('_', ':'), '00', '000', '0123', '1/2', '1/3', '3.14', '007', '1,000,000'])
add('long names', 'C17', long_name, dict(ns=[5, 8, 16, 30, 32, 33, 40, 41, 64, 65, 100, 128, 200, 256, 500]), tags=['mi', 'mn', 'mo'], ns=[8, 16, 33, 40, 65, 101, 257])


# C18 reserved characters
SPECIALS = '\\{}_^~#$%&'


def escaped(h, tag, n, alpha, lone):
    """Every reserved character of a text is written as its command, everything else as it is."""
    c = h.text('t', ival.of_str(alpha), n, n)
    x = doc(h, tag, h.escape(c))
    r = h.ok(x)
    e = [h.smap(q, lambda t: ESC.get(t, t)) for q in c]
    h.check_eq(r, strip(h, h.cat(*e)), tag)


def strip(h, s):
    """Collapse white space where the text may end in a command that ends in a space."""
    if isinstance(s, str):
        return ' '.join(s.split())
    from sx import strs
    f = strs.flat_choice(s, 200000)
    if f is None:
        return lib.norm(h, s)
    return f if isinstance(f, str) else strs.mk([f.map(lambda t: ' '.join(t.split()))])


def no_raw(h, tag, n, alpha):
    """No reserved character of the text reaches the result unescaped."""
    c = h.text('t', alpha, n, n)
    x = doc(h, tag, h.escape(c))
    r = h.ok(x)
    h.check(h.lnot(h.test(r, raw)), lambda f: 'reserved character: %r gives %r' % (f(x), f(r)))


def raw(s):
    """A reserved character that TeX would act upon (braces only where unbalanced)."""
    i, depth = 0, 0
    while i < len(s):
        q = s[i]
        if q == '\\':
            i += 2
            continue
        if q in '#$%&_^~':
            return True
        depth += (q == '{') - (q == '}')
        if depth < 0:
            return True
        i += 1
    return depth != 0


def lone(h, tag):
    """One reserved character alone."""
    c = h.pick('c', list(ESC))
    want = {'mi': {}, 'mn': {}, 'mtext': {},
            'mo': {'{': '\\left\\{\\right.', '}': '\\left.\\right\\}', '_': '\\underline', '^': '\\hat'}}[tag]
    h.check_eq(h.ok(doc(h, tag, h.escape(c))), want.get(c, ESC[c]).strip(), tag + ' ' + c)


def beside(h, tag, order):
    """A reserved character next to any other character."""
    c = h.char('c', ival.minus(NOWS, ival.of_str(SPECIALS)))
    q = h.pick('reserved', list(ESC))
    x = doc(h, tag, h.cat(h.escape(c), h.escape(q)) if order == 0 else h.cat(h.escape(q), h.escape(c)))
    r = h.ok(x)
    h.check_eq(r, h.cat(c, ESC[q].strip()) if order == 0 else h.cat(ESC[q], c), tag)


for t in TOK:
    add('alone ' + t, 'C18', lone, tag=t)
for t in ('mi', 'mn'):
    add('escape ' + t, 'C18', escaped, dict(n=4), tag=t, n=3, alpha='\\{}_^~#$%&a1', lone=False)
for t in ('mi', 'mn'):
    for o in (0, 1):
        add('any %s %d' % (t, o), 'C18', beside, tag=t, order=o)
for t in TOK:
    add('pairs ' + t, 'C18', no_raw, dict(n=3), tag=t, n=2, alpha=ival.of_str('\\{}_^~#$%&a1+ \u03b1'))
S['pairs mo']['params']['alpha'] = ival.of_str('\\{}_^~#$%a1 \u03b1')


# C19 mathvariant of mi
VARIANT = {'bold': ['mathbf'], 'italic': ['mathit'], 'bold-italic': ['mathbf', 'mathit'], 'double-struck': ['mathbb'],
           'bold-fraktur': ['mathbf', 'mathfrak'], 'script': ['mathcal'], 'bold-script': ['mathbf', 'mathcal'],
           'fraktur': ['mathfrak'], 'sans-serif': ['mathsf'], 'bold-sans-serif': ['mathbf', 'mathsf'],
           'sans-serif-italic': ['mathsf', 'mathit'], 'sans-serif-bold-italic': ['mathbf', 'mathsf', 'mathit'],
           'monospace': ['mathtt']}


def wrapped(h, cmds, t):
    for c in reversed(cmds):
        t = h.cat('\\', c, '{', t, '}')
    return t


def variant(h, where, names):
    v = h.pick('variant', names)
    t = h.hole('t', lib.ALNUM)
    n = N('mi', text=t, tex=wrapped(h, VARIANT.get(v, []), t), at=[('mathvariant', v)])
    w = h.pick('where', where)
    tree = {'alone': n, 'row': N('mrow', mn(h, 'a'), n), 'base': N('msup', n, mn(h, 'b')), 'frac': N('mfrac', n, mn(h, 'c')),
            'attrs': N('mi', text=t, tex=n.tex, at=[('id', 'q'), ('mathvariant', v), ('class', 'bold')])}[w]
    lib.check_tree(h, tree, what='mathvariant ' + v)


def variant_symbol(h):
    """A letter that has a command of its own keeps it under a variant."""
    v = h.pick('variant', list(VARIANT) + ['normal', ''])
    c = h.pick('char', ['\u03b1', '\u221e', '\u211d', '\u0393'])
    r = h.ok(doc(h, 'mi', c, ' mathvariant="%s"' % v))
    p = h.ok(doc(h, 'mi', c))
    h.check_eq(r, wrapped(h, VARIANT.get(v, []), p), 'mathvariant')


def variant_other(h, n):
    """Any other variant name changes nothing."""
    v = h.text('variant', ival.of_str('abcdefghijklmnopqrstuvwxyz-'), 0, n)
    for w in VARIANT:
        h.assume(h.lnot(h.eq(v, w)))
    t = h.hole('t', lib.ALNUM)
    h.check_eq(h.ok(doc(h, 'mi', t, h.cat(' mathvariant="', v, '"'))), t, 'mathvariant')


add('variants', 'C19', variant, where=['alone', 'row', 'base', 'frac', 'attrs'], names=list(VARIANT) + ['normal', '', 'initial', 'Bold', 'mathvariant'])
def variant_spelled(h, tag, names):
    """The name of a variant in another spelling is no variant."""
    w = h.pick('variant', names)
    k = h.pick('how', ['upper', 'title', 'before', 'after', 'two', 'joined', 'dash', 'space', 'math', 'underscore', 'slash', 's', 'dash after', 'quoted'])
    u = h.pick('other', names) if k in ('two', 'joined') else ''
    v = {'upper': w.upper(), 'title': w.title(), 'before': ' ' + w, 'after': w + ' ', 'two': w + ' ' + u, 'joined': w + '-' + u, 'dash': w.replace('-', ''), 'space': w.replace('-', ' '), 'math': 'math' + w,
         'underscore': w.replace('-', '_'), 'slash': w.replace('-', '/'), 's': w + 's', 'dash after': w + '-', 'quoted': "'" + w + "'"}[k]
    if v in VARIANT:
        return
    t = h.text('t', lib.ALNUM, 1, 1)
    q = h.ok(doc(h, tag, t, ' mathvariant="normal"'))
    h.check_eq(h.ok(doc(h, tag, t, ' mathvariant="%s"' % v)), q, 'mathvariant ' + v)
    h.check_eq(q, t if tag == 'mi' else h.cat('\\text{', t, '}'), 'mathvariant normal')


add('other variants', 'C19', variant_other, dict(n=6), n=4)
add('symbols', 'C19', variant_symbol)
add('spelling of variants', 'C19', variant_spelled, tag='mi', names=list(VARIANT) + ['normal'])


# C20 mtext
TEXTCMD = {'bold': ['textbf'], 'italic': ['textit'], 'bold-italic': ['textbf', 'textit'], 'double-struck': ['mathbb'],
           'monospace': ['mathtt'], 'bold-fraktur': ['mathfrak'], 'fraktur': ['mathfrak']}


def segments(h, n, alpha, names, sym):
    """Runs of letters, digits and spaces are text; every other character is converted like an mi."""
    v = h.pick('variant', names)
    t = h.text('t', ival.of_str(alpha), n, n)
    h.assume(h.lnot(h.eq(t[:1], ' ')))
    h.assume(h.lnot(h.eq(t[-1:], ' ')))
    cmds = TEXTCMD.get(v, ['text'])
    out, run = [], []
    def flush():
        if run:
            out.append(wrapped(h, cmds, h.cat(*run)))
            del run[:]
    for q in t:
        if h.test(q, lambda c: c.isascii() and c.isalnum() or c == ' ') if isinstance(q, str) else h.decide(h.test(q, lambda c: c.isascii() and c.isalnum() or c == ' ')):
            run.append(q)
        else:
            flush()
            out.append(h.ok(doc(h, 'mi', h.escape(q))))
    flush()
    r = h.ok(doc(h, 'mtext', h.escape(t), h.cat(' mathvariant="', v, '"') if v is not None else ''))
    e = strip(h, h.cat(*out))
    h.check_eq(r, e, 'mtext')


def any_char(h):
    """Any single character between two letters."""
    c = h.char('c', ival.minus(NOWS, ival.of_str('\u02d8\u0924\u1348')))
    a, b = h.char('a', lib.LETTERS), h.char('b', lib.LETTERS)
    r = h.ok(doc(h, 'mtext', h.cat(a, h.escape(c), b)))
    if h.decide(h.test(c, lambda q: q.isascii() and q.isalnum())):
        e = h.cat('\\text{', a, c, b, '}')
    else:
        m = h.ok(doc(h, 'mi', h.escape(c)))
        e = h.cat('\\text{', a, '}', m, '\\text{', b, '}')
    h.check_eq(r, e, 'mtext')


def text_long(h, n):
    t = h.text('t', lib.ALNUM, 1, n)
    v = h.pick('variant', [None, 'normal', 'script', ''] + list(TEXTCMD))
    r = h.ok(doc(h, 'mtext', t, '' if v is None else ' mathvariant="%s"' % v))
    h.check_eq(r, wrapped(h, TEXTCMD.get(v, ['text']), t), 'mtext')


def words(h):
    a, b, c = (h.char(q, lib.ALNUM) for q in 'abc')
    w, u = h.text('w', ival.inter(lib.WSI, ival.XMLCHAR), 1, 1), h.pick('u', ['', ' ', '\u00a0'])
    r = h.ok(doc(h, 'mtext', h.cat(a, h.escape(w), b, u, c)))
    h.check_eq(r, h.cat('\\text{', a, ' ', b, ' ' if u else '', c, '}'), 'mtext')


V = [None, 'normal', 'bold', 'italic', 'bold-italic', 'monospace', 'double-struck', 'fraktur', 'bold-fraktur', 'script']
add('segments', 'C20', segments, dict(n=4), n=3, alpha='a1 +\u03b1', names=[None, 'bold', 'bold-italic'], sym='')
add('segments two', 'C20', segments, dict(n=3, names=[None, 'bold']), n=2, alpha='zB0 -(%\u00e9\u2200.\u4e2d', names=V, sym='')
add('any character', 'C20', any_char)
add('lengths', 'C20', text_long, dict(n=10), n=5)
def many_runs(h, n, seps):
    """Many words between signs, or one long text."""
    k = h.pick('n', n)
    v = h.pick('variant', [None, 'bold-italic'])
    s = h.pick('sep', seps)
    a = h.text('a', lib.ALNUM, 1, 1)
    j = h.pick('at', [0, k // 2, k - 1])
    w = [a if i == j else 'w%d' % i for i in range(k)]
    m = s if s == ' ' else h.ok(doc(h, 'mi', h.escape(s)))
    cmds = TEXTCMD.get(v, ['text'])
    e = wrapped(h, cmds, h.join(' ', w)) if s == ' ' else strip(h, h.join(m, [wrapped(h, cmds, q) for q in w]))
    r = h.ok(doc(h, 'mtext', h.join(h.escape(s), w), '' if v is None else ' mathvariant="%s"' % v))
    h.check_eq(r, e, 'mtext of %d words' % k)


def text_spelled(h, names):
    variant_spelled(h, 'mtext', names)


add('words', 'C20', words)
add('many runs', 'C20', many_runs, dict(n=[3, 9, 33, 65, 130]), n=[3, 9, 33], seps=[' ', '-', ',', '+'])
add('spelling of text variants', 'C20', text_spelled, names=[q for q in VARIANT if q in TEXTCMD] + ['normal'])


# C21 comments, processing instructions, CDATA, predefined entities
def comment_at(h, n, kind):
    """A comment at any place changes nothing."""
    body = h.text('body', ival.of_str('a<>&/"m:\n') if kind == '!--' else ival.of_str('a<&/"m:\n'), 0, n)
    c = h.cat('<!--', body, '-->') if kind == '!--' else h.cat('<?pi ', body, '?>')
    parts = ['', '<math>', '<mrow>', '<mi>', 'ab', '1', '</mi>', '<mfrac>', '<mn>', '2', '</mn>', '<mrow>', '</mrow>', '</mfrac>',
             '<mtext>', 't', 'u', '</mtext>', '</mrow>', '</math>', '']
    i = h.pick('place', list(range(1, len(parts))))
    x = h.cat(*parts[:i], c, *parts[i:])
    same(h, x, ''.join(parts), 'comment')


def comment_in_text(h, tag, kind):
    """A comment inside a token text, next to blanks or not."""
    c = {'!--': '<!-- c -->', '?': '<?pi c?>', 'two': '<!--a--><?b?>'}[kind]
    w = [h.text('w%d' % i, lib.XMLWS, 0, 1) for i in range(3)]
    a, b = h.text('a', lib.ALNUM, 0, 1), h.text('b', lib.ALNUM, 0, 1)
    x = [w[0], a, w[1], c, w[2], b]
    same(h, doc(h, tag, h.cat(*x)), doc(h, tag, h.cat(*x[:3], *x[4:])), 'comment in a text')


def prolog(h, n):
    """What stands before and after the formula."""
    p = h.pick('prolog', ['', '\ufeff', '<?xml version="1.0"?>', "<?xml version='1.0' encoding='utf-8'?>", '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>'])
    d = h.pick('doctype', ['', '<!DOCTYPE math>', '<!DOCTYPE html>', '<!DOCTYPE math [<!ELEMENT math ANY>]>'])
    w = [h.text('w%d' % i, ival.of_str(' \n'), 0, 1) for i in range(2)]
    e = h.pick('epilog', ['', '<!-- end -->', '<?end?>', '\n'])
    t = h.hole('t', lib.ALNUM)
    f = h.cat('<math><mfrac><mi>', t, '</mi><mn>2</mn></mfrac></math>')
    same(h, h.cat(p, w[0], d, w[1], f, e), f, 'prolog')


def cdata(h, tag, n):
    """Text in CDATA sections is text."""
    t = h.text('t', ival.of_str('ab<&1+\u03b1% '), n, n)
    i = h.pick('from', list(range(n + 1)))
    j = h.pick('to', list(range(i, n + 1)))
    x = doc(h, tag, h.cat(h.escape(t[:i]), '<![CDATA[', t[i:j], ']]>', h.escape(t[j:])))
    same(h, x, doc(h, tag, h.escape(t)), 'CDATA')


def references(h, tag):
    """A character reference is the character."""
    c = h.pick('char', ['a', '+', '<', '&', '>', '"', "'", '\u03b1', '\u2211', '\U0001d49c', '{', '\u00e9', '\u2260', '0', '|', '('])
    s = h.pick('spelling', ['&#%d;', '&#x%x;', '&#x%X;', '&#x0%x;', 'name'])
    names = {'<': '&lt;', '&': '&amp;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}
    if s == 'name' and c not in names:
        return
    a, b = h.text('a', lib.ALNUM, 0, 1), h.text('b', lib.ALNUM, 0, 1)
    x = doc(h, tag, h.cat(a, names[c] if s == 'name' else s % ord(c), b))
    e = h.escape(c) if c in '<&>' else c
    same(h, x, doc(h, tag, h.cat(a, e, b)), 'reference')


for k in ('!--', '?'):
    add('comments ' + k, 'C21', comment_at, dict(n=2), n=1, kind=k)
add('prolog', 'C21', prolog, n=1)
for t in TOK:
    for k in ('!--', '?', 'two'):
        add('comment %s in %s' % (k, t), 'C21', comment_in_text, tag=t, kind=k)
    add('cdata ' + t, 'C21', cdata, dict(n=3), tag=t, n=2)
    add('references ' + t, 'C21', references, tag=t)


# C22 line breaks
def breaks(h, k, docs):
    """Any line break in place of any space."""
    d = h.pick('doc', docs).split('@')
    b = [h.pick('b%d' % i, ['\n', '\r\n', '\r', ' ', '\n\n']) for i in range(k)]
    at = h.pick('at', list(range(len(d) - k)))
    fill = [' '] * at + b + [' '] * (len(d) - 1 - at - k)
    x = ''.join(q for p in zip(d, fill + ['']) for q in p)
    same(h, x, ' '.join(d), 'line break')


def break_text(h, tag, n):
    """Line breaks between words of a token."""
    a, c = h.hole('a', lib.ALNUM) if tag == 'mn' else h.text('a', lib.ALNUM, 1, 2), h.text('c', lib.ALNUM, 1, 2)
    b = h.text('b', ival.of_str('\r\n '), 1, n)
    same(h, doc(h, tag, h.cat(a, b, c)), doc(h, tag, h.cat(a, ' ', c)), 'line break')


DOCS = ['@<math@display="block"@>@<mi@mathvariant="bold"@id="a"@>@x@y@</mi@>@</math@>@',
        '<math>@<mtable>@<mtr>@<mtd>@<mtext>a@b</mtext>@</mtd>@<mtd/>@</mtr>@</mtable>@</math>',
        "<math><mfenced@open='['@close=')'@separators=';@,'@>@<mn>1@2</mn>@<mo>@+@</mo>@<mi>a</mi></mfenced></math>",
        '<math><mfrac@bevelled="true"@><mn>1</mn><!--@c@--><mi>a@b</mi></mfrac></math>',
        '<?xml@version="1.0"?>@<math><mi>x</mi></math>',
        "<math>@<mi@id='q'@x>@a@b@</mi>@<mo@y=>@+</mo>@</math>"]
add('places', 'C22', breaks, k=1, docs=DOCS)
add('two places', 'C22', breaks, dict(docs=DOCS), k=2, docs=DOCS[:2])
for t in TOK:
    add('in ' + t, 'C22', break_text, dict(n=3), tag=t, n=2)
S['places']['params']['docs'] = [d for d in DOCS]


# C23 the mml prefix
def prefix(h, docs):
    d = h.pick('doc', docs)
    t = h.text('t', lib.ALNUM, 1, 2)
    ns = h.pick('ns', ['', ' xmlns:mml="http://www.w3.org/1998/Math/MathML"', " xmlns:mml='http://www.w3.org/1998/Math/MathML' display=\"block\""])
    p = d.replace('</', '<//').replace('<', '<mml:').replace('<mml://', '</mml:').replace('<mml:!', '<!')
    x = h.cat(p.split('@')[0].replace('<mml:math', '<mml:math' + ns, 1), t, p.split('@')[1])
    y = h.cat(d.split('@')[0], t, d.split('@')[1])
    same(h, x, y, 'mml prefix')


def prefix_some(h):
    """Some elements with the prefix and some without."""
    t = h.text('t', lib.ALNUM, 1, 2)
    q = [h.pick('p%d' % i, ['', 'mml:']) for i in range(4)]
    x = h.cat('<%smath><%smfrac><%smi>' % tuple(q[:3]), t, '</%smi><%smn>2</%smn></%smfrac></%smath>' % (q[2], q[3], q[3], q[1], q[0]))
    same(h, x, h.cat('<math><mfrac><mi>', t, '</mi><mn>2</mn></mfrac></math>'), 'mml prefix')


def prefix_text(h, tag):
    """The same letters in a token text stay."""
    a, b = h.text('a', lib.ALNUM, 0, 1), h.text('b', lib.ALNUM, 0, 2)
    p = h.pick('p', ['', 'mml:'])
    r = h.ok(h.cat('<%smath><%s%s>' % (p, p, tag), a, 'mml:', b, '</%s%s></%smath>' % (p, tag, p)))
    e = h.cat(a, 'mml:', b) if tag != 'mtext' else h.cat('\\text{', a, 'mml}:', *(['\\text{', b, '}'] if b != '' else []))
    h.check_eq(r, e, 'mml: in text')


def prefix_kept(h, n):
    """The letters of the prefix in attribute values, CDATA sections, comments and instructions."""
    a, b = h.text('a', ival.of_str('a /'), 0, n), h.text('b', ival.of_str('a>=' ), 0, n)
    p = h.pick('p', ['', 'mml:'])
    w = h.pick('where', ['open', 'close', 'cdata', 'tag', 'comment', 'pi', 'single', 'after', 'twice'])
    m = {'open': ['<mfenced open="', '" close="]"><mi>x</mi></mfenced>'], 'close': ['<mfenced open="[" close="', '"><mi>x</mi></mfenced>'], 'cdata': ['<mi><![CDATA[', ']]></mi>'],
         'tag': ['<mi><![CDATA[<', ']]></mi>'], 'comment': ['<mi>x</mi><!--<', '--><mi>y</mi>'], 'pi': ['<mi>x</mi><?q ', '?><mi>y</mi>'], 'single': ["<mfenced open='", "'><mi>x</mi></mfenced>"],
         'after': ['<mfenced open="[" id="', '"><mi>x</mi></mfenced>'], 'twice': ['<mfenced open="mml:', '"><mi>mml:</mi></mfenced>']}[w]
    f = lambda u: [q.replace('</', '<//').replace('<m', '<' + u + 'm').replace('<//', '</' + u) for q in m]
    x = h.cat('<', p, 'math>', f(p)[0], a, 'mml:', b, f(p)[1], '</', p, 'math>')
    # the same letters, which the prefix's removal cannot recognise
    r = h.cat('<math>', f('')[0].replace('mml:', '&#109;ml:') if w == 'twice' else f('')[0], a, 'mml:' if w in ('comment', 'pi') else 'm]]>&#109;<![CDATA[l:' if w in ('cdata', 'tag') else '&#109;ml:', b,
              f('')[1].replace('mml:', '&#109;ml:') if w == 'twice' else f('')[1], '</math>')
    if w in ('cdata', 'tag'):
        r = h.cat('<math><mi>', '&lt;' if w == 'tag' else '', h.escape(a), '&#109;ml:', h.escape(b), '</mi></math>')
    same(h, x, r, 'mml: in ' + w)


PD = ['<math><mi>@</mi></math>', '<math><mrow><msup><mi>x</mi><mn>@</mn></msup><mo>+</mo></mrow></math>',
      '<math><mtable><mtr><mtd><mi>@</mi></mtd><mtd><mn>1</mn></mtd></mtr></mtable></math>',
      '<math><mfenced open="[" close=")"><mi>@</mi><mspace/></mfenced></math>',
      '<math><mstyle><munderover><mo>\u2211</mo><mi>i</mi><mi>@</mi></munderover></mstyle></math>',
      '<math><mmultiscripts><mi>@</mi><none/><mi>b</mi><mprescripts/><mi>c</mi><none/></mmultiscripts></math>',
      '<math><menclose notation="box"><mtext mathvariant="bold">@</mtext></menclose><maction><mi>a</mi></maction></math>']
add('prefix', 'C23', prefix, docs=PD)
add('prefix on some', 'C23', prefix_some)
add('prefix letters elsewhere', 'C23', prefix_kept, dict(n=2), n=1)
for t in TOK:
    add('prefix letters in ' + t, 'C23', prefix_text, tag=t)


# C24 several formulas
def many(h, n, host):
    """Formulas of one document are converted in order and separated by a space."""
    k = h.pick('n', list(range(n + 1)))
    w = h.pick('host', host)
    kinds = ['num', 'frac', 'empty', 'row']
    ms = [lib.shape(h, 'm%d' % i, kinds) for i in range(k)]
    body = []
    for i, m in enumerate(ms):
        f = h.cat('<math>', xml(h, m), '</math>')
        body.append({'div': f, 'p': h.cat('<p>t<b>', f, '</b>u</p>'), 'text': h.cat('x ', f, ' y'), 'mrow': h.cat('<mrow>', f, '<mi>q</mi></mrow>')}[w])
    x = h.cat('<div>', *body, '</div>')
    e = [lib.norm(h, lib.ref(h, m)) for m in ms]
    h.check_eq(h.ok(x), h.join(' ', [q for q in e if not (isinstance(q, str) and q == '')]), 'several formulas')


def alike(h, n, kinds):
    """Equal formulas are all converted, and so are many."""
    k = h.pick('n', n)
    m = lib.shape(h, 'm', kinds)
    o = mn(h, 'o')
    w = h.pick('order', ['all', 'ends', 'turn', 'pairs'])
    q = [{'all': m, 'ends': m if i in (0, k - 1) else o, 'turn': m if i % 2 else o, 'pairs': m if i % 4 < 2 else o}[w] for i in range(k)]
    x = h.cat(*(['<div>'] + [h.cat('<p><math>', xml(h, i), '</math></p>') for i in q] + ['</div>']))
    h.check_eq(h.ok(x), h.join(' ', [lib.norm(h, lib.ref(h, i)) for i in q]), '%d formulas' % k)


WHERE = {
    'top': lambda m, q: N('mfrac', m, q), 'semantics': lambda m, q: N('semantics', m, q), 'unknown': lambda m, q: N('x-y', m), 'style': lambda m, q: N('mstyle', m, q),
    'cell': lambda m, q: N('mtable', N('mtr', N('mtd', q), N('mtd', m))), 'fence': lambda m, q: N('mfenced', q, m), 'sup': lambda m, q: N('msup', q, m),
    'sqrt': lambda m, q: N('msqrt', m), 'under': lambda m, q: N('munder', q, m), 'limit': lambda m, q: N('munderover', q, m, mn0()),
    'error': lambda m, q: N('merror', m), 'box': lambda m, q: N('menclose', m, q, at={'notation': 'box'}), 'index': lambda m, q: N('mroot', q, m),
    'action': lambda m, q: N('maction', m, q, at={'actiontype': 'tooltip'}), 'script': lambda m, q: N('mmultiscripts', q, m, mn0()),
    'span': lambda m, q: N('span', q, N('div', m)), 'group': lambda m, q: N('mrow', N('none', m), q),
}


def mn0():
    return N('mn', text='0', tex='0')


def inside(h, depth, kinds, where=('first', 'last', 'only', 'frac', 'pad')):
    """A math element inside a formula counts as a group."""
    n = lib.shape(h, 'core', kinds)
    for i in range(h.pick('depth', list(range(1, depth + 1)))):
        w = h.pick('w%d' % i, where)
        m = N('math', n)
        n = WHERE[w](m, mn(h, 'a%d' % i)) if w in WHERE else {'first': N('mrow', m, mn(h, 'a%d' % i)), 'last': N('mrow', mn(h, 'a%d' % i), m), 'only': m,
             'frac': N('mfrac', mn(h, 'a%d' % i), m), 'pad': N('mpadded', mn(h, 'b%d' % i), m, mn(h, 'c%d' % i))}[w]
    lib.check_tree(h, n, what='nested math')


def no_math(h):
    t = h.text('t', lib.ALNUM, 1, 2)
    d = h.pick('doc', [('<div>', '</div>'), ('<mi>', '</mi>'), ('<mrow><mn>', '</mn></mrow>'), ('<maths><mi>', '</mi></maths>')])
    h.check_eq(h.ok(h.cat(d[0], t, d[1])), '', 'no math element')


add('formulas', 'C24', many, dict(n=3), n=2, host=['div', 'p', 'text', 'mrow'])
add('nested formulas', 'C24', inside, dict(depth=3, kinds=['num', 'row', 'frac']), depth=2, kinds=['num', 'row', 'frac'])
add('nested places', 'C24', inside, dict(depth=2), depth=1, kinds=['num', 'row'], where=list(WHERE))
add('no formula', 'C24', no_math)
add('equal formulas', 'C24', alike, dict(n=[1, 2, 3, 4, 5, 6, 7, 30, 70, 300]), n=[2, 3, 4, 7, 40, 130], kinds=['num', 'row'])


# C25 attributes without meaning
ELS = {'math': (1, ()), 'mi': (0, ('mathvariant',)), 'mo': (0, ()), 'mn': (0, ()), 'mtext': (0, ('mathvariant',)), 'mrow': (2, ()),
       'mfrac': (2, ('bevelled',)), 'msqrt': (2, ()), 'mroot': (2, ()), 'msup': (2, ()), 'msub': (2, ()), 'msubsup': (3, ()),
       'munder': (2, ()), 'mover': (2, ()), 'munderover': (3, ()), 'mmultiscripts': (3, ()),
       'mfenced': (2, ('open', 'close', 'separators')), 'menclose': (2, ('notation',)), 'maction': (2, ('actiontype',)),
       'merror': (1, ()), 'mphantom': (1, ()), 'mpadded': (2, ()), 'mstyle': (1, ()), 'mtr': (2, ()), 'mtd': (1, ()), 'mspace': (0, ()), 'foo': (2, ())}
IRR = ['id', 'class', 'style', 'display', 'mathcolor', 'mathvariant', 'open', 'close', 'separators', 'notation', 'bevelled',
       'actiontype', 'stretchy', 'accent', 'linethickness', 'innerTable', 'name', 'value']


def irrelevant(h, els, names, n):
    """An attribute that has no meaning on an element never changes the result."""
    t = h.pick('tag', els)
    k, known = ELS[t]
    a = h.pick('attr', [q for q in names if q not in known])
    v = h.text('value', ival.minus(ival.XMLCHAR, ival.of_str('<&"')), 0, n)
    kids = '<mn>1</mn>' * k if k else {'mi': 'x', 'mo': '+', 'mn': '2', 'mtext': 'ab+', 'mspace': ''}[t]
    f = lambda at: h.cat('<math>', '<', t, at, '>', kids, '</', t, '></math>') if t != 'math' else h.cat('<math', at, '>', kids, '</math>')
    same(h, f(h.cat(' ', a, '="', v, '"')), f(''), 'attribute')


AROUND = {'math': ('', ''), 'row': ('<mrow><mi>a</mi>', '<mi>b</mi></mrow>'), 'cell': ('<mtable><mtr><mtd>', '</mtd></mtr></mtable>'), 'base': ('<msup>', '<mn>2</mn></msup>'),
          'frac': ('<mfrac><mn>1</mn>', '</mfrac>'), 'fence': ('<mfenced><mn>1</mn>', '</mfenced>'), 'action': ('<maction>', '<mn>2</mn></maction>'),
          'under': ('<munder>', '<mn>2</mn></munder>'), 'accent': ('<mover><mn>2</mn>', '</mover>'), 'table': ('<mtable>', '<mtr><mn>2</mn></mtr></mtable>'), 'script': ('<mmultiscripts>', '<mn>1</mn><mn>2</mn></mmultiscripts>')}


def every(h, els, names, around, kinds):
    """All the attributes without meaning at once, each with its own value: a word or a number of any length."""
    t = h.pick('tag', els)
    k, known = ELS[t]
    kind = h.pick('kind', kinds)
    w = h.pick('around', around if t != 'math' else ['math'])
    al = ival.of_str({'number': '0123456789+-.%empx', 'upper': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'}[kind])
    at = [h.cat(' ', a, '="', h.hole('v%d' % i, al), '"') for i, a in enumerate(names) if a not in known]
    kids = '<mn>1</mn>' * k if k else {'mi': 'x', 'mo': '+', 'mn': '2', 'mtext': 'ab+', 'mspace': ''}[t]
    f = lambda at: h.cat('<math>', AROUND[w][0], '<', t, *at, '>', kids, '</', t, '>', AROUND[w][1], '</math>') if t != 'math' else h.cat('<math', *at, '>', kids, '</math>')
    same(h, f(at), f([]), 'attributes')


def word(h, els, names):
    """One attribute, any word."""
    t = h.pick('tag', els)
    k, known = ELS[t]
    a = h.pick('attr', [q for q in names if q not in known])
    v = h.hole('value', ival.of_str('abcdefghijklmnopqrstuvwxyz-'))
    kids = '<mn>1</mn>' * k if k else {'mi': 'x', 'mo': '+', 'mn': '2', 'mtext': 'ab+', 'mspace': ''}[t]
    f = lambda at: h.cat('<math><mrow><', t, at, '>', kids, '</', t, '></mrow></math>')
    same(h, f(h.cat(' ', a, '="', v, '"')), f(''), 'attribute')


VALUES = {'style': ['color:red', 'color: red; font-size: 10pt', 'visibility:hidden', 'display:none', 'color:red;visibility:hidden', 'font-weight:bold'], 'class': ['a b', 'MJX-TeXAtom-ORD', 'hidden', 'bold'],
          'rowlines': ['solid', 'none solid', 'none none dashed', 'dashed'], 'columnlines': ['solid', 'none solid', 'solid none', 'none', 'dashed solid'], 'columnalign': ['left', 'left right', 'right left right left', 'center'],
          'rowalign': ['top', 'top bottom', 'axis'], 'columnspacing': ['0em', '1em 2em', '0.5em 1em 0.5em'], 'rowspacing': ['4pt', '4pt 2pt', '.5em .3em'], 'frame': ['solid', 'dashed', 'none'],
          'framespacing': ['0 0', '1em 2em'], 'linethickness': ['0', '0px', '0pt', '2', '2px', 'thick', 'thin', 'medium', '150%', '0.0', '0.1em', '-1'], 'linebreak': ['newline', 'nobreak', 'goodbreak', 'indentingnewline', 'auto'],
          'width': ['0', '1em', '0.2222em', '-0.1667em', '+2em', '2quad', '100%', 'thickmathspace', '0.1667em', '2em'], 'height': ['0', '+0.5ex', '50%height'], 'depth': ['0', '-1ex'], 'lspace': ['0', '0em', '2em', 'thickmathspace', '-1em'],
          'rspace': ['0', '0em', '5mu', 'verythinmathspace'], 'voffset': ['0', '-1em', '+3pt'], 'displaystyle': ['true', 'false', 'TRUE', '1'], 'scriptlevel': ['0', '+1', '-1', '2'], 'display': ['block', 'inline', 'inline-block', 'none'],
          'mode': ['display', 'inline'], 'form': ['prefix', 'infix', 'postfix'], 'fence': ['true', 'false'], 'separator': ['true', 'false'], 'stretchy': ['true', 'false'], 'symmetric': ['true', 'false'], 'largeop': ['true', 'false'],
          'movablelimits': ['true', 'false'], 'accent': ['true', 'false'], 'accentunder': ['true', 'false'], 'minsize': ['1', '2em', '120%'], 'maxsize': ['1', '2.5em', 'infinity'], 'mathsize': ['normal', 'big', 'small', '120%', '2em'],
          'mathcolor': ['red', '#f00', '#FF0000', 'rgb(1,2,3)', 'transparent', 'blue'], 'mathbackground': ['yellow', '#fff'], 'color': ['red', '#00f'], 'background': ['red'], 'fontstyle': ['normal', 'italic'], 'fontweight': ['bold', 'normal'],
          'fontfamily': ['Times, serif', 'monospace'], 'fontsize': ['12pt'], 'numalign': ['left', 'right'], 'denomalign': ['left', 'center'], 'side': ['left', 'right'], 'align': ['axis', 'baseline', 'axis 1', 'top 2', 'center'],
          'dir': ['ltr', 'rtl'], 'href': ['#x', 'http://x.y/?a=b&amp;c'], 'encoding': ['TeX', 'application/x-tex', 'MathML-Content', 'text/html', 'latex'], 'definitionURL': ['http://a.b'], 'alttext': ['x^2', '\\frac{1}{2}', 'a b'],
          'selection': ['1', '2', '0', '-1', '3'], 'lquote': ['\u201c', '"'.replace('"', '&quot;')], 'rquote': ['\u201d'], 'columnspan': ['1', '2', '0'], 'rowspan': ['1', '2'], 'equalrows': ['true', 'false'], 'equalcolumns': ['true'],
          'groupalign': ['left', '{left} {right left}'], 'subscriptshift': ['1em'], 'superscriptshift': ['0'], 'crossout': ['updiagonalstrike'], 'location': ['n', 'ne'], 'overflow': ['linebreak', 'scroll'], 'xml:space': ['preserve', 'default'],
          'xml:lang': ['en', 'fr'], 'data-mjx-texclass': ['ORD', 'OP', 'INNER', 'OPEN', 'CLOSE', 'REL', 'PUNCT'], 'intent': ['power($x,2)', '_'], 'arg': ['x'], 'type': ['text'], 'role': ['math', 'presentation'], 'aria-hidden': ['true'],
          'hidden': ['', 'hidden', 'true'], 'tabindex': ['0'], 'data-latex': ['\\alpha'], 'data-semantic-type': ['fenced'], 'scriptminsize': ['8pt'], 'scriptsizemultiplier': ['0.71'], 'infixlinebreakstyle': ['before'], 'charalign': ['.'],
          'decimalpoint': ['.'], 'edge': ['left'], 'minlabelspacing': ['0.8em'], 'title': ['a tooltip'], 'name': ['x'], 'value': ['3'], 'src': ['a.png'], 'other': ['q'], 'index': ['1'], 'order': ['2'],
          'xmlns': ['http://www.w3.org/1998/Math/MathML', 'http://www.w3.org/2000/svg', 'u'], 'xmlns:m': ['http://www.w3.org/1998/Math/MathML'], 'xmlns:xlink': ['x'],
          'notation': ['box'], 'open': ['['], 'close': [']'], 'separators': [';'], 'bevelled': ['true'], 'actiontype': ['toggle'], 'mathvariant': ['bold', 'normal'], 'innerTable': ['innerTable', 'true']}


def real_values(h, els, around):
    """Attributes without meaning with the values they really have, on parts that hold a text."""
    t = h.pick('tag', els)
    k, known = ELS[t]
    a = h.pick('attr', [q for q in VALUES if q not in known])
    v = h.pick('value', VALUES[a])
    w = h.pick('around', around if t != 'math' else ['math'])
    c = h.hole('c', lib.ALNUM)
    kids = h.cat(*['<mn>', c, '</mn>'] + ['<mi>z</mi>'] * (k - 1)) if k else {'mi': c, 'mo': '+', 'mn': c, 'mtext': h.cat('ab+', c), 'mspace': ''}[t]
    f = lambda at: h.cat('<math>', AROUND[w][0], '<', t, at, '>', kids, '</', t, '>', AROUND[w][1], '</math>') if t != 'math' else h.cat('<math', at, '>', kids, '</math>')
    same(h, f(' %s="%s"' % (a, v)), f(''), 'attribute')


KNOWN = {'mfrac': [('bevelled', 'true')], 'mfenced': [('open', '['), ('close', '|'), ('separators', ';')], 'menclose': [('notation', 'box')], 'maction': [('actiontype', 'statusline')], 'mi': [('mathvariant', 'bold')],
         'mtext': [('mathvariant', 'bold')]}


def beside_known(h, els):
    """An attribute without meaning beside those that have one."""
    t = h.pick('tag', els)
    k, known = ELS[t]
    a = h.pick('attr', [q for q in VALUES if q not in known])
    v = h.pick('value', VALUES[a])
    o = h.pick('order', [0, 1])
    c = h.hole('c', lib.ALNUM)
    kids = h.cat(*['<mn>', c, '</mn>'] + ['<mi>z</mi>'] * (k - 1)) if k else c
    q = ''.join(' %s="%s"' % p for p in KNOWN[t])
    f = lambda *at: h.cat('<math><mrow><', t, *at, '>', kids, '</', t, '></mrow></math>')
    z = ' %s="%s"' % (a, v)
    same(h, f(q, z) if o else f(z, q), f(q), 'attribute')


def table_values(h, names, n):
    """The same on tables, rows and cells of several sizes, and on a fenced table."""
    a = h.pick('attr', names)
    v = h.pick('value', VALUES[a])
    m, k = h.pick('rows', n), h.pick('columns', n)
    p = h.pick('part', ['table', 'rows', 'cells', 'first row', 'fence'])
    at = ' %s="%s"' % (a, v)
    c = h.hole('c', lib.ALNUM)
    q = lambda x: [at if x == p else '' for x in (x,)][0]
    def f(at):
        g = lambda *w: at if p in w else ''
        rows = [h.cat('<mtr', g('rows', *(['first row'] if i == 0 else [])), '>', *[h.cat('<mtd', g('cells'), '><mn>', c if (i, j) == (0, 0) else '%d' % (i + j), '</mn></mtd>') for j in range(k)], '</mtr>') for i in range(m)]
        t = h.cat('<mtable', g('table'), '>', *rows, '</mtable>')
        return h.cat('<math><mi>a</mi>', h.cat('<mfenced open="["', g('fence'), '>', t, '</mfenced>') if p == 'fence' else t, '</math>')
    same(h, f(at), f(''), 'attribute')


def quotes(h):
    """Quotes, order and spacing of attributes do not matter."""
    q = h.pick('q', ['"', "'"])
    s = h.pick('s', [' ', '  ', '\t'])
    e = h.pick('e', ['=', ' = ', '= '])
    o = h.pick('order', [0, 1])
    v = h.char('v', ival.of_str('([|/;a'))
    w = h.pick('w', [')', ']', ''])
    at = [h.cat('open', e, q, v, q), h.cat('close', e, q, w, q)]
    at = at if o == 0 else at[::-1]
    x = h.cat('<math><mfenced', s, at[0], s, at[1], s, '><mi>x</mi></mfenced></math>')
    same(h, x, h.cat('<math><mfenced open="', v, '" close="', w, '"><mi>x</mi></mfenced></math>'), 'attribute spelling')


L = list(ELS)
for i in range(0, len(L), 7):
    add('attributes %d' % (i // 7), 'C25', irrelevant, dict(n=2), els=L[i:i + 7], names=IRR, n=1)
    add('every attribute %d' % (i // 7), 'C25', every, els=L[i:i + 7], names=lib.REAL, around=list(AROUND), kinds=['number', 'upper'])
    add('real values %d' % (i // 7), 'C25', real_values, dict(around=list(AROUND)), els=L[i:i + 7], around=['row'])
    add('words %d' % (i // 7), 'C25', word, els=[q for q in L[i:i + 7] if q != 'math'], names=lib.REAL)
TABLE = ['columnlines', 'rowlines', 'frame', 'columnalign', 'rowalign', 'columnspacing', 'rowspacing', 'columnspan', 'rowspan', 'displaystyle', 'align', 'side', 'width', 'equalrows', 'groupalign', 'style', 'class', 'notation']
add('values on tables', 'C25', table_values, dict(n=[1, 2, 3, 4], names=list(VALUES)[:-12] + TABLE[-1:]), names=TABLE, n=[1, 2, 3])
for t in KNOWN:
    add('beside those of ' + t, 'C25', beside_known, els=[t])
add('spelling', 'C25', quotes)

SCENARIOS = S
BOUNDS = {
    'C16': 'one arbitrary XML character, or words of one of 7 characters, with up to 2 (thorough 2 or 3) white space characters at each place; '
           'tidiness of every one-character text, 2 (3) character texts over 10 characters, and trees of depth 3',
    'C17': 'ASCII alphanumeric texts of up to 4 (6) characters, of any length in mi, mo and mn; any 4 (6) printable ASCII characters in mi and mn; single ASCII punctuation; decimals with digit strings of any length; 50 forms of numbers with any digits; names of up to 257 (500) characters of which two are arbitrary',
    'C18': 'texts of 3 (4) characters over the reserved characters and two others; every single XML character; pairs (triples) over 15 characters',
    'C19': '13 variants, any other lower case name of up to 4 (6) letters; identifiers of ASCII alphanumerics of any length; 4 symbols with commands; 14 other spellings of each variant',
    'C20': 'texts of 3 (4) characters over 5, of 2 (3) over 11 characters; any character between two letters; words of up to 5 (10) letters; every variant, 14 other spellings of seven; up to 33 (130) words between signs',
    'C21': 'a comment or processing instruction of up to 1 (2) characters at each of 20 places, and inside token texts next to up to one blank on each side; four XML declarations, '
           'four document types; CDATA over texts of 2 (3) characters; 16 characters in 5 spellings',
    'C22': 'six documents with every space replaced by each line break, adjacent pairs of places, and up to 2 (3) break characters inside token text',
    'C23': 'seven documents with the prefix on every element, one with every subset, and the letters of the prefix inside token text, attribute values, CDATA sections, comments and instructions',
    'C24': 'up to 2 (3) formulas in 4 hosts; up to 130 (300) formulas, equal or in turn; math elements nested up to 2 (3) deep at five positions, and once (twice) at 17 others',
    'C25': '27 elements; 18 attribute names with values of up to 1 (2) arbitrary characters; 109 names of MathML attributes with any word of any length, and all of them at once with '
           'words or numbers of any length, the element at eleven places; about 80 attributes with the values they really take, also on tables of up to 3x3 (4x4)',
}

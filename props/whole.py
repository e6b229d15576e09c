"""C33-C37: what holds of every result and of every use of the converter."""
import re
from . import lib
from .lib import N, mn, xml, math
from .errors import ALLTAGS, ATTR, CHARS
from sx import ival

S = {}


def add(name, pid, fn, thorough=None, /, tier=None, **params):
    if name in S:
        name = '%s %s' % (pid, name)
    assert name not in S, name
    S[name] = dict(property=pid, fn=fn, params=params, thorough=thorough or {})
    if tier:
        S[name]['tier'] = tier


# C33, C34: the result is well-formed LaTeX. One automaton reads groups, \left ... \right and
# \begin{x} ... \end{x}; a state is (mode, open constructs), or None for a text that is not nested.
WORDS = ('left', 'right', 'begin', 'end')
LET = ival.of_str('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
# letters that can occur in the four words are told apart, every other letter behaves like Q
OWN = 'abdefghilnrtmvxsuBVp'
CLASSES = [(q, ival.of_str(q)) for q in OWN + '\\{} '] + [('Q', ival.minus(LET, ival.of_str(OWN)))]
CLASSES.append(('+', ival.minus(ival.ALL, ival.norm([p for _, iv in CLASSES for p in iv]))))


def alpha(q):
    return q.isascii() and q.isalpha()


def braces_step(st, q):
    """Depth of groups; escaped braces do not count."""
    if st is None:
        return None
    d, esc = st
    if esc:
        return d, False
    if q == '\\':
        return d, True
    if q == '{':
        return d + 1, False
    if q == '}':
        return (d - 1, False) if d else None
    return st


def nest_step(st, q):
    if st is None:
        return None
    mode, stack = st
    if mode == 'esc':                                   # after a backslash
        if alpha(q):
            return 'c' + (q if any(w.startswith(q) for w in WORDS) else '?'), stack
        return '', stack
    if mode[:1] == 'c':                                 # in a command name
        w = mode[1:]
        if alpha(q):
            return 'c' + (w + q if any(v.startswith(w + q) for v in WORDS) else '?'), stack
        if w == 'left':
            stack = stack + ('L',)
            mode = 'd'
        elif w == 'right':
            if not stack or stack[-1] != 'L':
                return None
            stack = stack[:-1]
            mode = 'd'
        elif w in ('begin', 'end'):
            return ('n' + w[0] + ':', stack) if q == '{' else None
        else:
            mode = ''
    if mode == 'd':                                     # the delimiter after \left or \right
        if q == ' ':
            return st if st[0] == 'd' else ('d', stack)
        if q in '{}':
            return None
        return ('esc' if q == '\\' else ''), stack
    if mode[:1] == 'n':                                 # an environment name
        if q != '}':
            return mode + q, stack
        name = mode[3:]
        if mode[1] == 'b':
            return '', stack + ('E' + name,)
        if not stack or stack[-1] != 'E' + name:
            return None
        return '', stack[:-1]
    if q == '\\':
        return 'esc', stack
    if q == '{':
        return '', stack + ('G',)
    if q == '}':
        return ('', stack[:-1]) if stack and stack[-1] == 'G' else None
    return '', stack


def nest_good(st):
    return st is not None and not st[1] and st[0] not in ('esc', 'cleft', 'cright', 'cbegin', 'cend', 'd') and st[0][:1] != 'n'


def balanced(h, r):
    return h.scan(r, (0, False), braces_step, CLASSES, lambda st: st == (0, False))


def nested(h, r):
    return h.scan(r, ('', ()), nest_step, CLASSES, nest_good)


JUDGE = {'groups': (balanced, 'braces'), 'nesting': (nested, 'nesting')}


def judge(h, what, x, known=()):
    r = h.run(x)
    if r.ok:
        f, w = JUDGE[what]
        h.check(f(h, r.value), lambda g: '%s not balanced: %r gives %r' % (w, g(x), g(r.value)), known=known)
    return r


def of_text(h, what, tag, n, alpha, host=('', '')):
    """Any token text."""
    k = h.text('t', alpha, 0, n)
    judge(h, what, h.cat('<math>', host[0], '<', tag, '>', h.escape(k), '</', tag, '>', host[1], '</math>'))


def of_attr(h, what, tag, attr, n, kids, alpha):
    """Any attribute value."""
    v = h.text('v', alpha, 0, n)
    known = []
    if attr == 'notation':
        known = [('menclose-' + q, h.eq(v, q)) for q in ('left', 'right', 'madruwb')]
    judge(h, what, h.cat('<math><', tag, ' ', attr, '="', h.escape(v), '">', kids, '</', tag, '></math>'), known)


def of_notation(h, what, kinds):
    a = h.pick('notation', ['', 'longdiv', 'actuarial', 'phasorangle', 'left', 'right', 'madruwb', 'top', 'other'] + list(lib.BOX))
    k = lib.shape(h, 'c', kinds)
    known = [('menclose-' + a, True)] if a in ('left', 'right', 'madruwb') else []
    judge(h, what, math(h, N('menclose', k, at={'notation': a})), known)


def of_fence(h, what, alphas, kids):
    """Any delimiters and separators of up to one character."""
    o, c, s = [h.text(n, a if not isinstance(a, str) else ival.of_str(a), 0, 1) for n, a in zip('ocs', alphas)]
    k = h.pick('kids', kids)
    one = lambda v, iv: h.land(h.lnot(h.eq(v, '')), h.within(v, iv))
    odd = lambda v: one(v, ival.of_str('{}'))
    known = [('%s-mfenced-brace' % what, h.lor(odd(o), odd(c))), ('%s-mfenced-separator' % what, odd(s)),
             ('%s-mfenced-backslash' % what, h.lor(h.eq(o, '\\'), h.eq(c, '\\')))]
    if what == 'nesting':
        known.append(('nesting-mfenced-letter', h.lor(one(o, LET), one(c, LET))))
        known.append(('nesting-mfenced-blank', h.lor(one(o, lib.WSI), one(c, lib.WSI))))
        if 'mtable' in k:
            known.append(('nesting-mfenced-one-sided', h.lor(h.eq(o, ''), h.eq(c, ''))))
    judge(h, what, h.cat('<math><mfenced open="', h.escape(o), '" close="', h.escape(c), '" separators="', h.escape(s), '">', k, '</mfenced></math>'), known)


SETS = {'none': [], 'set': [('bevelled', 'true'), ('notation', 'box'), ('actiontype', 'toggle'), ('open', '['), ('close', ')'),
                            ('separators', ';'), ('mathvariant', 'bold-italic')],
        'empty': [(a, '') for a in ATTR]}
LEAF = {'mi': '\u03b1', 'mo': '(', 'mn': '%', 'mtext': 'a b'}


def of_trees(h, what, outer, inner, ns, ms, sets):
    """Every pair of element names with 0 to 3 children on each level."""
    a, n = h.pick('a', outer), h.pick('n', ns)
    b, m = h.pick('b', inner), h.pick('m', ms)
    at = SETS[h.pick('attr', sets)]
    kid = lambda: N(b, *[N('mn', text='{') for _ in range(m)], text=LEAF.get(b, '') if not m else '', at=at)
    judge(h, what, math(h, N(a, *[kid() for _ in range(n)], at=at)))


def of_deep(h, what, tags, leaf, depth, top=None):
    """A chain of elements, each with its full number of children, over any leaf text."""
    c = h.char('c', lib_nows())
    n = N(h.pick('leaf', leaf), text=h.escape(c))
    for d in range(depth):
        t = h.pick('t%d' % d, top if top and d == depth - 1 else tags)
        k = {'mfrac': 2, 'msup': 2, 'munder': 2, 'mover': 2, 'msubsup': 3, 'munderover': 3, 'mroot': 2, 'mmultiscripts': 3}.get(t, 1)
        ks = [N('mi', text='x') for _ in range(k)]
        ks[h.pick('at%d' % d, list(range(k)))] = n
        n = N(t, *ks)
    judge(h, what, math(h, n))


def lib_nows():
    return ival.minus(CHARS, lib.WSI)


def of_shapes(h, what, places, kinds):
    """Pairs and triples of the same construct, and parts with unusual ends, at every place."""
    p = h.pick('place', places)
    x = lib.shape(h, 'c', kinds)
    judge(h, what, math(h, lib.PLACES[p](h, 'p', x)))


DEEP = ['mfrac', 'msup', 'munderover', 'mover', 'mmultiscripts', 'mfenced', 'mtable', 'menclose', 'msqrt', 'maction']
for w, pid in (('groups', 'C33'), ('nesting', 'C34')):
    for t in ('mi', 'mo', 'mn', 'mtext'):
        add('%s text of %s' % (w, t), pid, of_text, dict(n=2), what=w, tag=t, n=1, alpha=CHARS)
        add('%s texts of %s' % (w, t), pid, of_text, dict(n=4), what=w, tag=t, n=3, alpha=ival.of_str('\\{}a (|\u03b1\u00bd'))
        add('%s script of %s' % (w, t), pid, of_text, what=w, tag=t, n=1, alpha=CHARS, host=('<mover><mi>a</mi>', '</mover>'))
    for t, a, kids in (('menclose', 'notation', '<mn>1</mn>'), ('maction', 'actiontype', '<mn>1</mn><mn>2</mn>'),
                       ('mfrac', 'bevelled', '<mn>1</mn><mn>2</mn>'), ('mi', 'mathvariant', 'x'), ('mtext', 'mathvariant', 'x'), ('mrow', 'foo', '<mi/>')):
        add('%s value of %s %s' % (w, t, a), pid, of_attr, dict(n=3), what=w, tag=t, attr=a, n=2, kids=kids, alpha=CHARS)
    add(w + ' notations', pid, of_notation, what=w, kinds=['num', 'row', 'frac', 'sup', 'fence', 'table'])
    for i, al in enumerate(((CHARS, ')', ''), ('[', CHARS, ''), ('(', '', CHARS), ('{}|\\ x', '{}|\\', ';'))):
        add('%s fences %d' % (w, i), pid, of_fence, what=w, alphas=al, kids=['<mn>1</mn><mn>2</mn>', '<mtable><mtr><mtd><mn>1</mn></mtd></mtr></mtable>', ''])
    for i in range(4):
        add('%s pairs %d' % (w, i), pid, of_trees, dict(inner=ALLTAGS, ns=[0, 1, 2, 3], ms=[0, 1, 2, 3], sets=list(SETS)), what=w, outer=ALLTAGS[i * 7:i * 7 + (8 if i == 3 else 7)],
            inner=['mi', 'mo', 'mfrac', 'mtable', 'mprescripts', 'mfenced'], ns=[1, 2, 3], ms=[0, 2], sets=['none', 'set'])
    ks = [k for k in list(lib.SHAPES) if k not in ('left', 'right')]
    for i in range(0, len(ks), 12):
        add('%s shapes %d' % (w, i // 12), pid, of_shapes, what=w, places=list(lib.PLACES), kinds=ks[i:i + 12])
    for t in DEEP:
        add('%s deep %s' % (w, t), pid, of_deep, dict(leaf=['mi', 'mo', 'mn', 'mtext']), what=w, tags=[t] if w == 'groups' else [t], leaf=['mo', 'mi'], depth=1)
    for t in DEEP:
        add('%s chain in %s' % (w, t), pid, of_deep, dict(depth=3, leaf=['mi', 'mo']), what=w, tags=DEEP, leaf=['mi'], depth=2, top=[t])


# C35 history, C36 interleaving
TOKENS = ival.of_str('ab+(1\u03b1\u2211\u00e1\u0398%~')
KINDS = {
    'mi': ('<mi>', 't', '</mi>'), 'bold': ('<mi mathvariant="bold">', 't', '</mi>'), 'mo': ('<mo>', 't', '</mo>'), 'mn': ('<mn>', 't', '</mn>'),
    'mtext': ('<mtext>', 't', '</mtext>'), 'italic text': ('<mtext mathvariant="italic">', 't', '</mtext>'),
    'fence': ('<mfenced open="[" separators=";|"><mi>', 't', '</mi><mn>2</mn><mn>3</mn></mfenced>'), 'fence plain': ('<mfenced><mi>', 't', '</mi><mn>2</mn></mfenced>'),
    'arity': ('<mfrac><mi>', 't', '</mi></mfrac>'), 'malformed': ('<mi>', 't', '</mo>'), 'valueless': ('<mi x>', 't', '</mi>'),
    'frac': ('<mfrac><mi>', 't', '</mi><mn>2</mn></mfrac>'), 'bevelled': ('<mfrac bevelled="true"><mi>', 't', '</mi><mn>2</mn></mfrac>'),
    'table': ('<mtable><mtr><mtd><mtable><mtr><mtd><mi>', 't', '</mi></mtd></mtr></mtable></mtd></mtr></mtable>'),
    'plain table': ('<mtable><mtr><mtd><mi>', 't', '</mi></mtd><mtd><mn>2</mn></mtd></mtr></mtable>'),
    'matrix': ('<mfenced open="|" close="|"><mtable><mtr><mtd><mi>', 't', '</mi></mtd></mtr></mtable></mfenced>'),
    'over': ('<mover><mi>', 't', '</mi><mo>^</mo></mover>'), 'multi': ('<mmultiscripts><mi>', 't', '</mi><mn>1</mn><mn>2</mn><mprescripts/><mn>3</mn><none/></mmultiscripts>'),
    'box': ('<menclose notation="circle"><mi>', 't', '</mi></menclose>'), 'div': ('<menclose><mi>', 't', '</mi></menclose>'),
    'two': ('<mi>', 't', '</mi></math><math><mi>', 't', '</mi>'), 'comment': ('<mi><!-- c -->', 't', '</mi>'), 'phantom': ('<mphantom><mi>', 't', '</mi></mphantom>'),
    'bad cell': ('<mtable><mtr><mtd><mfrac><mi>', 't', '</mi></mfrac></mtd></mtr></mtable>'),
    'bad inner cell': ('<mtable><mtr><mtd><mtable><mtr><mtd><mfrac><mi>', 't', '</mi></mfrac></mtd></mtr></mtable></mtd></mtr></mtable>'),
    'bad fence': ('<mfenced open="[" separators=";"><mi>', 't', '</mi><msqrt><mroot><mn>1</mn></mroot></msqrt></mfenced>'),
    'bad script': ('<msup><mi mathvariant="bold">', 't', '</mi><mrow><msub><mn>2</mn></msub></mrow></msup>'),
    'bad later': ('<mi>', 't', '</mi><menclose notation="box"><mover><mi>x</mi></mover></menclose>'),
    'bad second': ('<mi>', 't', '</mi></math><math><munder><mi>', 't', '</mi></munder>'),
    'other fence': ('<mfenced open="{" close="]" separators="+-"><mi>', 't', '</mi><mn>2</mn><mn>3</mn><mn>4</mn></mfenced>'),
    'other matrix': ('<mfenced open="(" close=")"><mtable><mtr><mtd><mi>', 't', '</mi></mtd></mtr></mtable></mfenced>'),
    'other multi': ('<mmultiscripts><mi>', 't', '</mi><mprescripts/><mn>3</mn><mn>4</mn><mn>5</mn></mmultiscripts>'),
    'other action': ('<maction actiontype="input"><mi>', 't', '</mi><mn>2</mn></maction>'),
    'under': ('<munder><mi>', 't', '</mi><mo>&#x23DF;</mo></munder>'), 'sub': ('<msub><mrow><mi>', 't', '</mi><mn>1</mn></mrow><mn>2</mn></msub>'),
    'subsup': ('<msubsup><mi>', 't', '</mi><mn>1</mn><mn>2</mn></msubsup>'), 'root': ('<mroot><mi>', 't', '</mi><mn>3</mn></mroot>'), 'sqrt': ('<msqrt><mi>', 't', '</mi></msqrt>'),
    'limits': ('<munderover><mo>', 't', '</mo><mn>1</mn><mn>2</mn></munderover>'), 'error': ('<merror><mi>', 't', '</mi></merror>'),
    'other valueless': ('<mi y=>', 't', '</mi><mn x>1</mn>'), 'prefixed': ('<mml:mi>', 't', '</mml:mi>'), 'words': ('<mtext mathvariant="bold">', 't', 'ab c</mtext>'),
    'toggle': ('<maction actiontype="toggle"><mi>', 't', '</mi><mn>2</mn></maction>'), 'unknown': ('<foo><mi>', 't', '</mi><mn>2</mn></foo>'),
}


def build(h, kind, t):
    x = h.cat(*[h.escape(t) if p == 't' else p for p in KINDS[kind]])
    return h.cat('<d><math>', x, '</math></d>') if kind in ('two', 'bad second') else h.cat('<math>', x, '</math>')


def alike(h, a, b, text):
    h.check(a.ok == b.ok and a.kind == b.kind, lambda f: '%s: %s, alone %s' % (f(text), a.kind, b.kind))
    x, y = (a.value, b.value) if a.ok and b.ok else (a.msg, b.msg)
    h.check(h.eq(x, y), lambda f: '%s: %r, alone %r' % (f(text), f(x), f(y)))


def history(h, first, last, mid):
    """The last conversion of a history gives what it gives in a new process, and the first one can be repeated."""
    ks = [h.pick('k0', first)] + [h.pick('k%d' % (i + 1), mid) for i in range(0 if mid is None else 1)] + [h.pick('last', last)]
    ts = [h.char('t%d' % i, TOKENS) for i in range(len(ks))]
    docs = [build(h, k, t) for k, t in zip(ks, ts)]
    rs = [h.run(x) for x in docs]
    again = h.run(docs[0])
    alike(h, again, rs[0], h.cat('repeated ', docs[0]))
    h.new_process()
    alike(h, h.run(docs[-1]), rs[-1], h.cat(docs[-1], ' after ', h.join(' , ', docs[:-1])))


def long_history(h, kind, n):
    """n conversions of different texts, then the first again."""
    ts = [h.char('t%d' % i, TOKENS) for i in range(2)]
    x, y = build(h, kind, ts[0]), build(h, kind, ts[1])
    a = h.run(x)
    for i in range(n):
        h.run(y)
    alike(h, h.run(x), a, h.cat('repeated ', x))


ALONE = {}


def schedule(h, first, second, n, fine=False):
    """Two threads, each left once at any function entry, or before any statement."""
    a, b = h.pick('a', first), h.pick('b', second)
    x, y = build(h, a, 'u'), build(h, b, 'v')
    alone = []
    for q in (x, y):
        # the documents are constant, so that each has one result in a new process
        if (type(h), q) not in ALONE:
            h.new_process()
            ALONE[type(h), q] = h.attempt(q)
        alone.append(ALONE[type(h), q])
    h.new_process()
    at = [h.int('at%d' % i, 1, m) if m else 0 for i, m in enumerate(n)]
    rs = h.interleave([x, y], at, fine)
    for q, r, s in zip((x, y), rs, alone):
        alike(h, r, s, q)


ALLK = list(KINDS)
REPAIRED = {'x': ('<mi x>', 't', '</mi>'), 'y': ('<mi y>', 't', '</mi>'), 'x=': ('<mi x=>', 't', '</mi>'), 'open': ('<mi open>', 't', '</mi>'), 'number': ('<mn x>', 't', '</mn>'), 'valued': ('<mi x y="1">', 't', '</mi>'),
            'two': ('<mi x>', 't', '</mi><mi y>2</mi>'), 'later': ('<mi>', 't', '</mi><mi x>2</mi>'), 'kept': ('<mi x>', 't', ' x=</mi>'), 'hopeless': ('<mi x <>', 't', '</mi>'), 'ampersand': ('<mi x>', 't', ' & </mi>'),
            'cell': ('<mtable><mtr><mtd x>', 't', '</mtd></mtr></mtable>'), 'fence': ('<mfenced open="[" x><mi>', 't', '</mi></mfenced>'), 'unfinished': ('<mi x>', 't', '')}
KINDS.update({'repaired ' + k: v for k, v in REPAIRED.items()})


def distinct_history(h, kind, n):
    """n conversions of different documents, then the first and the last again."""
    t = h.char('t', TOKENS)
    x = build(h, kind, t)
    a = h.run(x)
    for i in range(n):
        b = h.run(build(h, kind, 'q%d' % i))
    alike(h, h.run(build(h, kind, 'q%d' % (n - 1))), b, 'the last again')
    alike(h, h.run(x), a, h.cat('repeated ', x))
    h.new_process()
    alike(h, h.run(build(h, kind, 'q%d' % (n - 1))), b, 'the last in a new process')


for k in ALLK:
    add('after ' + k, 'C35', history, dict(last=ALLK), first=[k], last=['mi', 'bold', 'mo', 'mtext', 'frac', 'fence', 'table', 'valueless', 'arity', 'two'], mid=None)
for i in range(0, len(ALLK), 6):
    add('repeated %d' % (i // 6), 'C35', history, first=ALLK[i:i + 6], last=ALLK[:3], mid=None)
R = ['repaired ' + k for k in REPAIRED]
for i in range(0, len(R), 7):
    add('repairs %d' % (i // 7), 'C35', history, dict(last=R + ['malformed']), first=R[i:i + 7], last=['repaired ' + k for k in ('x', 'y', 'number', 'two', 'fence', 'hopeless')], mid=None)
for k in ('mi', 'mtext', 'fence', 'table', 'repaired x', 'arity'):
    add('many different ' + k, 'C35', distinct_history, dict(n=600), kind=k, n=140)
add('three', 'C35', history, dict(first=['mo', 'bold', 'fence', 'arity'], last=['mi', 'fence plain', 'table'], mid=['bold', 'table', 'valueless', 'arity', 'two']),
    first=['mi'], last=['mi', 'fence plain'], mid=['bold', 'table', 'valueless'])
for k in ('mi', 'bold', 'mo', 'mtext', 'fence', 'table', 'frac', 'valueless'):
    add('long ' + k, 'C35', long_history, dict(n=300), kind=k, n=40)

for k in ('mi', 'bold', 'fence', 'table', 'valueless', 'over', 'multi', 'two', 'frac', 'arity', 'toggle', 'comment'):
    add('atomic ' + k, 'C36', schedule, dict(second=ALLK), first=[k], second=['bold', 'fence', 'table', 'arity', 'valueless', 'two'], n=[200, 0])
ALIKE = [('fence', 'other fence'), ('matrix', 'other matrix'), ('multi', 'other multi'), ('toggle', 'other action'), ('words', 'italic text'), ('table', 'plain table'),
         ('box', 'div'), ('over', 'under'), ('frac', 'bevelled'), ('sub', 'subsup'), ('root', 'sqrt'), ('valueless', 'other valueless'), ('mo', 'mn'), ('limits', 'over'),
         ('comment', 'mi'), ('two', 'two'), ('bad fence', 'other fence'), ('bad script', 'sub'), ('error', 'phantom'), ('prefixed', 'unknown'), ('malformed', 'prefixed'), ('fence', 'matrix')]
for k, m in ALIKE:
    add('alike %s, %s' % (k, m), 'C36', schedule, first=[k], second=[m], n=[800, 0], fine=True)
    if k != m:
        add('alike %s, %s' % (m, k), 'C36', schedule, tier='thorough', first=[m], second=[k], n=[800, 0], fine=True)
for k, m in (('bold', 'mo'), ('mo', 'bold')):
    add('both %s %s' % (k, m), 'C36', schedule, first=[k], second=[m], n=[200, 200])
for k, m in (('frac', 'fence'), ('fence', 'bold'), ('table', 'mtext'), ('valueless', 'over')):
    add('both %s %s' % (k, m), 'C36', schedule, tier='thorough', first=[k], second=[m], n=[200, 200])


# C37 an element's rendering does not depend on where it stands
HOSTS = {
    'row': ('<mrow><mi>a</mi>', '<mi>b</mi></mrow>', 'a ', ' b'), 'first': ('<mrow>', '<mo>+</mo></mrow>', '', ' +'), 'last': ('<mrow><mn>1</mn>', '</mrow>', '1 ', ''),
    'style': ('<mstyle>', '</mstyle>', '', ''), 'sqrt': ('<msqrt>', '</msqrt>', '\\sqrt{', '}'), 'top': ('<mfrac>', '<mn>2</mn></mfrac>', '\\frac{', '}{2}'),
    'bottom': ('<mfrac><mn>2</mn>', '</mfrac>', '\\frac{2}{', '}'), 'sup': ('<msup><mn>2</mn>', '</msup>', '2^{', '}'), 'sub': ('<msub><mn>2</mn>', '</msub>', '2_{', '}'),
    'sup of two': ('<msubsup><mn>2</mn><mn>3</mn>', '</msubsup>', '2_{3}^{', '}'), 'base': ('<msup>', '<mn>2</mn></msup>', '', '^{2}'), 'index': ('<mroot><mn>2</mn>', '</mroot>', '\\sqrt[', ']{2}'),
    'radicand': ('<mroot>', '<mn>2</mn></mroot>', '\\sqrt[2]{', '}'), 'cell': ('<mtable><mtr><mtd><mn>1</mn></mtd><mtd>', '</mtd></mtr></mtable>', '1 & ', ''),
    'row of cells': ('<mtable><mtr><mtd><mn>1</mn></mtd></mtr><mtr><mtd>', '</mtd></mtr></mtable>', '1 \\\\ ', ''), 'over': ('<mover>', '<mn>2</mn></mover>', '\\overset{2}{', '}'),
    'under': ('<munder>', '<mn>2</mn></munder>', '\\underset{2}{', '}'), 'limits': ('<munderover><mn>1</mn><mn>2</mn>', '</munderover>', '1_{2}^{', '}'),
    'fenced': ('<mfenced><mn>1</mn>', '</mfenced>', '\\left(1,', '\\right)'), 'box': ('<menclose notation="box">', '</menclose>', '\\boxed{', '}'),
    'error': ('<merror>', '</merror>', '\\color{red}{', '}'), 'action': ('<maction actiontype="toggle"><mn>1</mn>', '</maction>', '1 \\Longrightarrow ', ''),
    'script': ('<mmultiscripts><mn>1</mn><mn>2</mn>', '</mmultiscripts>', '1_{2}^{', '}'), 'unknown': ('<semantics>', '<mn>2</mn></semantics>', '', ' 2'),
}


def nospace(h, s):
    if isinstance(s, str):
        return ''.join(s.split())
    from sx import strs
    return strs.mk([''.join(p.split()) if isinstance(p, str) else p.map(lambda t: ''.join(t.split())) if isinstance(p, strs.Choice) else p for p in strs.P(s)])


def inside(h, hosts, what, alpha, at):
    """An element inside a host is rendered as alone, at the place of the host's part."""
    c = h.char('c', alpha)
    x = WHAT[what]
    x = h.cat(x[0], h.escape(c), x[1])
    alone = h.ok(h.cat('<math>', x, '</math>'))
    h.assume(h.lnot(h.eq(alone, '')))
    n = h.pick('host', hosts)
    a, b, pre, post = HOSTS[n]
    r = h.ok(h.cat('<math>', a, x, b, '</math>'))
    h.check(h.eq(nospace(h, r), nospace(h, h.cat(pre, alone, post))), lambda f: '%s %r alone gives %r, as %s %r' % (what, f(x), f(alone), n, f(r)))


WHAT = {t: ('<%s>' % t, '</%s>' % t) for t in ('mi', 'mo', 'mn', 'mtext')}
WHAT['bold'] = ('<mi mathvariant="bold">', '</mi>')
WHAT['fraktur text'] = ('<mtext mathvariant="fraktur">', '</mtext>')
WHAT['frac'] = ('<mfrac><mi>', '</mi><mn>1</mn></mfrac>')
WHAT['sup'] = ('<msup><mi>x</mi><mi>', '</mi></msup>')
WHAT['root'] = ('<msqrt><mi>', '</mi></msqrt>')
WHAT['fence'] = ('<mfenced open="[" close=")"><mi>', '</mi><mn>1</mn></mfenced>')
WHAT['style'] = ('<mstyle><mi>', '</mi></mstyle>')
WHAT['hat'] = ('<mover><mi>', '</mi><mo>^</mo></mover>')


def siblings(h, kinds, alpha):
    """x y x: each sibling is rendered as alone."""
    a, b = h.char('a', alpha), h.char('b', alpha)
    k, m = h.pick('k', kinds), h.pick('m', kinds)
    x, y = [h.cat(WHAT[q][0], h.escape(c), WHAT[q][1]) for q, c in ((k, a), (m, b))]
    u, v = [h.ok(h.cat('<math>', q, '</math>')) for q in (x, y)]
    h.new_process()
    r = h.ok(h.cat('<math>', x, y, x, '</math>'))
    h.check(h.eq(nospace(h, r), nospace(h, h.cat(u, v, u))), lambda f: '%r gives %r, %r gives %r, together %r' % (f(x), f(u), f(y), f(v), f(r)))


def crowd(h, kinds, n, alpha, mix):
    """Many elements in one formula, each is rendered as alone."""
    k = h.pick('k', kinds)
    m = h.pick('n', n)
    c = h.char('c', alpha)
    w = h.pick('mix', mix)
    x = h.cat(*[h.escape(c) if q == 't' else q for q in KINDS[k]])
    o = '<mrow><mn>1</mn></mrow>'
    u = h.ok(h.cat('<math>', x, '</math>'))
    h.assume(h.lnot(h.eq(u, '')))
    h.new_process()
    xs = [x if w == 'all' or w == 'last' and i == m - 1 or w == 'turn' and i % 2 else o for i in range(m)]
    e = [u if q is x else '1' for q in xs]
    r = h.ok(h.cat('<math>', *xs, '</math>'))
    h.check(h.eq(nospace(h, r), nospace(h, h.cat(*e))), lambda f: '%r alone gives %r, %d of them %r' % (f(x), f(u), m, f(r)))


GOOD = [k for k in KINDS if k.split()[0] not in ('bad', 'arity', 'malformed', 'valueless', 'other', 'repaired', 'two', 'phantom')] + ['other fence', 'other matrix', 'other multi', 'other action']
for i in range(0, len(GOOD), 8):
    add('crowd %d' % (i // 8), 'C37', crowd, dict(n=[20, 70, 300], mix=['all', 'last', 'turn']), kinds=GOOD[i:i + 8], n=[130], alpha=ival.of_str('ab'), mix=['all', 'last'])
ANY = lib_nows()
for k in ('mi', 'mo', 'mn', 'mtext', 'bold', 'fraktur text'):
    add('inside ' + k, 'C37', inside, hosts=list(HOSTS), what=k, alpha=ANY, at=0)
for k in ('frac', 'root', 'fence', 'style', 'hat'):
    add('inside ' + k, 'C37', inside, dict(hosts=list(HOSTS), alpha=ANY), hosts=['row', 'sqrt', 'bottom', 'sup', 'cell', 'under', 'fenced'], what=k, alpha=TOKENS, at=0)
for k in ('mi', 'mo', 'mtext', 'bold', 'frac', 'hat'):
    add('siblings ' + k, 'C37', siblings, dict(kinds=list(WHAT)), kinds=[k, 'mi', 'mo'] if k not in ('mi', 'mo') else ['mi', 'mo', 'mn'], alpha=TOKENS)

SCENARIOS = S
BOUNDS = {
    'C33': 'one (thorough 2) arbitrary XML characters, or 3 (4) over 9 characters, in each token element; attribute values of up to 2 (3) arbitrary characters; every '
           'pair of element names with 0 to 3 children each; chains of 2 (3) elements over any character; 63 kinds of parts at 19 places, with token texts of any length',
    'C34': 'as C33',
    'C35': 'histories of two (some of three, of 40, thorough 300, and of 140, thorough 600, different) conversions of 59 document kinds, failing ones among them, with token texts over 12 characters, the first repeated and the last compared with a new process',
    'C36': 'two conversions in two threads of the same process; the first is left once, at any function entry (12 x 6 pairs of documents) or before any statement (22, thorough 43 '
           'pairs), the second runs to its end and the first continues; 2 (6) pairs where each thread is left once at any function entry',
    'C37': '24 places, an element of 12 kinds with any one-character text (12 characters in composed elements), three siblings, and 130 (20 to 300) elements of each of 32 kinds',
}

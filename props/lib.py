"""Document building and the reference rendering the structural checks compare against.

The reference is written from the statements in properties.jsonl; it sees trees, never documents, and
shares no code with the converter. It works on concrete and on symbolic text alike."""
import re
from sx import ival

ALNUM = ival.of_str('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
LETTERS = ival.of_str('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
WS = [chr(c) for c in range(0x110000) if not 0xD800 <= c < 0xE000 and chr(c).isspace()]
WSI = ival.of_str(''.join(WS))
XMLWS = ival.of_str(' \t\n\r')
SPECIAL = '\\{}_^~#$%&'


# attributes MathML gives its elements, and a few of HTML and XML
REAL = """accent accentunder actiontype align alignmentscope alttext altimg bevelled charalign charspacing class close columnalign columnlines
columnspacing columnspan columnwidth crossout decimalpoint definitionURL denomalign depth dir display displaystyle edge encoding equalcolumns
equalrows fence form frame framespacing groupalign height href id indentalign indentshift infixlinebreakstyle largeop leftoverhang length
linebreak lineleading linethickness location longdivstyle lquote rquote lspace rspace macros mathbackground mathcolor mathsize mathvariant
maxsize maxwidth minlabelspacing minsize mode movablelimits name notation numalign open other overflow position rowalign rowlines rowspacing
rowspan scriptlevel scriptminsize scriptsizemultiplier selection separator separators shift side src stackalign stretchy style subscriptshift
superscriptshift symmetric title valign value voffset width xml:lang xml:space xref fontfamily fontsize fontstyle fontweight color background
hidden type index order innerTable data-mjx-texclass""".split()


class N:
    """A MathML element: tag, attributes (list of pairs), children, or a text and its rendering."""
    def __init__(self, tag, *kids, at=(), text='', tex=None):
        self.tag = tag
        self.kids = list(kids)
        self.at = list(at.items()) if isinstance(at, dict) else list(at)
        self.text = text
        self.tex = tex

    def attr(self, k, d=''):
        for a, v in self.at:
            if a == k:
                return v
        return d


DECOR = {'id': (' id="p"', ''), 'many': (' class="a b" xml:lang="en" style="x:y"', ''), 'layout': ('\n', '\n  '), 'comment': ('', '<!-- c -->')}


def xml(h, n, decor=''):
    """The document text of a tree; decor adds what must not matter to every element."""
    more, gap = DECOR.get(decor, ('', ''))
    at = [h.cat(' ', k, '="', v, '"') for k, v in n.at]
    if n.kids:
        body = [gap] + [q for k in n.kids for q in (xml(h, k, decor), gap)]
    else:
        body = [n.text] if n.text != '' else [gap]
    if decor == 'id' and n.tag in ('none', 'mprescripts', 'mspace') and not n.kids:
        return h.cat('<', n.tag, more, *at, '/>')
    return h.cat('<', n.tag, more, *at, '>', *body, '</', n.tag, '>')


def math(h, *ns, decor=''):
    gap = DECOR.get(decor, ('', ''))[1]
    return h.cat('<math>', gap, *[q for n in ns for q in (xml(h, n, decor), gap)], '</math>')


def mn(h, name):
    """A number token with any text of ASCII letters and digits, of any length from 1 up."""
    v = h.hole(name, ALNUM)
    return N('mn', text=v, tex=v)


def tok(text, tag='mn', tex=None):
    return N(tag, text=text, tex=text if tex is None else tex)


def norm(h, s):
    """Collapse white space runs, trim the ends. Symbolic characters are taken as not white space."""
    if isinstance(s, str):
        return ' '.join(s.split())
    from sx import strs
    out = []
    pend = False
    for p in strs.P(s):
        if not isinstance(p, str):
            if pend and out:
                out.append(' ')
            pend = False
            out.append(p)
            continue
        for m in re.finditer(r'\s+|\S+', p):
            t = m.group()
            if t.isspace():
                pend = True
            else:
                if pend and out:
                    out.append(' ')
                pend = False
                out.append(t)
    return strs.mk(out)


def more_than_one(h, t):
    return h.decide(h.length(t) > 1) if not isinstance(t, str) else len(t) > 1


def paren(h, t):
    return h.cat('\\left(', t, '\\right)')


def group_base(h, n):
    t = ref(h, n)
    if len(n.kids) > 1 and more_than_one(h, t):
        return paren(h, t)
    return t


ACCENTS = ('\\hat', '\\bar', '\\underbrace', '\\overbrace')
BOX = {'box': '\\boxed', 'roundedbox': '\\boxed', 'circle': '\\boxed', 'radical': '\\sqrt', 'top': '\\overline',
       'bottom': '\\underline', 'updiagonalstrike': '\\cancel', 'downdiagonalstrike': '\\bcancel',
       'updiagonalarrow': '\\cancelto{}', 'verticalstrike': '\\hcancel', 'horizontalstrike': '\\hcancel'}
ENV = {('(', ')'): 'pmatrix', ('[', ']'): 'bmatrix', ('{', '}'): 'Bmatrix', ('|', '|'): 'vmatrix', ('||', '||'): 'Vmatrix'}


def has_table(n):
    return any(k.tag == 'mtable' or has_table(k) for k in n.kids)


def under_over(h, base, acc, cmd):
    if acc in ACCENTS:
        return h.cat(acc, '{', base, '}')
    return h.cat(cmd, '{', acc, '}{', base, '}')


def pairs(l):
    return [(l[i], l[i + 1] if i + 1 < len(l) else '') for i in range(0, len(l), 2)]


def ref(h, n, inner=False):
    """The LaTeX of a tree, before white space is collapsed."""
    if n.tex is not None:
        return n.tex
    t = n.tag
    inside = inner or t == 'mtable'
    k = [ref(h, c, inside) for c in n.kids]
    row = lambda: h.join(' ', k)
    if t in ('mi', 'mn', 'mo', 'mtext', 'mphantom'):
        return ''
    if t == 'mfrac':
        if n.attr('bevelled') not in ('', 'false', 'bevelled'):
            f = lambda x: paren(h, x) if more_than_one(h, x) else x
            return h.cat(f(k[0]), '/', f(k[1]))
        return h.cat('\\frac{', k[0], '}{', k[1], '}')
    if t == 'msqrt':
        return h.cat('\\sqrt{', row(), '}')
    if t == 'mroot':
        return h.cat('\\sqrt[', k[1], ']{', k[0], '}')
    if t in ('msup', 'msub', 'msubsup'):
        b = k[0]
        if len(n.kids[0].kids) > 1 and more_than_one(h, b):
            b = paren(h, b)
        if t == 'msup':
            return h.cat(b, '^{', k[1], '}')
        if t == 'msub':
            return h.cat(b, '_{', k[1], '}')
        return h.cat(b, '_{', k[1], '}^{', k[2], '}')
    if t == 'munder':
        return under_over(h, k[0], k[1], '\\underset')
    if t == 'mover':
        return under_over(h, k[0], k[1], '\\overset')
    if t == 'munderover':
        return h.cat(k[0], '_{', k[1], '}^{', k[2], '}')
    if t == 'mmultiscripts':
        tags = [c.tag for c in n.kids[1:]]
        i = tags.index('mprescripts') if 'mprescripts' in tags else len(tags)
        post, pre = k[1:1 + i], k[2 + i:]
        b = k[0]
        if spaced(b):
            b = paren(h, b)
        return h.cat(*[h.cat('\\_{', a, '}^{', c, '}') for a, c in pairs(pre)], b,
                     h.join('{}', [h.cat('_{', a, '}^{', c, '}') for a, c in pairs(post)]))
    if t == 'maction':
        if n.attr('actiontype') in ('', 'toggle'):
            return h.join(' \\Longrightarrow ', k)
        return k[0]
    if t == 'merror':
        return h.cat('\\color{red}{', row(), '}')
    if t == 'menclose':
        a = n.attr('notation', 'longdiv')
        if a in BOX:
            return h.cat(BOX[a], '{', row(), '}')
        if a == 'actuarial':
            return h.cat('\\overline{\\left.', row(), '\\right|}')
        if a == 'left':
            return h.cat('\\left|', row())
        if a == 'right':
            return h.cat(row(), '\\right|')
        if a == 'madruwb':
            return h.cat('\\underline{', row(), '\\right|}')
        if a == 'phasorangle':
            return h.cat('{\\angle \\underline{', row(), '}}')
        return h.cat('\\overline{\\left.\\right)', row(), '}')
    if t == 'mtable':
        body = h.join(' \\\\ ', k)
        return h.cat('\\begin{matrix}', body, '\\end{matrix}') if inner else body
    if t == 'mtr':
        return h.join(' & ', k)
    if t == 'mfenced':
        o, c = n.attr('open'), n.attr('close')
        o = '' if o == 'open' else o
        c = '' if c == 'close' else c
        if has_table(n):
            env = ENV.get((o, c)) or ('bmatrix' if o == c else 'matrix')
            m = h.cat('\\begin{', env, '} ', *k, ' \\end{', env, '}')
            return h.cat('\\left', o, m, '\\right', c) if env == 'matrix' else m
        seps = n.attr('separators')
        out = []
        for i, x in enumerate(k):
            if i:
                out.append(seps[min(i, len(seps)) - 1] if seps else ',')
            out.append(x)
        return h.cat('\\left', o or '(', *out, '\\right', c or ')')
    return row()


def spaced(s):
    """White space in a rendering (symbolic characters are not white space)."""
    if isinstance(s, str):
        return any(c.isspace() for c in s)
    from sx import strs
    return any(isinstance(p, str) and any(c.isspace() for c in p) for p in strs.P(s))


def expect(h, *ns):
    return norm(h, h.join(' ', [ref(h, n) for n in ns]))


def check_tree(h, *ns, what='rendering', decor='', **kw):
    """Convert the document of the trees and compare with the reference."""
    x = math(h, *ns, decor=decor)
    r = h.run(x)
    if not r.ok:
        h.check(False, lambda f: '%s: %s: %s for %s' % (what, r.kind, f(r.msg), f(x)))
        return
    e = expect(h, *ns)
    h.check(h.eq(r.value, e), lambda f: '%s of %s: got %r, expected %r' % (what, f(x), f(r.value), f(e)), **kw)


# -- child shapes -----------------------------------------------------------------------------------
def shape(h, name, kinds):
    """A subtree of one of the given kinds, chosen by a symbolic index."""
    k = h.pick(name + '.kind', kinds)
    return SHAPES[k](h, name)


def _two(tag):
    return lambda h, n: N(tag, mn(h, n + '.1'), mn(h, n + '.2'))


SHAPES = {
    'num': lambda h, n: mn(h, n),
    'row': _two('mrow'),
    'row1': lambda h, n: N('mrow', mn(h, n)),
    'frac': _two('mfrac'),
    'sup': _two('msup'),
    'sub': _two('msub'),
    'root': _two('mroot'),
    'sqrt': lambda h, n: N('msqrt', mn(h, n)),
    'over': _two('mover'),
    'fence': _two('mfenced'),
    'empty': lambda h, n: N('mrow'),
    'none': lambda h, n: N('none'),
    'space': lambda h, n: N('mspace', at={'width': '1em'}),
    'phantom': lambda h, n: N('mphantom', mn(h, n)),
    'unknown': _two('semantics'),
    'text': lambda h, n: (lambda v: N('mtext', text=v, tex=h.cat('\\text{', v, '}')))(h.text(n, ALNUM, 2, 2)),
    'op': lambda h, n: N('mo', text='+', tex='+'),
    'sum': lambda h, n: N('mo', text='\u2211', tex='\\sum'),
    'let': lambda h, n: N('mi', text='x', tex='x'),
    'alpha': lambda h, n: N('mi', text='\u03b1', tex='\\alpha'),
    'bold': lambda h, n: N('mi', at={'mathvariant': 'bold'}, text='v', tex='\\mathbf{v}'),
    'err': lambda h, n: N('merror', mn(h, n)),
    'box': lambda h, n: N('menclose', mn(h, n), at={'notation': 'box'}),
    'table': lambda h, n: N('mtable', N('mtr', N('mtd', mn(h, n + '.1')), N('mtd', mn(h, n + '.2')))),
    'sub3': lambda h, n: N('msubsup', mn(h, n + '.1'), mn(h, n + '.2'), mn(h, n + '.3')),
}
# pairs and triples of the same construct, and parts whose LaTeX begins or ends in an unusual way
RICH = {
    'row3': lambda h, n: N('mrow', *[mn(h, '%s.%d' % (n, i)) for i in range(3)]),
    'sum of two': lambda h, n: N('mrow', N('mi', text='a', tex='a'), N('mo', text='+', tex='+'), mn(h, n)),
    'group in group': lambda h, n: N('mrow', N('mrow', mn(h, n + '.1'), mn(h, n + '.2'))),
    'row12': lambda h, n: N('mrow', *[N('mn', text=str(i), tex=str(i)) for i in range(12)]),
    'two angles': lambda h, n: N('mrow', *[N('menclose', mn(h, '%s.%d' % (n, i)), at={'notation': 'phasorangle'}) for i in range(2)]),
    'two fences': lambda h, n: N('mrow', *[N('mfenced', mn(h, '%s.%d' % (n, i))) for i in range(2)]),
    'two fracs': lambda h, n: N('mrow', *[N('mfrac', mn(h, '%s.%d' % (n, i)), N('mn', text='2', tex='2')) for i in range(2)]),
    'two roots': lambda h, n: N('mrow', *[N('msqrt', mn(h, '%s.%d' % (n, i))) for i in range(2)]),
    'two texts': lambda h, n: N('mrow', *[N('mtext', text=q, tex='\\text{%s}' % q) for q in 'ab']),
    'blank text': lambda h, n: N('mtext', text='a b', tex='\\text{a b}'),
    'angle': lambda h, n: N('menclose', mn(h, n), at={'notation': 'phasorangle'}),
    'left': lambda h, n: N('menclose', mn(h, n), at={'notation': 'left'}),
    'right': lambda h, n: N('menclose', mn(h, n), at={'notation': 'right'}),
    'division': lambda h, n: N('menclose', mn(h, n)),
    'a acute': lambda h, n: N('mi', text='\u00e1', tex='\\acute{a}'),
    'a bar': lambda h, n: N('mi', text='\u0101', tex='\\bar{a}'),
    'a hat': lambda h, n: N('mi', text='\u00e2', tex='\\hat{a}'),
    'hatted': lambda h, n: N('mover', mn(h, n), N('mo', text='^', tex='\\hat')),
    'braced': lambda h, n: N('munder', mn(h, n), N('mo', text='\u23df', tex='\\underbrace')),
    'hat': lambda h, n: N('mo', text='^', tex='\\hat'),
    'open': lambda h, n: N('mo', text='\u27e8', tex='\\langle'),
    'minus': lambda h, n: N('mo', text='-', tex='-'),
    'prime': lambda h, n: N('mo', text="'", tex="'"),
    'integral': lambda h, n: N('mo', text='\u222b', tex='\\int'),
    'arrow': lambda h, n: N('mo', text='\u2192', tex='\\rightarrow'),
    'sin': lambda h, n: N('mi', text='sin', tex='sin'),
    'decimal': lambda h, n: N('mn', text='-3.14', tex='-3.14'),
    'brace': lambda h, n: N('mi', text='{', tex='\\{'),
    'braces': lambda h, n: N('mi', text='{x}', tex='\\{x\\}'),
    'half': lambda h, n: N('mn', text='\u00bd', tex='\\dfrac{1}{2}'),
    'bevelled': lambda h, n: N('mfrac', mn(h, n + '.1'), mn(h, n + '.2'), at={'bevelled': 'true'}),
    'limits': lambda h, n: N('munderover', N('mo', text='\u2211', tex='\\sum'), mn(h, n + '.1'), mn(h, n + '.2')),
    'multi': lambda h, n: N('mmultiscripts', mn(h, n + '.1'), mn(h, n + '.2'), N('none'), N('mprescripts'), N('none'), mn(h, n + '.3')),
    'choice': lambda h, n: N('maction', mn(h, n + '.1'), mn(h, n + '.2')),
    'matrix': lambda h, n: N('mfenced', N('mtable', N('mtr', N('mtd', mn(h, n + '.1')), N('mtd', mn(h, n + '.2')))), at={'open': '[', 'close': ']'}),
    'empty fence': lambda h, n: N('mfenced'),
    'empty text': lambda h, n: N('mtext', text='', tex=''),
    'empty row of rows': lambda h, n: N('mrow', N('mrow'), N('mspace')),
    'gap row': lambda h, n: N('mrow', N('none'), mn(h, n)),
    'row gap': lambda h, n: N('mrow', mn(h, n), N('mphantom', mn(h, n + '.p'))),
}
SHAPES.update(RICH)
PLACES = {
    'row': lambda h, n, x: N('mrow', mn(h, n), x, mn(h, n + "'")), 'style': lambda h, n, x: N('mstyle', x), 'unknown': lambda h, n, x: N('foo', x),
    'top': lambda h, n, x: N('mfrac', x, mn(h, n)), 'bottom': lambda h, n, x: N('mfrac', mn(h, n), x), 'sup': lambda h, n, x: N('msup', mn(h, n), x),
    'base': lambda h, n, x: N('msub', x, mn(h, n)), 'sqrt': lambda h, n, x: N('msqrt', x), 'index': lambda h, n, x: N('mroot', mn(h, n), x),
    'fence': lambda h, n, x: N('mfenced', mn(h, n), x), 'cell': lambda h, n, x: N('mtable', N('mtr', N('mtd', mn(h, n)), N('mtd', x))),
    'limit': lambda h, n, x: N('munderover', mn(h, n), x, mn(h, n + "'")), 'under': lambda h, n, x: N('munder', mn(h, n), x), 'box': lambda h, n, x: N('menclose', x, at={'notation': 'box'}),
    'error': lambda h, n, x: N('merror', x), 'action': lambda h, n, x: N('maction', x, at={'actiontype': 'tooltip'}),
    'script': lambda h, n, x: N('mmultiscripts', mn(h, n), mn(h, n + "'"), x), 'math': lambda h, n, x: N('math', x), 'pad': lambda h, n, x: N('mpadded', x, mn(h, n)),
    'prescript': lambda h, n, x: N('mmultiscripts', mn(h, n), N('mprescripts'), mn(h, n + "'"), x),
}

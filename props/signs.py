"""C38-C41: what the LaTeX of single characters is made of."""
import re
import unicodedata as U
from sx import ival
from . import symbols
from .symbols import chars, related, conv
from .text import TOK, NOWS, doc

S = {}


def add(*a, **k):
    old, symbols.S = symbols.S, S
    try:
        symbols.add(*a, **k)
    finally:
        symbols.S = old


def own_text(q, t):
    return t == q or t == '\\text{%s}' % q


# C38 composite signs: words of the Unicode name that say what the sign is built on, and how LaTeX writes that
FAMILY = [
    (r'\bINTEGRA(L|TION)\b(?!.*EXTENSION)|CIRCULATION', r'int\b'),
    (r'^(?!.*INTEGRAL).*(\bUNION\b|\bMULTISET\b)', r'cup\b|uplus'),
    (r'^(?!.*SQUARE)(?!.*INTEGRAL).*\bINTERSECTION\b', r'cap\b|pitchfork'),
    (r'LOGICAL AND\b|\bNAND\b', r'wedge|\\land\b'),
    (r'LOGICAL OR\b|\bXOR\b|SMALL VEE', r'vee|\\lor\b'),
    (r'^PLUS SIGN (?!IN)|CIRCLED PLUS|^PLUS-MINUS', r'\+|plus|pm\b'),
    (r'\bELEMENT OF\b', r'\\n?(ot)?in\b'),
    (r'\bCONTAINS (WITH|AS MEMBER)|\bCONTAIN AS MEMBER', r'\\ni\b'),
    (r'EMPTY SET', r'varnothing|emptyset'),
    (r'^MEASURED .*ANGLE|SPHERICAL ANGLE$', r'angle'),
    (r'MULTIPLICATION SIGN|N-ARY TIMES OPERATOR|CROSS PRODUCT', r'times'),
    (r'\bSQUARED (?!COS|SIN)|^(WHITE|BLACK) .*SQUARE$', r'box|square|Box'),
    (r'^IDENTICAL|NOT IDENTICAL', r'equiv'),
    (r'ALMOST EQUAL TO$|APPROXIMATE', r'approx|cong|doteq|sim'),
    (r'^EQUALS? SIGN|^EQUALS|EQUALS SIGN$', r'=|eq'),
    (r'\bTRIANGLE\b', r'tri(angle)?'),
    (r'BOWTIE|\bJOIN\b', r'bowtie|Join'),
    (r'^(?!LATIN|GREEK|CYRILLIC).*WITH DOT ABOVE', r'\\dot\{'),
    (r'WITH OVERBAR', r'\\overline'),
    (r'WITH UNDERBAR', r'\\underline'),
    (r'(MINUS|PLUS|MULTIPLICATION|TO).*CIRCUMFLEX', r'hat|wedge'),
    (r'CIRCLED (PLUS|MINUS|TIMES|DIVISION|DOT|DASH|EQUALS|ASTERISK)', r'\\(big)?o(plus|minus|times|slash|dot)'),
    (r'TILDE OPERATOR|TILDE EQUALS|TRIPLE TILDE', r'sim|approx'),
    (r'TURNSTILE|FORCES?$|\bTACK\b', r'[dD]ash|bot|top|perp|models'),
    (r'LOZENGE$', r'lozenge'),
    (r'\bCHECK MARK', r'checkmark'),
    (r'ELLIPSIS$', r'dots'),
]
SHOWN = {}
for q in chars():
    n = U.name(q, '')
    if 0x2100 <= ord(q) < 0x2C00 and not re.match(r'(COMBINING|MATHEMATICAL |BOX |APL )', n):
        w = [b for a, b in FAMILY if re.search(a, n)]
        if w:
            SHOWN[q] = w


def shows(q, t):
    return own_text(q, t) or all(re.search(b, t) for b in SHOWN[q])


def signs(h, tag, table):
    c = h.char('c', ival.of_str(''.join(table)))
    r = conv(h, tag, c)
    k = [('sign-%s-29a8' % tag, h.land(h.eq(c, '\u29a8'), h.eq(r, '\\llbracket')))] if tag != 'mo' else []
    h.check(h.rel(c, r, shows), lambda f: 'composite sign: %s of %r (%s) gives %r' % (tag, f(c), U.name(f(c)), f(r)), known=k)


# "A ABOVE B": the parts, one over the other
PART = {'LESS-THAN': ('<', r'\\leqq?', r'\\lesssim'), 'GREATER-THAN': ('>', r'\\geqq?', r'\\gtrsim'), 'LEFTWARDS ARROW': (r'\\leftarrow',), 'RIGHTWARDS ARROW': (r'\\rightarrow',),
        'TILDE OPERATOR': (r'\\sim',), 'SUBSET': (r'\\subset',), 'SUPERSET': (r'\\supset',), 'SUBSET OF': (r'\\subset',), 'SUPERSET OF': (r'\\supset',),
        'ALMOST EQUAL TO': (r'\\approx',), 'NOT EQUAL TO': (r'\\neq?', r'\\cancel\{=\}'), 'EQUALS SIGN': ('=',), 'PLUS SIGN': (r'\+',), 'PRECEDES': (r'\\prec',),
        'SUCCEEDS': (r'\\succ',), 'NOT ALMOST EQUAL TO': (r'\\cancel\{\\approx\}', r'\\not\\approx'), 'SIMILAR OR EQUAL': (r'\\simeq',)}
STACK = {}
for q in chars():
    w = U.name(q, '').split(' ABOVE ')
    if len(w) == 2 and w[0] in PART and w[1] in PART and ord(q) < 0x2C00:
        a, b = ('(%s)' % '|'.join(PART[x]) for x in w)
        STACK[q] = re.compile(r'\\underset\{%s\}\{%s\}|\\overset\{%s\}\{%s\}|\\(sub|sup)seteqq|\\[lg]eqq?' % (b, a, a, b))


def stacked(q, t):
    return own_text(q, t) or bool(STACK[q].fullmatch(t))


for t in ('mi', 'mo', 'mtext'):
    add('signs ' + t, 'C38', signs, tag=t, table=SHOWN)
    add('stacks ' + t, 'C38', related, tag=t, table=STACK, ok=stacked, what='stacked sign')

# C39 brackets
OPEN = r'\(|\[|\\\{|\\l(angle|ceil|floor|lbracket|lcorner)\b|\\ll\b|\\triangleleft|\\llbracket|\\ulcorner|\\lbrace'
CLOSE = r'\)|\]|\\\}|\\r(angle|ceil|floor|rbracket)\b|\\gg\b|\\triangleright|\\rrbracket|\\[ul]rcorner|\\rbrace'
BR = {}
for q in chars():
    c = U.category(q)
    if c in ('Ps', 'Pe') and U.mirrored(q) and not re.search('ARC (LESS|GREATER)', U.name(q)):
        BR[q] = 'open' if c == 'Ps' else 'close'


def faces(q, t):
    if own_text(q, t):
        return True
    t = re.sub(r'\\(left|right)\s*(?=[(\[\])])', '', t)
    t = re.sub(r'\\(left|right)\s*\.', '', t)
    o, c = re.search(OPEN, t), re.search(CLOSE, t)
    return bool(o) and not c if BR[q] == 'open' else bool(c) and not o


SWITCH = {'mo': {'\u27e6': '\\(|', '\u27e7': '\\)|', '\u2987': '\\(|', '\u2988': '|\\)', '\u3017': '\\)|'}}


def no_switch(h, tag, alpha):
    """Nothing but text and commands of math mode comes out: no \\( \\) \\[ \\] and no $ that is not escaped."""
    c = h.char('c', alpha)
    r = conv(h, tag, c)

    def step(s, q):
        if s == 'bad':
            return s
        if s == '\\':
            return 'bad' if q in '()[]' else ''
        return 'bad' if q == '$' else '\\' if q == '\\' else ''
    ok = h.scan(r, '', step, CLASSES, lambda s: s == '')
    k = [('switch-%04x' % ord(q), h.land(h.eq(c, q), h.eq(r, w))) for q, w in SWITCH.get(tag, {}).items()]
    h.check(ok, lambda f: '%s of %r (U+%04X) switches modes or ends in a backslash: %r' % (tag, f(c), ord(f(c)), f(r)), known=k)


CLASSES = [(q, ival.of_str(q)) for q in '\\()[]$'] + [('a', ival.minus(((0, 0x10FFFF),), ival.of_str('\\()[]$')))]
for t in ('mi', 'mo', 'mtext'):
    add('facing ' + t, 'C39', related, tag=t, table=BR, ok=faces, what='bracket')
for t in TOK:
    add('switch ' + t, 'C39', no_switch, tag=t, alpha=NOWS)


# C40 commands that exist
COMMANDS = set('''
alpha beta gamma delta epsilon varepsilon zeta eta theta vartheta iota kappa lambda mu nu xi pi varpi rho varrho sigma varsigma tau upsilon phi varphi chi psi omega
Gamma Delta Theta Lambda Xi Pi Sigma Upsilon Phi Psi Omega digamma varkappa aleph beth gimel daleth hbar hslash imath jmath ell wp Re Im mho eth Finv Game Bbbk
pm mp times div ast star circ bullet cdot cap cup uplus sqcap sqcup vee lor wedge land setminus smallsetminus wr diamond bigtriangleup bigtriangledown triangleleft triangleright
lhd rhd unlhd unrhd oplus ominus otimes oslash odot bigcirc dagger ddagger amalg dotplus Cap Cup barwedge veebar doublebarwedge boxminus boxtimes boxdot boxplus divideontimes
ltimes rtimes leftthreetimes rightthreetimes curlywedge curlyvee circleddash circledast circledcirc centerdot intercal
leq le geq ge equiv models prec succ sim perp preceq succeq simeq mid ll gg asymp parallel subset supset approx bowtie subseteq supseteq cong Join sqsubset sqsupset neq ne
smile sqsubseteq sqsupseteq doteq frown in ni owns notin propto vdash dashv leqq geqq leqslant geqslant eqslantless eqslantgtr lesssim gtrsim lessapprox gtrapprox approxeq lessdot
gtrdot lll ggg lessgtr gtrless lesseqgtr gtreqless lesseqqgtr gtreqqless doteqdot risingdotseq fallingdotseq eqcirc circeq triangleq bumpeq Bumpeq thicksim thickapprox backsim
backsimeq subseteqq supseteqq Subset Supset preccurlyeq succcurlyeq curlyeqprec curlyeqsucc precsim succsim precapprox succapprox vartriangleleft vartriangleright trianglelefteq
trianglerighteq vDash Vdash Vvdash smallsmile smallfrown shortmid shortparallel between pitchfork varpropto backepsilon blacktriangleleft blacktriangleright therefore because
nless ngtr nleq ngeq nleqslant ngeqslant nleqq ngeqq lneq gneq lneqq gneqq lvertneqq gvertneqq lnsim gnsim lnapprox gnapprox nprec nsucc npreceq nsucceq precneqq succneqq precnsim
succnsim precnapprox succnapprox nsim ncong nshortmid nshortparallel nmid nparallel nvdash nvDash nVdash nVDash ntriangleleft ntriangleright ntrianglelefteq ntrianglerighteq
nsubseteq nsupseteq nsubseteqq nsupseteqq subsetneq supsetneq varsubsetneq varsupsetneq subsetneqq supsetneqq varsubsetneqq varsupsetneqq sqsubsetneq sqsupsetneq
leftarrow gets rightarrow to Leftarrow Rightarrow leftrightarrow Leftrightarrow iff mapsto hookleftarrow leftharpoonup leftharpoondown rightleftharpoons longleftarrow Longleftarrow
longrightarrow Longrightarrow longleftrightarrow Longleftrightarrow longmapsto hookrightarrow rightharpoonup rightharpoondown leadsto uparrow Uparrow downarrow Downarrow
updownarrow Updownarrow nearrow searrow swarrow nwarrow dashrightarrow dashleftarrow leftleftarrows leftrightarrows Lleftarrow twoheadleftarrow leftarrowtail looparrowleft
leftrightharpoons curvearrowleft circlearrowleft Lsh upuparrows upharpoonleft downharpoonleft multimap leftrightsquigarrow rightrightarrows rightleftarrows Rrightarrow
twoheadrightarrow rightarrowtail looparrowright curvearrowright circlearrowright Rsh downdownarrows upharpoonright restriction downharpoonright rightsquigarrow
nleftarrow nrightarrow nLeftarrow nRightarrow nleftrightarrow nLeftrightarrow
ldots cdots vdots ddots dots hdots forall exists nexists neg lnot top bot emptyset varnothing infty nabla partial prime angle measuredangle sphericalangle backslash surd
Box square blacksquare Diamond triangle triangledown blacktriangle blacktriangledown lozenge blacklozenge clubsuit diamondsuit heartsuit spadesuit bigstar flat natural sharp
complement diagup diagdown checkmark circledR circledS maltese yen pounds ss
sum prod coprod int oint iint iiint iiiint oiint oiiint idotsint bigcap bigcup bigsqcup bigvee bigwedge bigodot bigotimes bigoplus biguplus
hat check breve acute grave tilde bar vec dot ddot dddot ddddot mathring widehat widetilde overline underline overbrace underbrace overrightarrow overleftarrow
sqrt frac dfrac tfrac text textbf textit textrm textsf texttt textcircled textdegree mathbb mathbf mathcal mathfrak mathit mathrm mathscr mathsf mathtt boldsymbol
overset underset stackrel not cancel bcancel xcancel hcancel boxed left right langle rangle lceil rceil lfloor rfloor llbracket rrbracket ulcorner urcorner llcorner lrcorner lbrace rbrace
vert Vert lvert rvert lVert rVert textdir sin cos tan log ln exp lim max min sup inf det gcd arg dim ker deg hom Pr sec csc cot sinh cosh tanh coth arcsin arccos arctan liminf limsup
bmod pmod mod quad qquad displaystyle color
'''.split())
LETTERS = ''.join(chr(c) for c in list(range(65, 91)) + list(range(97, 123)))
ODDC = {'circle': '\u25cf\u25d6\u25d7\u25e6\u29c0\u29c1', 'cent': '\u00a2', 'euro': '\u20ac'}


def exists(q, t):
    return own_text(q, t) or set(re.findall(r'\\([A-Za-z]+)', t)) <= COMMANDS


def commands(h, tag, alpha):
    """Every command that a character becomes is one that LaTeX or its usual packages define."""
    c = h.char('c', alpha)
    r = conv(h, tag, c)
    k = [('nocommand-%s-%s' % (n, tag), h.land(h.within(c, ival.of_str(w)), h.eq(r, '\\' + n))) for n, w in ODDC.items()]
    h.check(h.rel(c, r, exists), lambda f: '%s of %r (%s) gives %r, which LaTeX does not know' % (tag, f(c), U.name(f(c), '?'), f(r)), known=k)


ASC = ival.of_str(''.join(chr(c) for c in range(33, 127)))
for t in TOK:
    add('commands ' + t, 'C40', commands, tag=t, alpha=ival.minus(NOWS, ASC))


def commands_ascii(h, tag, alpha):
    c = h.char('c', alpha)
    r = h.ok(doc(h, tag, h.escape(c)))
    h.check(h.rel(c, r, exists), lambda f: '%s of %r gives %r' % (tag, f(c), f(r)))


for t in TOK:
    add('commands ascii ' + t, 'C40', commands_ascii, tag=t, alpha=ASC)


# arguments: accents, fonts and fractions of a character's LaTeX have the arguments they need
ARITY = dict.fromkeys('acute bcancel boxed breve cancel check ddot dot grave hcancel mathbb mathbf mathcal mathfrak mathit mathring mathrm mathsf mathtt text textcircled tilde vec'.split(), 1)
ARITY.update(dfrac=2, frac=2, overset=2, underset=2)


def complete(q, t):
    for m in re.finditer(r'\\([A-Za-z]+)', t):
        n = ARITY.get(m.group(1), 0)
        rest = t[m.end():]
        for _ in range(n):
            a = re.match(r'\{([^{}]|\\[{}]|\{([^{}]|\{[^{}]*\})*\})+\}', rest)
            if not a:
                return False
            rest = rest[a.end():]
    return True


def arguments(h, tag, alpha):
    """A command of a character that needs arguments is followed by them, and they are not empty."""
    c = h.char('c', alpha)
    r = conv(h, tag, c)
    h.check(h.rel(c, r, complete), lambda f: '%s of %r (%s) gives %r, which lacks an argument' % (tag, f(c), U.name(f(c), '?'), f(r)))


for t in TOK:
    add('arguments ' + t, 'C40', arguments, tag=t, alpha=ival.minus(NOWS, ASC))


# C41 invisible characters
INVISIBLE = {q: '' for q in chars() if U.category(q) == 'Cf' and 0x2000 <= ord(q) < 0x3000 or q in '\u00ad\ufeff'}
SPACES = {q: '' for q in chars() if U.category(q) in ('Zs', 'Zl', 'Zp')}
SHOWN_DIR = '\u200e\u202c'


def hidden(q, t):
    """Nothing visible comes out; direction marks may become a direction command."""
    return t in (q, '', '\\text{%s}' % q) or q in SHOWN_DIR and bool(re.fullmatch(r'\\text\{\\textdir (TRT|TLT|LTR|RTL)\}', t)) or bool(re.fullmatch(r'(\\[,;:! ]|~|\s|\\text\{\s*\}|\{\})*', t))


for t in TOK:
    add('invisible ' + t, 'C41', related, tag=t, table=INVISIBLE, ok=hidden, what='invisible character')
    add('spaces ' + t, 'C41', related, tag=t, table=SPACES, ok=hidden, what='space character')

SCENARIOS = S
BOUNDS = {
    'C38': '%d composite signs and %d stacks of two signs, as the whole text of mi, mo and mtext' % (len(SHOWN), len(STACK)),
    'C39': '%d brackets of mi, mo and mtext; for mode switches every single XML character in each token element' % len(BR),
    'C40': 'every single XML character in each token element',
    'C41': 'each of %d format characters and %d space characters as the whole text of each token element' % (len(INVISIBLE), len(SPACES)),
}

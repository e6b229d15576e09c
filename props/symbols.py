"""C26-C32: single characters. The expectations come from the Unicode character database and from the LaTeX
command names, not from the converter's tables."""
import functools
import re
import unicodedata
from sx import ival
from .text import doc, TOK, NOWS, VARIANT

S = {}
U = unicodedata


def add(name, pid, fn, thorough=None, /, tier=None, **params):
    # tables and predicates stay in this module; a recorded counterexample only names the scenario
    own = {k: v for k, v in params.items() if callable(v) or isinstance(v, dict)}
    if own:
        fn = functools.partial(fn, **own)
        params = {k: v for k, v in params.items() if k not in own}
    if name in S:
        name = '%s %s' % (pid, name)
    assert name not in S, name
    if name in S:
        name = '%s %s' % (pid, name)
    assert name not in S, name
    S[name] = dict(property=pid, fn=fn, params=params, thorough=thorough or {})
    if tier:
        S[name]['tier'] = tier


def chars():
    return (chr(c) for c in range(0x80, 0x110000) if not 0xD800 <= c < 0xE000)


def conv(h, tag, c):
    return h.ok(doc(h, tag, h.escape(c)))


def one(h, tag, table, name='c'):
    """Every character of the table is rendered as the table says (a set lists accepted renderings)."""
    c = h.char(name, ival.of_str(''.join(table)))
    r = conv(h, tag, c)
    ok = lambda q, t: t in table[q] if isinstance(table[q], (set, frozenset, tuple, list)) else t == table[q]
    h.check(h.rel(c, r, ok), lambda f: '%s of %r (%s): got %r, expected %r' % (tag, f(c), U.name(f(c), '?'), f(r), table[f(c)]))


def related(h, tag, table, ok, what):
    """ok(character, rendering) for every character of the table."""
    c = h.char('c', ival.of_str(''.join(table)))
    r = conv(h, tag, c)
    h.check(h.rel(c, r, ok), lambda f: '%s: %s of %r (%s) gives %r' % (what, tag, f(c), U.name(f(c), '?'), f(r)))


# C26 styled alphabets
STYLE = {'BOLD': 'mathbf', 'ITALIC': 'mathit', 'SCRIPT': 'mathcal', 'FRAKTUR': 'mathfrak', 'BLACK-LETTER': 'mathfrak',
         'DOUBLE-STRUCK': 'mathbb', 'SANS-SERIF': 'mathsf'}
STYLED = {}
for q in chars():
    if U.decomposition(q).startswith('<font>'):
        b = U.normalize('NFKC', q)
        if len(b) == 1 and b.isascii() and b.isalnum():
            STYLED[q] = b
CAPS, DIGITS, SMALL = {}, {}, {}
for q, b in STYLED.items():
    w = U.name(q).replace('MATHEMATICAL ', '').split()
    if len(w) == 3 and w[0] in STYLE and w[1] == 'CAPITAL':
        CAPS[q] = '\\%s{%s}' % (STYLE[w[0]], b)
    elif len(w) == 3 and w[1] == 'DIGIT' and w[0] in ('BOLD', 'DOUBLE-STRUCK'):
        DIGITS[q] = '\\%s{%s}' % (STYLE[w[0]], b)
    elif U.name(q).startswith('MATHEMATICAL ITALIC SMALL'):
        SMALL[q] = b
ODD = {'mi': {'\u2145': '\\_{D}', '\u2147': '\\text{e}'}, 'mo': {'\u2147': '\\text{e}'}}
ODD['mtext'] = ODD['mi']
FONT = r'(\\(mathbf|mathit|mathcal|mathscr|mathfrak|mathbb|mathsf|mathtt|mathrm|boldsymbol|bm|text|textbf|textit)\{)*'


def own(tag):
    odd = ODD.get(tag, {})

    def ok(q, t):
        if t == q or odd.get(q) == t:
            return True
        m = re.fullmatch(FONT + '([A-Za-z0-9])(}*)', t)
        return bool(m) and m.group(3) == STYLED[q] and len(m.group(4)) == t.count('{')
    return ok


for t in TOK:
    add('letter kept ' + t, 'C26', related, tag=t, table=STYLED, ok=own(t), what='styled letter')
for t in ('mi', 'mo', 'mtext'):
    add('capitals ' + t, 'C26', one, tag=t, table=CAPS)
    add('digits ' + t, 'C26', one, tag=t, table=DIGITS)
for t in ('mi', 'mtext'):
    add('italic ' + t, 'C26', one, tag=t, table=SMALL)


# C27 accented Latin letters
MARK = {0x300: 'grave', 0x301: 'acute', 0x302: 'hat', 0x303: 'tilde', 0x304: 'bar', 0x306: 'breve', 0x307: 'dot', 0x308: 'ddot',
        0x30A: 'mathring', 0x30C: 'check'}
COVERED = ('\u00c0\u00c1\u00c2\u00c3\u00c4\u00c5\u00c8\u00c9\u00ca\u00cb\u00cc\u00cd\u00ce\u00cf\u00d1\u00d2\u00d3\u00d4\u00d5\u00d6\u00d9'
           '\u00da\u00db\u00dc\u00dd\u00e0\u00e1\u00e2\u00e3\u00e4\u00e5\u00e8\u00e9\u00ea\u00eb\u00ec\u00ed\u00ee\u00ef\u00f1\u00f2\u00f3\u00f4'
           '\u00f5\u00f6\u00f9\u00fa\u00fb\u00fc\u00fd\u00ff\u0100\u0101\u0102\u0103\u0112\u0113\u0116\u011a\u011b\u012a\u012b\u012c\u0134\u0135'
           '\u014c\u014d\u016a\u016b\u0176\u0177\u0178\u0179\u017a\u017b\u017c\u017d\u017e\u01cd\u01ce\u01cf\u01d0\u01d1\u01d2\u01d3\u01d4\u0226'
           '\u022e\u022f\u0232\u0233\u1e7c\u1e7d\u1e91\u1ef2\u1ef3')
ACC, LATIN = {}, {}
for q in chars():
    d = U.normalize('NFD', q)
    if len(d) > 1 and d[0].isascii() and d[0].isalpha() and all(U.combining(x) for x in d[1:]):
        LATIN[q] = d[0]
        if len(d) == 2 and ord(d[1]) in MARK and q in COVERED:
            ACC[q] = '\\%s{%s}' % (MARK[ord(d[1])], d[0])


def base_kept(q, t):
    m = re.fullmatch(r'(\\[a-z]+\{)?([A-Za-z])(\}?)', t)
    return t == q or bool(m) and m.group(2) == LATIN[q] and bool(m.group(1)) == bool(m.group(3))


def full_or_base(q, t):
    """A letter with one mark never gets another mark that it does not have, when the mark has a command."""
    d = U.normalize('NFD', q)
    if t == q or len(d) != 2 or ord(d[1]) not in MARK:
        return True
    return t in ('\\%s{%s}' % (MARK[ord(d[1])], d[0]), d[0])


for t in ('mi', 'mo', 'mtext'):
    add('accents ' + t, 'C27', one, tag=t, table=ACC)
    add('base letter ' + t, 'C27', related, tag=t, table=LATIN, ok=base_kept, what='accented letter')
    add('no other accent ' + t, 'C27', related, tag=t, table=LATIN, ok=full_or_base, what='accented letter')
add('accents mn', 'C27', one, tag='mn', table={q: q for q in LATIN})


# C28 Greek letters
NAMES = {'alpha': 'alpha', 'beta': 'beta', 'gamma': 'gamma', 'delta': 'delta', 'epsilon': ('epsilon', 'varepsilon'), 'zeta': 'zeta', 'eta': 'eta', 'theta': 'theta',
         'iota': 'iota', 'kappa': 'kappa', 'lamda': 'lambda', 'mu': 'mu', 'nu': 'nu', 'xi': 'xi', 'pi': 'pi',
         'rho': 'rho', 'sigma': 'sigma', 'tau': 'tau', 'upsilon': 'upsilon', 'phi': ('varphi', 'phi'), 'chi': 'chi', 'psi': 'psi', 'omega': 'omega'}
RAW_MO = '\u03b5\u03be\u039b\u039e'


def greek(tag):
    t = {}
    for n, w in NAMES.items():
        small = U.lookup('GREEK SMALL LETTER ' + n.upper())
        w = (w,) if isinstance(w, str) else w
        t[small] = {'\\' + x for x in w}
        if w[0] in ('gamma', 'delta', 'theta', 'lambda', 'xi', 'pi', 'sigma', 'phi', 'psi', 'omega') or n == 'phi':
            t[small.upper()] = {'\\' + ('Phi' if n == 'phi' else w[0].capitalize())}
    t['\u03d5'] = {'\\phi'}
    t['\u03f1'] = {'\\varrho'}
    t['\u03f5'] = {'\\epsilon', '\\varepsilon'}
    t['\u03bf'] = {'o', '\u03bf'}
    t['\u2206'] = {'\\Delta'}
    t['\u2126'] = {'\\Omega'}
    if tag == 'mo':
        for q in RAW_MO:
            t[q] = t[q] | {q}
    else:
        t['\u03d1'] = {'\\vartheta'}
        t['\u00b5'] = {'\\mu'}
        for q in '\u03c2':
            t[q] = {q, '\\varsigma'}
    return t


BOLDG = {}
LOOKS = {'alpha': 'A', 'beta': 'B', 'epsilon': 'E', 'zeta': 'Z', 'eta': 'H', 'iota': 'I', 'kappa': 'K', 'mu': 'M', 'nu': 'N', 'rho': 'P', 'tau': 'T', 'chi': 'X', 'upsilon': '\\\\Upsilon'}
for n in NAMES:
    BOLDG[U.lookup('MATHEMATICAL BOLD CAPITAL ' + n.upper())] = LOOKS.get(n, '\\\\' + ('Lambda' if n == 'lamda' else n.capitalize()))
BOLDG['\U0001d6b6'] = 'O'
BOLDG['\U0001d6b9'] = '\\\\Theta'


def bold(q, t):
    return t == q or bool(re.fullmatch(r'(\\(mathbf|mathtt|boldsymbol|bm|mathit|mathsf|mathrm)\{)*%s\}*' % BOLDG[q], t))


for t in ('mi', 'mo', 'mtext'):
    add('bold greek ' + t, 'C28', related, tag=t, table=BOLDG, ok=bold, what='bold Greek capital')
for t in ('mi', 'mo', 'mtext'):
    add('greek ' + t, 'C28', one, tag=t, table=greek(t))
add('greek mn', 'C28', one, tag='mn', table={q: q for q in greek('mi')})


def greek_variant(h, table):
    """A Greek letter keeps its command under every mathvariant."""
    v = h.pick('variant', list(VARIANT))
    c = h.char('c', ival.of_str(''.join(table)))
    r = h.ok(doc(h, 'mi', c, ' mathvariant="%s"' % v))
    w = VARIANT[v]
    acc = lambda q: {''.join('\\%s{' % x for x in w) + t + '}' * len(w) for t in table[q]}
    h.check(h.rel(c, r, lambda q, t: t in acc(q)), lambda f: 'mathvariant=%s of %r gives %r' % (v, f(c), f(r)))


def distinct(h, tag, table):
    """Two letters with different commands never share a rendering."""
    a, b = h.char('a', ival.of_str(''.join(table))), h.char('b', ival.of_str(''.join(table)))
    r, s = conv(h, tag, a), conv(h, tag, b)
    # accepted renderings of different letters are disjoint unless listed
    ok = lambda q, t: t in table[q]
    h.check(h.land(h.rel(a, r, ok), h.rel(b, s, ok)), lambda f: 'greek letters %r %r give %r %r' % (f(a), f(b), f(r), f(s)))


add('greek variants', 'C28', greek_variant, table={q: t for q, t in greek('mi').items() if q not in '\u03bf\u03c2'})

# C29 operators that have a LaTeX command
OPS = r"""
± pm|∓ mp|× times|÷ div|∗ ast * star|⋆ star|∘ circ|∙ bullet cdot|⋅ cdot|· cdot|∩ cap|∪ cup|⊎ uplus|⊓ sqcap|⊔ sqcup|∨ lor vee|∧ land wedge
∖ setminus backslash|⋄ diamond|△ triangle bigtriangleup|⊕ oplus bigoplus|⊖ ominus|⊗ otimes bigotimes|⊘ oslash|⊙ odot bigodot|† dagger|‡ ddagger|⨿ amalg coprod
≤ leq le|≥ geq ge|≺ prec|≻ succ|≼ preceq preccurlyeq|≽ succeq succcurlyeq|≪ ll|≫ gg|⊂ subset|⊃ supset|⊆ subseteq|⊇ supseteq|⊏ sqsubset|⊐ sqsupset|⊑ sqsubseteq|⊒ sqsupseteq
∈ in|∋ ni|∉ notin|⊢ vdash|⊣ dashv|≡ equiv|∼ sim|≃ simeq|≍ asymp|≈ approx|≅ cong|≠ neq ne|≐ doteq|∝ propto|⊨ vDash models|⊧ models|∥ parallel|∣ mid|⋈ bowtie Join|⊥ bot perp|⊤ top
∑ sum|∏ prod|∐ coprod|∫ int|∬ iint|∭ iiint|⨌ iiiint|∮ oint|∯ oiint|⋂ bigcap cap|⋃ bigcup cup|⋁ bigvee vee|⋀ bigwedge wedge|⨀ bigodot odot|⨁ bigoplus oplus|⨂ bigotimes otimes|⨄ biguplus uplus|⨆ bigsqcup sqcup
← leftarrow gets|→ rightarrow to|↑ uparrow|↓ downarrow|↔ leftrightarrow|↕ updownarrow|⇐ Leftarrow|⇒ Rightarrow|⇑ Uparrow|⇓ Downarrow|⇔ Leftrightarrow iff|⇕ Updownarrow|↖ nwarrow|↗ nearrow|↘ searrow|↙ swarrow
↩ hookleftarrow|↪ hookrightarrow|↼ leftharpoonup|↽ leftharpoondown|⇀ rightharpoonup|⇁ rightharpoondown|⇌ rightleftharpoons|⇋ leftrightharpoons|↾ upharpoonright|↿ upharpoonleft|⇂ downharpoonright|⇃ downharpoonleft
⟵ longleftarrow leftarrow|⟶ longrightarrow rightarrow|⟷ longleftrightarrow leftrightarrow|⟸ Longleftarrow|⟹ Longrightarrow|⟺ Longleftrightarrow iff|⟼ longmapsto mapsto
↞ twoheadleftarrow|↠ twoheadrightarrow|↢ leftarrowtail|↣ rightarrowtail|↫ looparrowleft|↬ looparrowright|↭ leftrightsquigarrow|↶ curvearrowleft|↷ curvearrowright|↺ circlearrowleft|↻ circlearrowright|⇄ rightleftarrows|⇆ leftrightarrows|⇇ leftleftarrows|⇈ upuparrows|⇉ rightrightarrows|⇊ downdownarrows|⇚ Lleftarrow|⇛ Rrightarrow|⇝ rightsquigarrow leadsto
∀ forall|∃ exists|∄ nexists|∅ emptyset varnothing|∇ nabla|∂ partial|∞ infty|∠ angle|∡ measuredangle angle|∴ therefore|∵ because|¬ neg lnot|… ldots dots|⋮ vdots|⋱ ddots|⌈ lceil|⌉ rceil|⌊ lfloor|⌋ rfloor|⟨ langle|⟩ rangle|‖ parallel Vert
⊞ boxplus|⊟ boxminus|⊠ boxtimes|⊡ boxdot|⊩ Vdash|⊪ Vvdash |\models|⊲ triangleleft vartriangleleft|⊳ triangleright vartriangleright|⋔ pitchfork|⋘ lll|⋙ ggg|≜ triangleq|⊊ subsetneq|⊋ supsetneq|⫅ subseteqq|⫆ supseteqq|≾ precsim|≿ succsim|⪯ preceq|⪰ succeq|⩽ leqslant leq|⩾ geqslant geq|⪋ lesseqqgtr|⪌ gtreqqless
■ blacksquare|□ square Box|▽ triangledown|▷ triangleright|◁ triangleleft|✓ checkmark|℧ mho|√ sqrt{}|∛ sqrt[3]{}|∜ sqrt[4]{}|− -|∕ /|∶ :|≔ :=|′ '|″ ''|‴ '''|⁗ ''''
≮ nless not< </|≯ ngtr not> >/|≰ nleq leq/ not\leq|≱ ngeq geq/ not\geq|≁ nsim not\sim|≄ not\simeq|≇ ncong|≉ not\approx approx~/|≢ not\equiv equiv~/|⊄ not\subset|⊅ not\supset|⊈ nsubseteq|⊉ nsupseteq|⊀ nprec|⊁ nsucc|⊬ nvdash|⊭ nvDash|∦ nparallel not\parallel|∤ nmid not| not\mid|∌ not\ni|↛ nrightarrow|⇍ nLeftarrow|⇎ nLeftrightarrow|⇏ nRightarrow|≨ lneqq|≩ gneqq|⪇ lneq|⪈ gneq
"""
OP = {}
for line in OPS.strip().split('\n'):
    for e in re.split(r'\|(?=[^\s\x20-\x7e] )', line):
        w = e.split()
        OP[w[0]] = {('\\' + x if x[0].isalpha() else x).replace('~', ' ') for x in w[1:]}
add('operators mo', 'C29', one, tag='mo', table=OP)
for t in ('mi', 'mtext'):
    add('operators ' + t, 'C29', one, tag=t, table={q: w | {q} for q, w in OP.items()})
add('operators mn', 'C29', one, tag='mn', table={q: q for q in OP})
MIOP = '\u00b1\u00d7\u00f7\u2229\u222a\u2227\u2228\u2211\u220f\u222b\u222e\u221e\u2200\u2203\u2202\u2207\u2205\u2220\u2234\u2235\u2248\u2260\u2264\u2190\u2192\u2191\u2193\u2194\u21d2\u21d4\u22a4\u22c4\u22c5\u22c6\u22ee\u22f1\u2308\u2309\u230a\u230b\u27e8\u27e9\u2020\u2021\u2026\u00ac\u2297\u2295\u2218\u22c8'
for t in ('mi', 'mtext'):
    add('named operators ' + t, 'C29', one, tag=t, table={q: OP[q] for q in MIOP})
ASCII_OP = {'+': '+', '-': '-', '=': '=', '<': '<', '>': '>', '/': '/', ',': ',', ';': ';', ':': ':', '.': '.', '!': '!', '?': '?', '*': {'*', '\\star', '\\ast'},
            '(': '\\left(\\right.', ')': '\\left.\\right)', '[': '\\left[\\right.', '{': '\\left\\{\\right.', '}': '\\left.\\right\\}', '|': {'\\left|\\right.', '\\mid'}}
add('ascii operators', 'C29', one, tag='mo', table=ASCII_OP)
FUN = ['sin', 'cos', 'tan', 'log', 'ln', 'lim', 'max', 'min', 'exp', 'det', 'gcd', 'mod', 'sup', 'inf', 'arg', 'dim', 'ker', 'sec', 'csc', 'cot',
       'sinh', 'cosh', 'tanh', 'arcsin', 'arccos', 'arctan', 'deg', 'hom', 'Pr']


def functions(h, tag, names):
    """A function name is its letters, with or without a backslash."""
    n = h.pick('name', names)
    r = h.ok(doc(h, tag, n))
    h.check(h.lor(h.eq(r, n), h.eq(r, '\\' + n)), lambda f: '%s of %s gives %r' % (tag, n, f(r)))


def words(h, tag, table):
    """Operators of several characters."""
    n = h.pick('word', list(table))
    h.check_eq(h.ok(doc(h, tag, h.escape(n))), table[n], '%s of %s' % (tag, n))


COMPOUND = {w: w for w in ('--', '++', '//', '!!', '==', ':=', '/=', '-=', '+=', '*=', '!=', '>=', '<=', '->', '..')}
COMPOUND.update({'&&': '\\&\\&', '<>': '<>'})
add('compound operators', 'C29', words, tag='mo', table=COMPOUND)
PERCENT = {}
for n in NAMES:
    for q in (U.lookup('GREEK SMALL LETTER ' + n.upper()), U.lookup('GREEK CAPITAL LETTER ' + n.upper())):
        t = greek('mi').get(q)
        if t and q not in '\u03b5\u03be\u039b\u039e\u03c6\u03bf':
            PERCENT[''.join('%%%02X' % b for b in q.encode())] = sorted(t)[0]


def percent(h, table):
    n = h.pick('word', list(table))
    h.check_eq(h.ok(doc(h, 'mo', n)), table[n], 'mo of %s' % n)


add('percent encoded', 'C28', percent, table=PERCENT)
for t in ('mi', 'mo'):
    add('functions ' + t, 'C29', functions, tag=t, names=FUN)

# C30 direction and negation of operators
OPPOSITE = {'LEFT': 'RIGHT', 'RIGHT': 'LEFT', 'UP': 'DOWN', 'DOWN': 'UP'}
SHOWS = {'LEFT': r'left|Left|Lsh|\\[ns]warrow|nLeft', 'RIGHT': r'right|Right|Rsh|mapsto|\\[ns]earrow|leadsto|\\to\b',
         'UP': r'(?<![a-z])(up|Up|two.*up)|uparrow|Uparrow|\\n[ew]arrow', 'DOWN': r'down|Down|\\s[ew]arrow'}
ARROWS = {}
for a, b in ((0x2190, 0x2200), (0x27F0, 0x2980), (0x2B00, 0x2C00)):
    for i in range(a, b):
        n = U.name(chr(i), '')
        if ('ARROW' in n or 'HARPOON' in n) and not re.search(r'-SIDE|LOWER (LEFT|RIGHT)|BARB (UP|DOWN|LEFT|RIGHT) AND', n):
            n2 = re.sub(r'BARB (UP|DOWN|LEFT|RIGHT)(WARDS)?', '', n)
            d = {w for w in SHOWS if re.search(r'\b%s(WARDS)?\b' % w, n2)}
            if len(d) == 1:
                ARROWS[chr(i)] = d.pop()


def points(q, t):
    if t == q:
        return True
    t = re.sub(r'harpoon(up|down)', 'harpoon', t) if ARROWS[q] in ('LEFT', 'RIGHT') else re.sub(r'harpoon(left|right)', 'harpoon', t)
    if not re.search(SHOWS[ARROWS[q]], t):
        return False
    other = SHOWS[OPPOSITE[ARROWS[q]]]
    return not re.search(other, t)


NEG = {chr(i): 1 for i in range(0x2190, 0x2B00) if re.search(r'\b(NOT|NEITHER|WITH STROKE)\b', U.name(chr(i), ''))
       and 'INTEGRATION' not in U.name(chr(i))}


def negated(q, t):
    return t == q or bool(re.search(r'\\not|\\n[a-zA-Z]|/|\\b?cancel|\\hcancel|neq|nsim|napprox', t))


LESS = {}
for i in range(0x2200, 0x2B00):
    if 'CIRCLED' in U.name(chr(i), ''):
        continue
    n = U.name(chr(i), '')
    if re.search(r'\bLESS-THAN\b|\bSMALLER THAN\b', n) and not re.search(r'GREATER|LARGER', n):
        LESS[chr(i)] = '<'
    elif re.search(r'\bGREATER-THAN\b|\bLARGER THAN\b', n) and not re.search(r'LESS|SMALLER', n):
        LESS[chr(i)] = '>'
    elif re.search(r'\bSUBSET\b', n) and 'SUPERSET' not in n:
        LESS[chr(i)] = 'b'
    elif re.search(r'\bSUPERSET\b', n) and 'SUBSET' not in n:
        LESS[chr(i)] = 'p'
    elif re.search(r'\bPRECEDES?\b', n) and 'SUCCEED' not in n:
        LESS[chr(i)] = 'r'
    elif re.search(r'\bSUCCEEDS?\b', n) and 'PRECEDE' not in n:
        LESS[chr(i)] = 'u'
SIDE = {'<': r'<|\\n?leq|\\[ln]?less|\\ll|\\lneq|\\lt|\\le\b|triangleleft', '>': r'>|\\n?geq|\\[gn]?gtr|\\gg|\\gneq|\\gt|\\ge\b|triangleright', 'b': 'subset', 'p': 'supset',
        'r': r'prec|\\ll', 'u': r'succ|\\gg'}
OTHER = {'<': '>', '>': '<', 'b': 'p', 'p': 'b', 'r': 'u', 'u': 'r'}


def side(q, t):
    if t == q:
        return True
    s = LESS[q]
    return bool(re.search(SIDE[s], t)) and not re.search(SIDE[OTHER[s]], t)


def overlay(h, alpha):
    """A relation with U+0338 COMBINING LONG SOLIDUS OVERLAY stays negated."""
    c = h.char('c', alpha)
    r = h.ok(doc(h, 'mo', h.cat(h.escape(c), '\u0338')))
    ok = h.lor(*[h.contains(r, w) for w in ('\u0338', '\\not', '\\n', '/', 'cancel{')])
    h.check(ok, lambda f: 'negation lost: mo of %r + U+0338 gives %r' % (f(c), f(r)))


add('overlay', 'C30', overlay, alpha=NOWS)
for t in ('mi', 'mo', 'mtext'):
    add('arrows ' + t, 'C30', related, tag=t, table=ARROWS, ok=points, what='direction')
    add('negation ' + t, 'C30', related, tag=t, table=NEG, ok=negated, what='negation')
    add('sides ' + t, 'C30', related, tag=t, table=LESS, ok=side, what='order')


# C31 number characters
FRAC, CIRC, SCRIPT = {}, {}, {}
for q in chars():
    d = U.decomposition(q)
    if d.startswith('<fraction>'):
        n, m = U.normalize('NFKC', q).split('\u2044') if '\u2044' in U.normalize('NFKC', q) else ('', '')
        if m and q not in '\u2189\u215f':
            FRAC[q] = {'\\dfrac{%s}{%s}' % (n, m), '\\frac{%s}{%s}' % (n, m)}
    elif d.startswith('<circle>') and U.normalize('NFKC', q).isdigit() and int(U.normalize('NFKC', q)) <= 50:
        CIRC[q] = '\\textcircled{%s}' % U.normalize('NFKC', q)
    elif d.startswith('<super>') and U.normalize('NFKC', q).isdigit() and len(U.normalize('NFKC', q)) == 1:
        SCRIPT[q] = '^{%s}' % U.normalize('NFKC', q)
    elif d.startswith('<sub>') and U.normalize('NFKC', q).isdigit():
        SCRIPT[q] = '_{%s}' % U.normalize('NFKC', q)
for t in TOK:
    add('fractions ' + t, 'C31', one, tag=t, table=FRAC)
    add('circled ' + t, 'C31', one, tag=t, table=CIRC)
    add('scripts ' + t, 'C31', one, tag=t, table=SCRIPT if t != 'mo' else {q: w for q, w in SCRIPT.items() if q not in '\u00b9\u00b2\u00b3'})
ALLDIG = {q: U.digit(q) for q in chars() if U.digit(q, None) is not None}


def same_digit(q, t):
    """A character for a digit shows that digit or itself."""
    ds = re.findall(r'\d', t)
    return t == q or not ds or ds == [str(ALLDIG[q])] or ds == list(U.normalize('NFKC', q)) or q in FRAC


for t in TOK:
    add('digit kept ' + t, 'C31', related, tag=t, table={q: w for q, w in ALLDIG.items()}, ok=same_digit, what='digit')


# C32 nothing vanishes, and what has no counterpart passes through
BLANK = {'mi': '\u02d8\u0924\u1348', 'mtext': '\u02d8\u0924\u1348', 'mo': '\u02d8'}


def visible(h, tag, alpha):
    """A character that is not white space has a rendering that is not empty."""
    c = h.char('c', alpha)
    r = conv(h, tag, c)
    k = [('blank-%s-%04x' % (tag, ord(q)), h.eq(c, q)) for q in BLANK.get(tag, '')]
    h.check(h.lnot(h.eq(r, '')), lambda f: '%s of %r (U+%04X %s) is empty' % (tag, f(c), ord(f(c)), U.name(f(c), '?')), known=k)


def visible_two(h, tag, alpha):
    """Neither character of a text of two vanishes."""
    a, b = h.char('a', alpha), h.char('b', alpha)
    r = h.ok(doc(h, tag, h.cat(h.escape(a), h.escape(b))))
    h.check(h.length(r) >= 2, lambda f: '%s of %r gives %r' % (tag, f(a) + f(b), f(r)))


def through(h, tag, alpha, n):
    """Characters of scripts without a LaTeX counterpart are passed on as they are."""
    c = h.text('c', alpha, 1, n)
    r = h.ok(doc(h, tag, c))
    h.check_eq(r, c, tag)


OTHER_SCRIPTS = [(0x0590, 0x08FF), (0x0980, 0x0D65), (0x0E80, 0x0FFF), (0x10A0, 0x10FF), (0x1100, 0x11FF), (0x1780, 0x17FF), (0x3041, 0x3096), (0x30A1, 0x30FA),
                 (0x3400, 0x4DBF), (0x4E00, 0x5340), (0x5342, 0x571E), (0x5720, 0x9FFF), (0xA000, 0xA4CF), (0xAC00, 0xD7A3), (0xF900, 0xFAFF),
                 (0x10000, 0x1CFFF), (0x1F300, 0x1FAFF), (0x20000, 0x2FA1F), (0xE000, 0xF8FF), (0xF0000, 0xFFFFD), (0x100000, 0x10FFFD)]
OS = tuple(OTHER_SCRIPTS)
for t in TOK:
    add('visible ' + t, 'C32', visible, tag=t, alpha=NOWS)
for t in ('mi', 'mo', 'mn'):
    add('visible pairs ' + t, 'C32', visible_two, tag=t, alpha=ival.minus(NOWS, ival.of_str('\\{}_^~#$%&')))
    add('other scripts ' + t, 'C32', through, dict(n=4), tag=t, alpha=OS, n=2)
add('other scripts mtext', 'C32', through, dict(n=2), tag='mtext', alpha=OS, n=1)

SCENARIOS = S
BOUNDS = {
    'C26': 'every one of the %d characters that are a font variant of an ASCII letter or digit, as the whole text of each token element' % len(STYLED),
    'C27': 'every precomposed Latin letter (%d), as the whole text of each token element; %d of them with their accent command' % (len(LATIN), len(ACC)),
    'C28': 'every Greek letter with a LaTeX command, as the whole text of each token element, under each of 13 variants',
    'C29': '%d operators as the whole text of each token element, %d function names' % (len(OP), len(FUN)),
    'C30': '%d arrows, %d negated relations, %d ordered relations, as the whole text of each token element' % (len(ARROWS), len(NEG), len(LESS)),
    'C31': 'every vulgar fraction, circled number up to 50, superscript and subscript digit and every other digit character (%d)' % len(ALLDIG),
    'C32': 'every single XML character in each token element; every pair of characters; texts of up to 2 (thorough 4) characters of other scripts',
}

#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table below and the bounds in props/."""
import json
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

UC = 'src/mathml_to_latex/el_to_tex/usecases.py'
AD = 'src/mathml_to_latex/el_to_tex/adapter.py'
SY = 'src/mathml_to_latex/syntax.py'
XA = 'src/mathml_to_latex/xml_to_mathml/adapter.py'
XE = 'src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py'
EH = 'src/mathml_to_latex/xml_to_mathml/services/error_handler.py'
WR = 'src/mathml_to_latex/el_to_tex/services/wrapper.py'
NO = 'src/mathml_to_latex/el_to_tex/services/normalizer.py'
ES = 'src/mathml_to_latex/el_to_tex/services/escaper.py'
CV = 'src/mathml_to_latex/converter.py'

DOCS = 'all documents in which the construct stands anywhere, with any parts, and any texts in them'
CHAR = 'all characters, in all token elements'
FEW = 'The tests convert a few dozen fixed documents; they fix one or two documents per construct, with one-letter parts.'
SAMPLE = 'The tests convert a handful of fixed characters; the tables hold thousands of entries, and each is a separate place to be wrong.'

P = {}


def p(pid, title, statement, over, text, why, files, mech):
    P[pid] = dict(id=pid, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=['MathMLToLaTeX.convert'], hook_needed=None))


I = ['inputs']
p('C01', 'Fractions keep numerator and denominator', r'''mfrac converts to \frac{numerator}{denominator}, each part being the conversion of
 that child, for any two children, empty ones included. With a bevelled attribute other than "false" or empty it converts to numerator/denominator, and a part whose
 conversion is longer than one character is wrapped in \left( and \right).''', I, DOCS, FEW, [UC, WR], [('MFrac', UC), ('ParenthesisWrapper', WR)])
p('C02', 'Roots keep radicand and index', r'''msqrt converts to \sqrt{...} around the conversions of all its children joined by spaces; mroot converts to
 \sqrt[index]{radicand}, where the first child is the radicand and the second the index.''', I, DOCS, FEW, [UC], [('MSqrt', UC), ('MRoot', UC)])
p('C03', 'Scripts attach to their base in the right place', r'''msup, msub and msubsup convert to base^{sup}, base_{sub} and base_{sub}^{sup}, each part
 being the conversion of the child in that position. A base with more than one element child, whose conversion is longer than one character, is wrapped in \left( and
 \right); any other base is not.''', I, DOCS, FEW, [UC, WR], [('MSup', UC), ('MSub', UC), ('MSubsup', UC)])
p('C04', 'Under- and overscripts and accents', r'''munder and mover convert to \underset{script}{base} and \overset{script}{base}, unless the script converts to
 \hat, \bar, \underbrace or \overbrace: then the result is that command applied to the base. munderover converts to base_{under}^{over}.''', I, DOCS, FEW, [UC],
  [('GenericUnderOver, UnderOverSetter', UC), ('MUnderover', UC)])
p('C05', 'Every script of mmultiscripts is kept, in order', r'''mmultiscripts converts to its prescript pairs, its base and its postscript pairs, all of them and in
 document order: each pair after the base is written _{sub}^{sup}, each pair after mprescripts \_{sub}^{sup} before the base, and postscript pairs are separated by {}.
 A base whose conversion contains white space is wrapped in \left( and \right).''', I, DOCS, FEW, [UC], [('MMultiscripts', UC)])
p('C06', 'Containers and unknown elements keep all children in order', r'''math, mrow, mstyle, mpadded, mtd and every element the converter does not know convert to the
 conversions of all their element children, in order, separated by single spaces, children that convert to nothing leaving no gap. This holds for any number of children and
 any nesting.''', I, 'all element names, all numbers of children, all nestings', FEW, [UC, AD, NO], [('GenericSpacingWrapper', UC), ('Math', UC), ('tag table', AD)])
p('C07', 'mfenced writes its delimiters, children and separators', r'''mfenced around anything but a table converts to \left, the open delimiter, the children and \right, the
 close delimiter; missing or empty delimiters are parentheses. Between the i-th and the next child stands the i-th character of the separators attribute, the last
 separator is repeated when there are too few, surplus ones are ignored, and without separators it is a comma.''', I,
  'all delimiters, all separator lists, all numbers of children', FEW, [UC, WR], [('MFenced, Vector', UC), ('JoinWithManySeparators', WR)])
p('C08', 'A fenced table becomes the matching matrix environment', r'''mfenced that contains a table at any depth becomes pmatrix, bmatrix, Bmatrix, vmatrix or Vmatrix for the
 delimiter pairs ( ), [ ], { }, | |, || ||, and bmatrix when both delimiters are equal otherwise, both missing included. Any other pair gives \left open, a matrix environment and \right close.
 The conversions of all children of the mfenced stand inside that one environment, in order.''', I, 'all pairs of delimiters, all tables, all depths', FEW, [UC], [('MFenced, Matrix, Separators', UC)])
p('C09', 'Tables keep every cell in its row and column', r'''mtable converts to its rows, one for each mtr, in order and separated by \\, and each row to its cells, one for each mtd, in order and separated by &, ragged rows and
 empty cells included. The rows of an outermost table stand bare; a table inside another table, at any depth, is wrapped in \begin{matrix} and \end{matrix}.''', I,
  'all numbers of rows and columns, all contents, all nestings', FEW, [UC], [('MTable', UC), ('MTr', UC)])
p('C10', 'menclose draws the notation asked for around its content', r'''menclose converts to the command of its notation around the conversions of all its children: box,
 roundedbox, circle \boxed; radical \sqrt; top \overline; bottom \underline; updiagonalstrike \cancel; downdiagonalstrike \bcancel; updiagonalarrow \cancelto{};
 horizontalstrike and verticalstrike \hcancel; actuarial \overline{\left.X\right|}; left \left|X; right X\right|; madruwb \underline{X\right|}; phasorangle
 {\angle \underline{X}}. Every other notation, and none, is the long division \overline{\left.\right)X}.''', I, 'all notations, all contents', FEW, [UC], [('MEnclose', UC)])
p('C11', 'maction, merror and mphantom show what they should', r'''maction of type toggle, or without a type, converts to all its children joined by \Longrightarrow; of any
 other type to its first child. merror converts to \color{red}{...} around all its children. mphantom converts to nothing, whatever is in it, and leaves what stands around it
 unchanged.''', I, DOCS, FEW, [UC, AD], [('MAction', UC), ('MError', UC), ('Void', UC)])
p('C12', 'Wrong child counts are reported, never converted', r'''mfrac, mroot, msup, msub, mover, munder (exactly 2), msubsup, munderover (exactly 3), mmultiscripts (at least
 3) and maction with an action type other than toggle (at least 1) raise InvalidNumberOfChildrenError for any other number of element children, wherever they stand, and convert for
 the right number. The message names the element, the number required and the number found.''', I, 'all numbers of children of all elements, at all places', 'The tests check one wrong count for each element, alone in a document.',
  [UC, 'src/mathml_to_latex/el_to_tex/usecases.py'], [('child count guards', UC)])
p('C13', 'Every well-formed document converts or reports a child count', r'''For every well-formed XML document convert returns a string or raises InvalidNumberOfChildrenError; no
 other exception escapes, whatever the element names, texts, attribute values and numbers of children are, as long as elements are not nested deeper than Python can recurse.''', I, 'all well-formed documents',
  'The tests use documents that are known to convert; rare characters, odd attribute values and unusual element combinations never occur in them.', [CV, XA, XE, UC], [('whole conversion', CV)])
p('C14', 'Malformed documents are rejected', r'''A document that is not well-formed XML (mismatched or unclosed tags, truncation, illegal characters, undefined entities, several roots, duplicate
 attributes, bare < or &, an unbound prefix, no markup at all) raises the XML parser's ExpatError and is never converted, except for the missing attribute values that are repaired.''', I, 'all documents that are not well-formed',
  'The tests contain no malformed document but the repairable ones.', [XA, EH], [('ErrorHandler', EH), ('XmlToMathMLAdapter', XA)])
p('C15', 'Attributes without a value are dropped and nothing else', r'''A document in whose start tags there are attributes without a value (name or name=), at any place in the tag, converts exactly as the document without these
 attributes, in any number of places and with up to four different names. Token texts and other attributes stay as they are, even when they contain the name of the dropped attribute.''', I,
  'all attribute names, all texts, all numbers of such attributes', 'The tests contain two such documents.', [EH, XA], [('ErrorHandler', EH)])
p('C16', 'White space in the source never shows but as single spaces', r'''White space around and between elements and around token text does not change the result, and a run of white space inside token
 text counts as one space. The result never begins or ends in white space and contains none but single spaces.''', I, 'all runs of white space at all places', 'The tests contain indented documents but vary nothing.',
  [XA, XE, UC, NO], [('WhiteSpaceNormalizer', NO), ('text trimming', UC)])
p('C17', 'Plain letters, digits and punctuation pass unchanged', r'''An mi, mo or mn whose text consists of ASCII letters and digits converts to exactly that text; so does a number with sign, decimal
 point, group separator or exponent in mn, and a single ASCII punctuation character that is neither reserved in LaTeX nor a bracket or * in mo.''', I, 'all such texts of any length', SAMPLE, [UC, SY],
  [('MI, MO, MN', UC), ('tables', SY)])
p('C18', 'Characters LaTeX reserves are written as commands', r'''The characters \ { } _ ^ ~ # $ % & in the text of mi and mn are written \backslash, \{, \}, \_, \hat{}, \sim, \#, \$, \% and \&, wherever they stand
 in the text, and the text around them is kept. In no token element does one of them reach the result unescaped.''', I, 'all token texts', 'The tests contain a few such characters, each alone in its element.', [ES, UC, SY],
  [('SpecialCharsEscaper', ES), ('Character, Operator', UC)])
p('C19', 'mathvariant puts an identifier in its font', r'''An mi with one of the 13 mathvariant values that name a font (bold, italic, bold-italic, double-struck, bold-fraktur, script, bold-script, fraktur, sans-serif, bold-sans-serif,
 sans-serif-italic, sans-serif-bold-italic, monospace) converts to its plain conversion wrapped in the commands of that font (\mathbf, \mathit, \mathbb, \mathfrak, \mathcal, \mathsf, \mathtt, outermost first
 in the order of the words). Any other value changes nothing.''', I, 'all identifiers, all values of the attribute, all places', FEW, [UC], [('MI', UC)])
p('C20', 'mtext splits into text and symbols', r'''In mtext every maximal run of ASCII letters, digits and spaces becomes one \text{...}, and every other character is converted as it would be in mi; order is kept and nothing is dropped.
 With mathvariant bold, italic, bold-italic, double-struck, monospace, fraktur or bold-fraktur the runs are wrapped in \textbf, \textit, \textbf{\textit}, \mathbb, \mathtt, \mathfrak instead of \text.''', I,
  'all texts, all values of mathvariant', FEW, [UC], [('MText, TextCommand', UC)])
p('C21', 'Comments, CDATA and references do not matter', r'''A comment or processing instruction at any place, even inside token text, leaves the result unchanged. Text in a CDATA section, and a character written as a decimal, hexadecimal or predefined entity reference,
 converts as the same text written directly.''', I, 'all places, all contents, all spellings', 'The tests contain no comment inside a token and no CDATA section.', [XE, XA], [('text content', XE)])
p('C22', 'Line breaks are white space', r'''Any line break (LF, CR LF, CR) converts as a space does, wherever XML allows white space: inside tags, between attributes, between elements and inside token text.''', I,
  'all documents, all places of line breaks', 'The tests have line breaks between elements only.', [XA], [('line break removal', XA)])
p('C23', 'The mml prefix of elements does not matter', r'''A document converts as the same document with the prefix mml: on any or all of its elements, with or without its namespace declaration. The characters mml: in a token text stay.''', I,
  'all documents, all subsets of elements', 'The tests contain one document with the prefix.', [XA], [('prefix removal', XA)])
p('C24', 'Every formula of a document is converted once, in order', r'''The conversion of a document with several math elements, inside any other markup, is the conversions of these elements in document order separated by a space, and empty without any. A math
 element inside another one counts as a group and is converted once.''', I, 'all numbers and nestings of math elements', 'The tests have one math element per document.', [XA, CV], [('math element search', XA), ('convert', CV)])
p('C25', 'Attributes without meaning change nothing', r'''An attribute that has no meaning on an element (id, class, style, display, or one that has a meaning on other elements only) never changes the result, whatever its value. Quotes, order and spacing of
 attributes do not matter.''', I, 'all elements, all attributes, all values', 'The tests contain such attributes on a few elements with fixed values.', [XE, UC], [('attribute conversion', XE), ('attribute lookups', UC)])
p('C26', 'Styled letters and digits stay the letters they are', r'''A character that Unicode defines as a font variant of an ASCII letter or digit is never rendered as another letter or digit. In mi, mo and mtext a mathematical capital in one plain alphabet (bold, italic, script,
 fraktur, double-struck, sans-serif), and a bold or double-struck digit, becomes its base letter or digit in \mathbf, \mathit, \mathcal, \mathfrak, \mathbb or \mathsf; in mi and mtext an italic small letter becomes the plain letter.''', I,
  CHAR, SAMPLE, [SY, UC], [('special_font_chars and other tables', SY), ('Character, Operator', UC)])
p('C27', 'Accented letters keep their letter and their accent', r'''A precomposed Latin letter is never rendered with another base letter, nor with a mark that it does not have. The common ones (%d letters with one of ten marks) become the accent command around the letter in mi, mo and
 mtext, and stay as they are in mn.''', I, CHAR, SAMPLE, [SY, UC], [('vowels_with_accents, accent_to_ltx_cmd', SY), ('Character, Operator', UC)])
p('C28', 'Greek letters become their own commands', r'''A Greek letter that has a LaTeX command becomes that command in mi, mo and mtext (capital letters their capital command) and stays as it is in mn; so do the ohm, micro and increment signs and, in mo, the percent-encoded letters. Under a
 mathvariant the command is wrapped in the font. A bold capital stands for the letter it shows.''', I, CHAR, SAMPLE, [SY, UC], [('tables', SY), ('Character, Operator', UC)])
p('C29', 'Operators become the commands of their names', r'''Each of some 230 operators, relations, arrows and big operators that have a LaTeX command becomes that command in mo, and that command or the character itself in mi and mtext. ASCII operators of one or two characters keep their
 characters, brackets alone in mo become one-sided \left or \right pairs, and function names keep their letters.''', I, CHAR, SAMPLE, [SY, UC], [('operator tables', SY), ('Operator', UC)])
p('C30', 'No operator is turned around or loses its negation', r'''An arrow that points in one direction is never rendered as one that points in the opposite direction, a negated relation is never rendered without a negation, and an ordered relation (less or greater, subset or
 superset, precedes or succeeds) is never rendered as its converse.''', I, CHAR, SAMPLE, [SY], [('operator tables', SY)])
p('C31', 'Number characters keep their value', r'''Vulgar fractions, circled numbers up to 50 and superscript and subscript digits become \dfrac or \frac, \textcircled and ^{} or _{} of their own value in every token element. No other digit character is rendered
 with another digit.''', I, CHAR, SAMPLE, [SY, UC], [('number table', SY)])
p('C32', 'No visible character disappears', r'''A token whose text is one character that is not white space never converts to an empty result, and of two characters neither disappears. Characters of scripts without a LaTeX counterpart are passed on unchanged.''', I, CHAR, SAMPLE, [SY, UC],
  [('table lookups with fallback', UC), ('tables', SY)])
p('C33', 'Braces in the result are balanced', r'''In every result each { that is not escaped has its } and none closes too early, whatever the elements, their texts and their attributes are.''', I, 'all documents', 'The tests compare fixed results.', [UC, SY, ES],
  [('all element conversions', UC), ('tables', SY)])
p('C34', r'Groups, \left \right pairs and environments nest properly', r'''In every result groups, \left ... \right pairs and \begin ... \end pairs are closed by their counterparts in the reverse order of their opening, whatever the elements, their texts and their attributes are.''', I, 'all documents',
  'The tests compare fixed results.', [UC, SY], [('all element conversions', UC)])
p('C35', 'Conversions do not depend on earlier ones', r'''The result, or the error, of a conversion is the same in a new process and after any other conversions, failed ones included, and repeating a conversion repeats its result.''', ['histories', 'inputs'], 'all sequences of conversions of all documents',
  'The tests run in a fixed order and never compare a conversion with its repetition.', [CV, UC, XA], [('no state between conversions', CV), ('element flags', UC)])
p('C36', 'Concurrent conversions do not influence each other', r'''Two conversions that run in two threads, interleaved in any way, give what each gives alone.''', ['schedules', 'inputs'], 'all interleavings of all conversions', 'The tests use one thread.', [CV, UC, XA],
  [('no shared state', CV)])
p('C37', 'An element is rendered the same wherever it stands', r'''Up to spaces, the conversion of a token, or of a fraction, script, root, fence, style or accent, inside another element is its conversion alone at the place of that part, and does not depend on its siblings or on how often it occurs.''',
  ['inputs'], 'all elements with all texts at all places', FEW, [UC, AD], [('recursive conversion', UC)])

p('C38', 'Composite signs keep the sign they are built on', r'''A sign that Unicode names after another one (an integral, union, intersection, logical and, logical or, element, empty set, angle, square, triangle, turnstile and so on, with or without a dot, bar or circumflex)
 becomes LaTeX that contains the command of that sign and of its dot or bar, or stays as it is. A sign named as one sign above another becomes these two, in that order.''', I, CHAR, SAMPLE, [SY], [('operator tables', SY)])
p('C39', 'Brackets face the right way and nothing switches modes', r'''A character that Unicode classes as an opening (closing) bracket becomes an opening (closing) delimiter and never the other one. No single character becomes \( \) \[ \] or an unescaped $, which start or end math mode.''', I, CHAR, SAMPLE,
  [SY, UC], [('bracket entries of the operator tables', SY), ('Operator, Character', UC)])
p('C40', 'Only commands LaTeX has are written, with arguments', r'''Every command that a single character becomes, in any token element, is one that LaTeX, amsmath, amssymb or a common symbol package defines; a font, accent, fraction or stacking command is followed by as many non-empty
 arguments as it takes.''', I, CHAR, SAMPLE, [SY, UC], [('all tables', SY), ('Character, Operator, TextCommand', UC)])
p('C41', 'Invisible characters and spaces show nothing', r'''A format character (invisible operators, joiners, direction marks) or a space character as a whole token becomes itself, a LaTeX space or nothing, but never a visible sign.''', I, 'all format and space characters, in all token elements',
  SAMPLE, [SY, UC], [('operator tables', SY), ('Character, Operator', UC)])


def main():
    import importlib
    import props
    checks = []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for pid, d in sorted(P.items()):
            mod = importlib.import_module('props.' + props.MODULE_OF[pid])
            if pid == 'C27':
                d['statement'] = d['statement'] % len(mod.ACC)
            d['anchors']['files'] = sorted(set(d['anchors']['files']))
            assert len(d['title']) <= 80, pid
            f.write(json.dumps(d, ensure_ascii=True) + '\n')
            checks.append(dict(
                property=pid,
                quick_cmd='python3-vt run.py %s --tier quick' % pid,
                thorough_cmd='python3-vt run.py %s --tier thorough' % pid,
                technique='symbolic execution of the real Python code with z3; counterexamples replayed on the unmodified code',
                level='model_checking',
                level_note='Holds for every value within the bounds: %s. Outside them nothing is claimed. Trusts z3, the models of str, re, dict and '
                           'xml.dom.minidom in sx/ (each explored path is validated by running the real code on a model of the path) and the expectations in props/.' % mod.BOUNDS[pid]))
    na = []
    json.dump(dict(version=1, setup_cmd='python3-vt selftest.py', checks=checks, not_applicable=na,
                   notes='Known findings are in known_findings.json; DESIGN.md describes the engine, the bounds and the planted bugs.'),
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()

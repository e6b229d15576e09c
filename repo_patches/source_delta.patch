From d57308a7058edd28e3520a5f24023bdc50433bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 01/32] fix: treat a line break in the source as white space
 instead of deleting it

<mfenced NEWLINE open="["> lost the separator between the tag and its attribute and could not be parsed, and words on two
lines of a token were glued together.
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c41805a..c129ecb 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -28,7 +28,7 @@ class XmlToMathMLAdapter:
 
     def _remove_line_breaks(self, xml: str) -> str:
         line_break_pattern = re.compile(r"\n|\r\n|\r")
-        return line_break_pattern.sub("", xml)
+        return line_break_pattern.sub(" ", xml).strip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         ms_word_prefix_pattern = re.compile(r"mml:")
-- 
2.43.0


From cfdcd82434b1619a23532c3d7ec1377612521228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 02/32] fix: remove the mml: prefix from tags only, not from
 token text

<mtext>mml:x</mtext> lost the first four characters of its text.
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c129ecb..e722f5a 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -31,8 +31,10 @@ class XmlToMathMLAdapter:
         return line_break_pattern.sub(" ", xml).strip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-        ms_word_prefix_pattern = re.compile(r"mml:")
-        return ms_word_prefix_pattern.sub("", xml)
+        ms_word_prefix_pattern = re.compile(r"(?<=[</\s])mml:")
+        return re.sub(
+            r"<[^>]*>", lambda tag: ms_word_prefix_pattern.sub("", tag.group()), xml
+        )
 
     @property
     def _mathml_elements(self) -> List[Element]:
-- 
2.43.0


From 2057145c1be63b27f05e6ea356616beb73f6ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 03/32] fix: read the whole text of a token and nothing but its
 text

The value was the first child node, whatever its kind: a leading comment or processing instruction was
rendered as the token's text, and the text after a comment or CDATA section was dropped.
---
 .../services/xml_elements_to_mathml_element.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
index b861b9b..c6afbd4 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
@@ -20,9 +20,7 @@ class ElementsToMathMLAdapter:
     def _convert_element(self, el: DOMElement) -> MathMLElement:
         attributes = self._convert_element_attributes(el.attributes)
         has_children = self._has_element_child(el)
-        value = (
-            "" if has_children else (el.firstChild.nodeValue if el.firstChild else "")
-        )
+        value = "" if has_children else self._text_content(el)
 
         children = (
             self.convert(
@@ -43,6 +41,13 @@ class ElementsToMathMLAdapter:
             attributes=attributes,
         )
 
+    def _text_content(self, el: DOMElement) -> str:
+        return "".join(
+            child.data
+            for child in el.childNodes
+            if child.nodeType in (Node.TEXT_NODE, Node.CDATA_SECTION_NODE)
+        )
+
     def _convert_element_attributes(self, attributes) -> Dict[str, str]:
         attr_dict = {}
         for attr in attributes.values():
-- 
2.43.0


From 193bf480f54afcc20433b0bb870a753aea817943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 04/32] fix: report an maction without children as a
 child-count error

It ended in IndexError.
---
 src/mathml_to_latex/el_to_tex/usecases.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 60a67b4..d5cb4ef 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -508,6 +508,11 @@ class MAction(ToLaTeXConverter):
                 ]
             )
 
+        if not children:
+            raise InvalidNumberOfChildrenError(
+                self._math_element.name, 1, len(children), "at least"
+            )
+
         return self._adapter.to_latex_converter(children[0]).convert()
 
     def _is_toggle(self) -> bool:
-- 
2.43.0


From a7cafeae200815d3f0ab0d291c80f17573e95174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 05/32] fix: bevelled="false" does not ask for a bevelled
 fraction

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index d5cb4ef..1a864e4 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -470,7 +470,7 @@ class MFrac(ToLaTeXConverter):
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(val)
 
     def _is_bevelled(self) -> bool:
-        return bool(self._math_element.attributes.get("bevelled"))
+        return self._math_element.attributes.get("bevelled", "") not in ("", "false")
 
 
 class MRoot(ToLaTeXConverter):
-- 
2.43.0


From 29810bed85a0051a717a2944a1bb9c12387bea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 06/32] fix: separate the formulas of several math elements by
 a space

\alpha followed by x in the next math element became the unknown command \alphax.
---
 src/mathml_to_latex/converter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mathml_to_latex/converter.py b/src/mathml_to_latex/converter.py
index 348a2bf..d6ec449 100644
--- a/src/mathml_to_latex/converter.py
+++ b/src/mathml_to_latex/converter.py
@@ -10,9 +10,12 @@ class MathMLToLaTeX:
             MathMLElementToLatexConverterAdapter().to_latex_converter(mathml_element)
             for mathml_element in mathml_elements
         ]
-        return "".join(
-            [
-                to_latex_converters.convert()
-                for to_latex_converters in mathml_elements_to_latex_converters
-            ]
+        return " ".join(
+            filter(
+                None,
+                [
+                    to_latex_converters.convert()
+                    for to_latex_converters in mathml_elements_to_latex_converters
+                ],
+            )
         ).strip()
-- 
2.43.0


From 1d6deccb777fad636aab3193d215f360d10d8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 07/32] fix: convert a math element nested in another one once

It was converted as part of the outer element and again on its own.
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index e722f5a..07e6927 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -44,10 +44,18 @@ class XmlToMathMLAdapter:
             try:
                 dom = parseString(self._xml)
                 elements = dom.getElementsByTagName("math")
-                return list(elements)
+                return [el for el in elements if not self._is_inside_math(el)]
             except Exception as e:
                 self._fix_error(e)
                 exception = e
 
         if exception:
             raise exception
+
+    def _is_inside_math(self, element: Element) -> bool:
+        parent = element.parentNode
+        while parent is not None:
+            if parent.nodeName == "math":
+                return True
+            parent = parent.parentNode
+        return False
-- 
2.43.0


From ecd8cd7e5bf3014333003a9964f7c4fef3fb01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 08/32] fix: escape the characters LaTeX reserves in token text

<mn>50%</mn>, <mi>a_b</mi> and <mtext>{</mtext> came out raw: a comment, a subscript and an unbalanced
brace for LaTeX.
---
 .../el_to_tex/services/escaper.py             | 21 +++++++++++++++++++
 src/mathml_to_latex/el_to_tex/usecases.py     | 17 ++++++++++++---
 2 files changed, 35 insertions(+), 3 deletions(-)
 create mode 100644 src/mathml_to_latex/el_to_tex/services/escaper.py

diff --git a/src/mathml_to_latex/el_to_tex/services/escaper.py b/src/mathml_to_latex/el_to_tex/services/escaper.py
new file mode 100644
index 0000000..0c6a20d
--- /dev/null
+++ b/src/mathml_to_latex/el_to_tex/services/escaper.py
@@ -0,0 +1,21 @@
+import re
+
+special_chars_to_ltx = {
+    "\\": "\\backslash ",
+    "{": "\\{",
+    "}": "\\}",
+    "_": "\\_",
+    "^": "\\hat{} ",
+    "~": "\\sim ",
+    "#": "\\#",
+    "$": "\\$",
+    "%": "\\%",
+    "&": "\\&",
+}
+
+
+class SpecialCharsEscaper:
+    def escape(self, value: str) -> str:
+        return re.sub(
+            r"[\\{}_^~#$%&]", lambda char: special_chars_to_ltx[char.group()], value
+        ).strip()
diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 1a864e4..f1d19d7 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -16,6 +16,7 @@ from .protocols import (
     InvalidNumberOfChildrenError,
     MIMathMlElement,
 )
+from .services.escaper import SpecialCharsEscaper
 from .services.normalizer import WhiteSpaceNormalizer
 from .services.wrapper import (
     ParenthesisWrapper,
@@ -119,9 +120,15 @@ class Character:
             self._find_by_character()
             or self._find_by_glyph()
             or self._find_by_number()
-            or HashUTF8ToLtXConverter().convert(self.value)
+            or self._convert_or_escape()
         )
 
+    def _convert_or_escape(self) -> str:
+        converted_value = HashUTF8ToLtXConverter().convert(self.value)
+        if converted_value != self.value:
+            return converted_value
+        return SpecialCharsEscaper().escape(self.value)
+
     def _find_by_character(self) -> str:
         return all_math_symbols_by_char.get(self.value, "")
 
@@ -169,7 +176,11 @@ class Operator:
             return latex_command
 
         # Fallback to converting using HashUTF8ToLtXConverter
-        return HashUTF8ToLtXConverter().convert(self._value)
+        converted_value = HashUTF8ToLtXConverter().convert(self._value)
+        if converted_value != self._value:
+            return converted_value
+
+        return SpecialCharsEscaper().escape(self._value)
 
     def _find_by_character(self) -> Optional[str]:
         return all_math_operators_by_char.get(self._value)
@@ -190,7 +201,7 @@ class MN(ToLaTeXConverter):
         normalized_value = self._normalizer.normalize(self._math_element.value).strip()
         converted_value = math_number_by_glyph.get(normalized_value, "")
 
-        return converted_value or normalized_value
+        return converted_value or SpecialCharsEscaper().escape(normalized_value)
 
 
 class MSup(ToLaTeXConverter):
-- 
2.43.0


From 5dd75503ae7f27f9a22145953029cfd7b7423651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:10 +0000
Subject: [PATCH 09/32] fix: write the brace delimiters of mo as \{ and \}

\left{ and \right} are not LaTeX delimiters.
---
 src/mathml_to_latex/syntax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index a8e8050..0257ae8 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -2060,8 +2060,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2309;': '\\rceil',
     '&#x2308;': '\\lceil',
     '&#x2016;': '\\parallel',
-    '}': '\\left.\\right}',
-    '{': '\\left{\\right.',
+    '}': '\\left.\\right\\}',
+    '{': '\\left\\{\\right.',
     ']': '\\left]\\right.',
     '[': '\\left[\\right.',
     ')': '\\left.\\right)',
@@ -3179,8 +3179,8 @@ all_math_operators_by_glyph = {
   '⌉': '\\rceil',
   '⌈': '\\lceil',
   '‖': '\\parallel',
-  '}': '\\left.\\right}',
-  '{': '\\left{\\right.',
+  '}': '\\left.\\right\\}',
+  '{': '\\left\\{\\right.',
   ']': '\\left]\\right.',
   '[': '\\left[\\right.',
   ')': '\\left.\\right)',
-- 
2.43.0


From b972e7293e3a90af4385077dd93c65b35ec0bfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 10/32] fix: map the bold Greek capitals to the letters they
 are

---
 src/mathml_to_latex/syntax.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 0257ae8..dc6a417 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -419,24 +419,24 @@ special_font_chars: Dict[str, SpecialFontChar] = {
     '𝚪': SpecialFontChar(letter='\\Gamma', font_cmd='mathtt'),
     '𝚫': SpecialFontChar(letter='\\Delta', font_cmd='mathtt'),
     '𝚬': SpecialFontChar(letter='E', font_cmd='mathtt'),
-    '𝚭': SpecialFontChar(letter='F', font_cmd='mathtt'),
-    '𝚮': SpecialFontChar(letter='G', font_cmd='mathtt'),
+    '𝚭': SpecialFontChar(letter='Z', font_cmd='mathtt'),
+    '𝚮': SpecialFontChar(letter='H', font_cmd='mathtt'),
     '𝚯': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
     '𝚰': SpecialFontChar(letter='I', font_cmd='mathtt'),
-    '𝚱': SpecialFontChar(letter='J', font_cmd='mathtt'),
+    '𝚱': SpecialFontChar(letter='K', font_cmd='mathtt'),
     '𝚲': SpecialFontChar(letter='\\Lambda', font_cmd='mathtt'),
-    '𝚳': SpecialFontChar(letter='L', font_cmd='mathtt'),
-    '𝚴': SpecialFontChar(letter='M', font_cmd='mathtt'),
-    '𝚵': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
+    '𝚳': SpecialFontChar(letter='M', font_cmd='mathtt'),
+    '𝚴': SpecialFontChar(letter='N', font_cmd='mathtt'),
+    '𝚵': SpecialFontChar(letter='\\Xi', font_cmd='mathtt'),
     '𝚶': SpecialFontChar(letter='O', font_cmd='mathtt'),
     '𝚷': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
-    '𝚸': SpecialFontChar(letter='Q', font_cmd='mathtt'),
-    '𝚹': SpecialFontChar(letter='R', font_cmd='mathtt'),
-    '𝚺': SpecialFontChar(letter='S', font_cmd='mathtt'),
+    '𝚸': SpecialFontChar(letter='P', font_cmd='mathtt'),
+    '𝚹': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
+    '𝚺': SpecialFontChar(letter='\\Sigma', font_cmd='mathtt'),
     '𝚻': SpecialFontChar(letter='T', font_cmd='mathtt'),
-    '𝚼': SpecialFontChar(letter='U', font_cmd='mathtt'),
+    '𝚼': SpecialFontChar(letter='\\Upsilon', font_cmd='mathtt'),
     '𝚽': SpecialFontChar(letter='\\Phi', font_cmd='mathtt'),
-    '𝚾': SpecialFontChar(letter='W', font_cmd='mathtt'),
+    '𝚾': SpecialFontChar(letter='X', font_cmd='mathtt'),
     '𝚿': SpecialFontChar(letter='\\Psi', font_cmd='mathtt'),
     '𝛀': SpecialFontChar(letter='\\Omega', font_cmd='mathtt'),
 }
-- 
2.43.0


From 375d284a1c279ad4d010577448772ab124ef105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 11/32] fix: name the right base letter or accent for e with
 inverted breve and z with dot above

---
 src/mathml_to_latex/syntax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index dc6a417..2afa988 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -73,7 +73,7 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'ë': AccentChar(char='e', accent='¨'),
     'ę': AccentChar(char='e', accent='˙'),
     'ě': AccentChar(char='e', accent='ˇ'),
-    'ȇ': AccentChar(char='i', accent='^'),
+    'ȇ': AccentChar(char='e', accent='^'),
     'ё': AccentChar(char='e', accent='¨'),
     'ē': AccentChar(char='e', accent='-'),
     'í': AccentChar(char='i', accent='´'),
@@ -186,8 +186,8 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'Ĵ': AccentChar(char='J', accent='^'),
     'ź': AccentChar(char='z', accent='´'),
     'Ź': AccentChar(char='Z', accent='´'),
-    'Ż': AccentChar(char='Z', accent='^'),
-    'ż': AccentChar(char='z', accent='^'),
+    'Ż': AccentChar(char='Z', accent='˙'),
+    'ż': AccentChar(char='z', accent='˙'),
     'Ž': AccentChar(char='Z', accent='ˇ'),
     'ž': AccentChar(char='z', accent='ˇ'),
     'ẑ': AccentChar(char='z', accent='ˆ'),
-- 
2.43.0


From ca35f251cb7803de6718a822b326aa296679ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 12/32] fix: convert the circled times, circled plus and ring
 operators in mi to their commands

---
 src/mathml_to_latex/syntax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 2afa988..063b04a 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -567,9 +567,9 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     '∏': r'\prod',
     '∑': r'\sum',
     '⊙': r'\bigodot',
-    '⊗': r'\bigoplus',
-    '⊕': 'o+',
-    '∘': '@',
+    '⊗': r'\bigotimes',
+    '⊕': r'\oplus',
+    '∘': r'\circ',
     '⋈': r'\bowtie',
     '⋊': r'\rtimes',
     '⋉': r'\ltimes',
-- 
2.43.0


From bf5c91fb2f6ff78e0162d81f9f0959afbed38a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 13/32] fix: remove a valueless attribute from tags only, not
 its name from the whole document

---
 src/mathml_to_latex/xml_to_mathml/services/error_handler.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 34c6b6c..743ee0c 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -37,7 +37,7 @@ class ErrorHandler:
         word = self._get_word_at_str_pos(goal_line, error_offset)
 
         pattern = self._match_missing_value_for_attribute(word)
-        return re.sub(pattern, "", xml)
+        return re.sub(r"<[^>]*>", lambda tag: re.sub(pattern, "", tag.group()), xml)
 
     def _match_missing_value_for_attribute(self, attribute: str) -> re.Pattern:
         """
@@ -45,9 +45,7 @@ class ErrorHandler:
         without a value (i.e., attribute= not followed by " or ').
         """
         escaped_attribute = re.escape(attribute)
-        regex_pattern = (
-            rf'({escaped_attribute}=(?!(["\'])))|({escaped_attribute}(?!(["\'])))'
-        )
+        regex_pattern = rf'(?<=\s){escaped_attribute}(?:=(?!["\'])|(?=[\s>/]))'
         return re.compile(regex_pattern, re.MULTILINE)
 
     def _math_generic_missing_value(self) -> re.Pattern:
-- 
2.43.0


From 8e04046b0a601375804f63af634b300ac37ba6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 14/32] fix: keep every script pair of mmultiscripts

---
 src/mathml_to_latex/el_to_tex/usecases.py | 47 +++++++++++------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index f1d19d7..39bfe43 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -1,6 +1,7 @@
 from typing import Optional, List
 import re
 from enum import Enum
+from itertools import zip_longest
 
 from ..syntax import (
     HashUTF8ToLtXConverter,
@@ -795,37 +796,33 @@ class MMultiscripts(ToLaTeXConverter):
         )
 
     def _prescript_latex(self) -> str:
-        children = self._math_element.children
-
-        if len(children) >= 4 and self._is_prescripts(children[1]):
-            sub = children[2]
-            sup = children[3]
-        elif len(children) >= 6 and self._is_prescripts(children[3]):
-            sub = children[4]
-            sup = children[5]
-        else:
-            return ""
+        scripts = self._math_element.children[1:]
+        prescripts = scripts[self._prescripts_position(scripts) + 1 :]
 
-        sub_latex = self._adapter.to_latex_converter(sub).convert()
-        sup_latex = self._adapter.to_latex_converter(sup).convert()
-
-        return f"\\_{{{sub_latex}}}^{{{sup_latex}}}"
+        return "".join(f"\\{pair}" for pair in self._script_pairs(prescripts))
 
     def _postscript_latex(self) -> str:
-        children = self._math_element.children
+        scripts = self._math_element.children[1:]
+        postscripts = scripts[: self._prescripts_position(scripts)]
 
-        if len(children) < 3 or (
-            len(children) >= 1 and self._is_prescripts(children[1])
-        ):
-            return ""
-
-        sub = children[1]
-        sup = children[2]
+        return "{}".join(self._script_pairs(postscripts))
 
-        sub_latex = self._adapter.to_latex_converter(sub).convert()
-        sup_latex = self._adapter.to_latex_converter(sup).convert()
+    def _prescripts_position(self, scripts: List[MathMLElement]) -> int:
+        for position, script in enumerate(scripts):
+            if self._is_prescripts(script):
+                return position
+        return len(scripts)
 
-        return f"_{{{sub_latex}}}^{{{sup_latex}}}"
+    def _script_pairs(self, scripts: List[MathMLElement]) -> List[str]:
+        latex_scripts = [
+            self._adapter.to_latex_converter(script).convert() for script in scripts
+        ]
+        return [
+            f"_{{{sub}}}^{{{sup}}}"
+            for sub, sup in zip_longest(
+                latex_scripts[0::2], latex_scripts[1::2], fillvalue=""
+            )
+        ]
 
     def _wrap_in_parenthesis_if_there_is_space(self, val: str) -> str:
         if not re.search(r"\s+", val):
-- 
2.43.0


From 8b8cdd4def99e33caf6193286f3b638f50e34b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:01 +0000
Subject: [PATCH 15/32] fix: keep tabs and no-break spaces of mtext as spaces

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 39bfe43..eae04c8 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -672,7 +672,7 @@ class MText(ToLaTeXConverter):
 
     def convert(self) -> str:
         attributes = self._math_element.attributes
-        value = self._math_element.value
+        value = re.sub(r"\s", " ", self._math_element.value)
 
         chars = [
             (
-- 
2.43.0


From a881076ad05ec178960ee2ce059cfc7a3c5cc766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 16/32] fix: pass arrows on instead of dropping them

fix: pass arrows and CJK characters on instead of dropping them
---
 src/mathml_to_latex/syntax.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 063b04a..00a7e66 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -636,10 +636,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     "↛'": r'\nrightarrow',
     '†': r'\dagger',
     'เ': r'\prime',
-    '白': ' ',
-    '⿱': ' ',
     'ℸ': r'\wp',
-    '픀': ' ',
     'ⁿ': r'^{n}',
     '✔': r'\checkmark',
     '✗': r'\times',
@@ -2348,23 +2345,23 @@ all_math_operators_by_glyph = {
   '⤴': '\\uparrow',
   '⤳': '\\rightarrow',
   '⤲': '\\leftarrow',
-  '⤱': ' ',
-  '⤰': ' ',
-  '⤯': ' ',
-  '⤮': ' ',
-  '⤭': ' ',
+  '⤱': '',
+  '⤰': '',
+  '⤯': '',
+  '⤮': '',
+  '⤭': '',
   '⤬': '\\times',
   '⤫': '\\times',
-  '⤪': ' ',
-  '⤩': ' ',
-  '⤨': ' ',
-  '⤧': ' ',
-  '⤦': ' ',
-  '⤥': ' ',
-  '⤤': ' ',
-  '⤣': ' ',
-  '⤢': ' ',
-  '⤡': ' ',
+  '⤪': '',
+  '⤩': '',
+  '⤨': '',
+  '⤧': '',
+  '⤦': '',
+  '⤥': '',
+  '⤤': '',
+  '⤣': '',
+  '⤢': '',
+  '⤡': '',
   '⤠': '\\mapsto\\cdot',
   '⤟': '\\cdot\\leftarrow',
   '⤞': '\\rightarrow\\cdot',
-- 
2.43.0


From 50a0486cf45e25d6584f5e2e8a189fb74c42853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 17/32] fix: write the commands \sim, \geq and \hcancel of five
 operators in full

---
 src/mathml_to_latex/syntax.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 00a7e66..b7d7e76 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1633,7 +1633,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x29FA;': '\\hcancel{||}',
     '&#x29F9;': '\\backslash',
     '&#x29F8;': '/',
-    '&#x29F7;': 'hcancel{\backslash}',
+    '&#x29F7;': '\\hcancel{\\backslash}',
     '&#x29F6;': '',
     '&#x29F5;': '\\backslash',
     '&#x29F2;': '\\Phi',
@@ -1798,12 +1798,12 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2278;': '\\not\\overset{>}{<}',
     '&#x2277;': '\\overset{>}{<}',
     '&#x2276;': '\\overset{<}{>}',
-    '&#x2275;': '\\not\\geg',
+    '&#x2275;': '\\not\\geq',
     '&#x2274;': '\\not\\leq',
-    '&#x2273;': '\\geg',
+    '&#x2273;': '\\geq',
     '&#x2272;': '\\leq',
     '&#x226C;': '',
-    '&#x2267;': '\\geg',
+    '&#x2267;': '\\geq',
     '&#x2266;&#x338;': '\\not\\leq',
     '&#x2266;': '\\leq',
     '&#x2263;': '\\overset{=}{=} ',
@@ -1957,7 +1957,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2260;': '\\neq',
     '&#x2262;': '\\equiv /',
     '&#x2249;': '\\approx /',
-    '&#x223C;': 'sim',
+    '&#x223C;': '\\sim',
     '&#x2248;': '\\approx',
     '&#x226E;': '</',
     '&lt;': '<',
@@ -2753,7 +2753,7 @@ all_math_operators_by_glyph = {
   '⧺': '\\hcancel{||}',
   '⧹': '\\backslash',
   '⧸': '/',
-  '⧷': 'hcancel{\backslash}',
+  '⧷': '\\hcancel{\\backslash}',
   '⧶': '',
   '⧵': '\\backslash',
   '⧲': '\\Phi',
@@ -2921,12 +2921,12 @@ all_math_operators_by_glyph = {
   '≸': '\\not\\overset{>}{<}',
   '≷': '\\overset{>}{<}',
   '≶': '\\overset{<}{>}',
-  '≵': '\\not\\geg',
+  '≵': '\\not\\geq',
   '≴': '\\not\\leq',
-  '≳': '\\geg',
+  '≳': '\\geq',
   '≲': '\\leq',
   '≬': '',
-  '≧': '\\geg',
+  '≧': '\\geq',
   '≦̸': '\\not\\leq',
   '≦': '\\leq',
   '≣': '\\overset{=}{=} ',
@@ -3079,7 +3079,7 @@ all_math_operators_by_glyph = {
   '≠': '\\neq',
   '≢': '\\equiv /',
   '≉': '\\approx /',
-  '∼': 'sim',
+  '∼': '\\sim',
   '≈': '\\approx',
   '≮': '</',
   '<': '<',
-- 
2.43.0


From 76f559476e0f43203ef092ddbcdf9916d6a374c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 18/32] fix: negate what the negated relations negate

---
 src/mathml_to_latex/syntax.py | 44 +++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index b7d7e76..94bba4b 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1520,7 +1520,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2A8C;': '\\gtreqqless',
     '&#x2A8B;': '\\lesseqqgtr',
     '&#x2A8A;': '\\underset{\\cancel{\\approx}}{>}',
-    '&#x2A89;': '\\underset{\\approx}{<}',
+    '&#x2A89;': '\\underset{\\cancel{\\approx}}{<}',
     '&#x2A86;': '\\underset{\\approx}{>}',
     '&#x2A85;': '\\underset{\\approx}{<}',
     '&#x2A84;': '',
@@ -1731,12 +1731,12 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x22F3;': '\\in',
     '&#x22F2;': '\\in',
     '&#x22F0;': '\\ddots',
-    '&#x22E9;': '\\underset{\\sim}{\\succ}',
-    '&#x22E8;': '\\underset{\\sim}{\\prec}',
+    '&#x22E9;': '\\underset{\\not\\sim}{\\succ}',
+    '&#x22E8;': '\\underset{\\not\\sim}{\\prec}',
     '&#x22E7;': '\\underset{\\not\\sim}{>}',
     '&#x22E6;': '\\underset{\\not\\sim}{<}',
-    '&#x22E5;': '\\not\\sqsupseteq',
-    '&#x22E4;': '\\not\\sqsubseteq',
+    '&#x22E5;': '\\sqsupsetneq',
+    '&#x22E4;': '\\sqsubsetneq',
     '&#x22E3;': '\\not\\sqsupseteq',
     '&#x22E2;': '\\not\\sqsubseteq',
     '&#x22E1;': '\\nsucc',
@@ -1850,8 +1850,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2AB0;': '\\succeq',
     '&#x2AAF;&#x338;': '\\npreceq',
     '&#x2AAF;': '\\preceq',
-    '&#x2A88;': '\\ngeqslant',
-    '&#x2A87;': '\\nleqslant',
+    '&#x2A88;': '\\gneq',
+    '&#x2A87;': '\\lneq',
     '&#x29F3;': '\\Phi',
     '&#x29E6;': '\\models',
     '&#x29E5;': '\\not\\equiv',
@@ -1913,7 +1913,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x22B4;': '',
     '&#x22A5;': '\\bot',
     '&#x2281;': '\\nsucc',
-    '&#x2280;': '\\preceq',
+    '&#x2280;': '\\nprec',
     '&#x227D;': '\\succeq',
     '&#x227C;': '\\preceq',
     '&#x227B;': '\\succ',
@@ -1925,8 +1925,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x226B;': '\\gg',
     '&#x226A;&#x338;': '\\not\\ll',
     '&#x226A;': '\\ll',
-    '&#x2269;': '\\ngeqslant',
-    '&#x2268;': '\\nleqslant',
+    '&#x2269;': '\\gneqq',
+    '&#x2268;': '\\lneqq',
     '&#x2261;': '\\equiv',
     '&#x225F;': '\\doteq',
     '&#x225C;': '\\triangleq',
@@ -1992,7 +1992,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x22AF;': '\\cancel{\\vDash}',
     '&#x22AE;': '\\cancel{\\Vdash}',
     '&#x22AD;': '\\nvDash',
-    '&#x22AC;': '\\nvDash',
+    '&#x22AC;': '\\nvdash',
     '&#x22A9;': '\\Vdash',
     '&#x22A8;': '\\vDash',
     '&#x22A4;': '\\top',
@@ -2639,7 +2639,7 @@ all_math_operators_by_glyph = {
   '⪌': '\\gtreqqless',
   '⪋': '\\lesseqqgtr',
   '⪊': '\\underset{\\cancel{\\approx}}{>}',
-  '⪉': '\\underset{\\approx}{<}',
+  '⪉': '\\underset{\\cancel{\\approx}}{<}',
   '⪆': '\\underset{\\approx}{>}',
   '⪅': '\\underset{\\approx}{<}',
   '⪄': '',
@@ -2852,12 +2852,12 @@ all_math_operators_by_glyph = {
   '⋲': '\\in',
   '⋰': '\\ddots',
   '։': ':',
-  '⋩': '\\underset{\\sim}{\\succ}',
-  '⋨': '\\underset{\\sim}{\\prec}',
+  '⋩': '\\underset{\\not\\sim}{\\succ}',
+  '⋨': '\\underset{\\not\\sim}{\\prec}',
   '⋧': '\\underset{\\not\\sim}{>}',
   '⋦': '\\underset{\\not\\sim}{<}',
-  '⋥': '\\not\\sqsupseteq',
-  '⋤': '\\not\\sqsubseteq',
+  '⋥': '\\sqsupsetneq',
+  '⋤': '\\sqsubsetneq',
   '⋣': '\\not\\sqsupseteq',
   '⋢': '\\not\\sqsubseteq',
   '⋡': '\\nsucc',
@@ -2972,8 +2972,8 @@ all_math_operators_by_glyph = {
   '⪰': '\\succeq',
   '⪯̸': '\\npreceq',
   '⪯': '\\preceq',
-  '⪈': '\\ngeqslant',
-  '⪇': '\\nleqslant',
+  '⪈': '\\gneq',
+  '⪇': '\\lneq',
   '⧳': '\\Phi',
   '⧦': '\\models',
   '⧥': '\\not\\equiv',
@@ -3035,7 +3035,7 @@ all_math_operators_by_glyph = {
   '\\triangleleft': '',
   '⊥': '\\bot',
   '⊁': '\\nsucc',
-  '⊀': '\\preceq',
+  '⊀': '\\nprec',
   '≽': '\\succeq',
   '≼': '\\preceq',
   '≻': '\\succ',
@@ -3047,8 +3047,8 @@ all_math_operators_by_glyph = {
   '≫': '\\gg',
   '≪̸': '\\not\\ll',
   '≪': '\\ll',
-  '≩': '\\ngeqslant',
-  '≨': '\\nleqslant',
+  '≩': '\\gneqq',
+  '≨': '\\lneqq',
   '≡': '\\equiv',
   '≟': '\\doteq',
   '≜': '\\triangleq',
@@ -3114,7 +3114,7 @@ all_math_operators_by_glyph = {
   '⊯': '\\cancel{\\vDash}',
   '⊮': '\\cancel{\\Vdash}',
   '⊭': '\\nvDash',
-  '⊬': '\\nvDash',
+  '⊬': '\\nvdash',
   '⊩': '\\Vdash',
   '⊨': '\\vDash',
   '⊤': '\\top',
-- 
2.43.0


From e200576c8e26cfb868c99ee84e097045ad5f9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 19/32] fix: keep the direction of eight operators

---
 src/mathml_to_latex/syntax.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 94bba4b..44cc380 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1151,7 +1151,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x297E;': '',
     '&#x297D;': '\\prec',
     '&#x297C;': '\\succ',
-    '&#x297B;': '\\underset{\\rightarrow}{\\supset}',
+    '&#x297B;': '\\underset{\\leftarrow}{\\supset}',
     '&#x297A;': '',
     '&#x2979;': '\\underset{\\rightarrow}{\\subset}',
     '&#x2978;': '\\underset{\\rightarrow}{>}',
@@ -1304,7 +1304,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x21F3;': '\\Updownarrow',
     '&#x21F2;': '\\searrow',
     '&#x21F1;': '\\nwarrow',
-    '&#x21F0;': '\\Leftarrow',
+    '&#x21F0;': '\\Rightarrow',
     '&#x21EF;': '\\Uparrow',
     '&#x21EE;': '\\Uparrow',
     '&#x21ED;': '\\Uparrow',
@@ -1483,7 +1483,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2AB1;': '',
     '&#x2AAE;': '',
     '&#x2AAD;': '\\underline{\\hcancel{>}}',
-    '&#x2AAC;': '\\underline{\\hcancel{>}}',
+    '&#x2AAC;': '\\underline{\\hcancel{<}}',
     '&#x2AAB;': '\\hcancel{>}',
     '&#x2AAA;': '\\hcancel{<}',
     '&#x2AA9;': '',
@@ -1569,8 +1569,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2A5B;': '',
     '&#x2A5A;': '',
     '&#x2A59;': '',
-    '&#x2A58;': '\\vee',
-    '&#x2A57;': '\\wedge',
+    '&#x2A58;': '\\wedge',
+    '&#x2A57;': '\\vee',
     '&#x2A56;': '',
     '&#x2A55;': '',
     '&#x2A54;': '',
@@ -1719,9 +1719,9 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x22FF;': '\\Epsilon',
     '&#x22FE;': '\\overline{\\ni}',
     '&#x22FD;': '\\overline{\\ni}',
-    '&#x22FC;': '\\in',
-    '&#x22FB;': '\\in',
-    '&#x22FA;': '\\in',
+    '&#x22FC;': '\\ni',
+    '&#x22FB;': '\\ni',
+    '&#x22FA;': '\\ni',
     '&#x22F9;': '\\underline{\\in}',
     '&#x22F8;': '\\underline{\\in}',
     '&#x22F7;': '\\overline{\\in}',
@@ -2271,7 +2271,7 @@ all_math_operators_by_glyph = {
   '⥾': '',
   '⥽': '\\prec',
   '⥼': '\\succ',
-  '⥻': '\\underset{\\rightarrow}{\\supset}',
+  '⥻': '\\underset{\\leftarrow}{\\supset}',
   '⥺': '',
   '⥹': '\\underset{\\rightarrow}{\\subset}',
   '⥸': '\\underset{\\rightarrow}{>}',
@@ -2424,7 +2424,7 @@ all_math_operators_by_glyph = {
   '⇳': '\\Updownarrow',
   '⇲': '\\searrow',
   '⇱': '\\nwarrow',
-  '⇰': '\\Leftarrow',
+  '⇰': '\\Rightarrow',
   '⇯': '\\Uparrow',
   '⇮': '\\Uparrow',
   '⇭': '\\Uparrow',
@@ -2602,7 +2602,7 @@ all_math_operators_by_glyph = {
   '⪱': '',
   '⪮': '',
   '⪭': '\\underline{\\hcancel{>}}',
-  '⪬': '\\underline{\\hcancel{>}}',
+  '⪬': '\\underline{\\hcancel{<}}',
   '⪫': '\\hcancel{>}',
   '⪪': '\\hcancel{<}',
   '⪩': '',
@@ -2688,8 +2688,8 @@ all_math_operators_by_glyph = {
   '⩛': '',
   '⩚': '',
   '⩙': '',
-  '⩘': '\\vee',
-  '⩗': '\\wedge',
+  '⩘': '\\wedge',
+  '⩗': '\\vee',
   '⩖': '',
   '⩕': '',
   '⩔': '',
@@ -2839,9 +2839,9 @@ all_math_operators_by_glyph = {
   '⋿': '\\Epsilon',
   '⋾': '\\overline{\\ni}',
   '⋽': '\\overline{\\ni}',
-  '⋼': '\\in',
-  '⋻': '\\in',
-  '⋺': '\\in',
+  '⋼': '\\ni',
+  '⋻': '\\ni',
+  '⋺': '\\ni',
   '⋹': '\\underline{\\in}',
   '⋸': '\\underline{\\in}',
   '⋷': '\\overline{\\in}',
-- 
2.43.0


From cbea105ca398b9f01e45fedcbf05fae8fd28725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:27 +0000
Subject: [PATCH 20/32] fix: write minus-or-plus and dot minus as the operators
 they are

---
 src/mathml_to_latex/syntax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 44cc380..3d31fa2 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1130,7 +1130,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x229F;': '\\boxminus',
     '&#x229E;': '\\boxplus',
     '&#x2214;': '\\dot{+}',
-    '&#x2213;': '+-',
+    '&#x2213;': '\\mp',
     '&#x2212;': '-',
     '&#xB1;': '\\pm',
     '-': '-',
@@ -1832,7 +1832,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x223B;': '\\sim',
     '&#x223A;': ':-:',
     '&#x2239;': '-:',
-    '&#x2238;': '\\bot',
+    '&#x2238;': '\\dot{-}',
     '&#x2237;': '::',
     '&#x2236;': ':',
     '&#x2223;': '|',
@@ -2250,7 +2250,7 @@ all_math_operators_by_glyph = {
   '⊟': '\\boxminus',
   '⊞': '\\boxplus',
   '∔': '\\dot{+}',
-  '∓': '+-',
+  '∓': '\\mp',
   '−': '-',
   '±': '\\pm',
   '-': '-',
@@ -2955,7 +2955,7 @@ all_math_operators_by_glyph = {
   '∻': '\\sim',
   '∺': ':-:',
   '∹': '-:',
-  '∸': '\\bot',
+  '∸': '\\dot{-}',
   '∷': '::',
   '∶': ':',
   '∣': '\\mid',
-- 
2.43.0


From c3a6e329ef98462ccd2ab88b8cc72e8e23bc4662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 21/32] fix: write bracket operators as brackets, not as math
 mode switches, and facing the right way

---
 src/mathml_to_latex/syntax.py | 52 +++++++++++++++++------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 3d31fa2..8915e71 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1653,9 +1653,9 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x29DE;': '',
     '&#x29DD;': '',
     '&#x29DC;': '',
-    '&#x29DB;': '\\{\\{',
-    '&#x29D9;': '\\{',
-    '&#x29D8;': '\\}',
+    '&#x29DB;': '\\}\\}',
+    '&#x29D9;': '\\}',
+    '&#x29D8;': '\\{',
     '&#x29D7;': '',
     '&#x29D6;': '',
     '&#x29D5;': '\\bowtie',
@@ -2015,26 +2015,26 @@ all_math_operators_by_char: Dict[str, str] = {
     ';': ';',
     '&#x29FD;': '\\}',
     '&#x29FC;': '\\{',
-    '&#x2998;': '\\]',
-    '&#x2997;': '\\[',
+    '&#x2998;': ']',
+    '&#x2997;': '[',
     '&#x2996;': '\\ll',
     '&#x2995;': '\\gg',
     '&#x2994;': '\\gg',
     '&#x2993;': '\\ll',
     '&#x2992;': '\\gg',
     '&#x2991;': '\\ll',
-    '&#x2990;': '\\]',
-    '&#x298F;': '\\]',
-    '&#x298E;': '\\]',
-    '&#x298D;': '\\[',
-    '&#x298C;': '\\[',
-    '&#x298B;': '\\]',
+    '&#x2990;': ']',
+    '&#x298F;': '[',
+    '&#x298E;': ']',
+    '&#x298D;': '[',
+    '&#x298C;': '\\underline{]}',
+    '&#x298B;': '\\underline{[}',
     '&#x298A;': '\\triangleright',
     '&#x2989;': '\\triangleleft',
     '&#x2988;': '|\\)',
     '&#x2987;': '\\(|',
-    '&#x2986;': '|\\)',
-    '&#x2985;': '\\(\\(',
+    '&#x2986;': '))',
+    '&#x2985;': '((',
     '&#x2984;': '|\\}',
     '&#x2983;': '\\{|',
     '&#x2980;': '\\||',
@@ -2773,9 +2773,9 @@ all_math_operators_by_glyph = {
   '⧞': '',
   '⧝': '',
   '⧜': '',
-  '⧛': '\\{\\{',
-  '⧙': '\\{',
-  '⧘': '\\}',
+  '⧛': '\\}\\}',
+  '⧙': '\\}',
+  '⧘': '\\{',
   '⧗': '',
   '⧖': '',
   '⧕': '\\bowtie',
@@ -3136,26 +3136,26 @@ all_math_operators_by_glyph = {
   ';': ';',
   '⧽': '\\}',
   '⧼': '\\{',
-  '⦘': '\\]',
-  '⦗': '\\[',
+  '⦘': ']',
+  '⦗': '[',
   '⦖': '\\ll',
   '⦕': '\\gg',
   '⦔': '\\gg',
   '⦓': '\\ll',
   '⦒': '\\gg',
   '⦑': '\\ll',
-  '⦐': '\\]',
-  '⦏': '\\]',
-  '⦎': '\\]',
-  '⦍': '\\[',
-  '⦌': '\\[',
-  '⦋': '\\]',
+  '⦐': ']',
+  '⦏': '[',
+  '⦎': ']',
+  '⦍': '[',
+  '⦌': '\\underline{]}',
+  '⦋': '\\underline{[}',
   '⦊': '\\triangleright',
   '⦉': '\\triangleleft',
   '⦈': '|\\)',
   '⦇': '\\(|',
-  '⦆': '|\\)',
-  '⦅': '\\(\\(',
+  '⦆': '))',
+  '⦅': '((',
   '⦄': '|\\}',
   '⦃': '\\{|',
   '⦀': '\\||',
-- 
2.43.0


From df427a77c07a9e7ec95a8ed49063d2e195c7fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 22/32] fix: do not show the invisible separator as a bracket

---
 src/mathml_to_latex/syntax.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 8915e71..96c68ec 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -3131,7 +3131,6 @@ all_math_operators_by_glyph = {
   '->': '->',
   '∵': '\\because',
   '∴': '\\therefore ',
-  '⁣': '\\llbracket',
   ',': ',',
   ';': ';',
   '⧽': '\\}',
-- 
2.43.0


From 04f79ee370f60df95ca7692d4714152063906c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 23/32] fix: convert the negated contains and the multiset
 union to their own commands

---
 src/mathml_to_latex/syntax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 96c68ec..d8be3db 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1788,7 +1788,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2290;': '\\sqsupset',
     '&#x228F;&#x338;': '\\not\\sqsubset',
     '&#x228F;': '\\sqsubset',
-    '&#x228E;': '\\cup',
+    '&#x228E;': '\\uplus',
     '&#x228D;': '\\cup',
     '&#x228C;': '\\cup',
     '&#x227F;&#x338;': '\\not\\succsim',
@@ -1979,7 +1979,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2283;': '\\supset',
     '&#x2282;&#x20D2;': '\\subset |',
     '&#x2282;': '\\subset',
-    '&#x220C;': '\\not\\in',
+    '&#x220C;': '\\not\\ni',
     '&#x2209;': '\\notin',
     '&#x2208;': '\\in',
     '&#x2201;': 'C',
@@ -2911,7 +2911,7 @@ all_math_operators_by_glyph = {
   '⊐': '\\sqsupset',
   '⊏̸': '\\not\\sqsubset',
   '⊏': '\\sqsubset',
-  '⊎': '\\cup',
+  '⊎': '\\uplus',
   '⊍': '\\cup',
   '⊌': '\\cup',
   '≿̸': '\\not\\succsim',
@@ -3101,7 +3101,7 @@ all_math_operators_by_glyph = {
   '⊃': '\\supset',
   '⊂⃒': '\\subset |',
   '⊂': '\\subset',
-  '∌': '\\not\\in',
+  '∌': '\\not\\ni',
   '∉': '\\notin',
   '∈': '\\in',
   '∁': 'C',
-- 
2.43.0


From 6695160fc3c6291b1800030fbac99461555b8a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 24/32] fix: keep the slash of the operator /=

---
 src/mathml_to_latex/syntax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index d8be3db..0d7cc59 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1949,7 +1949,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '==': '==',
     '=': '=',
     ':=': ':=',
-    '/=': '=',
+    '/=': '/=',
     '-=': '-=',
     '+=': '+=',
     '*=': '*=',
@@ -3071,7 +3071,7 @@ all_math_operators_by_glyph = {
   '==': '==',
   '=': '=',
   ':=': ':=',
-  '/=': '=',
+  '/=': '/=',
   '-=': '-=',
   '+=': '+=',
   '*=': '*=',
-- 
2.43.0


From a1c60a7df219680abf9e3feb683faeef663a582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 25/32] fix: the command of a percent-encoded rho is \rho

---
 src/mathml_to_latex/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 0d7cc59..48b1822 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -2086,7 +2086,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '%CE%BF': '\\omicron',
     '%CF%80': '\\pi',
     '%CE%A0': '\\Pi',
-    '%CF%81': '\\pho',
+    '%CF%81': '\\rho',
     '%CF%83': '\\sigma',
     '%CE%A3': '\\Sigma',
     '%CF%84': '\\tau',
-- 
2.43.0


From 00208fb31959ab9a57d421c00375778a9ef48adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 26/32] fix: convert the small vee with underbar to a command

---
 src/mathml_to_latex/syntax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 48b1822..aea52d6 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1560,7 +1560,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2A64;': '',
     '&#x2A63;': '\\underset{=}{\\vee}',
     '&#x2A62;': '\\overset{=}{\\vee}',
-    '&#x2A61;': 'ul(vv)',
+    '&#x2A61;': '\\underline{\\vee}',
     '&#x2A60;': '\\underset{=}{\\wedge}',
     '&#x2A5F;': '\\underline{\\wedge}',
     '&#x2A5E;': '\\overset{=}{\\wedge}',
@@ -2679,7 +2679,7 @@ all_math_operators_by_glyph = {
   '⩤': '',
   '⩣': '\\underset{=}{\\vee}',
   '⩢': '\\overset{=}{\\vee}',
-  '⩡': 'ul(vv)',
+  '⩡': '\\underline{\\vee}',
   '⩠': '\\underset{=}{\\wedge}',
   '⩟': '\\underline{\\wedge}',
   '⩞': '\\overset{=}{\\wedge}',
-- 
2.43.0


From f3f356c93419c66c40557e435bc3c05e145ed63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:47 +0000
Subject: [PATCH 27/32] fix: write the letters omicron and capital epsilon, for
 which LaTeX has no commands, as letters

---
 src/mathml_to_latex/syntax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index aea52d6..bb52d75 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1716,7 +1716,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2981;': '\\circ',
     '&#x2758;': '|',
     '&#x25B2;': '\\bigtriangleup',
-    '&#x22FF;': '\\Epsilon',
+    '&#x22FF;': 'E',
     '&#x22FE;': '\\overline{\\ni}',
     '&#x22FD;': '\\overline{\\ni}',
     '&#x22FC;': '\\ni',
@@ -2083,7 +2083,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '%CE%BB': '\\lambda',
     '%CE%BC': '\\mu',
     '%CE%BD': '\\nu',
-    '%CE%BF': '\\omicron',
+    '%CE%BF': 'o',
     '%CF%80': '\\pi',
     '%CE%A0': '\\Pi',
     '%CF%81': '\\rho',
@@ -2836,7 +2836,7 @@ all_math_operators_by_glyph = {
   '⦁': '\\cdot',
   '❘': '\\mid',
   '▲': '\\bigtriangleup',
-  '⋿': '\\Epsilon',
+  '⋿': 'E',
   '⋾': '\\overline{\\ni}',
   '⋽': '\\overline{\\ni}',
   '⋼': '\\ni',
@@ -3200,7 +3200,7 @@ all_math_operators_by_glyph = {
   'κ': '\\kappa',
   'λ': '\\lambda',
   'ν': '\\nu',
-  'ο': '\\omicron',
+  'ο': 'o',
   'π': '\\pi',
   'Π': '\\Pi',
   'ρ': '\\rho',
-- 
2.43.0


From f99abf4c2de43d22b09859bbcd77b23de84cd18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 28/32] fix: remove the mml prefix from tags only, not from
 attribute values, CDATA sections or comments

---
 src/mathml_to_latex/xml_to_mathml/adapter.py  |  6 ++---
 .../xml_to_mathml/services/markup.py          | 24 +++++++++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)
 create mode 100644 src/mathml_to_latex/xml_to_mathml/services/markup.py

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 07e6927..ad05b07 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -4,6 +4,7 @@ import re
 
 from ..el_to_tex.protocols import MathMLElement
 from .services.error_handler import ErrorHandler
+from .services.markup import remove_from_tags
 from .services.xml_elements_to_mathml_element import (
     ElementsToMathMLAdapter,
 )
@@ -31,10 +32,7 @@ class XmlToMathMLAdapter:
         return line_break_pattern.sub(" ", xml).strip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-        ms_word_prefix_pattern = re.compile(r"(?<=[</\s])mml:")
-        return re.sub(
-            r"<[^>]*>", lambda tag: ms_word_prefix_pattern.sub("", tag.group()), xml
-        )
+        return remove_from_tags(r"(?<=[</\s])mml:", xml)
 
     @property
     def _mathml_elements(self) -> List[Element]:
diff --git a/src/mathml_to_latex/xml_to_mathml/services/markup.py b/src/mathml_to_latex/xml_to_mathml/services/markup.py
new file mode 100644
index 0000000..574751b
--- /dev/null
+++ b/src/mathml_to_latex/xml_to_mathml/services/markup.py
@@ -0,0 +1,24 @@
+import re
+
+# Attribute values are matched as a whole, so that a ">" in them ends no tag.
+_MARKUP = re.compile(
+    r"<!\[CDATA\[.*?\]\]>|<!--.*?-->|<\?.*?\?>"
+    r"|<[^\"'>]*(?:(?:\"[^\"]*\"|'[^']*')[^\"'>]*)*>",
+    re.DOTALL,
+)
+
+
+def remove_from_tags(pattern: str, xml: str) -> str:
+    """
+    Removes what matches the pattern from the tags of a document, but not from
+    attribute values, token texts, CDATA sections or comments.
+    """
+    value_or_pattern = re.compile(rf"(\"[^\"]*\"|'[^']*')|{pattern}")
+
+    def remove(match: re.Match) -> str:
+        markup = match.group()
+        if markup.startswith(("<!", "<?")):
+            return markup
+        return value_or_pattern.sub(lambda part: part.group(1) or "", markup)
+
+    return _MARKUP.sub(remove, xml)
-- 
2.43.0


From 52faab65bcd3157c5c95a92dce481a95c546952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 29/32] fix: keep the name of an attribute without a value in
 attribute values, CDATA sections and comments

---
 .../xml_to_mathml/services/error_handler.py              | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 743ee0c..dca3765 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -1,6 +1,8 @@
 from xml.parsers.expat import ExpatError
 import re
 
+from .markup import remove_from_tags
+
 
 class ErrorHandler:
     def __init__(self):
@@ -37,16 +39,15 @@ class ErrorHandler:
         word = self._get_word_at_str_pos(goal_line, error_offset)
 
         pattern = self._match_missing_value_for_attribute(word)
-        return re.sub(r"<[^>]*>", lambda tag: re.sub(pattern, "", tag.group()), xml)
+        return remove_from_tags(pattern, xml)
 
-    def _match_missing_value_for_attribute(self, attribute: str) -> re.Pattern:
+    def _match_missing_value_for_attribute(self, attribute: str) -> str:
         """
         Constructs a regex pattern to find the specified attribute
         without a value (i.e., attribute= not followed by " or ').
         """
         escaped_attribute = re.escape(attribute)
-        regex_pattern = rf'(?<=\s){escaped_attribute}(?:=(?!["\'])|(?=[\s>/]))'
-        return re.compile(regex_pattern, re.MULTILINE)
+        return rf'(?<=\s){escaped_attribute}(?:=(?!["\'])|(?=[\s>/]))'
 
     def _math_generic_missing_value(self) -> re.Pattern:
         """
-- 
2.43.0


From 6754c46aec5f473b26fc01be0819f347f701122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 30/32] fix: reject documents with several roots, of which all
 but the first were removed

---
 .../xml_to_mathml/services/error_handler.py    | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index dca3765..298f0bc 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -19,13 +19,7 @@ class ErrorHandler:
         if result != xml:
             return result
 
-        pattern = self._math_generic_missing_value()
-        counter = 0
-        while re.search(pattern, xml) and counter < 5:
-            counter += 1
-            # Replace the matched pattern by removing the missing attribute value
-            result = re.sub(pattern, r"\1\3", xml)
-        return result
+        return remove_from_tags(self._math_generic_missing_value(), xml)
 
     def _fix_missing_attribute_value(self, error: ExpatError, xml: str):
         error_code = error.code
@@ -49,16 +43,12 @@ class ErrorHandler:
         escaped_attribute = re.escape(attribute)
         return rf'(?<=\s){escaped_attribute}(?:=(?!["\'])|(?=[\s>/]))'
 
-    def _math_generic_missing_value(self) -> re.Pattern:
+    def _math_generic_missing_value(self) -> str:
         """
         Constructs a generic regex pattern to find any attribute
-        without a value within a math element.
+        without a value (i.e., attribute= not followed by " or ').
         """
-        # This pattern matches:
-        # Group 1: <... (anything up to a space)
-        # Group 2: attribute= not followed by " or '
-        # Group 3: ...> (anything up to >)
-        return re.compile(r'(<.* )(\w+=(?!(["\'])))?(.*>)', re.MULTILINE)
+        return r'(?<=\s)\w+=(?!["\'])'
 
     def _get_word_at_str_pos(self, string: str, pos: int) -> str:
         """
-- 
2.43.0


From eb994d5286f8daee601fda5be7c02e1485cc15a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 31/32] fix: drop only attributes without a value, at any place
 in a tag, and never what has a value

---
 .../xml_to_mathml/services/error_handler.py           | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 298f0bc..3a9b760 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -30,7 +30,9 @@ class ErrorHandler:
         error_offset = error.offset
 
         goal_line = xml.split("\n")[error_line - 1]
-        word = self._get_word_at_str_pos(goal_line, error_offset)
+        word = self._get_word_at_str_pos(goal_line, error_offset).rstrip("=")
+        if not re.fullmatch(r"[^<\"']+", word):
+            return xml
 
         pattern = self._match_missing_value_for_attribute(word)
         return remove_from_tags(pattern, xml)
@@ -41,14 +43,15 @@ class ErrorHandler:
         without a value (i.e., attribute= not followed by " or ').
         """
         escaped_attribute = re.escape(attribute)
-        return rf'(?<=\s){escaped_attribute}(?:=(?!["\'])|(?=[\s>/]))'
+        return rf'(?<=\s){escaped_attribute}(?:=(?!\s*["\'])|(?=[\s>/])(?!\s*=))'
 
     def _math_generic_missing_value(self) -> str:
         """
         Constructs a generic regex pattern to find any attribute
-        without a value (i.e., attribute= not followed by " or ').
+        without a value (i.e., attribute= not followed by " or ',
+        or attribute not followed by =).
         """
-        return r'(?<=\s)\w+=(?!["\'])'
+        return r'(?<=\s)[\w:.-]+(?:=(?!\s*["\'])|(?=[\s>/])(?!\s*=))'
 
     def _get_word_at_str_pos(self, string: str, pos: int) -> str:
         """
-- 
2.43.0


From b8bfd4d0b99f30f82d8cbdd06f5b951b0fbdf28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 32/32] fix: keep the slash of an empty element that ends in an
 attribute without a value

---
 src/mathml_to_latex/xml_to_mathml/services/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 3a9b760..d165a6a 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -30,7 +30,7 @@ class ErrorHandler:
         error_offset = error.offset
 
         goal_line = xml.split("\n")[error_line - 1]
-        word = self._get_word_at_str_pos(goal_line, error_offset).rstrip("=")
+        word = self._get_word_at_str_pos(goal_line, error_offset).rstrip("/=")
         if not re.fullmatch(r"[^<\"']+", word):
             return xml
 
-- 
2.43.0


From 70b44583007d99b655840b81dad8188f2520ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 01/98] fix: PeekableTextIO.peek(-1) dropped a character
 instead of returning the rest

---
 vanillaplusjs/build/ioutil.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 66b7e1a..465cba4 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -80,6 +80,11 @@ class PeekableTextIO:
 
             return self.buffer[:n]
 
+        if n == -1:
+            self.seen_eof = True
+            self.buffer += self.fp.read() or ""
+            return self.buffer
+
         if len(self.buffer) >= n:
             return self.buffer[:n]
 
-- 
2.43.0


From 9045aac9296216fed4d5028893005f245c18ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 02/98] fix: PreprocessedTextIO reported the end of the file at
 a CRLF pair

---
 vanillaplusjs/build/ioutil.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 465cba4..a08a98e 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -122,7 +122,8 @@ class PreprocessedTextIO:
             return None
         if len(res) == n and res[-1] == "\r":
             if self.fp.peek(1) == "\n":
-                res = res[:-1]
+                # the pair is a single newline, so consume it as a unit
+                self.fp.read(1)
 
         res = CARRIAGE_RETURN_LIKE.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
@@ -140,11 +141,8 @@ class PreprocessedTextIO:
         res = self.fp.peek(n if n < 1 else n + 1)
         if res is None:
             return None
-        if n >= 1 and len(res) == n + 1:
-            if res[-2:] == "\r\n":
-                res = res[:-2]
-            else:
-                res = res[:-1]
+        if n >= 1 and len(res) == n + 1 and res[-2:] != "\r\n":
+            res = res[:-1]
 
         res = CARRIAGE_RETURN_LIKE.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
@@ -190,7 +188,9 @@ class PreprocessedTextIO:
             missing_characters = n - old_actual_peek_length
             new_peek_length = attempted_peek_length + missing_characters
             res = self._peek(new_peek_length)
-            if len(res) == n or len(res) == old_actual_peek_length:
+            if len(res) >= n:
+                return res[:n]
+            if len(self.fp.peek(new_peek_length + 1)) <= new_peek_length:
                 return res
             attempted_peek_length = new_peek_length
 
-- 
2.43.0


From 4b342a5ff5ef7178c39a0e193d5c6e21b25d38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 03/98] fix: css tokenizer failed on tokens at the very end of
 a stylesheet

---
 vanillaplusjs/build/css/tokenizer.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index 1fe32b6..f1d6bac 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -45,7 +45,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
         if peeked == "#":
             peekable.read(1)
             peek_2 = peekable.peek(2)
-            if len(peek_2) == 0:
+            if not peek_2:
                 yield CSSToken(type=CSSTokenType.delim, value="#")
                 continue
 
@@ -213,7 +213,7 @@ def _consume_comment(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     while True:
         peeked = fp.peek(2)
         if peeked is None:
-            return None
+            return CSSToken(type=CSSTokenType.comment, value=comment)
         if peeked == "*/":
             fp.read(2)
             return CSSToken(type=CSSTokenType.comment, value=comment)
@@ -362,7 +362,7 @@ def _consume_number(
 
     peek_3 = fp.peek(3)
     if peek_3 is None or len(peek_3) < 2:
-        return float(repr), res_type
+        return (int if res_type == "integer" else float)(repr), res_type
 
     if peek_3[0] in "eE" and (
         peek_3[1].isdigit()
@@ -487,7 +487,7 @@ def _consume_remnants_of_bad_url(fp: PreprocessedTextIO) -> None:
         if consumed is None or consumed == "" or consumed == ")":
             return
 
-        if _is_valid_escape(consumed + fp.peek(1)):
+        if _is_valid_escape(consumed + (fp.peek(1) or "")):
             _consume_escaped_code_point(fp)
             continue
 
@@ -519,13 +519,13 @@ def _is_ident_codepoint(char: Optional[str]) -> bool:
     return _is_ident_start_codepoint(char) or char.isdigit() or char == "-"
 
 
-def _is_valid_escape(two: str) -> bool:
+def _is_valid_escape(two: Optional[str]) -> bool:
     """Determines if the given two characters form a valid escape
     https://www.w3.org/TR/css-syntax-3/#check-if-two-code-points-are-a-valid-escape
 
     This does not support being called without the two characters
     """
-    if len(two) != 2:
+    if two is None or len(two) != 2:
         return False
 
     return two[0] == "\\" and two[1] != "\n"
@@ -537,13 +537,13 @@ def _is_ident_sequence(three: str) -> bool:
 
     https://www.w3.org/TR/css-syntax-3/#check-if-three-code-points-would-start-an-ident-sequence
 
-    This does not support being called without the three characters
+    Near the end of the file there may be fewer than three characters
     """
-    if len(three) != 3:
+    if not three:
         return False
 
     if three[0] == "-":
-        return (
+        return len(three) > 1 and (
             _is_ident_start_codepoint(three[1])
             or three[1] == "-"
             or _is_valid_escape(three[1:])
@@ -562,16 +562,14 @@ def _is_number(three: Optional[str]) -> bool:
     """Determines if the given three codepoints would start a number
     https://www.w3.org/TR/css-syntax-3/#check-if-three-code-points-would-start-a-number
     """
-    if three is None:
-        return False
-    if len(three) != 3:
+    if not three:
         return False
 
     if three[0] in "+-":
-        return three[1].isdigit() or (three[1] == "." and three[2].isdigit())
+        return three[1:2].isdigit() or (three[1:2] == "." and three[2:3].isdigit())
 
     if three[0] == ".":
-        return three[1].isdigit()
+        return three[1:2].isdigit()
 
     return three[0].isdigit()
 
-- 
2.43.0


From 9ebffae62aa8da14c0a73bc7bcf68028ae3110d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 04/98] fix: css tokenizer took non-ascii digits and letters
 for ascii ones

---
 vanillaplusjs/build/css/tokenizer.py | 29 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index f1d6bac..7a19833 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -175,7 +175,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
             yield CSSToken(type=CSSTokenType.right_curly_bracket)
             continue
 
-        if peeked.isdigit():
+        if _is_digit(peeked):
             yield _consume_numeric_token(peekable)
             continue
 
@@ -341,7 +341,7 @@ def _consume_number(
             if repr in "+-" or repr == "":
                 return None
             return int(repr), res_type
-        if not peeked.isdigit():
+        if not _is_digit(peeked):
             break
         repr += fp.read(1)
 
@@ -349,14 +349,14 @@ def _consume_number(
     if peek_2 is None or len(peek_2) < 2:
         return int(repr), res_type
 
-    if peek_2[0] == "." and peek_2[1].isdigit():
+    if peek_2[0] == "." and _is_digit(peek_2[1]):
         repr += fp.read(2)
         res_type = "number"
         while True:
             peeked = fp.peek(1)
             if peeked is None:
                 return float(repr), res_type
-            if not peeked.isdigit():
+            if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
@@ -365,8 +365,8 @@ def _consume_number(
         return (int if res_type == "integer" else float)(repr), res_type
 
     if peek_3[0] in "eE" and (
-        peek_3[1].isdigit()
-        or (peek_3[1] in "+-" and len(peek_3) == 3 and peek_3[2].isdigit())
+        _is_digit(peek_3[1])
+        or (peek_3[1] in "+-" and len(peek_3) == 3 and _is_digit(peek_3[2]))
     ):
         res_type = "number"
         repr += fp.read(2)
@@ -374,7 +374,7 @@ def _consume_number(
             peeked = fp.peek(1)
             if peeked is None:
                 return float(repr), res_type
-            if not peeked.isdigit():
+            if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
@@ -499,6 +499,11 @@ def _is_hex_digit(char: str) -> bool:
     return char is not None and char in HEX_CHARACTERS
 
 
+def _is_digit(char: str) -> bool:
+    """https://www.w3.org/TR/css-syntax-3/#digit"""
+    return char.isascii() and char.isdigit()
+
+
 def _is_whitespace(char: Optional[str]) -> bool:
     return (
         char is not None
@@ -510,13 +515,13 @@ def _is_whitespace(char: Optional[str]) -> bool:
 def _is_ident_start_codepoint(char: Optional[str]) -> bool:
     if char is None:
         return False
-    return char.isalpha() or ord(char) >= 0x0080 or char == "_"
+    return (char.isascii() and char.isalpha()) or ord(char) >= 0x0080 or char == "_"
 
 
 def _is_ident_codepoint(char: Optional[str]) -> bool:
     if char is None:
         return False
-    return _is_ident_start_codepoint(char) or char.isdigit() or char == "-"
+    return _is_ident_start_codepoint(char) or _is_digit(char) or char == "-"
 
 
 def _is_valid_escape(two: Optional[str]) -> bool:
@@ -566,12 +571,12 @@ def _is_number(three: Optional[str]) -> bool:
         return False
 
     if three[0] in "+-":
-        return three[1:2].isdigit() or (three[1:2] == "." and three[2:3].isdigit())
+        return _is_digit(three[1:2]) or (three[1:2] == "." and _is_digit(three[2:3]))
 
     if three[0] == ".":
-        return three[1:2].isdigit()
+        return _is_digit(three[1:2])
 
-    return three[0].isdigit()
+    return _is_digit(three[0])
 
 
 def _is_non_printable(char: Optional[str]) -> bool:
-- 
2.43.0


From 9147d8b8ad896c6de24f3bcd4ae871972962e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 05/98] fix: css numbers were rewritten, losing their sign and
 notation

---
 vanillaplusjs/build/css/serializer.py | 14 +++++++++++---
 vanillaplusjs/build/css/token.py      |  5 +++++
 vanillaplusjs/build/css/tokenizer.py  | 23 +++++++++++++----------
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index 35df8ea..fd4f844 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -27,11 +27,11 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.right_parens:
         return ")"
     elif token["type"] == CSSTokenType.number:
-        return str(token["value"])
+        return serialize_number(token)
     elif token["type"] == CSSTokenType.percentage:
-        return str(token["value"]) + "%"
+        return serialize_number(token) + "%"
     elif token["type"] == CSSTokenType.dimension:
-        return str(token["value"]) + token["unit"]
+        return serialize_number(token) + token["unit"]
     elif token["type"] == CSSTokenType.comma:
         return ","
     elif token["type"] == CSSTokenType.cdc:
@@ -74,6 +74,14 @@ def serialize(token: CSSToken) -> str:
     raise ValueError("Unknown token type: " + repr(token["type"]))
 
 
+def serialize_number(token: CSSToken) -> str:
+    """Serializes the numeric part of a number, percentage or dimension token,
+    as it was written in the source if it came from there: the sign and the
+    notation carry meaning, e.g., in 2n+1 or U+0025-00FF."""
+    representation = token.get("representation")
+    return str(token["value"]) if representation is None else representation
+
+
 def serialize_many(token: Iterable[CSSToken]) -> str:
     """Serializes the given CSS tokens."""
     return "".join(serialize(t) for t in token)
diff --git a/vanillaplusjs/build/css/token.py b/vanillaplusjs/build/css/token.py
index b444ffe..1b9427d 100644
--- a/vanillaplusjs/build/css/token.py
+++ b/vanillaplusjs/build/css/token.py
@@ -81,3 +81,8 @@ class CSSToken(TypedDict):
     """The dimension token may have the unit set to one or more
     code points. In all other cases, the unit is None or unset
     """
+
+    representation: Optional[str]
+    """How the number in a number, percentage or dimension token was written
+    in the source. In all other cases, this is None or unset
+    """
diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index 7a19833..33c3bf3 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -320,8 +320,8 @@ def _consume_ident_sequence(fp: PreprocessedTextIO) -> str:
 
 def _consume_number(
     fp: PreprocessedTextIO,
-) -> Optional[Tuple[Union[int, float], Literal["integer', 'number"]]]:
-    """Consumes a number
+) -> Optional[Tuple[Union[int, float], Literal["integer', 'number"], str]]:
+    """Consumes a number; returns its value, its type and how it was written
 
     https://www.w3.org/TR/css-syntax-3/#consume-a-number
     """
@@ -340,14 +340,14 @@ def _consume_number(
         if peeked is None:
             if repr in "+-" or repr == "":
                 return None
-            return int(repr), res_type
+            return int(repr), res_type, repr
         if not _is_digit(peeked):
             break
         repr += fp.read(1)
 
     peek_2 = fp.peek(2)
     if peek_2 is None or len(peek_2) < 2:
-        return int(repr), res_type
+        return int(repr), res_type, repr
 
     if peek_2[0] == "." and _is_digit(peek_2[1]):
         repr += fp.read(2)
@@ -355,14 +355,14 @@ def _consume_number(
         while True:
             peeked = fp.peek(1)
             if peeked is None:
-                return float(repr), res_type
+                return float(repr), res_type, repr
             if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
     peek_3 = fp.peek(3)
     if peek_3 is None or len(peek_3) < 2:
-        return (int if res_type == "integer" else float)(repr), res_type
+        return (int if res_type == "integer" else float)(repr), res_type, repr
 
     if peek_3[0] in "eE" and (
         _is_digit(peek_3[1])
@@ -373,14 +373,14 @@ def _consume_number(
         while True:
             peeked = fp.peek(1)
             if peeked is None:
-                return float(repr), res_type
+                return float(repr), res_type, repr
             if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
     if res_type == "integer":
-        return int(repr), res_type
-    return float(repr), res_type
+        return int(repr), res_type, repr
+    return float(repr), res_type, repr
 
 
 def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
@@ -388,13 +388,14 @@ def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     or a dimension token.
     https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
     """
-    number_value, number_type = _consume_number(fp)
+    number_value, number_type, representation = _consume_number(fp)
 
     if _is_ident_sequence(fp.peek(3)):
         return CSSToken(
             type=CSSTokenType.dimension,
             value=number_value,
             type_flag=number_type,
+            representation=representation,
             unit=_consume_ident_sequence(fp),
         )
 
@@ -404,12 +405,14 @@ def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
             type=CSSTokenType.percentage,
             value=number_value,
             type_flag=number_type,
+            representation=representation,
         )
 
     return CSSToken(
         type=CSSTokenType.number,
         value=number_value,
         type_flag=number_type,
+        representation=representation,
     )
 
 
-- 
2.43.0


From ad80d6db295326ef66fba6ccd2520359d67ab075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 06/98] fix: js strings were serialized with css escapes and
 lost \x escapes and line continuations

---
 vanillaplusjs/build/handlers/js_constants.py |  2 +-
 vanillaplusjs/build/js/serializer.py         | 53 +++++++++++++++++++-
 vanillaplusjs/build/js/tokenizer.py          | 18 +++++--
 3 files changed, 68 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index f7bfa90..d812931 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -3,7 +3,7 @@
 from typing import Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
+from vanillaplusjs.build.js.serializer import serialize_string_auto_quote
 import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 7615e14..b72992e 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -1,6 +1,5 @@
 from typing import Iterable, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
 
 
 def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
@@ -52,3 +51,55 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
 def serialize_many(token: Iterable[JSToken]) -> str:
     """Serializes the given JS tokens."""
     return "".join(serialize(t) for t in token)
+
+
+def serialize_string_auto_quote(string: str) -> str:
+    """Serializes the given string, automatically choosing the best quote
+    character."""
+    if '"' not in string:
+        return serialize_string(string, '"')
+    elif "'" not in string:
+        return serialize_string(string, "'")
+    return serialize_string(string, '"')
+
+
+SPECIAL_ESCAPE_CHARACTERS = {
+    "\n": "\\n",
+    "\r": "\\r",
+    "\t": "\\t",
+    "\b": "\\b",
+    "\f": "\\f",
+    "\v": "\\v",
+    "\0": "\\0",
+}
+
+
+def serialize_string(string: str, quote: str) -> str:
+    """Serializes the given string, using the given quote character."""
+    res = quote
+    for i, char in enumerate(string):
+        if char == quote or char == "\\":
+            res += "\\" + char
+            continue
+
+        if char == "\0" and string[i + 1 : i + 2].isdigit():
+            # would be an octal escape
+            res += "\\x00"
+            continue
+
+        if char in SPECIAL_ESCAPE_CHARACTERS:
+            res += SPECIAL_ESCAPE_CHARACTERS[char]
+            continue
+
+        char_ord = ord(char)
+        if char_ord < 0x20 or char_ord == 0x7F:
+            res += f"\\x{char_ord:02x}"
+            continue
+
+        if 0xD800 <= char_ord <= 0xDFFF or char in "\u2028\u2029\uFEFF":
+            res += f"\\u{char_ord:04x}"
+            continue
+
+        res += char
+    res += quote
+    return res
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index bb5a1f2..897125f 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -232,7 +232,7 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
     res = ""
     while True:
         peeked = peekable.peek(1)
-        if not peeked or _is_newline(peeked):
+        if not peeked or peeked == "\n":
             return JSToken(type=JSTokenType.invalid, value=quote + res)
         if peeked == quote:
             peekable.read(1)
@@ -248,7 +248,12 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
                     return JSToken(type=JSTokenType.invalid, value=quote + res + "\\")
 
                 escaped = peekable.read(1)
-                if escaped == "n":
+                if _is_newline(escaped):
+                    # line continuation
+                    pass
+                elif escaped == "x" and _is_hex_pair(peekable.peek(2)):
+                    res += chr(int(peekable.read(2), 16))
+                elif escaped == "n":
                     res += "\n"
                 elif escaped == "r":
                     res += "\r"
@@ -320,6 +325,13 @@ def _is_newline(char: str) -> bool:
     return char in "\n\u2028\u2029"
 
 
+def _is_hex_pair(two: Optional[str]) -> bool:
+    """Determines if the given characters are exactly two hex digits"""
+    return (
+        two is not None and len(two) == 2 and all(c in string.hexdigits for c in two)
+    )
+
+
 def _is_unicode_escape_sequence(nine: str) -> bool:
     """Determines if the given nine characters could be consumed, perhaps partially,
     to get a valid unicode escape sequence.
@@ -331,7 +343,7 @@ def _is_unicode_escape_sequence(nine: str) -> bool:
         return False
 
     if nine[1] == "{":
-        for i in range(2, len(nine) - 1):
+        for i in range(2, len(nine)):
             if nine[i] == "}":
                 if i == 2:
                     return False
-- 
2.43.0


From 1c9a3b88238db91800916e860d3312a8f1f98384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 07/98] fix: css identifiers, strings and urls lost their
 escapes

---
 vanillaplusjs/build/css/manips/icons/manip.py | 29 +++++--
 vanillaplusjs/build/css/serializer.py         | 82 ++++++++++++-------
 2 files changed, 76 insertions(+), 35 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index a8ece96..31d120f 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -271,7 +271,7 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.ident, value="border-radius"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value="0"),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="box-shadow"),
@@ -289,13 +289,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.ident, value="padding"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value="0"),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="margin"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value="0"),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="text-align"),
@@ -321,8 +321,10 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:disabled",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="disabled"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
@@ -337,9 +339,12 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix} .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="background"),
@@ -410,8 +415,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:hover .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="hover"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
@@ -431,8 +441,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:disabled .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="disabled"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index fd4f844..797eaf3 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -19,7 +19,9 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.bad_string:
         return '"\n'
     elif token["type"] == CSSTokenType.hash:
-        return "#" + token["value"]
+        if token.get("type_flag") == "id":
+            return "#" + serialize_identifier(token["value"])
+        return "#" + serialize_name(token["value"])
     elif token["type"] == CSSTokenType.delim:
         return token["value"]
     elif token["type"] == CSSTokenType.left_parens:
@@ -31,20 +33,22 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.percentage:
         return serialize_number(token) + "%"
     elif token["type"] == CSSTokenType.dimension:
-        return serialize_number(token) + token["unit"]
+        return serialize_number(token) + serialize_unit(token["unit"])
     elif token["type"] == CSSTokenType.comma:
         return ","
     elif token["type"] == CSSTokenType.cdc:
         return "-->"
     elif token["type"] == CSSTokenType.ident:
-        return token["value"]
+        return serialize_identifier(token["value"])
     elif token["type"] == CSSTokenType.function:
-        return token["value"] + "("
+        return serialize_identifier(token["value"]) + "("
     elif token["type"] == CSSTokenType.url:
         return (
             "url("
             + serialize_string(
-                token["value"], quote="", simple_escape_characters=('"', "'", "(", "\\")
+                token["value"],
+                quote="",
+                simple_escape_characters=('"', "'", "(", ")", "\\", " "),
             )
             + ")"
         )
@@ -57,7 +61,7 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.cdo:
         return "<!--"
     elif token["type"] == CSSTokenType.at_keyword:
-        return "@" + token["value"]
+        return "@" + serialize_identifier(token["value"])
     elif token["type"] == CSSTokenType.left_square_bracket:
         return "["
     elif token["type"] == CSSTokenType.right_square_bracket:
@@ -87,6 +91,48 @@ def serialize_many(token: Iterable[CSSToken]) -> str:
     return "".join(serialize(t) for t in token)
 
 
+def escape_code_point(char: str) -> str:
+    """Escapes the given character with its hex code point. This includes the
+    white space which ends the escape, so that it can be followed by anything.
+    https://www.w3.org/TR/cssom-1/#escape-a-character-as-code-point"""
+    return "\\" + hex(ord(char))[2:] + " "
+
+
+def serialize_name(name: str) -> str:
+    """Serializes the given sequence of ident code points, escaping those which
+    could only be there because they were escaped."""
+    res = ""
+    for char in name:
+        if char in "-_" or ord(char) >= 0x0080 or (char.isascii() and char.isalnum()):
+            res += char
+        elif ord(char) <= 0x001F or ord(char) == 0x007F:
+            res += escape_code_point(char)
+        else:
+            res += "\\" + char
+    return res
+
+
+def serialize_identifier(ident: str) -> str:
+    """https://www.w3.org/TR/cssom-1/#serialize-an-identifier"""
+    if ident == "-":
+        return "\\-"
+
+    prefix = "-" if ident.startswith("-") else ""
+    first = ident[len(prefix) : len(prefix) + 1]
+    if first and first in "0123456789":
+        rest = ident[len(prefix) + 1 :]
+        return prefix + escape_code_point(first) + serialize_name(rest)
+    return serialize_name(ident)
+
+
+def serialize_unit(unit: str) -> str:
+    """Serializes the unit of a dimension, which must not be mistaken for the
+    exponent of the number"""
+    if unit[0] in "eE" and unit[1:].lstrip("-")[:1].isdigit():
+        return escape_code_point(unit[0]) + serialize_name(unit[1:])
+    return serialize_identifier(unit)
+
+
 def serialize_string_auto_quote(string: str) -> str:
     """Serializes the given string, automatically choosing the best quote
     character."""
@@ -97,17 +143,6 @@ def serialize_string_auto_quote(string: str) -> str:
     return serialize_string(string, '"')
 
 
-SPECIAL_ESCAPE_CHARACTERS = {
-    "\n": "\\n",
-    "\r": "\\r",
-    "\t": "\\t",
-    "\b": "\\b",
-    "\f": "\\f",
-    "\v": "\\v",
-    "\0": "\\0",
-}
-
-
 def serialize_string(string: str, quote: str, simple_escape_characters=("\\",)) -> str:
     """Serializes the given string, using the given quote character."""
     res = quote
@@ -116,18 +151,9 @@ def serialize_string(string: str, quote: str, simple_escape_characters=("\\",))
             res += "\\" + char
             continue
 
-        if char in SPECIAL_ESCAPE_CHARACTERS:
-            res += SPECIAL_ESCAPE_CHARACTERS[char]
-            continue
-
         char_ord = ord(char)
-        if (
-            0 <= char_ord <= 8
-            or char_ord == 0x000B
-            or 0x000E <= char_ord <= 0x001F
-            or char_ord >= 0x007F
-        ):
-            res += "\\" + hex(char_ord)[2:]
+        if char_ord <= 0x001F or char_ord >= 0x007F:
+            res += escape_code_point(char)
             continue
 
         res += char
-- 
2.43.0


From 72bc7b47153520401e260d3d830ec35ade943888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 08/98] fix: css urls to other hosts or with a fragment were
 taken for site files

---
 vanillaplusjs/build/css/manips/version_urls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index a6957c1..9d793fa 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -78,10 +78,10 @@ class VersionURLsManipulator(CSSManipulator):
         return False
 
     def _decide_new_version_suffix(self, url: str) -> Optional[VersionSuffix]:
-        if not url.startswith("/"):
+        if not url.startswith("/") or url.startswith("//"):
             return None
 
-        if "?" in url:
+        if any(ch in url for ch in "?#"):
             return None
 
         path_relative_to_public = url[1:].replace("/", os.path.sep)
-- 
2.43.0


From 24aa43c955f8e3f3cefbc40b8a2dd2abc5baaeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 09/98] fix: a keyword at the end of a js identifier such as
 $import was taken for the keyword

---
 vanillaplusjs/build/js/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 897125f..f4e79ca 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -168,7 +168,7 @@ def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
         if peeked == "\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
             peekable.read(1)
             res += _consume_unicode_escape_sequence(peekable)
-        elif not res and is_id_start(peeked):
+        elif not res and (peeked in "$_" or is_id_start(peeked)):
             res += peekable.read(1)
         elif res and (peeked in "$\u200C\u200D" or is_id_continue(peeked)):
             res += peekable.read(1)
-- 
2.43.0


From 9a0571043bb1ecbcbe594d88f9c6537b4d0c059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 10/98] fix: js regular expressions with an escaped backslash
 or a bracket in a class did not end

---
 vanillaplusjs/build/js/tokenizer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index f4e79ca..079445a 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -287,13 +287,17 @@ def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]
         if group_level == 0 and peeked == "/":
             peekable.read(1)
             break
-        if peeked == "\\" and peekable.peek(2) == "\\/":
-            res += peekable.read(2)
+        if peeked == "\\":
+            res += peekable.read(1)
+            peeked = peekable.peek(1)
+            if peeked and not _is_newline(peeked):
+                res += peekable.read(1)
             continue
-        if group_level > 0 and peeked == "]":
-            group_level -= 1
+        if peeked == "]":
+            group_level = 0
         if peeked == "[":
-            group_level += 1
+            # within a class a further opening bracket is an ordinary character
+            group_level = 1
         res += peekable.read(1)
     flags = ""
     while True:
-- 
2.43.0


From 50050197264c3e6e558f04de71ed83d29f689483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 11/98] fix: js template literals were not recognized, so their
 contents were altered

---
 vanillaplusjs/build/js/serializer.py |  2 ++
 vanillaplusjs/build/js/token.py      |  5 ++++
 vanillaplusjs/build/js/tokenizer.py  | 36 +++++++++++++++++++++++++++-
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index b72992e..eb018ca 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -36,6 +36,8 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
         return token["value"]
     elif token["type"] == JSTokenType.string_literal:
         return serialize_string_auto_quote(token["value"])
+    elif token["type"] == JSTokenType.template:
+        return token["value"]
     elif token["type"] == JSTokenType.regex:
         return f"/{token['value']}/{token['extra']}"
     elif token["type"] == JSTokenType.semicolon:
diff --git a/vanillaplusjs/build/js/token.py b/vanillaplusjs/build/js/token.py
index b7928a5..1633cd6 100644
--- a/vanillaplusjs/build/js/token.py
+++ b/vanillaplusjs/build/js/token.py
@@ -37,6 +37,11 @@ class JSTokenType(str, Enum):
     """Value is the matched identifier"""
     string_literal = "StringLiteral"
     """Value is the contents of the matched string literal"""
+    template = "Template"
+    """Value is the source text of a part of a template literal, i.e., from the
+    opening backtick or the end of a substitution to the closing backtick or the
+    start of the next substitution, inclusive
+    """
     semicolon = "Semicolon"
     """Value is None"""
 
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 079445a..06471d9 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -6,7 +6,7 @@ just enough tokens that for a javascript module we can detect any import stateme
 that the document starts with.
 """
 from io import TextIOBase
-from typing import Generator, Optional, Union
+from typing import Generator, List, Optional, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
 from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
 import string
@@ -33,6 +33,10 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     peekable = PreprocessedTextIO(PeekableTextIO(fp))
     del fp
 
+    # for each template literal whose substitution we are in, the number of
+    # curly brackets which are open within that substitution
+    open_in_templates: List[int] = []
+
     while peeked := peekable.peek(1):
         if (ws := _consume_whitespace(peekable)) is not None:
             yield ws
@@ -52,11 +56,19 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             continue
 
         if peeked == "{":
+            if open_in_templates:
+                open_in_templates[-1] += 1
             peekable.read(1)
             yield JSToken(type=JSTokenType.open_curly_bracket, value=None)
             continue
 
         if peeked == "}":
+            if open_in_templates and open_in_templates[-1] == 0:
+                open_in_templates.pop()
+                yield _consume_template(peekable, open_in_templates)
+                continue
+            if open_in_templates:
+                open_in_templates[-1] -= 1
             peekable.read(1)
             yield JSToken(type=JSTokenType.close_curly_bracket, value=None)
             continue
@@ -84,6 +96,10 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield _consume_string_literal(peekable)
             continue
 
+        if peeked == "`":
+            yield _consume_template(peekable, open_in_templates)
+            continue
+
         if peeked == "/":
             yield _consume_regex(peekable)
             continue
@@ -273,6 +289,24 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
             res += peekable.read(1)
 
 
+def _consume_template(
+    peekable: PeekableTextIO, open_in_templates: List[int]
+) -> JSToken:
+    """Consumes a part of a template literal from the given peekable, assuming that
+    the current peeked character is the opening backtick or ends a substitution. If
+    this part ends in a substitution it is added to the given list.
+    """
+    res = peekable.read(1)
+    while peeked := peekable.peek(2):
+        if peeked == "${":
+            open_in_templates.append(0)
+            return JSToken(type=JSTokenType.template, value=res + peekable.read(2))
+        if peeked[0] == "`":
+            return JSToken(type=JSTokenType.template, value=res + peekable.read(1))
+        res += peekable.read(2 if peeked[0] == "\\" else 1)
+    return JSToken(type=JSTokenType.template, value=res)
+
+
 def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]:
     """Consumes a regular expression literal from the given peekable, assuming that
     the current peeked character is a slash.
-- 
2.43.0


From b4ead4134502cbf4449bd239cede749613a6c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 12/98] fix: js divisions were taken for regular expressions

---
 vanillaplusjs/build/js/tokenizer.py | 101 +++++++++++++++++++++++++++-
 1 file changed, 98 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 06471d9..8503cdd 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -13,6 +13,93 @@ import string
 from .unicode_derived import is_id_start, is_id_continue
 
 
+KEYWORDS_BEFORE_EXPRESSION = frozenset(
+    "await case default delete do else extends in instanceof new of return throw "
+    "typeof void yield".split()
+)
+"""After any of these words an expression starts, rather than an operator"""
+
+KEYWORDS_BEFORE_PARENTHESES = frozenset(("if", "for", "while", "with"))
+"""After the parentheses following any of these words a statement starts"""
+
+
+class _SlashContext:
+    """Decides whether a slash starts a regular expression or is a division, from
+    the tokens before it. This does not parse the document, so it assumes that what
+    a closing curly bracket ends is not divided.
+    """
+
+    def __init__(self) -> None:
+        self.regex_allowed = True
+        """If a slash would start a regular expression"""
+
+        self.previous = ""
+        """The previous word or character, ignoring white space and comments. This
+        is empty for tokens which do not matter to us
+        """
+
+        self.before_parentheses = False
+        """If the previous token is one of KEYWORDS_BEFORE_PARENTHESES"""
+
+        self.open_parentheses: List[bool] = []
+        """For each open parenthesis, if before_parentheses applied to it"""
+
+    def handle_token(self, token: Union[JSToken, JSTokenWithExtra]) -> None:
+        """Must be called for every token, in order"""
+        if token["type"] in (
+            JSTokenType.whitespace,
+            JSTokenType.line_terminator,
+            JSTokenType.comment,
+        ):
+            if self.previous in ("+", "-"):
+                # a sign after this is not part of an increment or decrement
+                self.previous = ""
+            return
+
+        previous = self.previous
+        before_parentheses = self.before_parentheses
+        self.previous = ""
+        self.before_parentheses = False
+        value = token["value"]
+
+        if token["type"] == JSTokenType.identifier:
+            is_property = previous == "."
+            self.regex_allowed = (
+                not is_property and value in KEYWORDS_BEFORE_EXPRESSION
+            )
+            self.before_parentheses = (
+                not is_property and value in KEYWORDS_BEFORE_PARENTHESES
+            )
+        elif token["type"] in (
+            JSTokenType.keyword_as,
+            JSTokenType.keyword_from,
+            JSTokenType.keyword_import,
+            JSTokenType.string_literal,
+            JSTokenType.regex,
+        ):
+            self.regex_allowed = False
+        elif token["type"] == JSTokenType.template:
+            self.regex_allowed = value.endswith("${")
+        elif value == "(":
+            self.open_parentheses.append(before_parentheses)
+            self.regex_allowed = True
+        elif value == ")":
+            self.regex_allowed = bool(
+                self.open_parentheses and self.open_parentheses.pop()
+            )
+        elif value == "]":
+            self.regex_allowed = False
+        elif value == ".":
+            # the second of two is within a spread
+            self.regex_allowed = previous == "."
+            self.previous = value
+        elif value in ("+", "-"):
+            self.regex_allowed = previous != value
+            self.previous = value if previous != value else ""
+        else:
+            self.regex_allowed = True
+
+
 def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None, None]:
     """Tokenizes the given file-like object, streaming back the
     tokens as they are parsed. This is not a compliant or complete tokenizer,
@@ -30,9 +117,17 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     Returns:
         None
     """
-    peekable = PreprocessedTextIO(PeekableTextIO(fp))
-    del fp
+    context = _SlashContext()
+    for token in _tokenize(PreprocessedTextIO(PeekableTextIO(fp)), context):
+        context.handle_token(token)
+        yield token
+
 
+def _tokenize(
+    peekable: PreprocessedTextIO, context: _SlashContext
+) -> Generator[Union[JSToken, JSTokenWithExtra], None, None]:
+    """Does the work of tokenize, assuming that the given context is sent the tokens
+    which are yielded"""
     # for each template literal whose substitution we are in, the number of
     # curly brackets which are open within that substitution
     open_in_templates: List[int] = []
@@ -100,7 +195,7 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield _consume_template(peekable, open_in_templates)
             continue
 
-        if peeked == "/":
+        if peeked == "/" and context.regex_allowed:
             yield _consume_regex(peekable)
             continue
 
-- 
2.43.0


From 1ce767c1debaa524dcae0913c6556920745e31b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 13/98] fix: js imports with a comment within the statement
 were not versioned

---
 vanillaplusjs/build/js/manips/hash_imports.py | 45 ++++++++++---------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index d23cd20..cce1938 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -9,7 +9,12 @@ from urllib.parse import urlencode
 import os
 
 
-WHITESPACE_OR_TERM = {JSTokenType.whitespace, JSTokenType.line_terminator}
+INSIGNIFICANT = {
+    JSTokenType.whitespace,
+    JSTokenType.line_terminator,
+    JSTokenType.comment,
+}
+"""What may be between any two tokens of an import statement"""
 
 
 class HashImportsManipulator(JSYieldManipulator):
@@ -39,55 +44,55 @@ class HashImportsManipulator(JSYieldManipulator):
             self.skip_next_import = False
             return False
 
-        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        token = yield from self._skip_types(INSIGNIFICANT)
         if token["type"] == JSTokenType.string_literal:
             return self._handle_import(token["value"])
 
         expecting_from = False
         if token["type"] == JSTokenType.identifier:
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            token = yield from self._skip_types(INSIGNIFICANT)
             if token["type"] == JSTokenType.keyword_as:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                token = yield from self._skip_types(INSIGNIFICANT)
                 if token["type"] != JSTokenType.identifier:
                     return self._mark_import_bad("expected alias for default export")
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                token = yield from self._skip_types(INSIGNIFICANT)
                 if token["type"] == JSTokenType.comma:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                    token = yield from self._skip_types(INSIGNIFICANT)
                 else:
                     expecting_from = True
             elif token["type"] == JSTokenType.comma:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                token = yield from self._skip_types(INSIGNIFICANT)
             else:
                 expecting_from = True
 
         if not expecting_from and token["type"] == JSTokenType.asterisk:
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            token = yield from self._skip_types(INSIGNIFICANT)
             if token["type"] == JSTokenType.keyword_as:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                token = yield from self._skip_types(INSIGNIFICANT)
                 if token["type"] != JSTokenType.identifier:
                     return self._mark_import_bad("expected alias for asterisk")
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                token = yield from self._skip_types(INSIGNIFICANT)
                 if token["type"] == JSTokenType.comma:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                    token = yield from self._skip_types(INSIGNIFICANT)
                 else:
                     expecting_from = True
             elif token["type"] == JSTokenType.comma:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                token = yield from self._skip_types(INSIGNIFICANT)
             else:
                 expecting_from = True
 
         if not expecting_from and token["type"] == JSTokenType.open_curly_bracket:
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            token = yield from self._skip_types(INSIGNIFICANT)
             while token["type"] != JSTokenType.close_curly_bracket:
                 if token["type"] == JSTokenType.identifier:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                    token = yield from self._skip_types(INSIGNIFICANT)
                     if token["type"] == JSTokenType.keyword_as:
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                        token = yield from self._skip_types(INSIGNIFICANT)
                         if token["type"] != JSTokenType.identifier:
                             return self._mark_import_bad(
                                 "expected alias for named export"
                             )
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                        token = yield from self._skip_types(INSIGNIFICANT)
                         if token["type"] not in (
                             JSTokenType.comma,
                             JSTokenType.close_curly_bracket,
@@ -96,11 +101,11 @@ class HashImportsManipulator(JSYieldManipulator):
                                 "expected comma or close curly bracket"
                             )
                     if token["type"] == JSTokenType.comma:
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+                        token = yield from self._skip_types(INSIGNIFICANT)
                 else:
                     return self._mark_import_bad("expected named export")
             expecting_from = True
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            token = yield from self._skip_types(INSIGNIFICANT)
 
         if not expecting_from:
             return self._mark_import_bad("expected next import")
@@ -108,7 +113,7 @@ class HashImportsManipulator(JSYieldManipulator):
         if token["type"] != JSTokenType.keyword_from:
             return self._mark_import_bad("expected from")
 
-        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        token = yield from self._skip_types(INSIGNIFICANT)
         if token["type"] != JSTokenType.string_literal:
             return self._mark_import_bad("expected string literal after from")
 
@@ -188,7 +193,7 @@ class HashImportsManipulator(JSYieldManipulator):
             token = yield
         if token != JSTokenType.keyword_as:
             return False
-        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        token = yield from self._skip_types(INSIGNIFICANT)
         if token["type"] != JSTokenType.identifier:
             return False
         return True
-- 
2.43.0


From e0f67928b9ba2d7d216842bd591a01a1d330099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 14/98] fix: js imports with a binding named as, from or by a
 string were not versioned

---
 vanillaplusjs/build/js/manips/hash_imports.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index cce1938..cf4a686 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -16,6 +16,12 @@ INSIGNIFICANT = {
 }
 """What may be between any two tokens of an import statement"""
 
+NAMES = {JSTokenType.identifier, JSTokenType.keyword_as, JSTokenType.keyword_from}
+"""What may name a binding: as and from are only special by their position"""
+
+EXPORTED_NAMES = NAMES | {JSTokenType.string_literal}
+"""What may name an export of the other module"""
+
 
 class HashImportsManipulator(JSYieldManipulator):
     def __init__(
@@ -49,11 +55,11 @@ class HashImportsManipulator(JSYieldManipulator):
             return self._handle_import(token["value"])
 
         expecting_from = False
-        if token["type"] == JSTokenType.identifier:
+        if token["type"] in NAMES:
             token = yield from self._skip_types(INSIGNIFICANT)
             if token["type"] == JSTokenType.keyword_as:
                 token = yield from self._skip_types(INSIGNIFICANT)
-                if token["type"] != JSTokenType.identifier:
+                if token["type"] not in NAMES:
                     return self._mark_import_bad("expected alias for default export")
                 token = yield from self._skip_types(INSIGNIFICANT)
                 if token["type"] == JSTokenType.comma:
@@ -69,7 +75,7 @@ class HashImportsManipulator(JSYieldManipulator):
             token = yield from self._skip_types(INSIGNIFICANT)
             if token["type"] == JSTokenType.keyword_as:
                 token = yield from self._skip_types(INSIGNIFICANT)
-                if token["type"] != JSTokenType.identifier:
+                if token["type"] not in NAMES:
                     return self._mark_import_bad("expected alias for asterisk")
                 token = yield from self._skip_types(INSIGNIFICANT)
                 if token["type"] == JSTokenType.comma:
@@ -84,11 +90,11 @@ class HashImportsManipulator(JSYieldManipulator):
         if not expecting_from and token["type"] == JSTokenType.open_curly_bracket:
             token = yield from self._skip_types(INSIGNIFICANT)
             while token["type"] != JSTokenType.close_curly_bracket:
-                if token["type"] == JSTokenType.identifier:
+                if token["type"] in EXPORTED_NAMES:
                     token = yield from self._skip_types(INSIGNIFICANT)
                     if token["type"] == JSTokenType.keyword_as:
                         token = yield from self._skip_types(INSIGNIFICANT)
-                        if token["type"] != JSTokenType.identifier:
+                        if token["type"] not in NAMES:
                             return self._mark_import_bad(
                                 "expected alias for named export"
                             )
@@ -194,7 +200,7 @@ class HashImportsManipulator(JSYieldManipulator):
         if token != JSTokenType.keyword_as:
             return False
         token = yield from self._skip_types(INSIGNIFICANT)
-        if token["type"] != JSTokenType.identifier:
+        if token["type"] not in NAMES:
             return False
         return True
 
-- 
2.43.0


From 6e69e1d86ae8a3a103bbd610dce46b29851ba0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 15/98] fix: js hashbangs, spreads, variables named of and the
 end of an import confused the recognition of regular expressions

---
 vanillaplusjs/build/js/tokenizer.py | 43 +++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 8503cdd..d5449b6 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -14,7 +14,7 @@ from .unicode_derived import is_id_start, is_id_continue
 
 
 KEYWORDS_BEFORE_EXPRESSION = frozenset(
-    "await case default delete do else extends in instanceof new of return throw "
+    "await case default delete do else extends in instanceof new return throw "
     "typeof void yield".split()
 )
 """After any of these words an expression starts, rather than an operator"""
@@ -58,6 +58,7 @@ class _SlashContext:
 
         previous = self.previous
         before_parentheses = self.before_parentheses
+        expression_before = self.regex_allowed
         self.previous = ""
         self.before_parentheses = False
         value = token["value"]
@@ -70,16 +71,30 @@ class _SlashContext:
             self.before_parentheses = (
                 not is_property and value in KEYWORDS_BEFORE_PARENTHESES
             )
-        elif token["type"] in (
-            JSTokenType.keyword_as,
-            JSTokenType.keyword_from,
-            JSTokenType.keyword_import,
-            JSTokenType.string_literal,
-            JSTokenType.regex,
-        ):
+            if (
+                value == "of"
+                and self.open_parentheses
+                and self.open_parentheses[-1]
+                and (previous == "}" or not expression_before)
+                and previous not in ("var", "let", "const")
+            ):
+                # not a variable of that name, since it follows an operand
+                self.regex_allowed = True
+            self.previous = value
+        elif token["type"] in (JSTokenType.keyword_from, JSTokenType.keyword_import):
+            self.regex_allowed = False
+            if previous != ".":
+                self.previous = "from"
+        elif token["type"] == JSTokenType.string_literal:
+            # either the end of an import or export, or an operand
+            self.regex_allowed = previous == "from"
+        elif token["type"] in (JSTokenType.keyword_as, JSTokenType.regex):
             self.regex_allowed = False
         elif token["type"] == JSTokenType.template:
             self.regex_allowed = value.endswith("${")
+        elif token["type"] == JSTokenType.close_curly_bracket:
+            self.previous = "}"
+            self.regex_allowed = True
         elif value == "(":
             self.open_parentheses.append(before_parentheses)
             self.regex_allowed = True
@@ -90,9 +105,8 @@ class _SlashContext:
         elif value == "]":
             self.regex_allowed = False
         elif value == ".":
-            # the second of two is within a spread
-            self.regex_allowed = previous == "."
-            self.previous = value
+            self.previous = previous + value if previous in (".", "..") else value
+            self.regex_allowed = self.previous == "..."
         elif value in ("+", "-"):
             self.regex_allowed = previous != value
             self.previous = value if previous != value else ""
@@ -132,6 +146,13 @@ def _tokenize(
     # curly brackets which are open within that substitution
     open_in_templates: List[int] = []
 
+    if peekable.peek(2) == "#!":
+        # https://tc39.es/ecma262/#sec-hashbang
+        res = peekable.read(2)
+        while (peeked := peekable.peek(1)) and not _is_newline(peeked):
+            res += peekable.read(1)
+        yield JSToken(type=JSTokenType.invalid, value=res)
+
     while peeked := peekable.peek(1):
         if (ws := _consume_whitespace(peekable)) is not None:
             yield ws
-- 
2.43.0


From bfe46f568532e1d79d8bb0b5726f8fe6b1dda7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 16/98] fix: js unicode escapes with leading zeros were not
 recognized

---
 vanillaplusjs/build/js/tokenizer.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index d5449b6..9d6f83d 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -297,7 +297,7 @@ def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
     """Consumes an identifier from the given peekable, if one is present."""
     res = ""
     while peeked := peekable.peek(1):
-        if peeked == "\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
+        if peeked == "\\" and _is_unicode_escape_sequence(peekable.peek(64)[1:]):
             peekable.read(1)
             res += _consume_unicode_escape_sequence(peekable)
         elif not res and (peeked in "$_" or is_id_start(peeked)):
@@ -370,7 +370,7 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
             peekable.read(1)
             return JSToken(type=JSTokenType.string_literal, value=res)
         if peeked == "\\":
-            if _is_unicode_escape_sequence(peekable.peek(10)[1:]):
+            if _is_unicode_escape_sequence(peekable.peek(64)[1:]):
                 peekable.read(1)
                 res += _consume_unicode_escape_sequence(peekable)
             else:
@@ -486,26 +486,26 @@ def _is_hex_pair(two: Optional[str]) -> bool:
     )
 
 
-def _is_unicode_escape_sequence(nine: str) -> bool:
-    """Determines if the given nine characters could be consumed, perhaps partially,
+def _is_unicode_escape_sequence(following: str) -> bool:
+    """Determines if the given characters could be consumed, perhaps partially,
     to get a valid unicode escape sequence.
     """
-    if nine is None or len(nine) < 2:
+    if following is None or len(following) < 2:
         return False
 
-    if nine[0] != "u":
+    if following[0] != "u":
         return False
 
-    if nine[1] == "{":
-        for i in range(2, len(nine)):
-            if nine[i] == "}":
+    if following[1] == "{":
+        for i in range(2, len(following)):
+            if following[i] == "}":
                 if i == 2:
                     return False
-                hex_num = int(nine[2:i], 16)
+                hex_num = int(following[2:i], 16)
                 return hex_num <= 0x10FFFF
-            if nine[i] not in string.hexdigits:
+            if following[i] not in string.hexdigits:
                 return False
 
         return False
 
-    return len(nine) >= 5 and all(c in string.hexdigits for c in nine[1:5])
+    return len(following) >= 5 and all(c in string.hexdigits for c in following[1:5])
-- 
2.43.0


From 31f2ddb4173c7b5204b788b5e8ae3418fa2b1ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 17/98] fix: form feeds in javascript were taken for line
 terminators

---
 vanillaplusjs/build/ioutil.py       | 14 +++++++++++---
 vanillaplusjs/build/js/tokenizer.py |  9 +++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index a08a98e..48532b1 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -12,6 +12,7 @@ from loguru import logger
 import stat
 
 
+CARRIAGE_RETURN = re.compile(r"\r\n|\r")
 CARRIAGE_RETURN_LIKE = re.compile(r"\r\n|\r|\f")
 SURROGATE = re.compile(r"[\ud800-\udfff]")
 
@@ -105,9 +106,16 @@ class PreprocessedTextIO:
     preprocessing described at https://www.w3.org/TR/css-syntax-3/#input-preprocessing
     """
 
-    def __init__(self, fp: PeekableTextIO) -> None:
+    def __init__(
+        self, fp: PeekableTextIO, newlines: "re.Pattern" = CARRIAGE_RETURN_LIKE
+    ) -> None:
         self.fp = fp
 
+        self.newlines = newlines
+        """Matches what is replaced with a line feed; outside of css, a form feed is
+        not a line terminator. Must match carriage returns
+        """
+
     def _read(self, n: int = -1) -> Optional[str]:
         """Reads and advances n characters. If n is -1, then reads all
         remaining characters.
@@ -125,7 +133,7 @@ class PreprocessedTextIO:
                 # the pair is a single newline, so consume it as a unit
                 self.fp.read(1)
 
-        res = CARRIAGE_RETURN_LIKE.sub("\n", res)
+        res = self.newlines.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
         return res
 
@@ -144,7 +152,7 @@ class PreprocessedTextIO:
         if n >= 1 and len(res) == n + 1 and res[-2:] != "\r\n":
             res = res[:-1]
 
-        res = CARRIAGE_RETURN_LIKE.sub("\n", res)
+        res = self.newlines.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
         return res
 
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 9d6f83d..2365d14 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -8,7 +8,11 @@ that the document starts with.
 from io import TextIOBase
 from typing import Generator, List, Optional, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
-from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
+from vanillaplusjs.build.ioutil import (
+    CARRIAGE_RETURN,
+    PreprocessedTextIO,
+    PeekableTextIO,
+)
 import string
 from .unicode_derived import is_id_start, is_id_continue
 
@@ -132,7 +136,8 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
         None
     """
     context = _SlashContext()
-    for token in _tokenize(PreprocessedTextIO(PeekableTextIO(fp)), context):
+    peekable = PreprocessedTextIO(PeekableTextIO(fp), newlines=CARRIAGE_RETURN)
+    for token in _tokenize(peekable, context):
         context.handle_token(token)
         yield token
 
-- 
2.43.0


From aeba8859940055e76973fcfbe0b2d2d3e7396186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 18/98] fix: a comment inserted before a js import that follows
 a slash changed the division into a comment

---
 vanillaplusjs/build/js/manips/hash_imports.py | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index cf4a686..fc23063 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -37,9 +37,20 @@ class HashImportsManipulator(JSYieldManipulator):
 
         self.skip_next_import = False
 
+        self.after_slash = False
+        """If a slash directly precedes the token being handled, in which case a
+        comment cannot be inserted directly before that token
+        """
+
+        self.previous: Optional[JSToken] = None
+        """The previous token which was given to handle"""
+
     def handle(
         self, token: JSToken
     ) -> Generator[None, JSToken, Union[Literal[False], List[JSToken]]]:
+        self.after_slash = self.previous is not None and self.previous["value"] == "/"
+        self.previous = token
+
         if not self.skip_next_import and self._is_skip_import_mark(token):
             self.skip_next_import = True
             return False
@@ -205,12 +216,13 @@ class HashImportsManipulator(JSYieldManipulator):
         return True
 
     def _mark_import_bad(self, hint="") -> List[JSToken]:
-        return [
-            JSToken(
-                type=JSTokenType.comment,
-                value=f"PREPROCESSOR: ignore-import {hint}; final token: {self.stack[-1]['type']}",
-            )
-        ] + self.stack
+        mark = JSToken(
+            type=JSTokenType.comment,
+            value=f"PREPROCESSOR: ignore-import {hint}; final token: {self.stack[-1]['type']}",
+        )
+        if self.after_slash:
+            return [JSToken(type=JSTokenType.whitespace, value=" "), mark] + self.stack
+        return [mark] + self.stack
 
     def _is_skip_import_mark(self, token: JSToken) -> bool:
         return token["type"] == JSTokenType.comment and token["value"].startswith(
-- 
2.43.0


From eb30cd069ed38b4c59e3804d3c5d8aac6ae54621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 19/98] fix: a js type hint line after an empty line was not
 commented out

---
 vanillaplusjs/build/js/manips/type_hints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vanillaplusjs/build/js/manips/type_hints.py b/vanillaplusjs/build/js/manips/type_hints.py
index 8d9b0ea..9f19b7d 100644
--- a/vanillaplusjs/build/js/manips/type_hints.py
+++ b/vanillaplusjs/build/js/manips/type_hints.py
@@ -35,6 +35,10 @@ class TypeHintsManipulator(JSYieldManipulator):
             self._skip_next_line = token["type"] != JSTokenType.line_terminator
             return False
 
+        if token["type"] == JSTokenType.line_terminator:
+            # empty line; the next token already belongs to the next line
+            return False
+
         should_exclude_line = False
         while token["type"] not in (JSTokenType.line_terminator, JSTokenType.eof):
             if (
-- 
2.43.0


From 3657f94cdd0d056974d6eead2d34eaa3de5c2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 20/98] fix: js imports on type hint lines counted as
 dependencies

---
 vanillaplusjs/build/js/manips/type_hints.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/type_hints.py b/vanillaplusjs/build/js/manips/type_hints.py
index 9f19b7d..9905c80 100644
--- a/vanillaplusjs/build/js/manips/type_hints.py
+++ b/vanillaplusjs/build/js/manips/type_hints.py
@@ -28,9 +28,6 @@ class TypeHintsManipulator(JSYieldManipulator):
     def handle(
         self, token: JSToken
     ) -> Generator[None, JSToken, Union[Literal[False], List[JSToken]]]:
-        if self.mode == "scan":
-            return False
-
         if self._skip_next_line:
             self._skip_next_line = token["type"] != JSTokenType.line_terminator
             return False
-- 
2.43.0


From 0500c0691d9fded2ce3a81c9dfd343cefc5440a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 21/98] fix: js imports from other hosts without a scheme were
 taken for site files

---
 vanillaplusjs/build/js/manips/hash_imports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index fc23063..d1c9703 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -139,6 +139,8 @@ class HashImportsManipulator(JSYieldManipulator):
     def _handle_import(self, import_path: str) -> Union[Literal[False], List[JSToken]]:
         if not any(import_path.startswith(prefix) for prefix in ("/", "./", "../")):
             return self._mark_import_bad("unexpected path format")
+        if import_path.startswith("//"):
+            return self._mark_import_bad("path is on another host")
         if any(ch in import_path for ch in "?#"):
             return self._mark_import_bad("path contains invalid characters")
 
-- 
2.43.0


From 75f667616e0f480892cc33a6d491681985a62ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 22/98] fix: absolute js imports with dot segments were not
 resolved

---
 vanillaplusjs/build/js/manips/hash_imports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index d1c9703..994c05f 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -7,6 +7,7 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
 from urllib.parse import urlencode
 import os
+import posixpath
 
 
 INSIGNIFICANT = {
@@ -145,6 +146,7 @@ class HashImportsManipulator(JSYieldManipulator):
             return self._mark_import_bad("path contains invalid characters")
 
         if import_path.startswith("/"):
+            import_path = posixpath.normpath(import_path)
             rel_to_root = os.path.join(
                 "src", "public", import_path[1:].replace("/", os.path.sep)
             )
-- 
2.43.0


From e3f2eed4a74de4a1a5ba1101ab6895ed5fdb2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 23/98] fix: js imports of an export named import were not
 versioned

---
 vanillaplusjs/build/js/manips/hash_imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index 994c05f..3daafa2 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -20,7 +20,7 @@ INSIGNIFICANT = {
 NAMES = {JSTokenType.identifier, JSTokenType.keyword_as, JSTokenType.keyword_from}
 """What may name a binding: as and from are only special by their position"""
 
-EXPORTED_NAMES = NAMES | {JSTokenType.string_literal}
+EXPORTED_NAMES = NAMES | {JSTokenType.keyword_import, JSTokenType.string_literal}
 """What may name an export of the other module"""
 
 
-- 
2.43.0


From 6aa01e6f6b8c7d99953e5cb1f113e422446a0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 24/98] fix: css image data urls with base64 or parameters were
 outlined undecoded

---
 .../build/css/manips/outline_image_data.py    | 57 ++++++++++++++-----
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index fa1636d..39c1937 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -6,7 +6,9 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.css.manipulator import CSSManipulator
 from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 import vanillaplusjs.build.handlers.hash as hash_handler
-from urllib.parse import unquote, urlencode
+from urllib.parse import unquote_to_bytes, urlencode
+from dataclasses import dataclass
+import base64
 import re
 import os
 
@@ -14,11 +16,43 @@ from vanillaplusjs.constants import PROCESSOR_VERSION
 
 
 IMAGE_DATA_REGEX = re.compile(
-    r'^data:image/(?P<image_type>[^;,]+)[;,](?P<image_data>[^"]+)$'
+    r"^data:image/(?P<image_type>[^;,]+)(?P<parameters>(?:;[^,]*)?),(?P<image_data>.+)$",
+    re.IGNORECASE | re.DOTALL,
 )
 """Matches an image data source"""
 
 
+@dataclass(frozen=True)
+class ImageData:
+    """An image which was specified via an image data source"""
+
+    file_ext: str
+    """The file extension for this image, without the dot"""
+
+    contents: bytes
+    """The contents of the image"""
+
+
+def parse_image_data(url: str) -> Optional[ImageData]:
+    """Parses the given url as an image data source, returning None if it is not
+    one we can make sense of.
+    """
+    match = IMAGE_DATA_REGEX.match(url)
+    if match is None:
+        return None
+
+    contents = unquote_to_bytes(match.group("image_data"))
+    if match.group("parameters").rstrip().lower().endswith(";base64"):
+        try:
+            contents = base64.b64decode(contents)
+        except ValueError:
+            return None
+
+    return ImageData(
+        file_ext=match.group("image_type").split("+", 1)[0].lower(), contents=contents
+    )
+
+
 class OutlineImageDataManipulator(CSSManipulator):
     """When encountering a url function whose value is an image data source,
     replaces it with a new url function which points to a file which contains
@@ -39,7 +73,7 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.produced: Optional[Set[str]] = set() if mode == "build" else None
         self.reused: Optional[Set[str]] = set() if mode == "build" else None
 
-        self.image_relpath_by_data: Optional[Dict[str, str]] = dict()
+        self.image_relpath_by_data: Dict[ImageData, str] = dict()
         self.image_counter = 0
 
         self.skip_next_url_function = False
@@ -89,25 +123,22 @@ class OutlineImageDataManipulator(CSSManipulator):
             self.state = None
             return result
 
-        match = IMAGE_DATA_REGEX.match(node["value"])
-        if match is None:
+        image = parse_image_data(node["value"])
+        if image is None:
             self.skip_next_url_function = True
             result = self.stack
             self.stack = None
             self.state = None
             return result
 
-        image_type = match.group("image_type")
-        image_data = match.group("image_data")
-        out_relpath = self.image_relpath_by_data.get(image_data)
+        out_relpath = self.image_relpath_by_data.get(image)
         need_to_create = out_relpath is None
         if need_to_create:
             self.image_counter += 1
-            file_ext = image_type.split("+", 1)[0]
             out_relpath = os.path.join(
-                self.image_out_folder, f"{self.image_counter}.{file_ext}"
+                self.image_out_folder, f"{self.image_counter}.{image.file_ext}"
             )
-            self.image_relpath_by_data[image_data] = out_relpath
+            self.image_relpath_by_data[image] = out_relpath
 
         result: List[CSSToken] = [
             self.stack[0],
@@ -137,8 +168,8 @@ class OutlineImageDataManipulator(CSSManipulator):
             else:
                 self.produced.add(out_relpath)
                 makedirs_safely(os.path.dirname(out_path))
-                with open(out_path, "w", newline="\n") as f:
-                    f.write(unquote(image_data))
+                with open(out_path, "wb") as f:
+                    f.write(image.contents)
 
             hash_build_result = hash_handler.build_file(self.context, out_relpath)
             self.children.update(hash_build_result.children)
-- 
2.43.0


From ec960b3d7b7a88a6384de5382275a7ccb2411f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 25/98] fix: css image data urls which are unquoted, spaced or
 upper case were not outlined

---
 .../build/css/manips/outline_image_data.py    | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index 39c1937..9a7b2f8 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -89,9 +89,15 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.image_out_folder = os.path.join("out", "www", "img", "gen", path_in_gen)
 
     def start_mark(self, node: CSSToken) -> bool:
+        if node["type"] == CSSTokenType.url:
+            if parse_image_data(node["value"]) is None:
+                return False
+            self.state = "expecting_string"
+            self.stack = []
+            return True
         if node["type"] != CSSTokenType.function:
             return False
-        if node["value"] != "url":
+        if node["value"].lower() != "url":
             return False
         if self.skip_next_url_function:
             self.skip_next_url_function = False
@@ -108,7 +114,7 @@ class OutlineImageDataManipulator(CSSManipulator):
                 node["type"] == CSSTokenType.function
             ), "continue_mark in state expecting_url should get a function"
             assert (
-                node["value"] == "url"
+                node["value"].lower() == "url"
             ), "continue_mark in state expecting_url should get a url function"
             self.state = "expecting_string"
             return None
@@ -116,7 +122,9 @@ class OutlineImageDataManipulator(CSSManipulator):
         assert (
             self.state == "expecting_string"
         ), f"continue_mark unknown state: {self.state=}"
-        if node["type"] != CSSTokenType.string:
+        if node["type"] == CSSTokenType.whitespace:
+            return None
+        if node["type"] not in (CSSTokenType.string, CSSTokenType.url):
             self.skip_next_url_function = True
             result = self.stack
             self.stack = None
@@ -140,10 +148,9 @@ class OutlineImageDataManipulator(CSSManipulator):
             )
             self.image_relpath_by_data[image] = out_relpath
 
-        result: List[CSSToken] = [
-            self.stack[0],
+        result: List[CSSToken] = self.stack[:-1] + [
             CSSToken(
-                type=CSSTokenType.string,
+                type=node["type"],
                 value=out_relpath[len(os.path.join("out", "www")) :].replace(
                     os.path.sep, "/"
                 ),
@@ -151,7 +158,7 @@ class OutlineImageDataManipulator(CSSManipulator):
         ]
         self.stack = None
         self.state = None
-        self.skip_next_url_function = True
+        self.skip_next_url_function = node["type"] == CSSTokenType.string
 
         if self.mode == "scan":
             if need_to_create:
@@ -179,7 +186,7 @@ class OutlineImageDataManipulator(CSSManipulator):
         with open(out_path + ".hash") as f:
             hash_value = f.read()
 
-        result[1]["value"] += "?" + urlencode(
+        result[-1]["value"] += "?" + urlencode(
             {"v": hash_value, "pv": PROCESSOR_VERSION}
         )
 
-- 
2.43.0


From ba91a0a9f6c4235aeacb088295115ca0b8496840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 26/98] fix: outlined css images could reuse a leftover file
 with other content

---
 vanillaplusjs/build/css/manips/outline_image_data.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index 9a7b2f8..9b34256 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -170,13 +170,10 @@ class OutlineImageDataManipulator(CSSManipulator):
 
         out_path = os.path.join(self.context.folder, out_relpath)
         if need_to_create:
-            if os.path.lexists(out_relpath):
-                self.reused.add(out_relpath)
-            else:
-                self.produced.add(out_relpath)
-                makedirs_safely(os.path.dirname(out_path))
-                with open(out_path, "wb") as f:
-                    f.write(image.contents)
+            self.produced.add(out_relpath)
+            makedirs_safely(os.path.dirname(out_path))
+            with open(out_path, "wb") as f:
+                f.write(image.contents)
 
             hash_build_result = hash_handler.build_file(self.context, out_relpath)
             self.children.update(hash_build_result.children)
-- 
2.43.0


From 9492dcc81c79b911d50999b5c4ee2cdd1a6bdfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 27/98] fix: css rule imports skipped the rule after an at-rule
 without a block

---
 vanillaplusjs/build/css/manips/nest.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index a9143a8..f38e0be 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -482,10 +482,16 @@ class NestManipulator(CSSManipulator):
                 continue
 
             if token["type"] == CSSTokenType.at_keyword:
-                while token["type"] != CSSTokenType.left_curly_bracket:
+                while token["type"] not in (
+                    CSSTokenType.left_curly_bracket,
+                    CSSTokenType.semicolon,
+                ):
                     token = next(generator)
                     if token["type"] == CSSTokenType.eof:
                         raise ValueError(f"{imp=}")
+                if token["type"] == CSSTokenType.semicolon:
+                    # a statement, e.g., @charset "utf-8";
+                    continue
                 nest_level = 1
                 while nest_level > 0:
                     token = next(generator)
-- 
2.43.0


From dbbb96b8e002b8775ab75504cf2abbbd10961419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 28/98] fix: css rule imports took a rule name containing from
 for a stylesheet

---
 vanillaplusjs/build/css/manips/nest.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index f38e0be..3ac6bd1 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -364,14 +364,11 @@ class NestManipulator(CSSManipulator):
 
         args = match.group("args")
         args = args.strip()
-        try:
-            from_index = args.lower().index("from")
-        except ValueError:
-            from_index = None
+        from_match = re.search(r"\sfrom\s", args, re.IGNORECASE)
 
         import_relpath = None
-        if from_index is not None:
-            from_arg = args[from_index + 4 :].strip()
+        if from_match is not None:
+            from_arg = args[from_match.end() :].strip()
             if not from_arg.startswith("/") or " " in from_arg:
                 # parse error
                 return
@@ -385,7 +382,7 @@ class NestManipulator(CSSManipulator):
             import_relpath = self.context.default_css_file.replace("/", os.path.sep)
 
         import_prelude = (
-            args.strip() if from_index is None else args[:from_index].strip()
+            args if from_match is None else args[: from_match.start()].strip()
         )
         return QualifiedRuleReference(import_relpath, import_prelude)
 
-- 
2.43.0


From 146ccd695a3f273ce285587e18ee15deb7d0724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 29/98] fix: css rule imports lost tokens around nested blocks
 in imported rules

---
 vanillaplusjs/build/css/manips/nest.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 3ac6bd1..69502aa 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -532,6 +532,7 @@ class NestManipulator(CSSManipulator):
             stack: List[CSSToken] = []
             value: List[CSSToken] = []
             missing_references: Set[QualifiedRuleReference] = set()
+            nest_level = 0
 
             while True:
                 token = stack.pop(0) if stack else next(generator)
@@ -555,22 +556,11 @@ class NestManipulator(CSSManipulator):
                     raise ValueError(f"{imp=}")
 
                 if token["type"] == CSSTokenType.left_curly_bracket:
-                    # parse error, maybe something else will clean it up
-                    value.append(token)
-                    nest_level = 1
-                    while nest_level > 0:
-                        token = next(generator)
-                        if token["type"] == CSSTokenType.eof:
-                            raise ValueError(f"{imp=}")
-                        value.append(token)
-                        if token["type"] == CSSTokenType.left_curly_bracket:
-                            nest_level += 1
-                        elif token["type"] == CSSTokenType.right_curly_bracket:
-                            nest_level -= 1
-                    continue
-
-                if token["type"] == CSSTokenType.right_curly_bracket:
-                    break
+                    nest_level += 1
+                elif token["type"] == CSSTokenType.right_curly_bracket:
+                    if nest_level == 0:
+                        break
+                    nest_level -= 1
 
                 value.append(token)
 
-- 
2.43.0


From c271380b3c12731fc11069ab6820f7e48f1c13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 30/98] fix: css rule imports of a rule importing from another
 stylesheet failed

---
 vanillaplusjs/build/css/manips/nest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 69502aa..5bf3bf6 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -540,6 +540,8 @@ class NestManipulator(CSSManipulator):
                     continue
 
                 if (nested_import := self._get_import(token)) is not None:
+                    if nested_import.relpath not in (self.relpath, imp.relpath):
+                        self._ensure_resolved(nested_import)
                     if nested_import in self.referencable_rules.available_rules:
                         stack = (
                             self.referencable_rules.available_rules[
-- 
2.43.0


From 5330873388f2f20c6d3b52a8f51d0a5909233602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 31/98] fix: css rule imports merged an unterminated last
 declaration with the next one

---
 vanillaplusjs/build/css/manips/nest.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 5bf3bf6..902fa4f 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -569,6 +569,21 @@ class NestManipulator(CSSManipulator):
             while value and value[-1]["type"] == CSSTokenType.whitespace:
                 value.pop()
 
+            last_token = next(
+                (
+                    t
+                    for t in reversed(value)
+                    if t["type"] not in (CSSTokenType.whitespace, CSSTokenType.comment)
+                ),
+                None,
+            )
+            if (
+                last_token is not None
+                and last_token["type"] != CSSTokenType.semicolon
+            ):
+                # the last declaration need not be terminated within its own rule
+                value.append(CSSToken(type=CSSTokenType.semicolon))
+
             self.referencable_rules.set_rule(
                 imp.relpath,
                 serialized_prelude,
-- 
2.43.0


From 32e93a7b5e9398dff854a1745bb7711cfa6ec45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 32/98] fix: css rule imports failed when an earlier selector
 is repeated

---
 vanillaplusjs/build/css/manips/nest.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 902fa4f..98b8fdf 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -584,6 +584,14 @@ class NestManipulator(CSSManipulator):
                 # the last declaration need not be terminated within its own rule
                 value.append(CSSToken(type=CSSTokenType.semicolon))
 
+            reference = QualifiedRuleReference(imp.relpath, serialized_prelude)
+            if (
+                reference in self.referencable_rules.available_rules
+                or reference in self.referencable_rules.unresolved_rules
+            ):
+                # the first rule with a given prelude is the one imported
+                continue
+
             self.referencable_rules.set_rule(
                 imp.relpath,
                 serialized_prelude,
-- 
2.43.0


From 3870dd5aae1c13af766fa0918fd7ddb0fd1e240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 33/98] fix: css rule imports did not see rules between html
 comment marks

---
 vanillaplusjs/build/css/manips/nest.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 98b8fdf..54a25dc 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -471,13 +471,6 @@ class NestManipulator(CSSManipulator):
             if token["type"] == CSSTokenType.eof:
                 raise ValueError(f"{imp=}")
 
-            if token["type"] == CSSTokenType.cdo:
-                while token["type"] != CSSTokenType.cdc:
-                    token = next(generator)
-                    if token["type"] == CSSTokenType.eof:
-                        raise ValueError(f"{imp=}")
-                continue
-
             if token["type"] == CSSTokenType.at_keyword:
                 while token["type"] not in (
                     CSSTokenType.left_curly_bracket,
@@ -500,7 +493,12 @@ class NestManipulator(CSSManipulator):
                         nest_level -= 1
                 continue
 
-            if token["type"] in (CSSTokenType.whitespace, CSSTokenType.comment):
+            if token["type"] in (
+                CSSTokenType.whitespace,
+                CSSTokenType.comment,
+                CSSTokenType.cdo,
+                CSSTokenType.cdc,
+            ):
                 continue
 
             prelude: List[CSSToken] = [token]
-- 
2.43.0


From 67f7b63a039aace6fb3ce96ecf67c570b54bf52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 34/98] fix: icon colors and sizes after a longer or
 unterminated :root declaration were lost

---
 .../build/css/manips/icons/settings.py        | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index a29444d..7d4e311 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -189,19 +189,22 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                         # parse error
                         break
 
-                    component_value: List[CSSToken] = [next_significant()]
-                    if component_value[0]["type"] == CSSTokenType.function:
-                        token = next_significant()
-                        while token["type"] != CSSTokenType.right_parens:
-                            component_value.append(token)
-                            token = next_significant()
+                    component_value: List[CSSToken] = []
+                    nest_level = 0
+                    token = next_significant()
+                    while nest_level > 0 or token["type"] not in (
+                        CSSTokenType.semicolon,
+                        CSSTokenType.right_curly_bracket,
+                    ):
+                        if token["type"] == CSSTokenType.left_curly_bracket:
+                            nest_level += 1
+                        elif token["type"] == CSSTokenType.right_curly_bracket:
+                            nest_level -= 1
                         component_value.append(token)
+                        token = next_significant()
 
-                    token = next_significant()
-                    if token["type"] != CSSTokenType.semicolon:
-                        # parse error
-                        break
-                    token = next_significant()
+                    while token["type"] == CSSTokenType.semicolon:
+                        token = next_significant()
 
                     if component_name.startswith("--col-"):
                         color = interpret_as_color(component_value)
-- 
2.43.0


From fe9672c589a8707a51f0fc6278b6e878da83da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 35/98] fix: icon colors gray and sandybrown had the wrong
 value

---
 vanillaplusjs/build/css/manips/icons/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index 7d4e311..8c725db 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -274,7 +274,7 @@ NAMED_CSS_COLORS = {
     "ghostwhite": Color(red=248, green=248, blue=255),
     "gold": Color(red=255, green=215, blue=0),
     "goldenrod": Color(red=218, green=165, blue=32),
-    "gray": Color(red=127, green=127, blue=127),
+    "gray": Color(red=128, green=128, blue=128),
     "green": Color(red=0, green=128, blue=0),
     "greenyellow": Color(red=173, green=255, blue=47),
     "honeydew": Color(red=240, green=255, blue=240),
@@ -343,7 +343,7 @@ NAMED_CSS_COLORS = {
     "royalblue": Color(red=65, green=105, blue=225),
     "saddlebrown": Color(red=139, green=69, blue=19),
     "salmon": Color(red=250, green=128, blue=114),
-    "sandybrown": Color(red=250, green=128, blue=114),
+    "sandybrown": Color(red=244, green=164, blue=96),
     "seagreen": Color(red=46, green=139, blue=87),
     "seashell": Color(red=255, green=245, blue=238),
     "sienna": Color(red=160, green=82, blue=45),
-- 
2.43.0


From 09884dd9eb3ee8674c65925bd46dfdd64c487f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 36/98] fix: icon colors lightgray and the grey spellings were
 not known

---
 vanillaplusjs/build/css/manips/icons/settings.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index 8c725db..53afa8b 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -249,6 +249,7 @@ NAMED_CSS_COLORS = {
     "darkcyan": Color(red=0, green=139, blue=139),
     "darkgoldenrod": Color(red=184, green=134, blue=11),
     "darkgray": Color(red=169, green=169, blue=169),
+    "darkgrey": Color(red=169, green=169, blue=169),
     "darkgreen": Color(red=0, green=100, blue=0),
     "darkkhaki": Color(red=189, green=183, blue=107),
     "darkmagenta": Color(red=139, green=0, blue=139),
@@ -260,11 +261,13 @@ NAMED_CSS_COLORS = {
     "darkseagreen": Color(red=143, green=188, blue=143),
     "darkslateblue": Color(red=72, green=61, blue=139),
     "darkslategray": Color(red=47, green=79, blue=79),
+    "darkslategrey": Color(red=47, green=79, blue=79),
     "darkturquoise": Color(red=0, green=206, blue=209),
     "darkviolet": Color(red=148, green=0, blue=211),
     "deeppink": Color(red=255, green=20, blue=147),
     "deepskyblue": Color(red=0, green=191, blue=255),
     "dimgray": Color(red=105, green=105, blue=105),
+    "dimgrey": Color(red=105, green=105, blue=105),
     "dodgerblue": Color(red=30, green=144, blue=255),
     "firebrick": Color(red=178, green=34, blue=34),
     "floralwhite": Color(red=255, green=250, blue=240),
@@ -276,6 +279,7 @@ NAMED_CSS_COLORS = {
     "goldenrod": Color(red=218, green=165, blue=32),
     "gray": Color(red=128, green=128, blue=128),
     "green": Color(red=0, green=128, blue=0),
+    "grey": Color(red=128, green=128, blue=128),
     "greenyellow": Color(red=173, green=255, blue=47),
     "honeydew": Color(red=240, green=255, blue=240),
     "hotpink": Color(red=255, green=105, blue=180),
@@ -292,12 +296,14 @@ NAMED_CSS_COLORS = {
     "lightcyan": Color(red=224, green=255, blue=255),
     "lightgoldenrodyellow": Color(red=250, green=250, blue=210),
     "lightgreen": Color(red=144, green=238, blue=144),
+    "lightgray": Color(red=211, green=211, blue=211),
     "lightgrey": Color(red=211, green=211, blue=211),
     "lightpink": Color(red=255, green=182, blue=193),
     "lightsalmon": Color(red=255, green=160, blue=122),
     "lightseagreen": Color(red=32, green=178, blue=170),
     "lightskyblue": Color(red=135, green=206, blue=250),
     "lightslategray": Color(red=119, green=136, blue=153),
+    "lightslategrey": Color(red=119, green=136, blue=153),
     "lightsteelblue": Color(red=176, green=196, blue=222),
     "lightyellow": Color(red=255, green=255, blue=224),
     "lime": Color(red=0, green=255, blue=0),
@@ -338,6 +344,7 @@ NAMED_CSS_COLORS = {
     "plum": Color(red=221, green=160, blue=221),
     "powderblue": Color(red=176, green=224, blue=230),
     "purple": Color(red=128, green=0, blue=128),
+    "rebeccapurple": Color(red=102, green=51, blue=153),
     "red": Color(red=255, green=0, blue=0),
     "rosybrown": Color(red=188, green=143, blue=143),
     "royalblue": Color(red=65, green=105, blue=225),
@@ -351,6 +358,7 @@ NAMED_CSS_COLORS = {
     "skyblue": Color(red=135, green=206, blue=235),
     "slateblue": Color(red=106, green=90, blue=205),
     "slategray": Color(red=112, green=128, blue=144),
+    "slategrey": Color(red=112, green=128, blue=144),
     "snow": Color(red=255, green=250, blue=250),
     "springgreen": Color(red=0, green=255, blue=127),
     "steelblue": Color(red=70, green=130, blue=180),
-- 
2.43.0


From 0dadef720019d67066a5ada8e8e3e41943b7d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 37/98] fix: icon commands with a button of an unknown color
 failed

---
 vanillaplusjs/build/css/manips/icons/manip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 31d120f..ada47f8 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -556,7 +556,7 @@ class IconManipulator(CSSManipulator):
                     real_button,
                     button_by_identifier=dict(
                         (iden, setting)
-                        for iden, setting in real_button.button_by_identifier
+                        for iden, setting in real_button.button_by_identifier.items()
                         if iden not in purge_idens
                     ),
                 )
-- 
2.43.0


From 8576cbb049515e61348f6c6d4c8747803ef8e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 38/98] fix: icon settings without a default button failed to
 load

---
 vanillaplusjs/build/css/manips/icons/settings.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index 53afa8b..f315b4e 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -68,6 +68,7 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
         ),
         button_by_identifier=dict(),
     )
+    fallback_button = button_settings.default_button
     icons: Optional[dict] = config.get("icons")
     if icons is not None:
         default_button: Optional[dict] = icons.get(
@@ -100,6 +101,9 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                     ),
                 )
 
+        if button_settings.default_button is not None:
+            fallback_button = button_settings.default_button
+
         button_by_identifier: Optional[dict[str, dict]] = icons.get(
             "button_by_identifier", dict()
         )
@@ -110,13 +114,13 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
         else:
             for button_identifier, button_config in button_by_identifier.items():
                 active_color: Optional[str] = button_config.get(
-                    "active_color", button_settings.default_button.active_color
+                    "active_color", fallback_button.active_color
                 )
                 hover_color: Optional[str] = button_config.get(
-                    "hover_color", button_settings.default_button.hover_color
+                    "hover_color", fallback_button.hover_color
                 )
                 disabled_color: Optional[str] = button_config.get(
-                    "disabled_color", button_settings.default_button.disabled_color
+                    "disabled_color", fallback_button.disabled_color
                 )
                 if (
                     active_color is not None
-- 
2.43.0


From 7d8f82ae53f64768b1d471353673749d5914fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 39/98] fix: icon buttons in colors without a class of their
 own had no images

---
 vanillaplusjs/build/css/manips/icons/manip.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index ada47f8..8692dc3 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -78,7 +78,7 @@ class IconManipulator(CSSManipulator):
         svg = None
         replacer = None
 
-        for color in args.output_colors:
+        for color in self.get_icon_colors(args):
             output_relpath = os.path.join(args.output_icon_folder, color + ".svg")
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
@@ -565,6 +565,21 @@ class IconManipulator(CSSManipulator):
             args, output_colors=real_colors, output_sizes=real_sizes, button=real_button
         )
 
+    def get_icon_colors(self, args: IconCommand) -> List[str]:
+        """Determines the colors in which the icon is needed, which are those
+        that get a class and those that only a button uses.
+        """
+        colors = list(args.output_colors)
+        if args.button is not None:
+            settings = list(args.button.button_by_identifier.values())
+            if args.button.default_button is not None:
+                settings.append(args.button.default_button)
+            for setting in settings:
+                colors.extend(
+                    [setting.active_color, setting.hover_color, setting.disabled_color]
+                )
+        return list(dict((c, None) for c in colors))  # dict to preserve order
+
     def scan_icon_command(self, args: IconCommand) -> None:
         """Adds any dependencies or produces appropriate for the icon command
         with the given arguments.
@@ -575,7 +590,7 @@ class IconManipulator(CSSManipulator):
 
         self.dependencies.add(args.input_icon)
 
-        for color in args.output_colors:
+        for color in self.get_icon_colors(args):
             self.produces.add(os.path.join(args.output_icon_folder, color + ".svg"))
 
             # these are oging to come from the version_urls manipulator, but if we don't add them
-- 
2.43.0


From 1a17b5239ce7e820473863361b77f8a3cea2b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 40/98] fix: icons written with a short, lower case or single
 quoted color were not recolored

---
 vanillaplusjs/build/css/manips/icons/color.py | 14 ++++++++++++++
 vanillaplusjs/build/css/manips/icons/manip.py |  6 +++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/color.py b/vanillaplusjs/build/css/manips/icons/color.py
index 09a89de..4b7b01b 100644
--- a/vanillaplusjs/build/css/manips/icons/color.py
+++ b/vanillaplusjs/build/css/manips/icons/color.py
@@ -1,4 +1,5 @@
 from dataclasses import dataclass
+import re
 
 
 @dataclass
@@ -34,5 +35,18 @@ class Color:
 
         raise ValueError("Hex string must be 7 or 4 characters long")
 
+    def to_hex_regex(self) -> "re.Pattern[str]":
+        """A regex matching this color as an attribute or style value in any
+        of the ways it can be written as a hex color, e.g., #333 or #AaBbCc
+        """
+        hex_str = self.to_hex()[1:]
+        alternatives = [hex_str]
+        if hex_str[::2] == hex_str[1::2]:
+            alternatives.append(hex_str[::2])
+        return re.compile(
+            r"(?<=[\"':\s])#(?:" + "|".join(alternatives) + r")(?=[\"';\s!])",
+            re.IGNORECASE,
+        )
+
     def to_hex(self) -> str:
         return f"#{self.red:02X}{self.green:02X}{self.blue:02X}"
diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 8692dc3..bfaad31 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -89,8 +89,8 @@ class IconManipulator(CSSManipulator):
                     svg = f.read()
 
                 og_color = self.context.icon_settings.color_map[args.icon_initial_color]
-                replacer = f'"{og_color.to_hex()}"'
-                if replacer not in svg:
+                replacer = og_color.to_hex_regex()
+                if replacer.search(svg) is None:
                     logger.warning(
                         f"Icon {args.icon_name} does not have the "
                         f"color {args.icon_initial_color} ({og_color.to_hex()}) in it"
@@ -99,7 +99,7 @@ class IconManipulator(CSSManipulator):
                     logger.debug(f"{replacer=}")
 
             target_color = self.context.icon_settings.color_map[color]
-            new_svg = svg.replace(replacer, f'"{target_color.to_hex()}"')
+            new_svg = replacer.sub(target_color.to_hex(), svg)
             makedirs_safely(os.path.dirname(output_path))
             with open(output_path, "w", newline="\n") as f:
                 f.write(new_svg)
-- 
2.43.0


From 49aa4352e0fdda85878982960a54eaa35b0d7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 41/98] fix: css rebuilt because of another file no longer
 depended on its icons

---
 vanillaplusjs/build/css/manips/icons/manip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index bfaad31..f3aa125 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -75,6 +75,8 @@ class IconManipulator(CSSManipulator):
         if self.relpath != css_file_relpath:
             self.children.add(css_file_relpath)
 
+        self.children.add(args.input_icon)
+
         svg = None
         replacer = None
 
@@ -83,6 +85,7 @@ class IconManipulator(CSSManipulator):
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
                 self.reused.add(output_relpath)
+                self.reused.add(output_relpath + ".hash")
                 continue
             if svg is None:
                 with open(os.path.join(self.context.folder, args.input_icon)) as f:
-- 
2.43.0


From 0d25f0cf92d872bef4e1a668a812bd8641d2c56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 42/98] fix: rebuilding or deleting a file removed outputs
 which other files still use

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 654d821..315d512 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -234,8 +234,16 @@ async def hot_incremental_rebuild(
                         files_to_rebuild.add(par)
                         stack.append(par)
 
+        for file in files_to_rebuild:
             if file in old_output_graph:
                 for child in old_output_graph.get_children(file):
+                    if any(
+                        par not in files_to_rebuild
+                        for par in old_output_graph.get_parents(child)
+                    ):
+                        # something that we are not rebuilding still needs it
+                        continue
+
                     if child.startswith("artifacts"):
                         dirtied_artifacts.add(child)
                     else:
-- 
2.43.0


From bd06052e3e5ebf68de2dcfa8e83d9d2879e042b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 43/98] fix: files sharing an output, such as an icon or image,
 were cyclic or built at the same time

---
 .../build/hot_incremental_rebuild.py          | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 315d512..75fd680 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -182,6 +182,9 @@ async def hot_incremental_rebuild(
                     new_dependencies.add(dep_relpath)
                     continue
 
+                if dep_relpath in scan_result.produces:
+                    continue
+
                 if dep_relpath in out_dependencies_mapping:
                     new_dependencies.add(out_dependencies_mapping[dep_relpath])
                     continue
@@ -310,6 +313,9 @@ async def hot_incremental_rebuild(
 
         while files_to_rebuild or pending_results:
             rebuildable_files: List[str] = []
+            outputs_being_created: Set[str] = set()
+            for file in pending_results:
+                outputs_being_created.update(get_file_creates(file))
             for file in files_to_rebuild:
                 file_depends_on: List[str] = get_file_depends_on(file)
                 file_creates: List[str] = get_file_creates(file)
@@ -344,6 +350,14 @@ async def hot_incremental_rebuild(
                 if not all_outputs_not_pending:
                     continue
 
+                if not outputs_being_created.isdisjoint(file_creates):
+                    logger.debug(
+                        "Cannot rebuild {} while another file creates the same outputs",
+                        file,
+                    )
+                    continue
+
+                outputs_being_created.update(file_creates)
                 rebuildable_files.append(file)
                 for output in file_creates:
                     if output in still_dirty_outputs:
@@ -378,7 +392,12 @@ async def hot_incremental_rebuild(
 
                     reinterpreted_children: List[str] = []
                     for child in rebuild_result.children:
-                        if child in out_dependencies_mapping:
+                        if (
+                            child in rebuild_result.produced
+                            or child in rebuild_result.reused
+                        ):
+                            continue
+                        elif child in out_dependencies_mapping:
                             mapped_child = out_dependencies_mapping[child]
                             if mapped_child != pending_file:
                                 reinterpreted_children.append(mapped_child)
-- 
2.43.0


From cf42b6ade6af1e636f39fca26165398202535c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 44/98] fix: html text starting with an escaped comment became
 a comment, and inline styles between comment marks failed

---
 vanillaplusjs/build/html/tokenizer.py | 86 +++++++++++++--------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index 654d110..fbcecdd 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -1,7 +1,15 @@
 import io
-from typing import Generator
+from typing import Generator, Optional
 from .token import HTMLToken
 import html5lib
+import re
+
+
+RCDATA_ELEMENTS = ("title", "textarea")
+"""The elements whose contents html5lib treats as text, including comments"""
+
+COMMENT_RULE = re.compile(r"<!--(.*?)-->", flags=re.DOTALL)
+"""Regex that matches a comment, capturing its data"""
 
 
 def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, None]:
@@ -31,52 +39,38 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
         doc = parser.parse(f)
     walker = html5lib.getTreeWalker("dom")
 
-    tokens = iter(walker(doc))
-    while True:
-        try:
-            token = next(tokens)
-        except StopIteration:
-            break
-
-        # html5lib uses parseRCDataRawtext for several locations, e.g.,
-        # title tags, where we really just want them handled like a normal tag.
-        # it's not really possible to fix this without forking html5lib, so we
-        # will at least handle comments correctly
-
-        # to see what we're trying to fix, try parseFragment on <title><!-- COMMENT -->Hello World</title>
-
-        if token["type"] == "Characters" and token["data"] == "<":
-            try:
-                next_token = next(tokens)
-            except StopIteration:
-                yield token
-                break
-
-            if next_token["type"] == "Characters" and next_token["data"].startswith(
-                "!--"
-            ):
-                data: str = next_token["data"]
-                try:
-                    close_comment_idx = data.index("-->")
-                except ValueError:
-                    yield token
-                    yield next_token
-                    continue
-
-                yield HTMLToken(
-                    type="Comment",
-                    data=data[3:close_comment_idx],
-                )
-                remainder = data[close_comment_idx + 3 :]
-                if remainder:
-                    yield HTMLToken(
-                        type="Characters",
-                        data=remainder,
-                    )
+    # html5lib uses parseRCDataRawtext for several locations, e.g.,
+    # title tags, where we really just want them handled like a normal tag.
+    # it's not really possible to fix this without forking html5lib, so we
+    # will at least handle comments correctly
+
+    # to see what we're trying to fix, try parseFragment on <title><!-- COMMENT -->Hello World</title>
+    rcdata: Optional[str] = None
+    """The text so far if we are within an RCDATA element, otherwise None"""
+
+    for token in walker(doc):
+        if rcdata is not None:
+            if token["type"] in ("Characters", "SpaceCharacters"):
+                rcdata += token["data"]
                 continue
 
-            yield token
-            yield next_token
-            continue
+            yield from tokenize_rcdata(rcdata)
+            rcdata = None
+
+        if (
+            token["type"] == "StartTag"
+            and token["name"] in RCDATA_ELEMENTS
+            and not token.get("namespace")
+        ):
+            rcdata = ""
 
         yield token
+
+
+def tokenize_rcdata(text: str) -> Generator[HTMLToken, None, None]:
+    """Splits the text of an RCDATA element into characters and comments"""
+    for idx, part in enumerate(COMMENT_RULE.split(text)):
+        if idx % 2 == 1:
+            yield HTMLToken(type="Comment", data=part)
+        elif part:
+            yield HTMLToken(type="Characters", data=part)
-- 
2.43.0


From 15338c8cbcefb1294b0a4bf87bcd6e108a2d2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 45/98] fix: inline styles with attributes failed to build

---
 vanillaplusjs/build/html/manips/outline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index be7aa16..40e4fbe 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -109,7 +109,7 @@ class OutlineManipulator(HTMLManipulator):
                     os.path.join(self.context.folder, self.outlining_to_path), "w"
                 )
                 self.start_tag_attrs = dict(
-                    (key, val) for (_, key), val in node["data"]
+                    (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
 
-- 
2.43.0


From 5a83b7b43e55d3a6c99a48a7d745e5e9130a0eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 46/98] fix: a href attribute on a script was dropped

---
 vanillaplusjs/build/html/manips/link_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index 6117fec..f916603 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -195,7 +195,7 @@ class LinkHash(HTMLManipulator):
             attr_name=link_type.attr_name,
             path=href[1:],
             attributes=dict(
-                ((key[1], val) for (key, val) in attributes.items() if key[1] != "href")
+                ((key[1], val) for (key, val) in attributes.items() if key[1] != link_type.attr_name)
             ),
         )
 
-- 
2.43.0


From 303b7d8b85f5737fce834638f2b8a70b5564382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 47/98] fix: html links to other hosts without a scheme were
 taken for site files

---
 vanillaplusjs/build/html/manips/link_hash.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index f916603..3ab1e40 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -190,6 +190,10 @@ class LinkHash(HTMLManipulator):
         if href is None or not href.startswith("/") or any(c in "?#" for c in href):
             return None
 
+        if href.startswith("//"):
+            # another host, with the scheme of the page
+            return None
+
         return LinkDependency(
             name=node["name"],
             attr_name=link_type.attr_name,
-- 
2.43.0


From 7458bdf4e44325d8b2added5c10a3b5c7aa0f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 48/98] fix: html links with dot segments were not resolved

---
 vanillaplusjs/build/html/manips/link_hash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index 3ab1e40..b0debdf 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -9,6 +9,7 @@ from vanillaplusjs.constants import PROCESSOR_VERSION
 from dataclasses import dataclass
 from urllib.parse import urlencode
 import itertools
+import posixpath
 import abc
 
 
@@ -197,7 +198,7 @@ class LinkHash(HTMLManipulator):
         return LinkDependency(
             name=node["name"],
             attr_name=link_type.attr_name,
-            path=href[1:],
+            path=posixpath.normpath(href)[1:],
             attributes=dict(
                 ((key[1], val) for (key, val) in attributes.items() if key[1] != link_type.attr_name)
             ),
-- 
2.43.0


From 620bccebc0214fa974bdefca7307224ac9f7bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 49/98] fix: canonical urls relative to the page or to the
 scheme became urls of other hosts

---
 .../build/html/manips/link_rel_canonical.py          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/link_rel_canonical.py b/vanillaplusjs/build/html/manips/link_rel_canonical.py
index 5abd0ca..165b70a 100644
--- a/vanillaplusjs/build/html/manips/link_rel_canonical.py
+++ b/vanillaplusjs/build/html/manips/link_rel_canonical.py
@@ -6,6 +6,7 @@ import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
 import os
 from dataclasses import dataclass
+from urllib.parse import urljoin
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 
 
@@ -74,12 +75,15 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
 
         href = node["data"].get((None, tag.attr))
         new_href = None
+        path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
+        path = path_relative_to_public.replace(os.path.sep, "/")
+        page_url = f"https://{host}/{path}"
         if href is None:
-            path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
-            path = path_relative_to_public.replace(os.path.sep, "/")
-            new_href = f"https://{host}/{path}"
-        else:
+            new_href = page_url
+        elif not href or href.startswith("/") and not href.startswith("//"):
             new_href = f"https://{host}{href}"
+        else:
+            new_href = urljoin(page_url, href)
 
         new_tags = tag.other_tags.copy()
         new_tags[tag.attr] = new_href
-- 
2.43.0


From a4dd481f2329f2524bab6a3d7d0bb6f954c5f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 50/98] fix: html text within noscript was not escaped

---
 .../build/html/manipulate_and_serialize.py    | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manipulate_and_serialize.py b/vanillaplusjs/build/html/manipulate_and_serialize.py
index d385ecc..d399cbe 100644
--- a/vanillaplusjs/build/html/manipulate_and_serialize.py
+++ b/vanillaplusjs/build/html/manipulate_and_serialize.py
@@ -1,13 +1,40 @@
-from typing import List, Optional
+from typing import Generator, Iterable, List, Optional
 
 from vanillaplusjs.build.ioutil import makedirs_safely
 from .manipulator import HTMLManipulator
 from .builder import HTMLBuilder
+from .token import HTMLToken, space_characters
 from .tokenizer import tokenize
 import html5lib
 import os
 
 
+RAW_TEXT_ELEMENTS = ("style", "script", "xmp", "iframe", "noembed", "noframes")
+"""The elements whose text is not escaped. html5lib also includes noscript,
+though we parse that as if scripting were disabled, i.e., as regular html"""
+
+
+def prepare_for_serializer(
+    tokens: Iterable[HTMLToken],
+) -> Generator[HTMLToken, None, None]:
+    """Decides which text is escaped, since html5lib does not do so correctly
+    for noscript.
+    """
+    raw_text = False
+    for token in tokens:
+        if token["type"] in ("StartTag", "EndTag"):
+            raw_text = (
+                token["type"] == "StartTag"
+                and token["name"] in RAW_TEXT_ELEMENTS
+                and token.get("namespace") is None
+            )
+        elif raw_text and token["type"] == "Characters":
+            # these are serialized as is
+            token = space_characters(token["data"])
+
+        yield token
+
+
 def manipulate_and_serialize(
     infile: str, outfile: Optional[str], manipulators: List[HTMLManipulator]
 ) -> None:
@@ -31,9 +58,9 @@ def manipulate_and_serialize(
 
     makedirs_safely(os.path.dirname(outfile))
 
-    output_tokens = builder.consume_tokens()
+    output_tokens = prepare_for_serializer(builder.consume_tokens())
     serializer = html5lib.serializer.HTMLSerializer(
-        omit_optional_tags=False, quote_attr_values="always"
+        omit_optional_tags=False, quote_attr_values="always", escape_rcdata=True
     )
 
     with open(outfile, "wb") as f:
-- 
2.43.0


From 4a986d4d2a318cac037177122ed9f718eafcdb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 51/98] fix: a blank line at the start of preformatted html
 text was dropped

---
 .../build/html/manipulate_and_serialize.py    | 17 ++++++++-
 vanillaplusjs/build/html/tokenizer.py         | 38 ++++++++++++++++++-
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/html/manipulate_and_serialize.py b/vanillaplusjs/build/html/manipulate_and_serialize.py
index d399cbe..335307d 100644
--- a/vanillaplusjs/build/html/manipulate_and_serialize.py
+++ b/vanillaplusjs/build/html/manipulate_and_serialize.py
@@ -4,7 +4,7 @@ from vanillaplusjs.build.ioutil import makedirs_safely
 from .manipulator import HTMLManipulator
 from .builder import HTMLBuilder
 from .token import HTMLToken, space_characters
-from .tokenizer import tokenize
+from .tokenizer import SKIPS_NEWLINE_ELEMENTS, tokenize
 import html5lib
 import os
 
@@ -18,10 +18,23 @@ def prepare_for_serializer(
     tokens: Iterable[HTMLToken],
 ) -> Generator[HTMLToken, None, None]:
     """Decides which text is escaped, since html5lib does not do so correctly
-    for noscript.
+    for noscript, and keeps newlines which parsers would skip.
     """
     raw_text = False
+    skips_newline = False
     for token in tokens:
+        if (
+            skips_newline
+            and token["type"] in ("Characters", "SpaceCharacters")
+            and token["data"].startswith("\n")
+        ):
+            yield space_characters("\n")
+        skips_newline = (
+            token["type"] == "StartTag"
+            and token["name"] in SKIPS_NEWLINE_ELEMENTS
+            and token.get("namespace") is None
+        )
+
         if token["type"] in ("StartTag", "EndTag"):
             raw_text = (
                 token["type"] == "StartTag"
diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index fbcecdd..f2e76d9 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -1,5 +1,5 @@
 import io
-from typing import Generator, Optional
+from typing import Generator, Iterable, Optional
 from .token import HTMLToken
 import html5lib
 import re
@@ -8,6 +8,12 @@ import re
 RCDATA_ELEMENTS = ("title", "textarea")
 """The elements whose contents html5lib treats as text, including comments"""
 
+SKIPS_NEWLINE_ELEMENTS = ("pre", "listing", "textarea")
+"""The elements for which parsers skip a newline right after the start tag"""
+
+CELL_ELEMENTS = ("td", "th", "caption")
+"""The elements within which html5lib does not do so"""
+
 COMMENT_RULE = re.compile(r"<!--(.*?)-->", flags=re.DOTALL)
 """Regex that matches a comment, capturing its data"""
 
@@ -48,7 +54,7 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
     rcdata: Optional[str] = None
     """The text so far if we are within an RCDATA element, otherwise None"""
 
-    for token in walker(doc):
+    for token in skip_newlines_in_cells(walker(doc)):
         if rcdata is not None:
             if token["type"] in ("Characters", "SpaceCharacters"):
                 rcdata += token["data"]
@@ -67,6 +73,34 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
         yield token
 
 
+def skip_newlines_in_cells(
+    tokens: Iterable[HTMLToken],
+) -> Generator[HTMLToken, None, None]:
+    """Drops the newline right after the start of preformatted text within table
+    cells and captions, which html5lib only does elsewhere.
+    """
+    cell_depth = 0
+    after_start_tag = False
+    for token in tokens:
+        if token["type"] in ("Characters", "SpaceCharacters") and after_start_tag:
+            after_start_tag = False
+            if token["data"].startswith("\n"):
+                token = token.copy()
+                token["data"] = token["data"][1:]
+                if not token["data"]:
+                    continue
+
+        after_start_tag = (
+            cell_depth > 0
+            and token["type"] == "StartTag"
+            and token["name"] in SKIPS_NEWLINE_ELEMENTS
+        )
+        if token["type"] in ("StartTag", "EndTag") and token["name"] in CELL_ELEMENTS:
+            cell_depth += 1 if token["type"] == "StartTag" else -1
+
+        yield token
+
+
 def tokenize_rcdata(text: str) -> Generator[HTMLToken, None, None]:
     """Splits the text of an RCDATA element into characters and comments"""
     for idx, part in enumerate(COMMENT_RULE.split(text)):
-- 
2.43.0


From 51d90ac81c93e80b3c9795d770877db422ad9da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 52/98] fix: attributes with a prefix such as xlink:href lost
 it

---
 .../build/html/manipulate_and_serialize.py    | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manipulate_and_serialize.py b/vanillaplusjs/build/html/manipulate_and_serialize.py
index 335307d..b640c53 100644
--- a/vanillaplusjs/build/html/manipulate_and_serialize.py
+++ b/vanillaplusjs/build/html/manipulate_and_serialize.py
@@ -18,7 +18,8 @@ def prepare_for_serializer(
     tokens: Iterable[HTMLToken],
 ) -> Generator[HTMLToken, None, None]:
     """Decides which text is escaped, since html5lib does not do so correctly
-    for noscript, and keeps newlines which parsers would skip.
+    for noscript, keeps newlines which parsers would skip, and restores the
+    prefixes of attributes such as xlink:href.
     """
     raw_text = False
     skips_newline = False
@@ -45,9 +46,26 @@ def prepare_for_serializer(
             # these are serialized as is
             token = space_characters(token["data"])
 
+        if token["type"] in ("StartTag", "EmptyTag") and any(
+            namespace is not None for namespace, _ in token["data"]
+        ):
+            token = token.copy()
+            token["data"] = dict(
+                ((None, prefixed_attribute_name(*key)), value)
+                for key, value in token["data"].items()
+            )
+
         yield token
 
 
+def prefixed_attribute_name(namespace: Optional[str], name: str) -> str:
+    """The name of the attribute as it is written in html"""
+    if namespace is None or name == "xmlns":
+        return name
+
+    return f"{html5lib.constants.prefixes[namespace]}:{name}"
+
+
 def manipulate_and_serialize(
     infile: str, outfile: Optional[str], manipulators: List[HTMLManipulator]
 ) -> None:
-- 
2.43.0


From 45747868a2d2f476719aeeef275567b6b4ad0377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 53/98] fix: canonical urls were taken for full urls by their
 first letters

---
 vanillaplusjs/build/html/manips/link_rel_canonical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/link_rel_canonical.py b/vanillaplusjs/build/html/manips/link_rel_canonical.py
index 165b70a..89e9646 100644
--- a/vanillaplusjs/build/html/manips/link_rel_canonical.py
+++ b/vanillaplusjs/build/html/manips/link_rel_canonical.py
@@ -5,6 +5,7 @@ from vanillaplusjs.build.html.manipulator import HTMLManipulator
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
 import os
+import re
 from dataclasses import dataclass
 from urllib.parse import urljoin
 from vanillaplusjs.build.scan_file_result import ScanFileResult
@@ -12,6 +13,9 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 
 PUBLIC_PREFIX_LENGTH = len(os.path.join("src", "public")) + len(os.path.sep)
 
+FULL_URL_RULE = re.compile(r"^[a-z][a-z0-9+.-]*:", flags=re.IGNORECASE)
+"""Regex that matches urls with a scheme"""
+
 
 @dataclass
 class TagToReplace:
@@ -97,7 +101,7 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
             return None
 
         href = node["data"].get((None, tag.attr))
-        if href is not None and href.startswith("http"):
+        if href is not None and FULL_URL_RULE.match(href):
             return None
 
         tag.other_tags = dict(
-- 
2.43.0


From 3381bd53cae340617e53cdcda833cf9a28f3a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 54/98] fix: template paths relative to the current file were
 not found

---
 vanillaplusjs/build/html/manips/template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index eec09cb..fa5879b 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -213,9 +213,12 @@ class TemplateManipulator(HTMLManipulator):
         else:
             command_path_rel_current_relpath = command_path.replace("/", os.path.sep)
             command_path_rel_project_root = os.path.join(
-                self.current_frame.relpath, command_path_rel_current_relpath
+                os.path.dirname(self.current_frame.relpath),
+                command_path_rel_current_relpath,
             )
 
+        command_path_rel_project_root = os.path.normpath(command_path_rel_project_root)
+
         for var_key in list(variables.keys()):
             var_val = variables[var_key]
             if (
-- 
2.43.0


From c536f0a26b8563be1450d253fbf56c41b725e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 55/98] fix: a template within itself was expanded without end

---
 vanillaplusjs/build/html/manips/template.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index fa5879b..899bc28 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -134,6 +134,11 @@ class TemplateManipulator(HTMLManipulator):
         else:
             self.children.add(imp.relpath)
 
+        if any(
+            frame.relpath == imp.relpath for frame in (*self.stack, self.current_frame)
+        ):
+            raise ValueError(f"{self.relpath} expands {imp.relpath} within itself")
+
         result = []
         result.append(
             tkn.HTMLToken(
-- 
2.43.0


From e55900d9628914bc14d32d0161b52ddad700edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 56/98] fix: html with several inline scripts or styles failed
 to build

---
 vanillaplusjs/build/html/manips/outline.py | 28 +++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 40e4fbe..dceb751 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -78,36 +78,24 @@ class OutlineManipulator(HTMLManipulator):
         if self.outlining is None:
             if self._should_outline_script(node):
                 self.outlining = "script"
-                if self.script_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.script_src_folder)
-                    )
                 self.script_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.script_src_folder,
                     f"{self.script_outline_count}.js",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_to()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
             if self._should_outline_style(node):
                 self.outlining = "style"
-                if self.style_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.style_src_folder)
-                    )
                 self.style_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.style_src_folder,
                     f"{self.style_outline_count}.css",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_to()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
@@ -203,6 +191,18 @@ class OutlineManipulator(HTMLManipulator):
         self.outlining_to.write(node["data"])
         return None
 
+    def _open_outlining_to(self) -> io.TextIOBase:
+        """Opens the file to outline to, creating its folder"""
+        path = os.path.join(self.context.folder, self.outlining_to_path)
+        while True:
+            try:
+                makedirs_safely(os.path.dirname(path))
+                return open(path, "w")
+            except FileNotFoundError:
+                # The folder was empty, and removed after outlining another
+                # script or style, possibly concurrently
+                continue
+
     def _should_outline_script(self, node: tkn.HTMLToken) -> bool:
         return (
             node["type"] == "StartTag"
-- 
2.43.0


From f109acc5ce6250f1b8637f86f76306379e72b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 57/98] fix: a file in place of a folder that was removed was
 not built, and a folder removed early failed the build

---
 .../build/hot_incremental_rebuild.py          | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 75fd680..fd50577 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -278,6 +278,9 @@ async def hot_incremental_rebuild(
                     file,
                 )
 
+        # An emptied folder would be in the way of a file by the same name
+        remove_empty_folders(context, possibly_empty_folders)
+
         updated_results: Dict[str, BuildFileResult] = dict()
         pending_results: Dict[str, asyncio.Future] = dict()
         still_dirty_outputs = set(dirtied_outputs)
@@ -483,14 +486,7 @@ async def hot_incremental_rebuild(
             logger.debug("Cleaning {}", file)
             os.unlink(os.path.join(context.folder, file))
 
-        for folder_relpath in sorted(possibly_empty_folders, key=lambda s: -len(s)):
-            folder = os.path.join(context.folder, folder_relpath)
-            scandir_iter = os.scandir(folder)
-            has_any_contents = next(scandir_iter, None) is not None
-            scandir_iter.close()
-            if not has_any_contents:
-                logger.debug("Cleaning empty folder {}", folder_relpath)
-                os.rmdir(folder)
+        remove_empty_folders(context, possibly_empty_folders)
 
         new_dependency_graph = FileDependencyGraph()
         new_output_graph = FileDependencyGraph()
@@ -638,6 +634,27 @@ async def hot_incremental_rebuild(
         logger.info('"{}" rebuilt successfully', context.folder)
 
 
+def remove_empty_folders(context: BuildContext, folders: Set[str]) -> None:
+    """Removes those of the given folders, specified relative to the project
+    root, which are empty.
+
+    Args:
+        context (BuildContext): The context for the build.
+        folders (set[str]): The folders which might be empty
+    """
+    for folder_relpath in sorted(folders, key=lambda s: -len(s)):
+        folder = os.path.join(context.folder, folder_relpath)
+        try:
+            scandir_iter = os.scandir(folder)
+        except (FileNotFoundError, NotADirectoryError):
+            continue
+        has_any_contents = next(scandir_iter, None) is not None
+        scandir_iter.close()
+        if not has_any_contents:
+            logger.debug("Cleaning empty folder {}", folder_relpath)
+            os.rmdir(folder)
+
+
 async def scan_files(
     context: BuildContext, executor: concurrent.futures.Executor, files: List[str]
 ) -> Dict[str, ScanFileResult]:
-- 
2.43.0


From f80c8454e5b628445c74f765bce27c15753623e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 58/98] fix: files depending on a changed file were rebuilt by
 their old dependencies

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index fd50577..c1df0e0 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -125,7 +125,22 @@ async def hot_incremental_rebuild(
         return
 
     with concurrent.futures.ProcessPoolExecutor() as executor:
+        # What a file depends on and produces can change with the files it
+        # depends on, e.g., a page has the dependencies of its templates.
         files_that_need_scanning = list(changed_files.keys()) + list(added_files.keys())
+        seen_files: Set[str] = set(files_that_need_scanning).union(deleted_files)
+        stack: List[str] = list(seen_files)
+        while stack:
+            file = stack.pop()
+            for graph in (old_dependency_graph, old_placeholders_graph):
+                if file not in graph:
+                    continue
+                for par in graph.get_parents(file):
+                    if par not in seen_files:
+                        seen_files.add(par)
+                        stack.append(par)
+                        files_that_need_scanning.append(par)
+
         updated_children: Dict[str, ScanFileResult] = dict()
         new_placeholders: Dict[str, str] = dict()  # placeholder -> original file
 
@@ -212,7 +227,7 @@ async def hot_incremental_rebuild(
         files_to_rebuild: Set[str] = set()
         dirtied_outputs: Set[str] = set()
         dirtied_artifacts: Set[str] = set()
-        stack: List[str] = []
+        stack = []
 
         for file in updated_children.keys():
             files_to_rebuild.add(file)
-- 
2.43.0


From f76f7f5cb9a5a3a9a087ca601ddcd1ebf82704ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 59/98] fix: a generated file was taken to come from a file
 that had stopped producing it

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index c1df0e0..f53a81a 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -210,9 +210,10 @@ async def hot_incremental_rebuild(
                             f"{scanned_file_relpath=} depends on {dep_relpath=}, but nothing produces that file!"
                         )
                     produced_by = old_output_graph.get_parents(dep_relpath)
-                    # take the first one which hasn't been deleted
+                    # take the first one which hasn't been deleted and which
+                    # we did not just find to not produce it anymore
                     for p in produced_by:
-                        if p not in deleted_files:
+                        if p not in deleted_files and p not in updated_children:
                             out_dependencies_mapping[dep_relpath] = p
                             new_dependencies.add(p)
                             break
-- 
2.43.0


From 87f08ee47914d83e3a22758cec53e7f99b1b2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 60/98] fix: files importing an images.js could be built before
 it

---
 .../build/hot_incremental_rebuild.py          | 36 +++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index f53a81a..8ba4aca 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Set, Tuple
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -187,6 +187,28 @@ async def hot_incremental_rebuild(
             for out_relpath in scan_result.produces:
                 out_dependencies_mapping[out_relpath] = scanned_file_relpath
 
+        public_folder = os.path.join("src", "public") + os.path.sep
+
+        def get_producer(relpath: str) -> Optional[str]:
+            """If the given public file is not copied from the source folder, but
+            is produced by another file, returns that other file, e.g., the
+            *.images.json for a *.images.js. Otherwise, returns None"""
+            if not relpath.startswith(public_folder):
+                return None
+            out_relpath = os.path.join("out", "www", relpath[len(public_folder) :])
+            if out_relpath in out_dependencies_mapping:
+                producer = out_dependencies_mapping[out_relpath]
+                return producer if producer != relpath else None
+            if out_relpath in old_output_graph:
+                for p in old_output_graph.get_parents(out_relpath):
+                    if (
+                        p != relpath
+                        and p not in deleted_files
+                        and p not in updated_children
+                    ):
+                        return p
+            return None
+
         for scanned_file_relpath, scan_result in updated_children.items():
             new_dependencies = set()
 
@@ -195,6 +217,9 @@ async def hot_incremental_rebuild(
                     dep_relpath.startswith(prefix) for prefix in ("out", "artifacts")
                 ):
                     new_dependencies.add(dep_relpath)
+                    producer = get_producer(dep_relpath)
+                    if producer is not None:
+                        new_dependencies.add(producer)
                     continue
 
                 if dep_relpath in scan_result.produces:
@@ -455,7 +480,14 @@ async def hot_incremental_rebuild(
                                     f"but we cannot find who produced it; checked {inner_seen}"
                                 )
                         else:
-                            reinterpreted_children.append(child)
+                            producer = get_producer(child)
+                            if producer is None:
+                                reinterpreted_children.append(child)
+                                continue
+                            if producer != pending_file:
+                                reinterpreted_children.append(producer)
+                            if os.path.lexists(os.path.join(context.folder, child)):
+                                reinterpreted_children.append(child)
                     rebuild_result.children = reinterpreted_children
 
                     updated_results[pending_file] = rebuild_result
-- 
2.43.0


From cc289df07bec4c32340dc62bae5f6f1826b76d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 61/98] fix: a changed source image failed the build

---
 vanillaplusjs/build/html/manips/images/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 11a502e..a056190 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -306,7 +306,7 @@ def get_target(
                     "{} is not a match for {}; the source hash is {} but should be {}",
                     entry.path,
                     relpath,
-                    entry_metadata["source"]["contents_hash"],
+                    entry_metadata.source.contents_hash,
                     contents_hash,
                 )
                 continue
-- 
2.43.0


From b334127b41d6ad0367086a9ca48aa29298cc82d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 62/98] fix: image targets were matched without regard to their
 source, and could be reserved twice

---
 .../build/html/manips/images/metadata.py      | 119 ++++++++++++------
 1 file changed, 81 insertions(+), 38 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index a056190..6cadb56 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -246,11 +246,6 @@ def get_target(
     if not os.path.exists(os.path.join(context.public_folder, relpath)):
         return None
 
-    relpath_without_ext = os.path.splitext(relpath)[0]
-    art_path = os.path.join(context.artifacts_folder, relpath_without_ext)
-    if not os.path.exists(art_path):
-        return None
-
     precomputed_hash_path = os.path.join(context.out_folder, "www", relpath + ".hash")
     try:
         with open(precomputed_hash_path, "r") as f:
@@ -263,6 +258,28 @@ def get_target(
         )
         contents_hash = calculate_hash(os.path.join(context.public_folder, relpath))
 
+    lock_path = reserve_target_lock_path(context, relpath)
+    makedirs_safely(os.path.dirname(lock_path))
+    with fasteners.InterProcessLock(lock_path):
+        return find_target(context, relpath, target, contents_hash)
+
+
+def find_target(
+    context: BuildContext,
+    relpath: str,
+    target: ImageTargetSettings,
+    contents_hash: str,
+) -> Optional[int]:
+    """Looks up the ID of the given target settings for the source image at
+    the given path, relative to the public folder, with the given contents.
+    This must be called while holding the lock for the source image.
+    """
+    relpath_without_ext = os.path.splitext(relpath)[0]
+    art_path = os.path.join(context.artifacts_folder, relpath_without_ext)
+    if not os.path.exists(art_path):
+        return None
+
+    source_path = os.path.join("src", "public", relpath)
     settings_hash = hash_image_settings(context.image_settings)
 
     scanner = os.scandir(art_path)
@@ -277,16 +294,15 @@ def get_target(
                 continue
 
             if not os.path.exists(os.path.join(entry.path, "metadata.json")):
-                lock_path = reserve_target_lock_path(context, relpath)
-                makedirs_safely(os.path.dirname(lock_path))
-                with fasteners.InterProcessLock(lock_path):
-                    if os.path.exists(os.path.join(entry.path, "placeholder.json")):
-                        with open(
-                            os.path.join(entry.path, "placeholder.json"), "r"
-                        ) as f:
-                            placeholder = load_image_target_settings(json.load(f))
-                        if placeholder == target:
-                            return int(entry.name)
+                if os.path.exists(os.path.join(entry.path, "placeholder.json")):
+                    with open(os.path.join(entry.path, "placeholder.json"), "r") as f:
+                        placeholder = json.load(f)
+                    if (
+                        load_image_target_settings(placeholder) == target
+                        and placeholder.get("source")
+                        == placeholder_source(relpath, contents_hash)
+                    ):
+                        return int(entry.name)
                 continue
 
             with open(os.path.join(entry.path, "metadata.json"), "r") as f:
@@ -301,6 +317,15 @@ def get_target(
                     settings_hash,
                 )
                 continue
+            if entry_metadata.source.path != source_path:
+                logger.debug(
+                    "{} is not a match for {}; the source is {} but should be {}",
+                    entry.path,
+                    relpath,
+                    entry_metadata.source.path,
+                    source_path,
+                )
+                continue
             if entry_metadata.source.contents_hash != contents_hash:
                 logger.debug(
                     "{} is not a match for {}; the source hash is {} but should be {}",
@@ -334,36 +359,47 @@ def reserve_target_lock_path(context: BuildContext, relpath: str) -> str:
     )
 
 
+def placeholder_source(relpath: str, contents_hash: str) -> dict:
+    """Describes the source image that a placeholder is for."""
+    return {
+        "path": "src/public/" + relpath.replace(os.path.sep, "/"),
+        "contents_hash": contents_hash,
+    }
+
+
 def reserve_target(
-    context: BuildContext, relpath: str, target: ImageTargetSettings
+    context: BuildContext,
+    relpath: str,
+    target: ImageTargetSettings,
+    contents_hash: str,
 ) -> int:
     """Assigns a new unused id for the given source image, and prevents
-    it from being reserved again.
+    it from being reserved again. This must be called while holding the
+    lock for the source image.
     """
     relpath_without_ext = os.path.splitext(relpath)[0]
     art_path = os.path.join(context.artifacts_folder, relpath_without_ext)
-    lock_path = reserve_target_lock_path(context, relpath)
-    makedirs_safely(os.path.dirname(lock_path))
     makedirs_safely(art_path)
-    with fasteners.InterProcessLock(lock_path):
-        try:
-            with open(os.path.join(art_path, "counter.txt"), "r") as f:
-                counter = int(f.read())
-        except FileNotFoundError:
-            counter = 0
+    try:
+        with open(os.path.join(art_path, "counter.txt"), "r") as f:
+            counter = int(f.read())
+    except FileNotFoundError:
+        counter = 0
 
-        counter = counter + 1
+    counter = counter + 1
 
-        with open(os.path.join(art_path, "counter.txt"), "w") as f:
-            f.write(str(counter))
+    with open(os.path.join(art_path, "counter.txt"), "w") as f:
+        f.write(str(counter))
 
-        entry_path = os.path.join(art_path, str(counter))
-        placeholder_path = os.path.join(entry_path, "placeholder.json")
-        makedirs_safely(entry_path)
-        with open(placeholder_path, "w") as f:
-            json.dump(dataclasses.asdict(target), f)
+    entry_path = os.path.join(art_path, str(counter))
+    placeholder_path = os.path.join(entry_path, "placeholder.json")
+    makedirs_safely(entry_path)
+    placeholder = dataclasses.asdict(target)
+    placeholder["source"] = placeholder_source(relpath, contents_hash)
+    with open(placeholder_path, "w") as f:
+        json.dump(placeholder, f)
 
-        return counter
+    return counter
 
 
 def get_or_reserve_target(
@@ -373,11 +409,18 @@ def get_or_reserve_target(
 ) -> int:
     """If the target already exists, returns its ID. Otherwise, reserves
     a new ID for the target.
+
+    Unlike `get_target` this is done prior to building the source image, so any
+    hash of it which is available may be for its previous contents.
     """
-    target_id = get_target(context, relpath, target)
-    if target_id is None:
-        target_id = reserve_target(context, relpath, target)
-    return target_id
+    contents_hash = calculate_hash(os.path.join(context.public_folder, relpath))
+    lock_path = reserve_target_lock_path(context, relpath)
+    makedirs_safely(os.path.dirname(lock_path))
+    with fasteners.InterProcessLock(lock_path):
+        target_id = find_target(context, relpath, target, contents_hash)
+        if target_id is None:
+            target_id = reserve_target(context, relpath, target, contents_hash)
+        return target_id
 
 
 def hash_image_settings(settings: ImageSettings) -> int:
-- 
2.43.0


From aad84f305526c1b34cf03364877b150a14e43eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 63/98] fix: a file an images.json both made and reused failed
 its rebuild

---
 vanillaplusjs/build/handlers/image_glue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index a545fcc..f3336be 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -259,7 +259,9 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     reused.update(build_result.reused)
 
     return BuildFileResult(
-        children=list(children), produced=list(produced), reused=list(reused)
+        children=list(children),
+        produced=list(produced),
+        reused=[f for f in reused if f not in produced],
     )
 
 
-- 
2.43.0


From fde893693119b0f91d83de43375658656e96b7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 64/98] fix: outlined scripts and styles were written into the
 sources, and left there by a failing build

---
 vanillaplusjs/build/build_context.py       | 13 +++-
 vanillaplusjs/build/css/manips/nest.py     |  2 +-
 vanillaplusjs/build/handlers/css.py        |  4 +-
 vanillaplusjs/build/handlers/js.py         |  4 +-
 vanillaplusjs/build/html/manips/outline.py | 72 ++++++++++------------
 5 files changed, 48 insertions(+), 47 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index b4c7852..6c3e43b 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 import os
 from typing import Dict, List, Optional, TYPE_CHECKING, Union
 
@@ -144,6 +144,17 @@ class BuildContext:
     at least a few seconds.
     """
 
+    contents_by_relpath: Dict[str, str] = field(default_factory=dict)
+    """For source files which are not in the src folder, such as an outlined
+    script, the path to the file with their contents relative to the project root.
+    """
+
+    def source_path(self, relpath: str) -> str:
+        """Returns the path to the contents of the given source file, which is
+        specified relative to the project root
+        """
+        return os.path.join(self.folder, self.contents_by_relpath.get(relpath, relpath))
+
     @property
     def src_folder(self) -> str:
         """Returns the src folder where the input files are located"""
diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 54a25dc..bf8b6c9 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -446,7 +446,7 @@ class NestManipulator(CSSManipulator):
                     f"cannot resolve {imp} because we exhausted it before finding {imp.prelude}"
                 )
             generator = tokenize_and_close(
-                open(os.path.join(self.context.folder, self.relpath))
+                open(self.context.source_path(self.relpath))
             )
             self.resumable_imports[self.relpath] = generator
 
diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 6492a4f..006fc57 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -46,7 +46,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=context.source_path(relpath), outfile=None, manipulators=manips
     )
 
     sub_scan_results = [
@@ -75,7 +75,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=context.source_path(relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index e608d0e..57ba581 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -40,7 +40,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=context.source_path(relpath), outfile=None, manipulators=manips
     )
 
     sub_scan_results = [
@@ -69,7 +69,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=context.source_path(relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index dceb751..2edd627 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -1,4 +1,5 @@
-import errno
+import dataclasses
+import secrets
 from typing import Dict, List, Literal, Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
@@ -64,7 +65,7 @@ class OutlineManipulator(HTMLManipulator):
         self.outlining: Optional[Literal["script", "style"]] = None
         self.outlining_to_path: Optional[str] = None
         """Relative to project root"""
-        self.outlining_to: Optional[io.TextIOBase] = None
+        self.outlining_to: Optional[io.StringIO] = None
         self.start_tag_attrs: Optional[Dict[str, str]] = None
         """The attributes to preserve on the start tag"""
 
@@ -83,7 +84,7 @@ class OutlineManipulator(HTMLManipulator):
                     self.script_src_folder,
                     f"{self.script_outline_count}.js",
                 )
-                self.outlining_to = self._open_outlining_to()
+                self.outlining_to = io.StringIO()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
@@ -95,7 +96,7 @@ class OutlineManipulator(HTMLManipulator):
                     self.style_src_folder,
                     f"{self.style_outline_count}.css",
                 )
-                self.outlining_to = self._open_outlining_to()
+                self.outlining_to = io.StringIO()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
@@ -104,36 +105,37 @@ class OutlineManipulator(HTMLManipulator):
             raise ValueError(f"Unexpected tag {node}")
 
         if node["type"] == "EndTag":
-            self.outlining_to.close()
-            self.outlining_to = None
-
+            # The handlers read the contents from a file. This is not within the
+            # src folder, so if we are interrupted it is not taken for a source
+            contents_path = os.path.join("out", f"{secrets.token_urlsafe(8)}.tmp")
+            context = dataclasses.replace(
+                self.context,
+                contents_by_relpath={self.outlining_to_path: contents_path},
+            )
             handler = (
                 self.js_handler if self.outlining == "script" else self.css_handler
             )
-            if self.mode == "scan":
-                scan_result = handler.scan_file(self.context, self.outlining_to_path)
-                self.dependencies.update(scan_result.dependencies)
-                self.produces.update(scan_result.produces)
-            else:
-                build_result = handler.build_file(self.context, self.outlining_to_path)
-                self.children.update(build_result.children)
-                self.produced.update(build_result.produced)
-                self.reused.update(build_result.reused)
-
-            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
-            possibly_empty_folder: str = os.path.dirname(self.outlining_to_path)
-
-            while possibly_empty_folder.count(os.path.sep) > 2:
+            makedirs_safely(self.context.out_folder)
+            try:
+                with open(context.source_path(self.outlining_to_path), "w") as f:
+                    f.write(self.outlining_to.getvalue())
+
+                if self.mode == "scan":
+                    scan_result = handler.scan_file(context, self.outlining_to_path)
+                    self.dependencies.update(scan_result.dependencies)
+                    self.produces.update(scan_result.produces)
+                else:
+                    build_result = handler.build_file(context, self.outlining_to_path)
+                    self.children.update(build_result.children)
+                    self.produced.update(build_result.produced)
+                    self.reused.update(build_result.reused)
+            finally:
                 try:
-                    os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))
-                except (FileNotFoundError, PermissionError):
-                    break  # Scanning can happen concurrently
-                except OSError as e:
-                    if e.errno == errno.ENOTEMPTY:
-                        break
-                    raise
-                possibly_empty_folder = os.path.dirname(possibly_empty_folder)
+                    os.unlink(context.source_path(self.outlining_to_path))
+                except FileNotFoundError:
+                    pass
 
+            self.outlining_to = None
             result_tag_attr = "src" if self.outlining == "script" else "href"
 
             start_tag_attrs = self.start_tag_attrs
@@ -191,18 +193,6 @@ class OutlineManipulator(HTMLManipulator):
         self.outlining_to.write(node["data"])
         return None
 
-    def _open_outlining_to(self) -> io.TextIOBase:
-        """Opens the file to outline to, creating its folder"""
-        path = os.path.join(self.context.folder, self.outlining_to_path)
-        while True:
-            try:
-                makedirs_safely(os.path.dirname(path))
-                return open(path, "w")
-            except FileNotFoundError:
-                # The folder was empty, and removed after outlining another
-                # script or style, possibly concurrently
-                continue
-
     def _should_outline_script(self, node: tkn.HTMLToken) -> bool:
         return (
             node["type"] == "StartTag"
-- 
2.43.0


From 56fecc0c958669a142bb336005adf2e3b320a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 65/98] fix: icon commands that did not apply were not tried
 again once the icon settings changed

---
 vanillaplusjs/build/css/manips/icons/manip.py | 32 ++++++++++++++-----
 .../build/hot_incremental_rebuild.py          | 13 ++++++++
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index f3aa125..408c427 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -61,6 +61,9 @@ class IconManipulator(CSSManipulator):
         """
         args = self.get_icon_command_args(node)
         if args is None:
+            if self.is_icon_command(node):
+                # it might be applicable after the settings change
+                self.add_settings_dependency()
             return False
         if self.mode == "scan":
             self.scan_icon_command(args)
@@ -71,10 +74,7 @@ class IconManipulator(CSSManipulator):
         args = self.get_icon_command_args(node)
         assert args is not None, "continue_mark on non-icon command"
 
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.children.add(css_file_relpath)
-
+        self.add_settings_dependency()
         self.children.add(args.input_icon)
 
         svg = None
@@ -479,6 +479,25 @@ class IconManipulator(CSSManipulator):
 
         return resulting_tokens
 
+    def is_icon_command(self, node: CSSToken) -> bool:
+        """Determines if the given node is an icon command, applicable or not"""
+        return (
+            node["type"] == CSSTokenType.comment
+            and PREPROCESSOR_ICON_ACTION_RULE.match(node["value"]) is not None
+        )
+
+    def add_settings_dependency(self) -> None:
+        """Marks that the result depends on the file with the icon settings"""
+        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
+        if self.relpath == css_file_relpath or not os.path.exists(
+            os.path.join(self.context.folder, css_file_relpath)
+        ):
+            return
+        if self.mode == "scan":
+            self.dependencies.add(css_file_relpath)
+        else:
+            self.children.add(css_file_relpath)
+
     def get_icon_command_args(self, node: CSSToken) -> Optional[IconCommand]:
         if node["type"] != CSSTokenType.comment:
             return None
@@ -587,10 +606,7 @@ class IconManipulator(CSSManipulator):
         """Adds any dependencies or produces appropriate for the icon command
         with the given arguments.
         """
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.dependencies.add(css_file_relpath)
-
+        self.add_settings_dependency()
         self.dependencies.add(args.input_icon)
 
         for color in self.get_icon_colors(args):
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 8ba4aca..e263bf3 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -120,6 +120,19 @@ async def hot_incremental_rebuild(
         except FileNotFoundError:
             pass
 
+    default_css_file = context.default_css_file.replace("/", os.path.sep)
+    if default_css_file in added_files:
+        # Any icon command may have become applicable
+        for file in old_dependency_graph.nodes:
+            if (
+                file.endswith((".css", ".html"))
+                and file not in changed_files
+                and file not in deleted_files
+            ):
+                changed_files[file] = get_file_signature(
+                    os.path.join(context.folder, file)
+                )
+
     if not changed_files and not added_files and not deleted_files:
         logger.info("Nothing to do, exiting")
         return
-- 
2.43.0


From 397379d47b89cc1ad76ce1b242089caf2f5102dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 66/98] fix: a build after a failed or interrupted one trusted
 what that left behind

---
 vanillaplusjs/build/build_context.py          |  7 ++++
 .../build/cold_incremental_rebuild.py         | 28 ++++++++++++++-
 .../build/hot_incremental_rebuild.py          | 36 +++++++++++--------
 vanillaplusjs/runners/dev.py                  | 32 +++++++++++------
 4 files changed, 77 insertions(+), 26 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index 6c3e43b..b9f8199 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -222,6 +222,13 @@ class BuildContext:
         """
         return os.path.join(self.out_folder, "placeholder_graph.json")
 
+    @property
+    def unfinished_build_file(self) -> str:
+        """Returns the path to the file which exists while a build is in progress,
+        and hence after a build which failed or was interrupted
+        """
+        return os.path.join(self.out_folder, "unfinished_build.txt")
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 796770a..4925b42 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -19,6 +19,7 @@ import concurrent.futures
 import hashlib
 from base64 import b64encode
 import secrets
+import shutil
 import json
 import dataclasses
 
@@ -64,6 +65,13 @@ async def cold_incremental_rebuild(
 
     await check_external_files(context)
 
+    # If the last build didn't finish then its outputs do not correspond to the
+    # graphs, which are from the build before that.
+    rebuild_everything = os.path.exists(context.unfinished_build_file)
+    if rebuild_everything:
+        logger.warning("The last build did not finish, rebuilding everything")
+        remove_contents(os.path.join(context.out_folder, "www"))
+
     # This section is to turn a cold start incremental rebuild into a hot
     # start incremental rebuild. When watching a directory we know what
     # files have changed and can use that to inform the build. In a cold
@@ -87,7 +95,7 @@ async def cold_incremental_rebuild(
             signature = get_file_signature(os.path.join(context.folder, relpath))
             if relpath in old_dependency_graph:
                 relpaths_deleted.remove(relpath)
-                if not old_dependency_graph.check_file(
+                if rebuild_everything or not old_dependency_graph.check_file(
                     relpath, signature.filesize, signature.mtime, signature.inode
                 ):
                     relpaths_changed[relpath] = signature
@@ -112,6 +120,24 @@ async def cold_incremental_rebuild(
     )
 
 
+def remove_contents(folder: str) -> None:
+    """Removes everything within the given folder, but not the folder itself, as
+    it might be being served.
+
+    Args:
+        folder (str): The folder to remove the contents of; need not exist
+    """
+    if not os.path.exists(folder):
+        return
+
+    with os.scandir(folder) as entries:
+        for entry in entries:
+            if entry.is_dir(follow_symlinks=False):
+                shutil.rmtree(entry.path)
+            else:
+                os.unlink(entry.path)
+
+
 async def check_external_files(context: BuildContext):
     """Scans the external files in the build; if any of them are out of date
     or missing, they are updated from the url.
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index e263bf3..05512f5 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -87,8 +87,9 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
+    current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
+    constants_mode_changed = False
     if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
-        current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
         old_constants_mode = None
         try:
             with open(
@@ -99,6 +100,7 @@ async def hot_incremental_rebuild(
             pass
 
         if old_constants_mode != current_mode:
+            constants_mode_changed = True
             if (context.js_constants.relpath not in changed_files) and (
                 context.js_constants.relpath not in added_files
             ):
@@ -108,12 +110,6 @@ async def hot_incremental_rebuild(
                 changed_files[context.js_constants.relpath] = get_file_signature(
                     os.path.join(context.folder, context.js_constants.relpath)
                 )
-
-            makedirs_safely(context.out_folder)
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
-            ) as f:
-                f.write(current_mode)
     else:
         try:
             os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
@@ -137,6 +133,10 @@ async def hot_incremental_rebuild(
         logger.info("Nothing to do, exiting")
         return
 
+    makedirs_safely(context.out_folder)
+    with open(context.unfinished_build_file, "w") as f:
+        f.write("This file is removed once the build finishes")
+
     with concurrent.futures.ProcessPoolExecutor() as executor:
         # What a file depends on and produces can change with the files it
         # depends on, e.g., a page has the dependencies of its templates.
@@ -680,16 +680,22 @@ async def hot_incremental_rebuild(
             "Finished constructing new dependency, output, and placeholder graphs"
         )
 
-        makedirs_safely(context.out_folder)
+        for graph, graph_file in (
+            (new_output_graph, context.output_graph_file),
+            (new_placeholder_graph, context.placeholder_graph_file),
+            (new_dependency_graph, context.dependency_graph_file),
+        ):
+            with open(graph_file + ".tmp", "w") as fp:
+                graph.store(fp)
+            os.replace(graph_file + ".tmp", graph_file)
 
-        with open(context.dependency_graph_file, "w") as fp:
-            new_dependency_graph.store(fp)
-
-        with open(context.output_graph_file, "w") as fp:
-            new_output_graph.store(fp)
+        if constants_mode_changed:
+            with open(
+                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
+            ) as f:
+                f.write(current_mode)
 
-        with open(context.placeholder_graph_file, "w") as fp:
-            new_placeholder_graph.store(fp)
+        os.unlink(context.unfinished_build_file)
 
         logger.debug("Finished storing dependency, output, and placeholder graphs")
         logger.info('"{}" rebuilt successfully', context.folder)
diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index b4282b6..9af133a 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -7,6 +7,7 @@ from vanillaplusjs.build.build_context import (
 from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
 from vanillaplusjs.build.file_signature import get_file_signature
 from vanillaplusjs.build.graph import FileDependencyGraph
+from vanillaplusjs.build.cold_incremental_rebuild import cold_incremental_rebuild
 from vanillaplusjs.build.hot_incremental_rebuild import hot_incremental_rebuild
 from vanillaplusjs.build.html.manips.images.settings import load_image_settings
 from .build import build, detect_symlink_support
@@ -271,17 +272,28 @@ class DevEventHandler(FileSystemEventHandler):
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
         try:
-            loop.run_until_complete(
-                hot_incremental_rebuild(
-                    context,
-                    old_dependency_graph,
-                    old_output_graph,
-                    old_placeholder_graph,
-                    changed_files,
-                    added_files,
-                    deleted_files,
+            if os.path.exists(context.unfinished_build_file):
+                # The last rebuild failed, so more than what changed is out of date
+                loop.run_until_complete(
+                    cold_incremental_rebuild(
+                        context,
+                        old_dependency_graph,
+                        old_output_graph,
+                        old_placeholder_graph,
+                    )
+                )
+            else:
+                loop.run_until_complete(
+                    hot_incremental_rebuild(
+                        context,
+                        old_dependency_graph,
+                        old_output_graph,
+                        old_placeholder_graph,
+                        changed_files,
+                        added_files,
+                        deleted_files,
+                    )
                 )
-            )
 
             pending = asyncio.all_tasks(loop)
             while pending:
-- 
2.43.0


From 8c177b820cd67aba45f116b6d90503060ba218c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 67/98] fix: an interrupted image export left artifacts that
 failed or spoiled later builds

---
 .../build/html/manips/images/exporter.py       |  9 ++++-----
 .../build/html/manips/images/metadata.py       | 18 +++++++++++++-----
 vanillaplusjs/build/ioutil.py                  | 14 ++++++++++++++
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index af8e870..1f1bd20 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -10,7 +10,7 @@ from vanillaplusjs.build.html.manips.images.settings import (
     ImageExport,
     compare_in_format,
 )
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, replace_contents
 from .cover_fit import cover_fit
 import os
 import json
@@ -306,13 +306,12 @@ def export_command(
         ),
     )
 
-    with open(
+    replace_contents(
         os.path.join(
             context.folder, target_art_folder_relative_to_root, "metadata.json"
         ),
-        "w",
-    ) as f:
-        json.dump(store_metadata(metadata), f, indent=2)
+        json.dumps(store_metadata(metadata), indent=2),
+    )
 
     return metadata, BuildFileResult(
         children=children,
diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 6cadb56..b4e8207 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -32,7 +32,7 @@ from vanillaplusjs.build.handlers.hash import calculate_hash
 from vanillaplusjs.build.html.manips.images.settings import ImageSettings
 from loguru import logger
 
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, replace_contents
 
 
 @dataclass(frozen=True)
@@ -345,6 +345,14 @@ def find_target(
                 )
                 continue
 
+            if not all(
+                os.path.exists(os.path.join(context.artifacts_folder, output.relpath))
+                for outputs in entry_metadata.target.outputs.values()
+                for output in outputs
+            ):
+                logger.debug("{} is not a match; it is missing outputs", entry.path)
+                continue
+
             return int(entry.name)
 
         return None
@@ -387,17 +395,17 @@ def reserve_target(
         counter = 0
 
     counter = counter + 1
+    while os.path.exists(os.path.join(art_path, str(counter))):
+        counter = counter + 1
 
-    with open(os.path.join(art_path, "counter.txt"), "w") as f:
-        f.write(str(counter))
+    replace_contents(os.path.join(art_path, "counter.txt"), str(counter))
 
     entry_path = os.path.join(art_path, str(counter))
     placeholder_path = os.path.join(entry_path, "placeholder.json")
     makedirs_safely(entry_path)
     placeholder = dataclasses.asdict(target)
     placeholder["source"] = placeholder_source(relpath, contents_hash)
-    with open(placeholder_path, "w") as f:
-        json.dump(placeholder, f)
+    replace_contents(placeholder_path, json.dumps(placeholder))
 
     return counter
 
diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 48532b1..410c466 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -203,6 +203,20 @@ class PreprocessedTextIO:
             attempted_peek_length = new_peek_length
 
 
+def replace_contents(path: str, contents: str) -> None:
+    """Writes the given contents to the given file such that, even if we are
+    interrupted, it has either the old or the new contents.
+
+    Args:
+        path (str): The path to the file to write
+        contents (str): The contents to write to the file
+    """
+    temp_path = path + ".tmp"
+    with open(temp_path, "w") as f:
+        f.write(contents)
+    os.replace(temp_path, path)
+
+
 def makedirs_safely(path: str) -> None:
     """Creates the directory at path, and all parent directories if necessary.
     This is more reliable than the standard os.makedirs when the directory may
-- 
2.43.0


From 95cca2b7a2919f7ec3e251796dd2cc53f8137801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 68/98] fix: images in a site built by a relative folder were
 linked to nowhere

The links in out/www to the images in artifacts held the path relative to the
current folder, so with symlinks and --folder . (both by default) every image
was a dangling link.
---
 vanillaplusjs/build/html/manips/images/exporter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 1f1bd20..da075b3 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -128,7 +128,9 @@ def export_command(
 
                     if context.symlinks:
                         os.symlink(
-                            os.path.join(context.artifacts_folder, output.relpath),
+                            os.path.abspath(
+                                os.path.join(context.artifacts_folder, output.relpath)
+                            ),
                             os.path.join(context.folder, out_file),
                         )
                     else:
@@ -286,7 +288,7 @@ def export_command(
             )
             if context.symlinks:
                 os.symlink(
-                    desired_path,
+                    os.path.abspath(desired_path),
                     os.path.join(context.folder, out_path_relative_to_root),
                 )
             else:
-- 
2.43.0


From 3ac25c85cbf7760df98d616ab79491e0ebf39d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 69/98] fix: adding main.css rebuilt every stylesheet and page

Only those that have a preprocessor command can change with it.
---
 vanillaplusjs/build/hot_incremental_rebuild.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 05512f5..f371fe7 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -17,6 +17,14 @@ import asyncio
 import itertools
 
 
+def may_have_commands(path: str) -> bool:
+    """Determines if the given css or html file can contain css preprocessor
+    commands, without parsing it.
+    """
+    with open(path, "rb") as f:
+        return b"PREPROCESSOR" in f.read()
+
+
 async def hot_incremental_rebuild(
     context: BuildContext,
     old_dependency_graph: FileDependencyGraph,
@@ -124,6 +132,7 @@ async def hot_incremental_rebuild(
                 file.endswith((".css", ".html"))
                 and file not in changed_files
                 and file not in deleted_files
+                and may_have_commands(os.path.join(context.folder, file))
             ):
                 changed_files[file] = get_file_signature(
                     os.path.join(context.folder, file)
-- 
2.43.0


From c8ba80fe5987c73b1893a6c8be1e25c4e6399ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 70/98] fix: adding main.css rebuilt stylesheets that only
 import rules

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index f371fe7..1aa13cb 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -15,14 +15,15 @@ import concurrent.futures
 import os
 import asyncio
 import itertools
+import re
 
 
-def may_have_commands(path: str) -> bool:
-    """Determines if the given css or html file can contain css preprocessor
-    commands, without parsing it.
+def may_have_icon_commands(path: str) -> bool:
+    """Determines if the given css or html file can contain icon commands,
+    without parsing it.
     """
     with open(path, "rb") as f:
-        return b"PREPROCESSOR" in f.read()
+        return re.search(rb"PREPROCESSOR\s*:\s+icon\s", f.read()) is not None
 
 
 async def hot_incremental_rebuild(
@@ -132,7 +133,7 @@ async def hot_incremental_rebuild(
                 file.endswith((".css", ".html"))
                 and file not in changed_files
                 and file not in deleted_files
-                and may_have_commands(os.path.join(context.folder, file))
+                and may_have_icon_commands(os.path.join(context.folder, file))
             ):
                 changed_files[file] = get_file_signature(
                     os.path.join(context.folder, file)
-- 
2.43.0


From 1a2ca819dba000679f341ae61356c6029ecb60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 71/98] fix: stylesheets and scripts outside of src/public
 failed the build, and src/public* was taken for it

---
 vanillaplusjs/build/handlers/copy.py       | 4 ++--
 vanillaplusjs/build/handlers/css.py        | 5 +++++
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 vanillaplusjs/build/handlers/js.py         | 5 +++++
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/handlers/copy.py b/vanillaplusjs/build/handlers/copy.py
index 88f1ff3..cf749ed 100644
--- a/vanillaplusjs/build/handlers/copy.py
+++ b/vanillaplusjs/build/handlers/copy.py
@@ -16,10 +16,10 @@ def get_target_path(context: BuildContext, relpath: str) -> Optional[str]:
     """
     # A lot of the path related functions here are shockingly slow, hence
     # this is a bit of a hack to make scanning faster
-    rel_public_folder = f"src{os.path.sep}public"
+    rel_public_folder = f"src{os.path.sep}public{os.path.sep}"
     if not relpath.startswith(rel_public_folder):
         return None
-    relative_to_public_folder = relpath[len(rel_public_folder) + len(os.path.sep) :]
+    relative_to_public_folder = relpath[len(rel_public_folder) :]
     return f"out{os.path.sep}www{os.path.sep}{relative_to_public_folder}"
 
 
diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 006fc57..5b863a5 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -41,6 +41,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".css"):
         return ScanFileResult([], [])
 
+    if vanillaplusjs.build.handlers.copy.get_target_path(context, relpath) is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -67,6 +70,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index f3336be..af5a8f7 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -117,7 +117,7 @@ def handles_file(context: BuildContext, relpath: str) -> bool:
     Returns:
         bool: True if this handler wants to handle the file, false otherwise
     """
-    return relpath.startswith(os.path.join("src", "public")) and (
+    return relpath.startswith(os.path.join("src", "public") + os.path.sep) and (
         relpath.endswith(".images.json") or relpath.endswith(".images.js")
     )
 
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index 57ba581..6a0ae6b 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -35,6 +35,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".js"):
         return ScanFileResult([], [])
 
+    if vanillaplusjs.build.handlers.copy.get_target_path(context, relpath) is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -61,6 +64,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
-- 
2.43.0


From 10ec3c48fe3a9acdc29959843be6ebcb3639b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 72/98] fix: placeholders of failed builds were never cleaned,
 and deleted ones failed the build or clean

- a placeholder made by a build that then failed was taken for a file of the user's
- one deleted along with a change to its images.json failed the build
- a deleted one failed clean, which then removed nothing
- a file by that name in the current folder kept one from being made
---
 vanillaplusjs/build/handlers/image_glue.py    |  2 +-
 .../build/hot_incremental_rebuild.py          | 47 +++++++++++++++++--
 vanillaplusjs/runners/clean.py                |  5 +-
 3 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index af5a8f7..437c972 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -149,7 +149,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         "src", "public", path_rel_to_public_no_ext + ".images.js"
     )
     if context.auto_generate_images_js_placeholders and not os.path.exists(
-        placeholder_path
+        os.path.join(context.folder, placeholder_path)
     ):
         placeholders[placeholder_path] = PLACEHOLDER_FILE
 
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 1aa13cb..2f1408f 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -96,6 +96,8 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
+    deleted_files = set(deleted_files)
+
     current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
     constants_mode_changed = False
     if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
@@ -191,10 +193,20 @@ async def hot_incremental_rebuild(
                             scanned_file_relpath,
                             placeholder_relpath,
                         )
+                        # Even if this build fails, clean has to know of it
+                        add_placeholder(
+                            old_placeholders_graph,
+                            placeholder_relpath,
+                            scanned_file_relpath,
+                        )
+                        store_graph(
+                            old_placeholders_graph, context.placeholder_graph_file
+                        )
                         with open(
                             os.path.join(context.folder, placeholder_relpath), "w"
                         ) as f:
                             f.write(placeholder_contents)
+                        deleted_files.discard(placeholder_relpath)
                         files_that_need_scanning.append(placeholder_relpath)
                         new_placeholders[placeholder_relpath] = scanned_file_relpath
                         added_files[placeholder_relpath] = get_file_signature(
@@ -695,9 +707,7 @@ async def hot_incremental_rebuild(
             (new_placeholder_graph, context.placeholder_graph_file),
             (new_dependency_graph, context.dependency_graph_file),
         ):
-            with open(graph_file + ".tmp", "w") as fp:
-                graph.store(fp)
-            os.replace(graph_file + ".tmp", graph_file)
+            store_graph(graph, graph_file)
 
         if constants_mode_changed:
             with open(
@@ -711,6 +721,37 @@ async def hot_incremental_rebuild(
         logger.info('"{}" rebuilt successfully', context.folder)
 
 
+def store_graph(graph: FileDependencyGraph, graph_file: str) -> None:
+    """Stores the graph in the given file, such that the file has either the
+    old or the new graph even if we are interrupted.
+
+    Args:
+        graph (FileDependencyGraph): The graph to store
+        graph_file (str): Where to store the graph
+    """
+    with open(graph_file + ".tmp", "w") as fp:
+        graph.store(fp)
+    os.replace(graph_file + ".tmp", graph_file)
+
+
+def add_placeholder(
+    graph: FileDependencyGraph, placeholder: str, generator: str
+) -> None:
+    """Adds to the graph that the placeholder is generated from the generator.
+
+    Args:
+        graph (FileDependencyGraph): The placeholder graph
+        placeholder (str): The path to the placeholder
+        generator (str): The path to the file it is generated from
+    """
+    for file in (placeholder, generator):
+        if file not in graph:
+            graph.add_file(file, 0, 0, 0)
+    children = graph.get_children(generator)
+    if placeholder not in children:
+        graph.set_children(generator, children + [placeholder])
+
+
 def remove_empty_folders(context: BuildContext, folders: Set[str]) -> None:
     """Removes those of the given folders, specified relative to the project
     root, which are empty.
diff --git a/vanillaplusjs/runners/clean.py b/vanillaplusjs/runners/clean.py
index 2cb9aaa..61318a0 100644
--- a/vanillaplusjs/runners/clean.py
+++ b/vanillaplusjs/runners/clean.py
@@ -62,7 +62,10 @@ def clean(folder: str, placeholders: bool) -> None:
 
             for file, node in placeholder_graph.nodes.items():
                 if node.parents:
-                    os.remove(os.path.join(folder, file))
+                    try:
+                        os.remove(os.path.join(folder, file))
+                    except FileNotFoundError:
+                        pass
 
     shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)
     shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)
-- 
2.43.0


From baa8c65696fafab2a070951b7f9fb8826cdaff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 73/98] fix: a changed configuration only applied to files that
 were rebuilt for another reason

The settings that outputs depend on are now compared with those of the last
build which finished, and everything is rebuilt when they differ.
---
 vanillaplusjs/build/build_context.py          | 33 +++++++++++++++++++
 .../build/cold_incremental_rebuild.py         |  4 +++
 .../build/hot_incremental_rebuild.py          |  3 ++
 vanillaplusjs/runners/dev.py                  |  8 +++--
 4 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index b9f8199..ab75e16 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -1,8 +1,10 @@
 from dataclasses import dataclass, field
+import hashlib
 import os
 from typing import Dict, List, Optional, TYPE_CHECKING, Union
 
 from vanillaplusjs.build.file_signature import FileSignature
+from vanillaplusjs.constants import PROCESSOR_VERSION
 
 if TYPE_CHECKING:
     from vanillaplusjs.build.css.manips.icons.settings import IconSettings
@@ -229,6 +231,37 @@ class BuildContext:
         """
         return os.path.join(self.out_folder, "unfinished_build.txt")
 
+    @property
+    def settings_digest_file(self) -> str:
+        """Returns the path to the file with the digest of the settings that
+        the last build which finished used.
+        """
+        return os.path.join(self.out_folder, "settings_digest.txt")
+
+    @property
+    def settings_digest(self) -> str:
+        """A digest of the settings, beyond the source files and the mode, which
+        the outputs of the build depend on
+        """
+        settings = (
+            PROCESSOR_VERSION,
+            self.host,
+            self.image_settings,
+            self.auto_generate_images_js_placeholders,
+            self.js_constants,
+        )
+        return hashlib.sha256(repr(settings).encode("utf-8")).hexdigest()
+
+    def settings_changed(self) -> bool:
+        """Determines if the settings are not those of the last build which
+        finished, and hence all of its outputs could be out of date.
+        """
+        try:
+            with open(self.settings_digest_file) as f:
+                return f.read() != self.settings_digest
+        except FileNotFoundError:
+            return True
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 4925b42..94390d7 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -72,6 +72,10 @@ async def cold_incremental_rebuild(
         logger.warning("The last build did not finish, rebuilding everything")
         remove_contents(os.path.join(context.out_folder, "www"))
 
+    # Nor do the outputs correspond to settings which have changed since
+    if context.settings_changed():
+        rebuild_everything = True
+
     # This section is to turn a cold start incremental rebuild into a hot
     # start incremental rebuild. When watching a directory we know what
     # files have changed and can use that to inform the build. In a cold
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 2f1408f..8364cac 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -715,6 +715,9 @@ async def hot_incremental_rebuild(
             ) as f:
                 f.write(current_mode)
 
+        with open(context.settings_digest_file, "w") as f:
+            f.write(context.settings_digest)
+
         os.unlink(context.unfinished_build_file)
 
         logger.debug("Finished storing dependency, output, and placeholder graphs")
diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index 9af133a..df104f4 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -272,8 +272,12 @@ class DevEventHandler(FileSystemEventHandler):
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
         try:
-            if os.path.exists(context.unfinished_build_file):
-                # The last rebuild failed, so more than what changed is out of date
+            if (
+                os.path.exists(context.unfinished_build_file)
+                or context.settings_changed()
+            ):
+                # The last rebuild failed or the configuration was changed, so
+                # more than what changed is out of date
                 loop.run_until_complete(
                     cold_incremental_rebuild(
                         context,
-- 
2.43.0


From bdd3d4efa929e4c446006a556bf7922e4f5bb561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 74/98] fix: an interruption while removing artifacts failed
 the builds after it

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 8364cac..bb42f13 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -567,7 +567,13 @@ async def hot_incremental_rebuild(
 
         for file in still_dirty_artifacts:
             logger.debug("Cleaning {}", file)
-            os.unlink(os.path.join(context.folder, file))
+            try:
+                os.unlink(os.path.join(context.folder, file))
+            except FileNotFoundError:
+                logger.warning(
+                    "Expected artifact {} to exist so we could clean it, but it did not. Continuing..",
+                    file,
+                )
 
         remove_empty_folders(context, possibly_empty_folders)
 
-- 
2.43.0


From fc597805970282b05bff6afdbe506b0a73462585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 75/98] fix: null, list, object and non-finite constants were
 exported as python literals

---
 vanillaplusjs/build/handlers/js_constants.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index d812931..e6e95d5 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -8,6 +8,7 @@ import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
+import json
 import os
 
 
@@ -64,13 +65,5 @@ def jsify(val) -> str:
     if isinstance(val, str):
         return serialize_string_auto_quote(val)
 
-    if val is True:
-        return "true"
-
-    if val is False:
-        return "false"
-
-    if isinstance(val, (int, float)):
-        return str(val)
-
-    return repr(val)
+    # The configuration is JSON, and any JSON value is a javascript expression
+    return json.dumps(val)
-- 
2.43.0


From e383c508501c5d6f079a64cf8960d5ef5190d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 76/98] fix: images and assets that were symlinked into the
 site were not served, and folders next to it were

---
 vanillaplusjs/http_server.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/http_server.py b/vanillaplusjs/http_server.py
index 2b4c5c5..d7f5c77 100644
--- a/vanillaplusjs/http_server.py
+++ b/vanillaplusjs/http_server.py
@@ -2,6 +2,7 @@
 will serve files
 """
 import contextlib
+import os
 import threading
 import uvicorn
 from starlette.applications import Starlette
@@ -22,6 +23,27 @@ mimetypes.add_type("image/gif", ".gif")
 mimetypes.add_type("image/webp", ".webp")
 
 
+class BuiltFiles(StaticFiles):
+    """Serves the built files in the given folder, and nothing outside of it
+    except for what the build symlinked there.
+    """
+
+    def lookup_path(self, path):
+        # The symlinks in the folder were made by us and hence are followed, so
+        # it's the requested path which must not leave the folder
+        directory = os.path.abspath(self.directory)
+        full_path = os.path.normpath(os.path.join(directory, path))
+        if full_path != directory and not full_path.startswith(
+            os.path.join(directory, "")
+        ):
+            return "", None
+
+        try:
+            return full_path, os.stat(full_path)
+        except (FileNotFoundError, NotADirectoryError):
+            return "", None
+
+
 @contextlib.contextmanager
 def host_static_files(folder: str, host: str, port: int):
     """Starts a uvicorn server in a separate thread, yields None, and
@@ -30,7 +52,7 @@ def host_static_files(folder: str, host: str, port: int):
     https://github.com/encode/uvicorn/discussions/1103
     """
     routes = [
-        Mount("/", app=StaticFiles(directory=folder, html=True), name="static"),
+        Mount("/", app=BuiltFiles(directory=folder, html=True), name="static"),
     ]
 
     app = Starlette(routes=routes)
-- 
2.43.0


From 834fc7d10376583751a4f8c877cc605829ad2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 77/98] fix: the server could take a changed file for unchanged

---
 vanillaplusjs/http_server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vanillaplusjs/http_server.py b/vanillaplusjs/http_server.py
index d7f5c77..541846a 100644
--- a/vanillaplusjs/http_server.py
+++ b/vanillaplusjs/http_server.py
@@ -43,6 +43,11 @@ class BuiltFiles(StaticFiles):
         except (FileNotFoundError, NotADirectoryError):
             return "", None
 
+    def is_not_modified(self, response_headers, request_headers):
+        # Modification dates are in seconds and can go back, so they don't tell
+        # for certain if the file is the one that the client has
+        return request_headers.get("if-none-match") == response_headers["etag"]
+
 
 @contextlib.contextmanager
 def host_static_files(folder: str, host: str, port: int):
-- 
2.43.0


From 8e46a33e6f053fbec1f827b6a8ec330d09f9b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 78/98] fix: the server stopped working when the folder was
 removed and built again

---
 vanillaplusjs/http_server.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/http_server.py b/vanillaplusjs/http_server.py
index 541846a..4252612 100644
--- a/vanillaplusjs/http_server.py
+++ b/vanillaplusjs/http_server.py
@@ -31,10 +31,9 @@ class BuiltFiles(StaticFiles):
     def lookup_path(self, path):
         # The symlinks in the folder were made by us and hence are followed, so
         # it's the requested path which must not leave the folder
-        directory = os.path.abspath(self.directory)
-        full_path = os.path.normpath(os.path.join(directory, path))
-        if full_path != directory and not full_path.startswith(
-            os.path.join(directory, "")
+        full_path = os.path.normpath(os.path.join(self.directory, path))
+        if full_path != self.directory and not full_path.startswith(
+            os.path.join(self.directory, "")
         ):
             return "", None
 
@@ -56,8 +55,10 @@ def host_static_files(folder: str, host: str, port: int):
 
     https://github.com/encode/uvicorn/discussions/1103
     """
+    # An absolute path keeps working if the folder is removed and built again
+    directory = os.path.abspath(folder)
     routes = [
-        Mount("/", app=BuiltFiles(directory=folder, html=True), name="static"),
+        Mount("/", app=BuiltFiles(directory=directory, html=True), name="static"),
     ]
 
     app = Starlette(routes=routes)
-- 
2.43.0


From b369e01b2cbb351650f30efaffaeb665e9cdf911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 79/98] fix: dropping external files left them or broke the
 builds after it

---
 .../build/cold_incremental_rebuild.py         | 69 ++++++++++---------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 94390d7..2ededd4 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -149,43 +149,45 @@ async def check_external_files(context: BuildContext):
     Args:
         context (BuildContext): The context to build in
     """
-    if not context.external_files:
-        return
-
     external_files_state = ExternalFilesState(state_by_relpath=dict())
     if os.path.exists(context.external_files_state_file):
         with open(context.external_files_state_file, "r") as f:
             external_files_state = ExternalFilesState.from_json(json.load(f))
 
-    logger.info("Checking external files")
+    if not context.external_files and not external_files_state.state_by_relpath:
+        return
 
-    new_external_files_state = ExternalFilesState(state_by_relpath=dict())
+    logger.info("Checking external files")
 
-    for old_external_file_relpath in external_files_state.state_by_relpath.keys():
+    for old_external_file_relpath in list(external_files_state.state_by_relpath):
         if old_external_file_relpath not in context.external_files:
             logger.info("Deleting old external file {}", old_external_file_relpath)
-            os.remove(os.path.join(context.folder, old_external_file_relpath))
+            try:
+                os.remove(os.path.join(context.folder, old_external_file_relpath))
+            except FileNotFoundError:
+                pass
+            # Remembered right away, such that it's not deleted again if one of
+            # the other files cannot be downloaded
+            del external_files_state.state_by_relpath[old_external_file_relpath]
+            save_external_files_state(context, external_files_state)
 
     executor: Optional[ProcessPoolExecutor] = None
     # We don't want to spin up a whole process pool unless we actually have
     # something to do
 
-    futures: List[concurrent.futures.Future] = []
+    futures: Dict[str, concurrent.futures.Future] = dict()
     try:
         for desired_external_file in context.external_files.values():
             if is_external_file_skippable(
                 context, external_files_state, desired_external_file.relpath
             ):
-                new_external_files_state.state_by_relpath[
-                    desired_external_file.relpath
-                ] = external_files_state.state_by_relpath[desired_external_file.relpath]
                 continue
 
             if executor is None:
                 executor = ProcessPoolExecutor()
 
-            futures.append(
-                executor.submit(handle_external_file, context, desired_external_file)
+            futures[desired_external_file.relpath] = executor.submit(
+                handle_external_file, context, desired_external_file
             )
     finally:
         if executor is not None:
@@ -194,28 +196,33 @@ async def check_external_files(context: BuildContext):
     if not futures:
         return
 
-    for future in futures:
+    # The files which were handled are remembered even if others failed
+    for relpath, future in futures.items():
+        if future.exception() is None:
+            external_files_state.state_by_relpath[relpath] = ExternalFileState(
+                relpath=relpath,
+                integrity=context.external_files[relpath].integrity,
+                signature=get_file_signature(os.path.join(context.folder, relpath)),
+            )
+
+    save_external_files_state(context, external_files_state)
+
+    for future in futures.values():
         future.result()
 
-    for desired_external_file in context.external_files.values():
-        if (
-            desired_external_file.relpath
-            not in new_external_files_state.state_by_relpath
-        ):
-            new_external_files_state.state_by_relpath[
-                desired_external_file.relpath
-            ] = ExternalFileState(
-                relpath=desired_external_file.relpath,
-                integrity=desired_external_file.integrity,
-                signature=get_file_signature(
-                    os.path.join(context.folder, desired_external_file.relpath)
-                ),
-            )
 
-    external_files_state_folder = os.path.dirname(context.external_files_state_file)
-    makedirs_safely(external_files_state_folder)
+def save_external_files_state(
+    context: BuildContext, external_files_state: ExternalFilesState
+) -> None:
+    """Stores the state of the external files for the next build
+
+    Args:
+        context (BuildContext): The context to build in
+        external_files_state (ExternalFilesState): The state to store
+    """
+    makedirs_safely(context.out_folder)
     with open(context.external_files_state_file, "w") as f:
-        json.dump(dataclasses.asdict(new_external_files_state), f)
+        json.dump(dataclasses.asdict(external_files_state), f)
 
 
 def is_external_file_skippable(
-- 
2.43.0


From 559dd37a701388be932c7ff196d9e865e88f14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 80/98] fix: watching lost changes, or ended, when files were
 replaced, moved or removed while rebuilding

---
 vanillaplusjs/runners/dev.py | 188 +++++++++++++++++------------------
 1 file changed, 92 insertions(+), 96 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index df104f4..59c898e 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -1,11 +1,11 @@
-from typing import Sequence, Set
+from typing import Dict, List, Optional, Sequence, Set
 from vanillaplusjs.build.build_context import (
     BuildContext,
     load_external_files,
     load_js_constants,
 )
 from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
-from vanillaplusjs.build.file_signature import get_file_signature
+from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
 from vanillaplusjs.build.graph import FileDependencyGraph
 from vanillaplusjs.build.cold_incremental_rebuild import cold_incremental_rebuild
 from vanillaplusjs.build.hot_incremental_rebuild import hot_incremental_rebuild
@@ -182,11 +182,13 @@ class DevEventHandler(FileSystemEventHandler):
         False if the last build succeeded or there have been changes since"""
 
         self.lock = threading.RLock()
-        """The lock for the deleted/changed/created/last_change_at/unbuildable variables."""
+        """The lock for the touched_paths/last_change_at/unbuildable variables."""
+
+        self.touched_paths: Set[str] = set()
+        """The files and folders with something created, changed, moved or deleted
+        since the last build. Events can be repeated or concern a file which has
+        long changed again, so what happened is determined when rebuilding."""
 
-        self.deleted_files: Set[str] = set()
-        self.changed_files: Set[str] = set()
-        self.created_files: Set[str] = set()
         self.last_change_at = time.time()
 
     def rebuild_if_appropriate(self):
@@ -195,25 +197,29 @@ class DevEventHandler(FileSystemEventHandler):
             now = time.time()
             if self.project_is_unbuildable:
                 return
-            if (
-                not self.deleted_files
-                and not self.changed_files
-                and not self.created_files
-            ):
+            if not self.touched_paths:
                 return
             if now - self.last_change_at < self.debounce_seconds:
                 return
 
-            deleted = self.deleted_files.copy()
-            changed = self.changed_files.copy()
-            created = self.created_files.copy()
-
-            self.deleted_files.clear()
-            self.changed_files.clear()
-            self.created_files.clear()
+            touched = self.touched_paths
+            self.touched_paths = set()
 
         logger.info("Rebuilding...")
 
+        try:
+            self.rebuild(touched)
+        except Exception:
+            logger.exception("Error rebuilding")
+            with self.lock:
+                # A change which happened in the meantime may have fixed it
+                self.project_is_unbuildable = not self.touched_paths
+                self.touched_paths.update(touched)
+
+    def rebuild(self, touched: Set[str]) -> None:
+        """Rebuilds the project after changes to the given files and folders, which
+        are specified via absolute paths.
+        """
         context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)
 
         with open(context.config_file) as f:
@@ -245,29 +251,21 @@ class DevEventHandler(FileSystemEventHandler):
             with open(context.placeholder_graph_file) as f:
                 old_placeholder_graph = FileDependencyGraph.load(f)
 
-        changed_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in changed
-        )
-
-        added_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in created
-        )
-
-        deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
-
-        if changed_files:
-            for file, signature in changed_files.items():
+        changed_files: Dict[str, FileSignature] = dict()
+        added_files: Dict[str, FileSignature] = dict()
+        deleted_files: List[str] = []
+        for file in self.find_touched_files(touched, old_dependency_graph):
+            signature = self.get_signature(file)
+            if file not in old_dependency_graph:
+                if signature is not None:
+                    logger.debug(f"{file} added: {signature}")
+                    added_files[file] = signature
+            elif signature is not None:
                 logger.debug(f"{file} changed: {signature}")
-
-        if added_files:
-            for file, signature in added_files.items():
-                logger.debug(f"{file} added: {signature}")
-
-        if deleted_files:
-            for file in deleted_files:
+                changed_files[file] = signature
+            else:
                 logger.debug(f"{file} deleted")
+                deleted_files.append(file)
 
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
@@ -305,74 +303,72 @@ class DevEventHandler(FileSystemEventHandler):
                     asyncio.wait(pending, return_when=asyncio.ALL_COMPLETED)
                 )
                 pending = asyncio.all_tasks(loop)
-
-            with self.lock:
-                self.project_is_unbuildable = False
-        except Exception:
-            logger.exception("Error rebuilding")
-            with self.lock:
-                for file in changed:
-                    if os.path.lexists(file):
-                        if file not in self.created_files:
-                            self.changed_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in created:
-                    if os.path.lexists(file):
-                        if file not in self.changed_files:
-                            self.created_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in deleted:
-                    if not os.path.lexists(file):
-                        if file in self.changed_files:
-                            self.changed_files.remove(file)
-                        if file in self.created_files:
-                            self.created_files.remove(file)
-                        self.deleted_files.add(file)
-                self.project_is_unbuildable = True
         finally:
             asyncio.set_event_loop(None)
             loop.close()
 
-    def on_modified(self, event: FileModifiedEvent):
-        if event.is_directory:
-            return
+    def find_touched_files(
+        self, touched: Set[str], old_dependency_graph: FileDependencyGraph
+    ) -> Set[str]:
+        """Determines which files are among or within the given files and folders,
+        either now or as of the last build. The result is relative to the project
+        root.
+        """
+        files: Set[str] = set()
+        folders: Set[str] = set()
+        for path in touched:
+            relpath = os.path.relpath(path, self.folder)
+            files.add(relpath)
+            if relpath not in old_dependency_graph and not os.path.isfile(path):
+                folders.add(relpath)
+            if os.path.isdir(path) and not os.path.islink(path):
+                for (dirpath, _, filenames) in os.walk(path):
+                    for filename in filenames:
+                        files.add(
+                            os.path.relpath(os.path.join(dirpath, filename), self.folder)
+                        )
+
+        if folders:
+            for file in old_dependency_graph.nodes:
+                folder = os.path.dirname(file)
+                while folder != "" and folder not in folders:
+                    folder = os.path.dirname(folder)
+                if folder != "":
+                    files.add(file)
+
+        return files
+
+    def get_signature(self, relpath: str) -> Optional[FileSignature]:
+        """Returns the signature of the given file, which is relative to the project
+        root, or None if there is no such file.
+        """
+        path = os.path.join(self.folder, relpath)
+        if os.path.isdir(path):
+            return None
+
+        try:
+            return get_file_signature(path)
+        except (FileNotFoundError, NotADirectoryError):
+            return None
+
+    def on_touched(self, *paths: str) -> None:
+        """Called when something happened to the given files or folders"""
         with self.lock:
-            if event.src_path not in self.created_files:
-                self.changed_files.add(event.src_path)
+            self.touched_paths.update(paths)
             self.project_is_unbuildable = False
             self.last_change_at = time.time()
 
-    def on_created(self, event: FileCreatedEvent):
+    def on_modified(self, event: FileModifiedEvent):
         if event.is_directory:
+            # There are separate events for the files and folders within it
             return
-        with self.lock:
-            if event.src_path in self.deleted_files:
-                self.deleted_files.remove(event.src_path)
-                self.changed_files.add(event.src_path)
-            else:
-                self.created_files.add(event.src_path)
-            self.project_is_unbuildable = False
-            self.last_change_at = time.time()
+        self.on_touched(event.src_path)
+
+    def on_created(self, event: FileCreatedEvent):
+        self.on_touched(event.src_path)
 
     def on_deleted(self, event: FileDeletedEvent):
-        if event.is_directory:
-            return
-        with self.lock:
-            if event.src_path in self.changed_files:
-                self.changed_files.remove(event.src_path)
-                self.deleted_files.add(event.src_path)
-            elif event.src_path in self.created_files:
-                self.created_files.remove(event.src_path)
-            else:
-                self.deleted_files.add(event.src_path)
-            self.project_is_unbuildable = False
-            self.last_change_at = time.time()
+        self.on_touched(event.src_path)
 
     def on_moved(self, event: FileMovedEvent):
-        if event.is_directory:
-            return
-        with self.lock:
-            self.on_deleted(FileDeletedEvent(event.src_path))
-            self.on_created(FileCreatedEvent(event.dest_path))
+        self.on_touched(event.src_path, event.dest_path)
-- 
2.43.0


From ce80d0feb36a222dd219217ea7ad254f27ebb0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 81/98] fix: changes made before the watcher started were
 missed, and it broke when a rebuild replaced the output

---
 vanillaplusjs/runners/dev.py | 77 +++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index 59c898e..4893143 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -88,28 +88,30 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
         )
         sys.exit(1)
 
-    try:
-        build(folder=folder, dev=True, symlinks=None, delay_files=[])
-    except Exception as e:
-        if isinstance(e, SystemExit):
-            raise
-
-        if not os.path.lexists(os.path.join(folder, "out")):
-            raise
-
-        logger.exception(
-            "During first build, will retry with fresh easy-to-regenerate files"
-        )
-        shutil.rmtree(os.path.join(folder, "out"))
-        build(folder=folder, dev=True, symlinks=None, delay_files=[])
-
     if not watch:
+        initial_build(folder)
         return run_server(folder=folder, host=host, port=port)
 
-    abs_cwd = os.path.abspath(os.getcwd())
-    abs_folder = os.path.abspath(folder)
-    os.chdir(os.path.join(folder, "out", "www"))
+    if not os.path.exists(os.path.join(folder, "src")):
+        logger.warning('src not found. Call "vanillaplusjs init" to create it.')
+        sys.exit(1)
+
+    event_handler = DevEventHandler(
+        folder=os.path.abspath(folder),
+        debounce_seconds=debounce / 1000,
+        symlinks=detect_symlink_support(),
+    )
+    observer = Observer()
+    observer.schedule(
+        event_handler, os.path.join(os.path.abspath(folder), "src"), recursive=True
+    )
+    observer.daemon = True
+
+    # From before the first build, so that what is changed meanwhile isn't missed
+    observer.start()
     try:
+        initial_build(folder)
+
         logger.info(f"Running server on {host}:{port}")
         shutdown_event = threading.Event()
 
@@ -121,7 +123,7 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
         server_thread = threading.Thread(
             target=host_static_files_with_event,
             kwargs={
-                "folder": ".",
+                "folder": os.path.join(os.path.abspath(folder), "out", "www"),
                 "host": host,
                 "port": port,
                 "event": shutdown_event,
@@ -131,17 +133,6 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
         server_thread.start()
 
         logger.info("Watching for changes...")
-        event_handler = DevEventHandler(
-            folder=abs_folder,
-            debounce_seconds=debounce / 1000,
-            symlinks=detect_symlink_support(),
-        )
-        observer = Observer()
-        observer.schedule(
-            event_handler, os.path.join(abs_folder, "src"), recursive=True
-        )
-        observer.daemon = True
-        observer.start()
         while True:
             time.sleep(0.1)
             if not server_thread.is_alive():
@@ -152,12 +143,34 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
                 break
             event_handler.rebuild_if_appropriate()
         logger.info("Server stopped")
+    finally:
         if observer.is_alive():
             observer.stop()
             observer.join()
             logger.info("Observer stopped")
-    finally:
-        os.chdir(abs_cwd)
+
+
+def initial_build(folder: str) -> None:
+    """Builds the project in development mode, starting over if that fails due to
+    what remains from an earlier build.
+
+    Args:
+        folder (str): The project root folder
+    """
+    try:
+        build(folder=folder, dev=True, symlinks=None, delay_files=[])
+    except Exception as e:
+        if isinstance(e, SystemExit):
+            raise
+
+        if not os.path.lexists(os.path.join(folder, "out")):
+            raise
+
+        logger.exception(
+            "During first build, will retry with fresh easy-to-regenerate files"
+        )
+        shutil.rmtree(os.path.join(folder, "out"))
+        build(folder=folder, dev=True, symlinks=None, delay_files=[])
 
 
 class DevEventHandler(FileSystemEventHandler):
-- 
2.43.0


From 74bf783085ed2b1c94b8285f4d1d9bfc6513455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 82/98] fix: the server hung forever when it could not start

---
 vanillaplusjs/http_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vanillaplusjs/http_server.py b/vanillaplusjs/http_server.py
index 4252612..5cabd6a 100644
--- a/vanillaplusjs/http_server.py
+++ b/vanillaplusjs/http_server.py
@@ -71,6 +71,8 @@ def host_static_files(folder: str, host: str, port: int):
     thread.start()
     try:
         while not server.started:
+            if not thread.is_alive():
+                raise RuntimeError(f"could not start the server on {host}:{port}")
             time.sleep(1e-3)
         yield
     finally:
-- 
2.43.0


From 485379ce77ef59e6655b32a1ec0c42780fb7d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 83/98] fix: lazy in an image command made the image load
 eagerly

---
 vanillaplusjs/build/html/manips/images/command.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index e9ff9f6..320d627 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -147,8 +147,8 @@ def parse_command(args: str) -> ImageCommand:
             if peeked == "}":
                 break
 
-        remaining_arguments = p.read()
-        if remaining_arguments and remaining_arguments[0] == " ":
+        remaining_arguments = p.read().strip()
+        if remaining_arguments:
             args = args[:4] + [real_crop_arguments, remaining_arguments]
 
         try:
@@ -160,6 +160,8 @@ def parse_command(args: str) -> ImageCommand:
 
     lazy = True
     if len(args) > 5:
+        if args[5] not in ("lazy", "eager"):
+            raise ValueError(f"expected lazy or eager; got {repr(args[5])}")
         lazy = args[5] == "lazy"
 
     return ImageCommand(
-- 
2.43.0


From 6e92a99c1e0ee8868663d8690f2d3ed2a62050f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 84/98] fix: very small images failed the build when several
 resolutions have the same size

---
 vanillaplusjs/build/html/manips/images/resolutions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/resolutions.py b/vanillaplusjs/build/html/manips/images/resolutions.py
index c66390e..4b790d6 100644
--- a/vanillaplusjs/build/html/manips/images/resolutions.py
+++ b/vanillaplusjs/build/html/manips/images/resolutions.py
@@ -1,5 +1,5 @@
 from decimal import Decimal
-from typing import Generator, Tuple
+from typing import Generator, Optional, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 
 
@@ -49,9 +49,14 @@ def yield_sizes(
 ) -> Generator[Tuple[int, int], None, None]:
     """Analogous to yield_resolutions, but yields the sizes to export
     an image of the given source size targetting the given destination
-    size, instead of the multiple of the base resolution.
+    size, instead of the multiple of the base resolution. Resolutions which
+    result in the same size, as for very small images, are skipped.
     """
+    last_size: Optional[Tuple[int, int]] = None
     for resolution in yield_resolutions(
         context, src_width, src_height, dst_width, dst_height
     ):
-        yield int(dst_width * resolution), int(dst_height * resolution)
+        size = (int(dst_width * resolution), int(dst_height * resolution))
+        if size != last_size:
+            yield size
+            last_size = size
-- 
2.43.0


From f5ce1e664604804ad55f9c90c4d5ad09aec73ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 85/98] fix: the crop arguments in an images.json were not
 checked

---
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 437c972..c1308a3 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -318,7 +318,7 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             logger.warning("[{}] crop style is not cover", ctx())
             return False
 
-        crop_settings = img_target_settings.get("crop_settings", dict())
+        crop_settings = img_target_settings.get("crop_arguments", dict())
         if not isinstance(crop_settings, dict):
             logger.warning("[{}] crop settings are not a dictionary", ctx())
             return False
-- 
2.43.0


From 1a0bb588a4b9adc7a20b62b624cb1c88bdd5b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 86/98] fix: image commands that could not be satisfied were
 not tried again once the image changed

---
 vanillaplusjs/build/handlers/image_glue.py    | 31 +++++++++-
 .../build/hot_incremental_rebuild.py          | 25 ++++++++-
 .../build/html/manips/images/command.py       | 56 ++++++++++++++++++-
 .../build/html/manips/images/manip.py         | 12 +++-
 4 files changed, 115 insertions(+), 9 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index c1308a3..ccc8d67 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -75,7 +75,7 @@ type hints.
 """
 
 import dataclasses
-from typing import Set
+from typing import List, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
@@ -133,7 +133,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return ScanFileResult(dependencies=[], produces=[])
+        return ScanFileResult(
+            dependencies=find_sources(context, data, relpath), produces=[]
+        )
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -188,7 +190,9 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return BuildFileResult(children=[], produced=[], reused=[])
+        return BuildFileResult(
+            children=find_sources(context, data, relpath), produced=[], reused=[]
+        )
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -265,6 +269,27 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     )
 
 
+def find_sources(context: BuildContext, data: dict, relpath: str) -> List[str]:
+    """Finds the images that the given data, which did not pass the sanity check,
+    refers to. It may pass once they change.
+    """
+    res: Set[str] = set()
+    for settings in data.values() if isinstance(data, dict) else []:
+        path = settings.get("path") if isinstance(settings, dict) else None
+        if not isinstance(path, str) or not path.startswith("/"):
+            continue
+        path_rel_to_root = os.path.normpath(
+            os.path.join("src", "public", path[1:].replace("/", os.path.sep))
+        )
+        if (
+            path_rel_to_root.startswith(os.path.join("src", "public") + os.path.sep)
+            and path_rel_to_root != relpath
+            and os.path.isfile(os.path.join(context.folder, path_rel_to_root))
+        ):
+            res.add(path_rel_to_root)
+    return list(res)
+
+
 def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) -> bool:
     """Checks that the given data is a valid images json file."""
     ctx = lambda: f"{relpath=}"
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index bb42f13..f1a2137 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -6,6 +6,7 @@ from vanillaplusjs.build.exceptions import (
     CyclicDependencyException,
 )
 from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
+from vanillaplusjs.build.html.manips.images.command import may_refer_to_images
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file import scan_file
 from vanillaplusjs.build.scan_file_result import ScanFileResult
@@ -141,6 +142,28 @@ async def hot_incremental_rebuild(
                     os.path.join(context.folder, file)
                 )
 
+    public_folder = os.path.join("src", "public") + os.path.sep
+    added_images = set(
+        file[len(public_folder) :]
+        for file in added_files
+        if file.startswith(public_folder)
+        and not file.endswith((".html", ".css", ".js", ".json"))
+    )
+    if added_images:
+        # Any image command for them may have become applicable
+        for file in old_dependency_graph.nodes:
+            if (
+                file.endswith((".html", ".images.json"))
+                and file not in changed_files
+                and file not in deleted_files
+                and may_refer_to_images(
+                    os.path.join(context.folder, file), added_images
+                )
+            ):
+                changed_files[file] = get_file_signature(
+                    os.path.join(context.folder, file)
+                )
+
     if not changed_files and not added_files and not deleted_files:
         logger.info("Nothing to do, exiting")
         return
@@ -222,8 +245,6 @@ async def hot_incremental_rebuild(
             for out_relpath in scan_result.produces:
                 out_dependencies_mapping[out_relpath] = scanned_file_relpath
 
-        public_folder = os.path.join("src", "public") + os.path.sep
-
         def get_producer(relpath: str) -> Optional[str]:
             """If the given public file is not copied from the source folder, but
             is produced by another file, returns that other file, e.g., the
diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index 320d627..cae4a3c 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -1,10 +1,11 @@
 from dataclasses import dataclass
-from typing import Literal
+from typing import Literal, Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.ioutil import PeekableTextIO
 import io
 import json
 import os
+import re
 from PIL import Image, UnidentifiedImageError
 
 
@@ -174,6 +175,59 @@ def parse_command(args: str) -> ImageCommand:
     )
 
 
+def find_source(
+    command: ImageCommand, context: BuildContext, command_file_path: str
+) -> Optional[str]:
+    """Determines where the image the given command refers to is, relative to the
+    root of the project, if there is such a file in the public folder. It may not
+    be possible to produce the image from it.
+    """
+    path_relative_to_root = command.source_path_relative_to_root(
+        context, command_file_path
+    )
+    if not path_relative_to_root.startswith(
+        os.path.join("src", "public") + os.path.sep
+    ) or not os.path.isfile(os.path.join(context.folder, path_relative_to_root)):
+        return None
+    return path_relative_to_root
+
+
+def may_refer_to_images(path: str, images: Set[str]) -> bool:
+    """Determines if the given html or images.json file can refer to one of the
+    given images, without parsing the former.
+
+    Args:
+        path (str): The file to check
+        images (set[str]): The images, relative to the public folder
+    """
+    with open(path, "r", encoding="utf-8", errors="replace") as f:
+        text = f.read()
+
+    if path.endswith(".json"):
+        try:
+            data = json.loads(text)
+        except json.JSONDecodeError:
+            return False
+        sources = [
+            value.get("path")
+            for value in (data.values() if isinstance(data, dict) else [])
+            if isinstance(value, dict)
+        ]
+    else:
+        sources = re.findall(r"\[\s*IMAGE\s*:\s+(\S+)", text)
+
+    basenames = set(os.path.basename(image) for image in images)
+    for source in sources:
+        if not isinstance(source, str):
+            continue
+        if source.startswith("/"):
+            if os.path.normpath(source[1:].replace("/", os.path.sep)) in images:
+                return True
+        elif source.split("/")[-1] in basenames:
+            return True
+    return False
+
+
 def validate_command(
     command: ImageCommand, context: BuildContext, command_file_path: str
 ) -> bool:
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index b4aca92..413407d 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -9,6 +9,7 @@ import re
 from vanillaplusjs.build.html.manips.images.command import (
     ImageCommand,
     parse_command,
+    find_source,
     validate_command,
 )
 from vanillaplusjs.build.html.manips.images.exporter import export_command
@@ -129,9 +130,14 @@ class ImagesManipulator(HTMLManipulator):
         if cmd is None:
             return None
 
-        if not validate_command(
-            cmd, self.context, os.path.join(self.context.folder, self.relpath)
-        ):
+        command_file_path = os.path.join(self.context.folder, self.relpath)
+        if not validate_command(cmd, self.context, command_file_path):
+            # It may become possible once the image changes
+            source = find_source(cmd, self.context, command_file_path)
+            if source is not None and source != self.relpath:
+                (self.dependencies if self.mode == "scan" else self.children).add(
+                    source
+                )
             return None
 
         return cmd
-- 
2.43.0


From 15e9d9897a457988f1530b34ea381c31defe5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 87/98] fix: artifacts were reused for image settings that
 differ but have the same hash or another order

---
 .../build/html/manips/images/exporter.py      |  2 ++
 .../build/html/manips/images/metadata.py      | 23 +++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index da075b3..e8617db 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -25,6 +25,7 @@ from vanillaplusjs.build.html.manips.images.metadata import (
     hash_image_settings,
     load_metadata,
     reserve_target_lock_path,
+    serialize_image_settings,
     store_metadata,
 )
 import shutil
@@ -306,6 +307,7 @@ def export_command(
             settings=target,
             outputs=outputs,
         ),
+        settings=serialize_image_settings(context.image_settings),
     )
 
     replace_contents(
diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index b4e8207..7c17a36 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -175,6 +175,11 @@ class ImageMetadata:
     target: ImageTarget
     """The target image"""
 
+    settings: Optional[str] = None
+    """The ImageSettings on the BuildContext, serialized, since different settings
+    can have the same hash. None if not recorded.
+    """
+
 
 def load_metadata(serd: dict) -> ImageMetadata:
     """Loads the metadata from a JSON serialized dict."""
@@ -204,6 +209,7 @@ def load_metadata(serd: dict) -> ImageMetadata:
                 for key, value in serd["target"]["outputs"].items()
             ),
         ),
+        settings=serd.get("settings"),
     )
 
 
@@ -281,6 +287,7 @@ def find_target(
 
     source_path = os.path.join("src", "public", relpath)
     settings_hash = hash_image_settings(context.image_settings)
+    serialized_settings = serialize_image_settings(context.image_settings)
 
     scanner = os.scandir(art_path)
     try:
@@ -317,6 +324,15 @@ def find_target(
                     settings_hash,
                 )
                 continue
+            if entry_metadata.settings not in (None, serialized_settings):
+                logger.debug(
+                    "{} is not a match for {}; the settings are {} but should be {}",
+                    entry.path,
+                    relpath,
+                    entry_metadata.settings,
+                    serialized_settings,
+                )
+                continue
             if entry_metadata.source.path != source_path:
                 logger.debug(
                     "{} is not a match for {}; the source is {} but should be {}",
@@ -466,6 +482,13 @@ def hash_image_settings(settings: ImageSettings) -> int:
     return result
 
 
+def serialize_image_settings(settings: ImageSettings) -> str:
+    """Serializes the given image settings. The order of the formats and exports
+    is kept, as it's also the order of preference when there is no other.
+    """
+    return json.dumps(dataclasses.asdict(settings), default=str)
+
+
 def overflow(n: int) -> int:
     """Overflows the integer as if it were a 64-bit unsigned integer."""
     return n & 0xFFFFFFFFFFFFFFFF
-- 
2.43.0


From 262d1a50232306b4ad6906c05579aa0a4c3749c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 88/98] fix: image commands for folders next to the public
 folder failed the build

---
 vanillaplusjs/build/html/manips/images/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index cae4a3c..42331b4 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -234,7 +234,9 @@ def validate_command(
     path_relative_to_root = command.source_path_relative_to_root(
         context, command_file_path
     )
-    if not path_relative_to_root.startswith(os.path.join("src", "public")):
+    if not path_relative_to_root.startswith(
+        os.path.join("src", "public") + os.path.sep
+    ):
         return False
 
     try:
-- 
2.43.0


From 265252a88e4429de14efd2b20f834c2479b544cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 89/98] fix: the build hung when no export of the default
 format was applicable to an image

---
 vanillaplusjs/build/html/manips/images/manip.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index 413407d..1ad9213 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -91,10 +91,19 @@ class ImagesManipulator(HTMLManipulator):
             self.context.image_settings.default_format
         ]
         standard_resolution_output = next(
-            output
-            for output in default_outputs
-            if output.width == cmd.width and output.height == cmd.height
+            (
+                output
+                for output in default_outputs
+                if output.width == cmd.width and output.height == cmd.height
+            ),
+            None,
         )
+        if standard_resolution_output is None:
+            raise ValueError(
+                f"{self.relpath}: no {self.context.image_settings.default_format} "
+                f"export is applicable to a {cmd.width}x{cmd.height} image"
+            )
+
         res.append(
             tkn.HTMLToken(
                 type="EmptyTag",
-- 
2.43.0


From f94018d3ab070c427df41b50e2fd39c79a73e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 90/98] fix: image paths with dot segments or naming a folder
 failed the build

---
 vanillaplusjs/build/handlers/image_glue.py        | 12 ++++++++++--
 vanillaplusjs/build/html/manips/images/command.py |  9 +++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index ccc8d67..55642e4 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -315,8 +315,16 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             return False
 
         path_rel_to_public = path[1:]
-        path_rel_to_root = os.path.join("src", "public", path_rel_to_public)
-        if not os.path.exists(os.path.join(context.folder, path_rel_to_root)):
+        path_rel_to_root = os.path.normpath(
+            os.path.join("src", "public", path_rel_to_public)
+        )
+        if not path_rel_to_root.startswith(
+            os.path.join("src", "public") + os.path.sep
+        ):
+            logger.warning("[{}] path is not in the public folder", ctx())
+            return False
+
+        if not os.path.isfile(os.path.join(context.folder, path_rel_to_root)):
             logger.warning("[{}] path {} does not exist", ctx(), path_rel_to_root)
             return False
 
diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index 42331b4..d84284b 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -52,8 +52,8 @@ class ImageCommand:
         of the project.
         """
         if self.path.startswith("/"):
-            return os.path.join(
-                "src", "public", self.path[1:].replace("/", os.path.sep)
+            return os.path.normpath(
+                os.path.join("src", "public", self.path[1:].replace("/", os.path.sep))
             )
 
         abs_path = os.path.abspath(
@@ -221,7 +221,8 @@ def may_refer_to_images(path: str, images: Set[str]) -> bool:
         if not isinstance(source, str):
             continue
         if source.startswith("/"):
-            if os.path.normpath(source[1:].replace("/", os.path.sep)) in images:
+            path = os.path.normpath(os.path.join("src", "public", source[1:]))
+            if os.path.relpath(path, os.path.join("src", "public")) in images:
                 return True
         elif source.split("/")[-1] in basenames:
             return True
@@ -246,7 +247,7 @@ def validate_command(
         if img.height < command.height:
             return False
         img.close()
-    except FileNotFoundError:
+    except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
         return False
     except UnidentifiedImageError:
         return False
-- 
2.43.0


From 57c1b19c8a94de11c31bbb2730daa775c5446bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 91/98] fix: builds failed once the images.json of a
 placeholder from a failed build was removed

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index f1a2137..3645bc1 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -98,6 +98,15 @@ async def hot_incremental_rebuild(
     )
 
     deleted_files = set(deleted_files)
+    # A build that failed only leaves the placeholders it generated, so files
+    # which are only known from them may be gone by now
+    deleted_files.update(
+        file
+        for file in old_placeholders_graph.nodes
+        if file not in old_dependency_graph
+        and old_placeholders_graph.get_children(file)
+        and not os.path.exists(os.path.join(context.folder, file))
+    )
 
     current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
     constants_mode_changed = False
-- 
2.43.0


From d0bfd75334ac911b4dcab00995020f59280ab9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 92/98] fix: comparing dependency graphs failed for deep ones

---
 vanillaplusjs/build/graph.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/graph.py b/vanillaplusjs/build/graph.py
index ae1d459..8b18ca5 100644
--- a/vanillaplusjs/build/graph.py
+++ b/vanillaplusjs/build/graph.py
@@ -199,7 +199,20 @@ class FileDependencyGraph:
         for path, node in self.nodes.items():
             if path not in other.nodes:
                 return False
-            if node != other.nodes[path]:
+            # All the nodes are compared, so there's no need to expand them, which
+            # would be limited by how deep the graph is
+            other_node = other.nodes[path]
+            if (node.filesize, node.mtime, node.inode) != (
+                other_node.filesize,
+                other_node.mtime,
+                other_node.inode,
+            ):
+                return False
+            if [p.path for p in node.parents] != [p.path for p in other_node.parents]:
+                return False
+            if [c.path for c in node.children] != [
+                c.path for c in other_node.children
+            ]:
                 return False
         return True
 
-- 
2.43.0


From b3478b9e79036b2849da838dd1744633787b3cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 93/98] fix: stack commands over several lines were ignored

---
 vanillaplusjs/build/html/manips/template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index 899bc28..965418e 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -16,8 +16,10 @@ PREPROCESSOR_TEMPLATE_ACTION_RULE = re.compile(
 )
 """Regex that matches [TEMPLATE: <args>]. Allows newlines in args"""
 
-PREPROCESSOR_STACK_ACTION_RULE = re.compile(r"^\s*\[\s*STACK\s*:\s+(?P<args>.*)\]\s*$")
-"""Regex that matches [STACK: <args>]"""
+PREPROCESSOR_STACK_ACTION_RULE = re.compile(
+    r"^\s*\[\s*STACK\s*:\s+(?P<args>.*)\]\s*$", flags=re.DOTALL
+)
+"""Regex that matches [STACK: <args>]. Allows newlines in args"""
 
 
 class TemplateManipulator(HTMLManipulator):
-- 
2.43.0


From c8ead96c2995691c16321e5b27e5473d36c2e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 94/98] fix: image commands over several lines were ignored

---
 vanillaplusjs/build/html/manips/images/manip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index 1ad9213..4bfe081 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -19,9 +19,11 @@ from vanillaplusjs.build.html.manips.images.scanner import scan_command
 PUBLIC_PREFIX_LENGTH = len(os.path.join("src", "public")) + len(os.path.sep)
 
 
-PREPROCESSOR_IMAGE_ACTION_RULE = re.compile(r"^\s*\[\s*IMAGE\s*:\s+(?P<args>.*)\]\s*$")
+PREPROCESSOR_IMAGE_ACTION_RULE = re.compile(
+    r"^\s*\[\s*IMAGE\s*:\s+(?P<args>.*)\]\s*$", flags=re.DOTALL
+)
 """
-Regex that matches [IMAGE: <args>]
+Regex that matches [IMAGE: <args>]. Allows newlines in args
 """
 
 
-- 
2.43.0


From 1df3e5b9fe0f08c40ac23da1e947fd9ad2420e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 95/98] fix: css rule imports over several lines were ignored

---
 vanillaplusjs/build/css/manips/nest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index bf8b6c9..74ab6ea 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -215,7 +215,7 @@ class ReferencableRules:
 
 # Regex that matches !PREPROCESSOR: import [args]
 PREPROCESSOR_IMPORT_ACTION_RULE = re.compile(
-    r"^\s*!\s*PREPROCESSOR\s*:\s+import\s+(?P<args>.*)\s*$"
+    r"^\s*!\s*PREPROCESSOR\s*:\s+import\s+(?P<args>.*)\s*$", flags=re.DOTALL
 )
 
 
-- 
2.43.0


From ca48f596e6c1ed4702bb339ad451de7ecabaf498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 96/98] fix: stylesheet urls with dot segments failed the build

---
 vanillaplusjs/build/css/manips/version_urls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index 9d793fa..5d45b4c 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -7,6 +7,7 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from dataclasses import dataclass
 from urllib.parse import urlencode
 import os
+import posixpath
 
 from vanillaplusjs.constants import PROCESSOR_VERSION
 
@@ -84,7 +85,7 @@ class VersionURLsManipulator(CSSManipulator):
         if any(ch in url for ch in "?#"):
             return None
 
-        path_relative_to_public = url[1:].replace("/", os.path.sep)
+        path_relative_to_public = posixpath.normpath(url)[1:].replace("/", os.path.sep)
         path_relative_to_root = os.path.join("src", "public", path_relative_to_public)
 
         if path_relative_to_root == self.relpath:
-- 
2.43.0


From 3c8ab6990dc224fff62ebd037d77a073dcefabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 97/98] fix: css rule imports with dot segments failed the
 build

---
 vanillaplusjs/build/css/manips/nest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 74ab6ea..0a9b79f 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -11,6 +11,7 @@ import vanillaplusjs.build.css.serializer
 from dataclasses import dataclass
 import re
 import os
+import posixpath
 from loguru import logger
 
 
@@ -373,7 +374,9 @@ class NestManipulator(CSSManipulator):
                 # parse error
                 return
 
-            path_relative_to_public = from_arg[1:].replace("/", os.path.sep)
+            path_relative_to_public = posixpath.normpath(from_arg)[1:].replace(
+                "/", os.path.sep
+            )
             path_relative_to_root = os.path.join(
                 "src", "public", path_relative_to_public
             )
-- 
2.43.0


From b036c27f278d49a8c29498f2921134d4eae19784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 98/98] fix: an interrupted write of the external files state
 broke later builds

---
 vanillaplusjs/build/cold_incremental_rebuild.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 2ededd4..b9d78a9 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -8,7 +8,7 @@ from vanillaplusjs.build.build_context import (
     ExternalFilesState,
 )
 from vanillaplusjs.build.exceptions import IntegrityMismatchException
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, replace_contents
 from .graph import FileDependencyGraph
 from .file_signature import FileSignature, get_file_signature
 from .hot_incremental_rebuild import hot_incremental_rebuild
@@ -221,8 +221,10 @@ def save_external_files_state(
         external_files_state (ExternalFilesState): The state to store
     """
     makedirs_safely(context.out_folder)
-    with open(context.external_files_state_file, "w") as f:
-        json.dump(dataclasses.asdict(external_files_state), f)
+    replace_contents(
+        context.external_files_state_file,
+        json.dumps(dataclasses.asdict(external_files_state)),
+    )
 
 
 def is_external_file_skippable(
-- 
2.43.0


"""Reference CSS tokenizer, written from CSS Syntax Level 3 (section 4), on a
whole string.  Yields tuples; comments are kept as ("comment", text)."""
import re

DIGITS = set("0123456789")
HEX = set("0123456789abcdefABCDEF")
WS = set("\n\t ")


def exact(text):
    """A number's value, the same for all ways to write it, of any size."""
    sign = "-" if text.startswith("-") else ""
    mantissa, _, exponent = text.lstrip("+-").lower().partition("e")
    whole, _, part = mantissa.partition(".")
    digits = (whole + part).lstrip("0")
    power = int(exponent or "0") - len(part)
    if not digits:
        return sign + "0"
    short = digits.rstrip("0")
    return f"{sign}{short}e{power + len(digits) - len(short)}"


class Invalid(ValueError):
    """A parse error at the token level."""


def preprocess(s):
    s = re.sub("\r\n|\r|\f", "\n", s)
    return re.sub("[\0\ud800-\udfff]", "\ufffd", s)


def is_start(c):
    return c != "" and (c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_" or ord(c) >= 0x80)


def is_ident(c):
    return is_start(c) or (c != "" and c in "0123456789-")


def is_nonprint(c):
    o = ord(c)
    return o <= 8 or o == 0x0B or 0x0E <= o <= 0x1F or o == 0x7F


class Tok:
    def __init__(self, s):
        self.s = preprocess(s)
        self.i = 0
        self.errors = []

    def p(self, k=0):
        j = self.i + k
        return self.s[j] if j < len(self.s) else ""

    def valid_escape(self, k=0):
        return self.p(k) == "\\" and self.p(k + 1) != "\n"

    def starts_ident(self, k=0):
        c = self.p(k)
        if c == "-":
            return is_start(self.p(k + 1)) or self.p(k + 1) == "-" or self.valid_escape(k + 1)
        if is_start(c):
            return True
        return c == "\\" and self.valid_escape(k)

    def starts_number(self, k=0):
        c = self.p(k)
        if c and c in "+-":
            if self.p(k + 1) in DIGITS:
                return True
            return self.p(k + 1) == "." and self.p(k + 2) in DIGITS
        if c == ".":
            return self.p(k + 1) in DIGITS
        return c in DIGITS

    def escape(self):
        c = self.p()
        if c == "":
            self.errors.append("escape at end")
            return "\ufffd"
        if c in HEX:
            h = ""
            while len(h) < 6 and self.p() in HEX and self.p() != "":
                h += self.p()
                self.i += 1
            if self.p() in WS and self.p() != "":
                self.i += 1
            n = int(h, 16)
            if n == 0 or 0xD800 <= n <= 0xDFFF or n > 0x10FFFF:
                return "\ufffd"
            return chr(n)
        self.i += 1
        return c

    def name(self):
        r = ""
        while True:
            c = self.p()
            if is_ident(c):
                r += c
                self.i += 1
            elif self.p() == "\\" and self.valid_escape():
                self.i += 1
                r += self.escape()
            else:
                return r

    def number(self):
        j = self.i
        kind = "integer"
        sign = ""
        if self.p() and self.p() in "+-":
            sign = self.p()
            self.i += 1
        while self.p() in DIGITS:
            self.i += 1
        if self.p() == "." and self.p(1) in DIGITS:
            kind = "number"
            self.i += 2
            while self.p() in DIGITS:
                self.i += 1
        if self.p() and self.p() in "eE":
            k = 2 if self.p(1) and self.p(1) in "+-" else 1
            if self.p(k) in DIGITS:
                kind = "number"
                self.i += k
                while self.p() in DIGITS:
                    self.i += 1
        text = self.s[j:self.i]
        return (exact(text), kind, sign)

    def string(self, q):
        r = ""
        while True:
            c = self.p()
            if c == "":
                self.errors.append("string at end")
                return ("string", r)
            self.i += 1
            if c == q:
                return ("string", r)
            if c == "\n":
                self.i -= 1
                self.errors.append("bad string")
                return ("bad-string",)
            if c == "\\":
                if self.p() == "":
                    continue
                if self.p() == "\n":
                    self.i += 1
                    continue
                r += self.escape()
                continue
            r += c

    def url(self):
        r = ""
        while self.p() in WS and self.p():
            self.i += 1
        while True:
            c = self.p()
            if c == "":
                self.errors.append("url at end")
                return ("url", r)
            self.i += 1
            if c == ")":
                return ("url", r)
            if c in WS:
                while self.p() in WS and self.p():
                    self.i += 1
                if self.p() == "":
                    self.errors.append("url at end")
                    return ("url", r)
                if self.p() == ")":
                    self.i += 1
                    return ("url", r)
                self.bad_url()
                return ("bad-url",)
            if c in "\"'(" or is_nonprint(c):
                self.bad_url()
                return ("bad-url",)
            if c == "\\":
                self.i -= 1
                if self.valid_escape():
                    self.i += 1
                    r += self.escape()
                    continue
                self.i += 1
                self.bad_url()
                return ("bad-url",)
            r += c

    def bad_url(self):
        self.errors.append("bad url")
        while True:
            c = self.p()
            if c == "":
                return
            if c == ")":
                self.i += 1
                return
            if c == "\\" and self.valid_escape():
                self.i += 1
                self.escape()
                continue
            self.i += 1

    def ident_like(self):
        v = self.name()
        if v.lower() == "url" and self.p() == "(":
            self.i += 1
            while self.p() in WS and self.p(1) in WS and self.p() and self.p(1):
                self.i += 1
            a, b = self.p(), self.p(1)
            if (a and a in "\"'") or (a and a in WS and b and b in "\"'"):
                return ("function", v)
            return self.url()
        if self.p() == "(":
            self.i += 1
            return ("function", v)
        return ("ident", v)

    def tokens(self):
        out = []
        while True:
            start = self.i
            t = self.next()
            if t is None:
                return out
            out.append((t, start, self.i))

    def next(self):
        c = self.p()
        if c == "":
            return None
        if c == "/" and self.p(1) == "*":
            e = self.s.find("*/", self.i + 2)
            if e < 0:
                self.errors.append("comment at end")
                v = self.s[self.i + 2:]
                self.i = len(self.s)
            else:
                v = self.s[self.i + 2:e]
                self.i = e + 2
            return ("comment", v)
        if c in WS:
            j = self.i
            while self.p() in WS and self.p():
                self.i += 1
            return ("ws", self.s[j:self.i])
        if c in "\"'":
            self.i += 1
            return self.string(c)
        if c == "#":
            self.i += 1
            if is_ident(self.p()) or (self.p() == "\\" and self.valid_escape()):
                flag = "id" if self.starts_ident() else "unrestricted"
                return ("hash", self.name(), flag)
            return ("delim", "#")
        if c in "+.":
            if self.starts_number():
                return self.numeric()
            self.i += 1
            return ("delim", c)
        if c == "-":
            if self.starts_number():
                return self.numeric()
            if self.s.startswith("-->", self.i):
                self.i += 3
                return ("cdc",)
            if self.starts_ident():
                return self.ident_like()
            self.i += 1
            return ("delim", "-")
        if c == "<":
            if self.s.startswith("<!--", self.i):
                self.i += 4
                return ("cdo",)
            self.i += 1
            return ("delim", "<")
        if c == "@":
            self.i += 1
            if self.starts_ident():
                return ("at", self.name())
            return ("delim", "@")
        if c == "\\":
            if self.valid_escape():
                return self.ident_like()
            self.errors.append("lone backslash")
            self.i += 1
            return ("delim", "\\")
        if c in "()[]{},:;":
            self.i += 1
            return (c,)
        if c in DIGITS:
            return self.numeric()
        if is_start(c):
            return self.ident_like()
        self.i += 1
        return ("delim", c)

    def numeric(self):
        n = self.number()
        if self.starts_ident():
            return ("dimension", n, self.name())
        if self.p() == "%":
            self.i += 1
            return ("percentage", n)
        return ("number", n)


def tokenize(s):
    """[(token)], comments and white space included."""
    return [t for t, _, _ in Tok(s).tokens()]


def check_valid(s):
    t = Tok(s)
    toks = t.tokens()
    if t.errors:
        raise Invalid(t.errors[0])
    return [x for x, _, _ in toks]


def normal(toks, comments=True):
    """White space runs as one token of unspecified content."""
    out = []
    for t in toks:
        if t[0] == "ws":
            out.append(("ws",))
        elif t[0] == "comment" and not comments:
            continue
        else:
            out.append(t)
    return out

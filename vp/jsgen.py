"""Generator of javascript module source text.  The result is usually a valid
module; the oracle says whether it is."""
from hypothesis import strategies as st

NL = "\n"
SPACES = st.sampled_from([" ", " ", "", "\t", "\f", "  ", "\u00a0", "\ufeff"])
COMMENTS = st.sampled_from([
    "/**/", "/* c */", "/* \" */", "/* ' */", "/* ` */", "/* // */", "/*/ */", "/** doc\n * @x\n */", "/* ${ */", "/***/", "/* import x from './y' */",
    "/*! PREPROCESSOR: x */", "/* é😀\u2028 */"])
LINE_COMMENTS = st.sampled_from([
    "//\n", "// c\n", "// it's \"x\n", "// `\n", "// */ x\n", "// /* y\n", "/// <ref>\n", "//*/\n", "// http://a/b\n", "// a *\n", "// import x from './y.js'\n",
    "// \\\n", "// @type-hint\n", "// x @@type-hint\n", "//# sourceMappingURL=x.js.map\n", "// é😀\n", "// y\u2028", "// \r\n"])

NAMES = ["a", "b", "x", "y", "foo", "$", "_", "$a", "_b", "$import", "_import", "a1", "as", "from", "of", "get", "set", "async", "é", "ñandú", "ℵ", "x$y", "_1",
         "importer", "fromx", "\\u0061b", "\\u{62}c", "𐊧", "undefined", "let1", "static1", "return1", "A\\u00e9", "\\u{0000000062}z"]
PROPS = NAMES + ["import", "from", "return", "typeof", "if", "default", "class", "in", "delete", "while", "\\u0069f", "export"]
name = st.sampled_from(NAMES)
prop = st.sampled_from(PROPS)
NUMS = ["0", "1", "2", "10", "1.5", ".5", "1.", "1e3", "1E-3", "0x1F", "0b101", "0o17", "1_000", "10n", "0xFFn", "1e+5", "123456789012345678901", "0.1e1", "5..x" if False else "5.0"]

STR_PIECES = ["a", "b", " ", "x y", "/", "//", "/*", "*/", "`", "${", "}", "http://h/x", "\\n", "\\t", "\\\\", "\\x41", "\\x00", "\\x7f", "\\xe9", "\\u0041", "\\u00e9", "\\u{1F600}",
              "\\u{41}", "\\u{10FFFF}", "\\ud83d\\ude00", "\\ud800", "\\0", "\\\n", "\\\r\n", "\\v", "\\f", "\\b", "\\r", "\\a", "\\/", "é", "😀", "\u2028", "\u2029", "\x7f", "\x01", "1", "2",
              "\\'", "\\\"", "\\u2028", "\\uFEFF", "\ufeff", "import", "\t", "@@type-hint", "\\\u2028", "\f", "\0", "\\u{00000000e9}"]


@st.composite
def string(draw):
    q = draw(st.sampled_from("\"'"))
    o = "'" if q == '"' else '"'
    return q + "".join(draw(st.lists(st.sampled_from(STR_PIECES + [o, o]), max_size=5))) + q


RE_PIECES = ["a", "\\d", "\\/", "\\\\", "[/]", "[a-z]", "[^/\"']", "[\\]/]", "[[]", "[\\\\]", "(x|y)", "(?<n>z)", "(?:q)", "\"", "'", "`", "+", "*?", "{2}", "^", "$", ".", "\\u0041", "é",
             "[`]", "=", "a{1,2}", "\\.", "[ ]", " ", "//"[:0], "\\[", "\\]", "[\"]", "[*]", "x\\*"]


@st.composite
def regex(draw):
    body = "".join(draw(st.lists(st.sampled_from(RE_PIECES), min_size=1, max_size=4)))
    if body[:1] in ("*", "/", ""):
        body = "a" + body
    return "/" + body + "/" + draw(st.sampled_from(["", "", "g", "gi", "u", "m", "s", "y", "d", "v", "gimsuy"]))


TPL = ["a", "`"[:0], "\"", "'", "//", "/*", "*/", "\n", "\r\n", "\\`", "\\${", "$", "{", "}", "$$", "http://x/y", "\\n", "\\\\", "\\u0041", "é", "😀", "\f", "\0", "  ", "// c\n", "@@type-hint", "\u2028", "\\\n",
       "import x from './y.js'"]


@st.composite
def template(draw, depth):
    out = "`"
    for _ in range(draw(st.integers(0, 3))):
        out += "".join(draw(st.lists(st.sampled_from(TPL), max_size=3)))
        if draw(st.booleans()) and depth > 0:
            out += "${" + draw(expr(depth - 1)) + "}"
    return out + "`"


@st.composite
def gap(draw, newline=True):
    k = draw(st.integers(0, 19))
    if k < 12:
        return draw(SPACES)
    if k < 15:
        return draw(st.sampled_from(["/**/", "/* c */", "/* \" */", "/* // */", "/* ` */", "/*/ */", "/*'*/"]))
    if not newline:
        return " "
    if k < 17:
        return draw(st.sampled_from(["\n", "\r\n", "\n  ", "\u2028", "\r"]))
    if k < 18:
        return draw(COMMENTS)
    return draw(LINE_COMMENTS)


BINARY = ["+", "-", "*", "/", "/", "/", "%", "**", "==", "===", "<", ">", ">>>", "&&", "||", "??", "in", "instanceof", "&", "|", "^", ","]


def ident_edge(c):
    return c.isalnum() or c in "_$\\"


def join(a, g, b):
    """a gap b, with a space where the two would run together as words."""
    if not g and a and b and (ident_edge(a[-1]) and ident_edge(b[0]) or a[-1] + b[0] in ("++", "--", "//", "/*") or a[-1].isdigit() and b[0] == "."):
        g = " "
    return a + g + b


@st.composite
def seq(draw, *parts, newline=True):
    out = ""
    for p in parts:
        if p == "":
            continue
        out = join(out, draw(gap(newline)) if out else "", p)
    return out


@st.composite
def primary(draw, depth):
    k = draw(st.integers(0, 17 if depth > 0 else 7))
    if k <= 1:
        return draw(name)
    if k == 2:
        return draw(st.sampled_from(NUMS))
    if k == 3:
        return draw(string())
    if k == 4:
        return draw(regex())
    if k == 5:
        return draw(template(depth))
    if k == 6:
        return draw(st.sampled_from(["this", "null", "true", "import.meta.url", "(1)", "[]", "(x)", "import('./z.js')", "import . meta", "x", "[1,2]"]))
    if k == 7:
        return draw(regex()) + draw(st.sampled_from([".test(x)", ".source", "[Symbol.match]('a')", ""]))
    d = depth - 1
    if k == 8:
        return draw(seq("(", draw(expr(d)), ")"))
    if k == 9:
        items = draw(st.lists(expr(d, nocomma=True), max_size=3))
        return "[" + ",".join(draw(gap()) + i + draw(gap()) for i in items) + "]"
    if k == 10:
        items = []
        for _ in range(draw(st.integers(0, 3))):
            m = draw(st.integers(0, 5))
            e = draw(expr(d, nocomma=True))
            p = draw(prop)
            items.append(draw(st.sampled_from([
                [p, ":", e], [draw(string()), ":", e], ["[", e, "]", ":", e], ["...", e], [p, "(", ")", "{", "return", " " + e, "}"], ["get", " " + p, "(", ")", "{", "}"]
            ][m:m + 1])))
        body = ",".join(draw(seq(*i)) for i in items)
        return "({" + body + "})"
    if k == 11:
        return draw(seq("(", draw(seq("(", "x", ")")) + draw(st.sampled_from(["=>", " =>"])), draw(expr(d, nocomma=True)), ")"))
    if k == 12:
        return draw(seq("(", "function", "", "(", ")", "{", draw(statement(d, True)), "}", ")"))
    if k == 13:
        return draw(seq(draw(primary(d)), draw(st.sampled_from([".", "?.", "."])), draw(prop)))
    if k == 14:
        return draw(seq(draw(primary(d)), "[", draw(expr(d)), "]"))
    if k == 15:
        return draw(seq(draw(name), "(", draw(expr(d, nocomma=True)), ")"))
    if k == 16:
        return draw(name) + draw(template(d))
    return draw(seq("new", " " + draw(name), "(", ")"))


@st.composite
def unary(draw, depth):
    k = draw(st.integers(0, 14))
    if k <= 9:
        return draw(primary(depth))
    if k == 10:
        return draw(seq(draw(st.sampled_from(["typeof", "void", "delete x,", "await"])), draw(primary(depth))))
    if k == 11:
        return draw(st.sampled_from(["!", "-", "+", "~"])) + draw(gap()) + draw(primary(depth))
    if k == 12:
        return draw(name) + draw(st.sampled_from(["++", "--", " ++", " --"]))
    if k == 13:
        return draw(st.sampled_from(["++", "--"])) + draw(name)
    return draw(st.sampled_from(["- --x", "+ +x", "!/a'/.test(y)", "x+ ++y", "x/ +y", "x / /a'/", "x++ / 2 / /*'*/ 3", "a[0]/b[1]/c", "f(x)/g(y)/2", "1 / 2 / '//'"]))


@st.composite
def expr(draw, depth, nocomma=False):
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    out = draw(unary(depth))
    for _ in range(n - 1):
        op = draw(st.sampled_from(BINARY[:-1] if nocomma else BINARY))
        out = join(join(out, draw(gap()), op), draw(gap()), draw(unary(depth)))
    k = draw(st.integers(0, 11))
    if k == 0:
        out = draw(seq(out, "?", draw(unary(0)), ":", draw(unary(0))))
    if k == 1:
        out = draw(seq(draw(name), draw(st.sampled_from(["=", "/=", "+=", "??=", "/=", "*="])), out))
        if nocomma:
            out = "(" + out + ")"
    return out


def term(draw):
    return draw(st.sampled_from([";", ";", ";\n", "\n", " ;", "; // e\n", "\n\n", ";/* c */", " // it's\n"]))


@st.composite
def statement(draw, depth, infunc=False):
    k = draw(st.integers(0, 19))
    d = max(0, depth - 1)
    if k <= 4:
        e = draw(expr(depth))
        if e.startswith(("function", "class", "{", "let ", "async")):
            e = "(" + e + ")"
        return e + term(draw)
    if k <= 6:
        kw = draw(st.sampled_from(["var", "let", "const"]))
        return draw(seq(kw, " v" + str(draw(st.integers(0, 10 ** 6))), "=", draw(expr(depth, nocomma=True)))) + term(draw)
    if k == 7:
        return draw(seq("if", "(", draw(expr(d)), ")", draw(statement(d, infunc)))) + draw(st.sampled_from(["", "\nelse x;", " else /a\"/.test(y);\n"]))
    if k == 8:
        return draw(seq("for", "(", "const", " q", "of", " " + draw(expr(d, nocomma=True)), ")", draw(statement(d, infunc))))
    if k == 9:
        return draw(seq("while", "(", draw(expr(d)), ")", draw(statement(d, infunc))))
    if k == 10:
        return draw(seq("{", draw(statement(d, infunc)), draw(statement(d, infunc)), "}")) + "\n"
    if k == 11:
        return "function f" + str(draw(st.integers(0, 10 ** 6))) + "()" + draw(gap()) + "{" + draw(statement(d, True)) + draw(st.sampled_from(["", "return /x'/.y\n", "return\n/y\"/.z", "return x / 2 / 3\n"])) + "}\n"
    if k == 12:
        return "class C" + str(draw(st.integers(0, 10 ** 6))) + " { #p = " + draw(expr(d, nocomma=True)) + "; static s; " + draw(prop) + "() { return this.#p / 2 } get z() { " + draw(statement(d, True)) + " } }\n"
    if k == 13:
        return "switch (x) { case " + draw(expr(d)) + ":" + draw(statement(d, infunc)) + " default: break }\n"
    if k == 14:
        return "try {" + draw(statement(d, infunc)) + "} catch {" + draw(statement(d, infunc)) + "}\n"
    if k == 15:
        return "l" + str(draw(st.integers(0, 99))) + ": " + draw(statement(d, infunc))
    if k == 16 and infunc:
        return "return " + draw(expr(d)) + term(draw)
    if k == 17:
        return "do " + draw(statement(d, infunc)) + " while (" + draw(expr(d)) + ")" + term(draw)
    if k == 18:
        return draw(st.sampled_from(["throw /a`/\n", "debugger;", ";", "x\n++y\n", "var o = {a: /b'/, 'c': `d`}, p = [/e\"/]\n", "a = b\n(c)\n", "x = y /z/ w\n", "if (x) /'/.test(y) / 2\n", "for (;;) /`/.exec(z)\n",
                                     "x = a ? /`/ : b / c\n", "x = y\n/`\n/2`.length\n", "let\nzz = 1 / 2 // '\n", "yy = (a + b) / 2 // `\n", "yy = a[1] / 2 /* ' */ / 3\n", "yy = `${a / 2}` / `${{}}` / 1\n", "yy = async => /`/\n", "yy = `${`${'}'}`}` // `\n"]))
    return draw(COMMENTS) + draw(LINE_COMMENTS)


@st.composite
def toplevel(draw, depth):
    k = draw(st.integers(0, 13))
    n = str(draw(st.integers(0, 10 ** 6)))
    if k == 0:
        return draw(seq("export", "default", draw(st.sampled_from(["/a\"/", "x / 2", "`t`", "(x)", "function () { }", "class { }"])))) + term(draw)
    if k == 1:
        return draw(seq("export", "const", " e" + n, "=", draw(expr(depth, nocomma=True)))) + term(draw)
    if k == 2:
        spec = draw(st.sampled_from(["'lodash'", "\"http://cdn/x.js\"", "'./a.js?x=1'", "\"@scope/pkg\"", "'./b.js#h'", "'https://h/m.mjs'", "\"l\\u006fdash\""]))
        form = draw(st.sampled_from([["d" + n], ["*", "as", " n" + n], ["{", "a", "as", " i" + n, "}"], ["{", "}"], ["{", "default", "as", " j" + n, ",", "from", "as", " k" + n, ",", "}"],
                                     ["g" + n, ",", "{", "x", "as", " h" + n, "}"], ["as" if n == "0" else "d" + n, ",", "*", "as", " m" + n], ["{", "\"s t\"", "as", " q" + n, "}"]]))
        return draw(seq("import", *([" " + form[0]] if form[0][0] not in "{*" else [form[0]]), *form[1:], "from" if form[-1] == "}" else " from", spec)) + term(draw)
    if k == 3:
        return draw(seq("import", draw(st.sampled_from(["'side-effect'", "\"http://h/s.js\"", "'./q?x'"])))) + term(draw)
    if k == 4:
        return draw(st.sampled_from(["export * from './x.js';\n", "export {a as b" + n + "} from \"./y.js\"\n", "export * as ns" + n + " from 'z'\n", "export {};\n", "await import('./x.js');\n",
                                     "const im" + n + " = import.meta.url / 2;\n", "import ('y');\n", "x.import\n('z')\n", "x.import;\n", "({import: 1}).import\n"]))
    return draw(statement(depth))


@st.composite
def module(draw, depth=2):
    out = draw(st.sampled_from(["", "", "", "#!/usr/bin/env node\n", "'use strict';\n", "\n", "/* header */", "\ufeff", "// @ts-check\n"]))
    for s in draw(st.lists(toplevel(depth), min_size=1, max_size=6)):
        out += s + draw(st.sampled_from(["", "", "\n", " "]))
    # the last token may be the last of the file
    return out + draw(st.sampled_from(["", "", "", "", ";\\u0061b", ";a\\u{62}", ";\\u0061", ";x = y / 2", ";x = /y/", ";x = `a`", ";x = 'a'", ";x++", ";({})", ";x = 1.", ";x = 0x1F", ";// end", ";/* end */", ";x = a.b"]))

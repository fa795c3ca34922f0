"""Generator of valid stylesheets as source text."""
from hypothesis import strategies as st

from vp import cssref

WSX = st.sampled_from([" ", " ", "\n", "\t", "  ", "\r\n", "\n\n  ", "\f"])
COMMENT = st.one_of(
    st.sampled_from(["/**/", "/* x */", "/***/", "/* a * / b */", "/*\n multi\n*/", "/*\"*/", "/*'*/", "/*}*/",
                     "/*url(*/", "/*é😀*/", "/*! keep */", "/*! PREPROCESSOR */", "/*\\*/", "/*//*/", "/* /* */"]))
SEP = st.one_of(WSX, COMMENT, st.tuples(COMMENT, WSX).map("".join), st.tuples(WSX, COMMENT).map("".join))
OPTSEP = st.one_of(st.just(""), st.just(""), st.just(" "), SEP)

ESC_CHARS = [":", "/", ".", "@", "!", "\\", "(", ")", "{", "}", "#", "%", "+", "é", "😀", "x", "z", "-", "_", ",", "'", "\"", " ", "~", "*"]


@st.composite
def escape(draw):
    if draw(st.booleans()):
        c = draw(st.sampled_from([c for c in ESC_CHARS]))
        return "\\" + c
    n = draw(st.sampled_from([0x31, 0x41, 0x2E, 0x3A, 0x20, 0x0A, 0x09, 0x01, 0x7F, 0x80, 0xE9, 0x2D, 0x5C, 0x1F600, 0x10FFFF, 0x29, 0x22]))
    h = "%x" % n
    if draw(st.booleans()):
        h = h.upper()
    pad = draw(st.sampled_from(["short ", "short\n", "short\t", "six", "six "]))
    if pad.startswith("six"):
        return "\\" + h.zfill(6) + (" " if pad == "six " else "")
    return "\\" + h + pad[-1]


NAMECH = list("abcdefxyzABE_019-") + ["é", "😀", "ª", "٣", "²", "\u00a0", "\u2028", "\x80", "Ⅷ"]
name_piece = st.one_of(st.sampled_from(NAMECH), st.sampled_from(list("abcde-019")), escape())


@st.composite
def ident(draw):
    k = draw(st.integers(0, 9))
    if k < 5:
        return draw(st.sampled_from(["a", "color", "background-image", "div", "x1", "_u", "-webkit-x", "--var", "--", "e", "e3",
                                     "E-2", "n", "n-1", "-n", "url", "U", "from", "important", "not-url", "-e5", "auto", "u"]))
    start = draw(st.one_of(st.sampled_from(["a", "b", "_", "-a", "--", "é", "😀", "²", "٣", "-_", "-é", "U", "e"]), escape(),
                           escape().map(lambda e: "-" + e)))
    rest = draw(st.lists(name_piece, max_size=5))
    return start + "".join(rest)


@st.composite
def number(draw):
    sign = draw(st.sampled_from(["", "", "", "+", "-"]))
    body = draw(st.sampled_from(["0", "1", "2", "12", "007", "100", ".5", "0.5", "1.0", "1.50", "00.25", "123456789012345678901", ".0000001",
                                 "3.14159265358979323846", "0.1", "99999999.99"]))
    exp = draw(st.sampled_from(["", "", "", "", "e3", "E3", "e+2", "e-7", "E-05", "e10", "e400"]))
    return sign + body + exp


unit = st.one_of(st.sampled_from(["px", "em", "rem", "n", "n-1", "s", "e", "e-", "ex", "x", "E", "-n", "Q", "fr", "--u", "e3x"]), ident())
STRCH = list("abz019 ;:{}()*/,.!#@%-_<>") + ["é", "😀", "\u2028", "²", "\x01", "\x7f", "\t", "\x0b", "\x85", "\ufeff"]


@st.composite
def string(draw):
    q = draw(st.sampled_from("\"'"))
    other = "'" if q == '"' else '"'
    piece = st.one_of(st.sampled_from(STRCH + [other]), escape(), st.just("\\" + q), st.just("\\\\"), st.just("\\\n"), st.just("/*"), st.just("*/"), st.just("\\\r\n"),
                      st.sampled_from(["é1", "é f", "\x01a", "\\n", "\\t", "\\0 ", "url(", "\\a b", "\\a  b"]))
    return q + "".join(draw(st.lists(piece, max_size=7))) + q


URLS = ["x.png", "img/a.svg", "../b.gif", "#frag", "http://h/p?q=1", "https://h.example/a/b.png", "//cdn/x", "data:,x", "", "a%20b", "x?y=/z", "é.png",
        "data:font/woff;base64,AAAA", "/x.png?v=1"]


@st.composite
def url(draw, values=None):
    fn = draw(st.sampled_from(["url", "url", "url", "URL", "Url", "\\75 rl", "u\\72l"]))
    v = draw(st.sampled_from(values or URLS))
    sp = st.sampled_from(["", "", " ", "\n", "  ", "\t "])
    form = draw(st.integers(0, 4))
    if form == 0:
        return f'{fn}({draw(sp)}"{v}"{draw(sp)})'
    if form == 1:
        return f"{fn}({draw(sp)}'{v}'{draw(sp)})"
    if form == 2 and values is None:
        extra = draw(st.lists(escape(), max_size=2))
        return f"{fn}({draw(sp)}{v}{''.join(extra)}{draw(sp)})"
    if form == 3 and values is None:
        return f"{fn}({draw(sp)}{draw(string())}{draw(sp)})"
    return f"{fn}({draw(sp)}{v}{draw(sp)})"


ANB = st.sampled_from(["2n+1", "2n + 1", "+3n-2", "n+1", "-n+3", "odd", "+n", "2n-1", "-2n+0", "+5", "n", "2N+1", "3n +1"])
URANGE = st.sampled_from(["U+26", "U+0-7F", "U+0025-00FF", "u+4??", "U+0025-00FF, u+4??", "U+1e3"])


@st.composite
def component(draw, depth=0, hostile=True):
    k = draw(st.integers(0, 15))
    if k <= 2:
        return draw(ident())
    if k <= 4:
        return draw(number()) + draw(st.one_of(unit, st.just("%"), st.just("")))
    if k == 5:
        return draw(string())
    if k == 6:
        return draw(url())
    if k == 7:
        return "#" + draw(st.one_of(st.sampled_from(["fff", "000", "1e3", "a-b", "0_x", "--a", "-"]), ident(), escape()))
    if k == 8:
        return draw(URANGE)
    if k == 9:
        return draw(st.sampled_from([",", "/", "!important", "! important", "*", "<", ">", "=", "|", "~", "^", "$", "&", "?", "`", "+ ", "- ", ". ", "# ", "@ "]))
    if depth < 2 and k <= 12:
        name = draw(st.one_of(st.sampled_from(["calc", "rgb", "var", "translate", "not", "format", "-x", "uri", "nurl"]), ident().filter(lambda s: cssref.tokenize(s + "(")[0][0] == "function" and cssref.tokenize(s + "(")[0][1].lower() != "url")))
        inner = draw(values(depth + 1))
        return f"{name}({inner})"
    if depth < 2 and k == 13:
        a, b = draw(st.sampled_from(["()", "[]", "{}"]))
        return a + draw(values(depth + 1)) + b
    return draw(st.sampled_from(["1px", "solid", "red", "calc(1px + 2px)", "calc(1px+2px)", "-1px", "+.5em", "1e3", "1.0e-2px", "10%", "var(--x,)", "1/2"]))


@st.composite
def values(draw, depth=0):
    parts = draw(st.lists(component(depth), min_size=1, max_size=4))
    out = parts[0]
    for p in parts[1:]:
        out += draw(st.one_of(SEP, SEP, st.just(""), st.just(","))) + p
    return draw(OPTSEP) + out + draw(OPTSEP)


@st.composite
def declaration(draw):
    return draw(ident()) + draw(OPTSEP) + ":" + draw(values())


@st.composite
def simple_selector(draw):
    k = draw(st.integers(0, 9))
    if k <= 1:
        return "." + draw(ident())
    if k == 2:
        return "#" + draw(ident())
    if k == 3:
        return f":nth-child({draw(ANB)})"
    if k == 4:
        return f"[{draw(ident())}{draw(st.sampled_from(['', '=x', '~=y', '^=' + chr(34) + 'z' + chr(34), '$=q', '|=a']))}]"
    if k == 5:
        return "::" + draw(ident())
    if k == 6:
        return draw(st.sampled_from([":not(.a)", ":hover", ":lang(en)", "*", "ns|a", "*|*", ":is(a,b)", "&"]))
    return draw(ident())


@st.composite
def selector(draw):
    parts = draw(st.lists(simple_selector(), min_size=1, max_size=4))
    out = parts[0]
    for p in parts[1:]:
        out += draw(st.sampled_from(["", " ", ">", " > ", "+", " + ", "~", ",", ", ", "\n", "/**/", " /* c */ "])) + p
    return out


@st.composite
def block(draw):
    decls = draw(st.lists(declaration(), max_size=4))
    body = draw(OPTSEP)
    for i, d in enumerate(decls):
        body += d
        body += (";" if i < len(decls) - 1 or draw(st.booleans()) else "") + draw(OPTSEP)
    return "{" + body + "}"


@st.composite
def rule(draw, depth=0):
    k = draw(st.integers(0, 9))
    if k <= 5:
        return draw(selector()) + draw(OPTSEP) + draw(block())
    if k == 6:
        return draw(st.sampled_from(["@charset \"utf-8\";", "@import url(foo.css);", "@import 'a.css' screen;", "@namespace svg url(http://www.w3.org/2000/svg);",
                                     "@layer a, b;", "@import url(\"x.css\") layer(a) supports(display: grid);"]))
    if k == 7:
        return "@font-face" + draw(OPTSEP) + "{src:" + draw(url()) + ";unicode-range:" + draw(URANGE) + draw(OPTSEP) + "}"
    if k == 8 and depth < 2:
        cond = draw(st.sampled_from(["@media (min-width:1px)", "@media screen and (max-width: 40.5em)", "@supports (a:b)", "@layer x", "@media (400px<=width<=700px)",
                                     "@container c (width>+1e2px)"]))
        inner = draw(st.lists(rule(depth + 1), max_size=2))
        return cond + draw(OPTSEP) + "{" + "".join(i + draw(OPTSEP) for i in inner) + "}"
    return "@keyframes " + draw(st.sampled_from(["a", "-x", "k\\31"])) + "{from{" + draw(declaration()) + "}50.5%{top:0}to{}}"


@st.composite
def sheet(draw):
    n = draw(st.integers(1, 4))
    out = draw(OPTSEP)
    for _ in range(n):
        out += draw(rule()) + draw(OPTSEP)
    if draw(st.integers(0, 9)) == 0:
        out = "<!--" + out + "-->"
    return out


@st.composite
def soup(draw):
    """Tokens in any order, glued or separated."""
    parts = draw(st.lists(st.one_of(component(), ident(), number(), SEP, string(), st.sampled_from(
        ["@", "@x", "#", "-", "--", "-->", "<!--", ".", "+", "{", "}", ";", ":", "(", ")", "[", "]", "e3", "%", "-e", "url", "U+", "\\", "/", "*"])), min_size=1, max_size=8))
    out = ""
    for p in parts:
        out += p + draw(st.sampled_from(["", "", " "]))
    return out

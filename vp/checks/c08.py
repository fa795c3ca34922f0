"""C08: type-hint lines contribute no code, every other line does."""
from hypothesis import strategies as st

from vp import jsgen, jsoracle, scratch, site
from vp.core import Check, Prop, Violation

BREAKS = "\n\r\u2028\u2029"
WS = st.sampled_from(["", " ", " ", "  ", "\t", "\u00a0", " \t "])
OTHER = st.sampled_from(["/**/", "/* c */", "/* \" */", "/* ' */", "/* ` */", "/*/ */", "/** @@type-hint */", "/* // */", "/* {@@type-hint} */", "/* *\\/ */"])
CODE = ["export function foo(a: number, b?: string): void;", "function foo(a, b)", "interface A { b: string }", "a", "let q: Map<string, number[]>;", "x = 'it\\'s' + \"q\\u0041\"",
        "import { X } from './types'", "import './missing.js';", "import { T } from './user.js';", "import '/js/user.js'", "import y from \"/no/such.js\"", "type T = 'a' | \"b\" | `c`", "}", "{", "(((", "))", "foo(", "return /x'/", "as", "const b = 3;",
        "declare module 'm' {", "`${a + `b`}`", "abstract get(): {};", "@decorator()", "é.ñ?: 😀", "...rest", "=>", "import type { Z } from './z.js';", "export default class",
        "x = a / b / c", "$import 'x'", "/* a */ b /* c */", "", ""]
MARKS_NEAR = ["// @@type-hints", "// x @@type-hint", "// @type-hint", "/** @@type-hint */", "/* @@type-hint x */", "// @@type-hint.", "// @@Type-hint", "// @@type-hint // x", "/* * @@type-hint */",
              "'@@type-hint'", "`@@type-hint`", "\"// @@type-hint\"", "`/* @@type-hint */`", "`\n// @@type-hint\n`", "'/*@@type-hint*/'", "/\\/\\/ @@type-hint/", "// /* @@type-hint */", "@@type-hint",
              "/* // @@type-hint */", "// @@type-hint @@type-hint", "//  @ @type-hint", "// @@type -hint"]


@st.composite
def hinted(draw):
    """A line with a type-hint mark."""
    code = draw(st.lists(st.sampled_from(CODE), min_size=1, max_size=2))
    out = draw(WS)
    parts = []
    for c in code:
        parts.append(c)
        if draw(st.integers(0, 3)) == 0:
            parts.append(draw(OTHER))
    style = draw(st.integers(0, 3))
    mark = "@@type-hint"
    block = "/*" + draw(WS) + mark + draw(WS) + "*/"
    if style == 0:
        # a block comment somewhere
        parts.insert(draw(st.integers(0, len(parts))), block)
        tail = draw(st.sampled_from(["", "", " // x", "// @@type-hint", ";"]))
    elif style == 1:
        parts.append(block)
        tail = draw(WS)
    else:
        tail = draw(WS) + "//" + draw(WS) + mark + draw(WS)
    out += " ".join(parts) + tail
    # the lexical context of code that is no code is anybody's guess, so the
    # line must not begin with what could be a division
    if out.lstrip(" \t\u00a0").startswith("/") and not out.lstrip(" \t\u00a0").startswith(("//", "/*")):
        out = "a" + out
    return out


@st.composite
def near(draw):
    m = draw(st.sampled_from(MARKS_NEAR))
    pre = draw(st.sampled_from(["", "nn = 1; ", "f(x); ", ";", "var n" + str(draw(st.integers(0, 10 ** 6))) + " = "]))
    return pre + m


BLOCKS = [
    (["f(a,", "b", ",c)", ";"]), (["x = [", "1,", "2", "];"]), (["o = {", "a: 1,", "b() { return 2 },", "};"]),
    (["class K%d {", "a() { }", "static b = 1;", "}"]), (["function g%d(a,", "b) {", "x++;", "return a", "}"]),
    (["if (a) {", "b();", "} else {", "c()", "}"]), (["x = a +", "b +", "c"]), (["export {", "};"]), (["y = a", "? b", ": c"]),
]


@st.composite
def case_strategy(draw):
    lines = []  # (text, hinted)
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 10))
        if k == 10:
            lines += [["", 0]] * draw(st.integers(1, 2))
        elif k <= 2:
            lines.append([draw(hinted()), 1])
        elif k <= 4:
            lines.append([draw(near()), 0])
        elif k <= 6:
            lines.append([draw(jsgen.toplevel(1)).strip("\n"), 0])
        else:
            for i, l in enumerate(draw(st.sampled_from(BLOCKS))):
                l = l.replace("%d", str(draw(st.integers(0, 10 ** 6))))
                if i and draw(st.integers(0, 2)) == 0:
                    lines.append([draw(hinted()), 1])
                if draw(st.integers(0, 5)) == 0:
                    l += draw(st.sampled_from([" // @@type-hints", " /* x */", " // it's", "// @type-hint", " /* '@@type-hint' */"]))
                lines.append([l, 0])
    nl = draw(st.sampled_from(["\n", "\n", "\n", "\r\n", "\r", "\u2028"]))
    return {"lines": lines, "nl": nl, "last": draw(st.booleans())}


def run(case, ctx):
    nl = case["nl"]
    end = nl if case["last"] else ""
    src = nl.join(l for l, h in case["lines"]) + end
    lines = case["lines"]
    for (l, h), (m, g) in zip(lines, lines[1:]):
        if h and not g and m.lstrip().startswith("/") and not m.lstrip().startswith(("//", "/*")):
            return  # whether that is a division depends on code that is no code
    ref = nl.join("" if h else l for l, h in lines) + end
    if jsoracle.ask("valid", src=ref)["err"] is not None:
        ctx.label("invalid-source")
        return
    with scratch.tempdir() as d:
        site.project(d, {"src/public/js/m.js": src, "src/public/js/user.js": "import './m.js';\n"})
        try:
            site.build(d)
        except site.BuildFailed as e:
            raise Violation(f"{src!r} does not build: {e}")
        out = site.text(d, "out/www/js/m.js")
    r = jsoracle.ask("compare", a=ref, b=out)
    if "invalidSource" in r:
        return
    if "invalidOutput" in r:
        raise Violation(f"output is not a valid module ({r['invalidOutput']}); source {src!r}; output {out!r}")
    if r.get("diff"):
        raise Violation(f"not the program of the unmarked lines: {r['diff']}; source {src!r}; output {out!r}")
    ctx.label("checked")
    hints = sum(h for _, h in case["lines"])
    if hints:
        ctx.label("with-hint")
    if case["lines"][-1][1]:
        ctx.label("hint-last")
    if hints and hints < len(case["lines"]):
        ctx.nontrivial()


CHECK = Check(
    "C08", [Prop("lines", lambda tier: case_strategy(), run, quick=4000, thorough=80000)],
    rule="generated modules in which marked lines (any code-like or comment text with a type-hint comment at any place) and near misses (marks in "
         "strings, templates, regular expressions, longer comments) stand between and inside generated statements; the output must be a valid module "
         "with the syntax tree of the module whose marked lines are emptied; non-trivial: has both a marked and an unmarked line and is valid",
    assumptions=["a marked line holds no token that spans lines", "a marked line neither starts with a slash nor is followed by a line that does, other than a comment"])

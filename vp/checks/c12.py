"""C12: css rule imports insert the named rule's declarations."""
from hypothesis import strategies as st

from vp import cssref, scratch, site
from vp.core import Check, Prop, Violation

PATHS = ["css/main.css", "css/other.css", "css/lib/from.css", "css/z.css", "lib.css"]
NAMES = [".a", ".b", ".c", ".d", ".from", ".slide-from-left", "h1", "#id", ".a:hover", ".a > .b", ".x, .y", ":root", "*", ".m,\n.n", ".m\n  > .n", ".a::before", "[type=\"text\"]", "body .from", ".b-c", "a.from", ".FROM", "th:nth-child(2n+1)",
         ".é", ".ab"]
DECLS = ["color: red", "background:#fff", "margin:0 auto", "--x:{a:b}", "--y: 1", "content: \"}\"", "width:calc(1px + 2px)", "background: url(/img/p.png)", "content:';'", "font: 1em/2 x, y", "color: blue !important", "--z:",
         "grid-area: from"]
COMMENTS = ["/* c */", "/* } */", "/* ; */", "/* import .a */", "/*! keep */", "/* PREPROCESSOR: import .a */"]
NESTED = ["&:hover { color: red }", ".q{margin:0;}", "@media print{color:red;}"]
BETWEEN = ["", "\n", " ", "/* x */", "@media print { .a { color: green } }", "@charset \"utf-8\";", "@layer p, q;", "@font-face { font-family: x }", "@media (a) { .b{} .c { x: y } }\n", "<!-- ", " -->", "@keyframes k { from { top: 0 } to { top: 1px } }",
           "\n\n", "@layer;"]


def spelled(draw, imp, here):
    path, name = imp
    s = draw(st.sampled_from(["/*!", "/*! ", "/* ! "])) + "PREPROCESSOR" + draw(st.sampled_from([":", " :"])) + draw(st.sampled_from([" ", "  "])) + "import" + draw(st.sampled_from([" ", "  ", " ", "\n"])) + name
    if path != "css/main.css" or draw(st.booleans()):
        s += draw(st.sampled_from([" FROM ", " from ", "  From  ", "\nfrom ", "\n FROM\n"])) + (draw(st.sampled_from(["/./", "/css/../", "/x/../", "/../"])) if draw(st.integers(0, 7)) == 0 else "/") + path
    return s + draw(st.sampled_from([" */", "*/", "  */", "\n*/"]))


@st.composite
def body(draw, targets, depth=0):
    """items: ["d", text, terminated] ["c", text] ["i", path, name, text] ["n", pre, items]"""
    items = []
    n = draw(st.integers(0, 4))
    for i in range(n):
        k = draw(st.integers(0, 9))
        if k <= 3:
            items.append(["d", draw(st.sampled_from(DECLS)), True])
        elif k == 4:
            items.append(["c", draw(st.sampled_from(COMMENTS))])
        elif k == 5 and depth == 0:
            items.append(["n", draw(st.sampled_from(["&:hover", ".q", "@media print", "& > .from"])), draw(body(targets, 1))])
        elif targets:
            p, nm = draw(st.sampled_from(targets))
            items.append(["i", p, nm, spelled(draw, (p, nm), None)])
    if items and items[-1][0] == "d" and draw(st.booleans()):
        items[-1][2] = False
    return items


@st.composite
def case_strategy(draw):
    paths = sorted(draw(st.sets(st.sampled_from(PATHS), min_size=1, max_size=3)), key=lambda p: draw(st.integers(0, 9)))
    names = {p: draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=draw(st.integers(0, 3)) != 0)) for p in paths}
    broken = draw(st.integers(0, 7))
    sheets = []
    for i, p in enumerate(paths):
        earlier = [(q, n) for q in paths[:i] for n in names[q]]
        rules = []
        count = {n: names[p].count(n) for n in names[p]}
        # within a sheet a rule imports rules of a lower rank, whatever the order in the text
        rank = {n: draw(st.integers(0, 4)) for n in sorted(set(names[p]))}
        for n in names[p]:
            local = [(p, m) for m in sorted(set(names[p])) if rank[m] < rank[n] and count[m] == 1]
            t = local * 2 + [e for e in earlier if names[e[0]].count(e[1]) == 1]
            if broken == 0 and draw(st.integers(0, 3)) == 0:
                t = t + [draw(st.sampled_from([(p, ".missing"), ("css/none.css", ".a"), (p, n), (p, draw(st.sampled_from(names[p]))), (draw(st.sampled_from(paths)), draw(st.sampled_from(names[paths[0]])))]))]
            rules.append([n, draw(body(t)), draw(st.sampled_from(BETWEEN)), draw(st.sampled_from([" ", "", "\n", "  "]))])
        if draw(st.integers(0, 4)) == 0:
            # a rule in an at-rule that imports
            t = [(p, m) for m in sorted(set(names[p])) if count[m] == 1] + [e for e in earlier if names[e[0]].count(e[1]) == 1]
            rules.append(["@media screen", [["n", ".in", draw(body(t, 1))]], "", ""])
        sheets.append([p, rules])
    return {"sheets": sheets}


def render_body(items):
    out = ""
    for it in items:
        if it[0] == "d":
            out += it[1] + (";" if it[2] else "")
        elif it[0] == "c":
            out += it[1]
        elif it[0] == "i":
            out += it[3]
        else:
            out += " " + it[1] + "{" + render_body(it[2]) + "}"
        out += " "
    return out


def render(rules):
    return "".join(b + n + gap + "{" + render_body(items) + "}\n" for n, items, b, gap in rules)


class Fails(Exception):
    pass


class Unspecified(Exception):
    pass


def expand(sheets, path, items, stack):
    out = []
    for it in items:
        if it[0] == "i":
            ref = (it[1], it[2])
            if it[1] not in sheets:
                raise Fails("missing file")
            if ref in stack:
                raise Fails("circular")
            found = [r for r in sheets[it[1]] if r[0] == it[2]]
            if not found:
                raise Fails("missing rule")
            if len(found) > 1:
                raise Unspecified("repeated rule imported")
            sub = expand(sheets, it[1], found[0][1], stack + [ref])
            # a declaration that ends the rule is one of several here
            sub = [["d", s[1], True] if s[0] == "d" else s for s in sub]
            out += sub
        elif it[0] == "n":
            out.append(["n", it[1], expand(sheets, path, it[2], stack)])
        else:
            out.append(it)
    return out


def file_edges(sheets):
    def imports(items):
        for it in items:
            if it[0] == "i":
                yield it[1]
            elif it[0] == "n":
                yield from imports(it[2])
    return {p: {q for r in rules for q in imports(r[1]) if q != p} for p, rules in sheets.items()}


def canonical(text):
    """Tokens without insignificant white space and empty declarations."""
    toks = []
    for t in cssref.tokenize(text):
        if t[0] == "ws":
            if toks and toks[-1][0] not in ("{", "}", ";", "ws", "comment"):
                toks.append(("ws",))
            continue
        if t[0] in ("{", "}", ";", "comment") and toks and toks[-1][0] == "ws":
            toks.pop()
        toks.append(t)
    # comments may stand on either side of the semicolon that is added
    out = []
    for t in toks:
        if t[0] == ";":
            j = len(out)
            while j and out[j - 1][0] == "comment":
                j -= 1
            if j and out[j - 1][0] in (";", "{", "}"):
                continue
            out.insert(j, t)
            continue
        if t[0] == "}":
            j = len(out)
            while j and out[j - 1][0] == "comment":
                j -= 1
            if j and out[j - 1][0] == ";":
                del out[j - 1]
        out.append(t)
    return out


def run(case, ctx):
    sheets = {p: rules for p, rules in case["sheets"]}
    fails = None
    expected = {}
    try:
        edges = file_edges(sheets)
        seen = {}

        def visit(p):
            if seen.get(p) == 1:
                raise Fails("circular files")
            if seen.get(p) == 2 or p not in edges:
                return
            seen[p] = 1
            for q in sorted(edges[p]):
                visit(q)
            seen[p] = 2

        for p in sorted(sheets):
            visit(p)
        for p, rules in sheets.items():
            # a rule's own imports make it circular when they lead back to it
            expected[p] = render([[n, expand(sheets, p, items, [(p, n)] if sum(1 for r in rules if r[0] == n) == 1 else []), b, g] for n, items, b, g in rules])
    except Fails as e:
        fails = str(e)
    except Unspecified as e:
        ctx.label("repeated-rule-imported")
        return
    with scratch.tempdir() as d:
        files = {"src/public/" + p: render(rules) for p, rules in sheets.items()}
        files["src/public/img/p.png"] = b"png"
        site.project(d, files)
        try:
            site.build(d)
        except site.BuildFailed as e:
            if fails:
                ctx.label("fails: " + fails)
                ctx.nontrivial()
                return
            raise Violation(f"does not build: {e}; {files!r}")
        if fails:
            raise Violation(f"builds in spite of: {fails}; {files!r}; output { {p: site.text(d, 'out/www/' + p) for p in sheets}!r}")
        www = site.www(d)
        n = 0
        for p in sheets:
            want = canonical(expected[p].replace("url(/img/p.png)", "url(/img/p.png" + site.suffix(b"png") + ")"))
            out = www[p].decode()
            got = canonical(out)
            if want != got:
                raise Violation(f"{p}: expected {expected[p]!r} got {out!r}; sources {files!r}")
            n += render(sheets[p]) != expected[p]
    ctx.label(f"sheets-with-imports-{n}")
    if n:
        ctx.nontrivial()


CHECK = Check(
    "C12", [Prop("imports", lambda tier: case_strategy(), run, quick=6000, thorough=120000)],
    rule="one to three stylesheets whose rules (plain, nested, in at-rules, before or after the rule they import, between at-rules with and without blocks, comments and cdo/cdc) import rules of the same, the default "
         "or another stylesheet, directly or through further imports; the output must have the tokens of a recursive reference expansion, and missing rules, missing files and cycles must fail the build; non-trivial: at least one import",
    assumptions=["a rule is named by the text of its selector as written", "amount of white space next to punctuation and empty declarations (;;) are not significant",
                 "importing a rule whose selector occurs several times in its stylesheet is unspecified"])

"""C09: static imports of site files are rewritten to absolute versioned paths."""
import posixpath

from hypothesis import strategies as st

from vp import jsgen, jsoracle, scratch, site
from vp.core import Check, Prop, Violation

FOLDERS = ["", "js", "js/lib", "js/lib/deep", "vendor", "css", "a b", "é"]
BASES = ["x.js", "y.js", "util.mjs", "data.json", "index.js", "it's.js", "z+w.js", "ñ.js", "from.js", "a b.js", "as.js", "min.x.js", "noext", "@s.js", "(p).js"]
BLANK = st.sampled_from(["", " ", " ", "  ", "\n", "\n  ", "\t", "\r\n", "\f", "/**/", "/* c */", " // x\n", "/* from './q.js' */", "/* ' */", "// \"\n", " /* import */ ", "\n\n", "\u00a0", "/*\n*/"])
IDS = ["a", "b", "c", "$", "_x", "as", "from", "of", "get", "async", "type", "é", "a1", "importer", "$import", "d", "e", "h"]
FOREIGN = ["lodash", "@scope/pkg", "http://h/x.js", "https://cdn.example.com/a/b.js", "//h/x.js", "a/b.js", "x.js", "./x.js?v=1", "/js/x.js?q", "../x.js#frag", "/x.js#", "./x.js?", "/js/x.js?from=/y", "./x.js?a/b", "../x.js#/f/", "/x.js?/", "./y.js#a?b/c", "data:text/javascript,1", "js/x.js",
           "node:fs", "", ".hidden/x.js", "..x", "#int"]


def esc(draw, s, q):
    """s written as a string literal with quote q."""
    out = ""
    for c in s:
        k = draw(st.integers(0, 39))
        if c == q or c == "\\":
            out += "\\" + c
        elif k == 0:
            out += "\\u%04x" % ord(c) if ord(c) < 65536 else "\\u{%x}" % ord(c)
        elif k == 1 and ord(c) < 256:
            out += "\\x%02x" % ord(c)
        elif k == 2:
            out += "\\u{%x}" % ord(c)
        elif k == 3:
            out += "\\\n" + c
        else:
            out += c
    return q + out + q


@st.composite
def clause(draw, used):
    """An import clause as tokens; used: binding names already taken."""
    def binding():
        n = draw(st.sampled_from(IDS))
        while n in used:
            n += draw(st.sampled_from("0123456789"))
        used.add(n)
        return n

    def named():
        items = []
        for i in range(draw(st.integers(0, 3))):
            k = draw(st.integers(0, 3))
            if k == 0:
                items.append([draw(st.sampled_from(IDS + ["default", "if", "import", "class"])), "as", binding()])
            elif k == 1:
                items.append([draw(st.sampled_from(["'s t'", "\"from\"", "'x'"])), "as", binding()])
            else:
                items.append([binding()])
        toks = ["{"]
        for i, it in enumerate(items):
            toks += it
            if i + 1 < len(items) or draw(st.booleans()):
                toks.append(",")
        return toks + ["}"]

    k = draw(st.integers(0, 6))
    if k == 0:
        return []
    if k == 1:
        return [binding(), "from"]
    if k == 2:
        return ["*", "as", binding(), "from"]
    if k <= 4:
        return named() + ["from"]
    if k == 5:
        return [binding(), ","] + named() + ["from"]
    return [binding(), ",", "*", "as", binding(), "from"]


def relative(draw, frm, to):
    """A relative specifier from the folder of frm to the file to (site paths)."""
    r = posixpath.relpath(to, posixpath.dirname(frm) or ".")
    if not r.startswith("../"):
        r = "./" + r
    k = draw(st.integers(0, 5))
    if k == 0:
        # a detour
        head = posixpath.dirname(to)
        if head:
            parts = r.split("/")
            r = "/".join(parts[:-1] + ["..", head.split("/")[-1], parts[-1]])
            if not r.startswith("."):
                r = "./" + r
    if k == 1:
        parts = r.split("/")
        i = draw(st.integers(1, len(parts) - 1)) if len(parts) > 1 else 0
        if i:
            r = "/".join(parts[:i] + ["."] + parts[i:])
    return r


@st.composite
def case_strategy(draw):
    files = sorted(draw(st.sets(st.tuples(st.sampled_from(FOLDERS), st.sampled_from(BASES)).map(lambda t: posixpath.join(*t) if t[0] else t[1]), min_size=1, max_size=5)))
    main = posixpath.join(draw(st.sampled_from(FOLDERS)), "main.js")
    used = set()
    src = []
    specs = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 9))
        if k <= 5:
            target = draw(st.sampled_from(files))
            how = draw(st.integers(0, 3))
            if how == 0:
                spec = "/" + target
                if draw(st.integers(0, 4)) == 0 and "/" in target:
                    f = target.split("/")
                    spec = "/" + f[0] + draw(st.sampled_from(["/./", "/../" + f[0] + "/"])) + "/".join(f[1:])
            else:
                spec = relative(draw, main, target)
        elif k <= 7:
            target = None
            spec = draw(st.sampled_from(FOREIGN))
        else:
            other = draw(st.sampled_from(["import('./%s')", "x = import.meta.url", "f(import('/%s'))", "s = \"import './%s'\"", "t = `import '/%s'`", "// import a from './%s'", "/* import './%s' */", "x.import",
                                          "await import ( \"./%s\" )", "o = { import: './%s' }", "export * from './%s'", "export { q } from '/%s'", "r = /import '.%s'/",
                                          "importer('./%s')", "$import\n'./%s'", "a = b / 2 / c", "import.meta", "o = { import() { } , from: 1, as: 2}", "x?.import", "class F%s { import() { } static from = 1 }"]))
            name = draw(st.sampled_from(files))
            if "'" in name or "(" in name or "+" in name or other.startswith("export {"):
                name = "x.js"
            if other.startswith("class"):
                name = str(draw(st.integers(0, 10 ** 6)))
            src.append(other % name if "%s" in other else other)
            src.append(draw(st.sampled_from([";\n", "\n", ";\n"])) if not other.startswith("//") else "\n")
            continue
        mark = draw(st.integers(0, 9)) == 0
        q = draw(st.sampled_from("'\""))
        toks = ["import"] + draw(clause(used)) + [esc(draw, spec, q)]
        text = ""
        for t in toks:
            text = jsgen.join(text, draw(BLANK) if text else "", t)
        if not posixpath.splitext(spec)[1] == ".json" and draw(st.integers(0, 12)) == 0 and target:
            text += draw(BLANK) + "with" + draw(BLANK) + "{" + draw(BLANK) + "type: 'json' }"
        if mark:
            text = draw(st.sampled_from(["/*PREPROCESSOR: ignore-import*/", "/*PREPROCESSOR: ignore-import because */ ", "//PREPROCESSOR: ignore-import x\n", "/*PREPROCESSOR: ignore-import*/\n"])) + text
        src.append(text)
        src.append(draw(st.sampled_from([";", "\n", ";\n", "\n\n", " ;", "; // z\n", "/* a */;"])))
        specs.append([spec, target if not mark else None])
    return {"files": files, "main": main, "src": "".join(src), "specs": specs,
            "dev": draw(st.booleans()), "contents": draw(st.integers(0, 5))}


def run(case, ctx):
    src = case["src"]
    if jsoracle.ask("valid", src=src)["err"] is not None:
        ctx.label("invalid-source")
        return
    with scratch.tempdir() as d:
        files = {"src/public/" + f: (b"{}" if f.endswith("json") else b"var v = %d;\n" % (case["contents"] + i)) for i, f in enumerate(case["files"])}
        files["src/public/" + case["main"]] = src
        site.project(d, files)
        try:
            site.build(d, dev=case["dev"])
        except site.BuildFailed as e:
            raise Violation(f"{case!r} does not build: {e}")
        out = site.text(d, "out/www/" + case["main"])
        want = []
        for spec, target in case["specs"]:
            if target is None:
                want.append(spec)
            else:
                want.append("/" + target + site.suffix(site.read(d, "out/www/" + target)))
    r = jsoracle.ask("compare", a=src, b=out, imports=True)
    if "invalidSource" in r:
        ctx.label("not-for-acorn")
        return
    if "invalidOutput" in r:
        raise Violation(f"output is not a valid module ({r['invalidOutput']}); {case!r}; output {out!r}")
    if r["importsA"] != [s for s, _ in case["specs"]]:
        ctx.label("other-imports")
        return
    if r["importsB"] != want:
        raise Violation(f"imports {r['importsB']!r} instead of {want!r}; {case!r}; output {out!r}")
    if r["diff"]:
        raise Violation(f"another program: {r['diff']}; {case!r}; output {out!r}")
    ctx.label("checked")
    n = sum(1 for _, t in case["specs"] if t)
    if n:
        ctx.nontrivial()
    ctx.label(f"site-imports-{min(n, 3)}")
    if any(t is None for _, t in case["specs"]):
        ctx.label("foreign")


CHECK = Check(
    "C09", [Prop("imports", lambda tier: case_strategy(), run, quick=3000, thorough=60000)],
    rule="a generated site of modules in nested folders and a module of static imports in every form (default, namespace, named, aliased, string-named, mixed, "
         "side-effect, attributes; gaps filled with nothing, white space, newlines and comments; specifiers with escapes; absolute and relative paths with dot "
         "segments; foreign specifiers; ignore marks) among import lookalikes; the specifiers read by acorn from the output must be the expected ones and the "
         "rest of the tree the same; non-trivial: at least one import of a site file, source valid",
    assumptions=["valid means accepted by V8 and acorn"])

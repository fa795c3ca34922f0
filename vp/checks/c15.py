"""C15: every inline script and style is moved to a file of its own."""
from urllib.parse import unquote

from hypothesis import strategies as st

from vp import cssgen, jsgen
from vp import htmlgen as H
from vp import scratch, site
from vp.checks.c14 import clean
from vp.core import Check, Prop, Violation

FILES = {"css/main.css": ":root{--col-primary:#123456;--icon-size-s:1px} .r { color: red; margin: 0 }", "css/o.css": ".q{top:1px}", "js/x.js": "export const x = 1;\n", "img/i.png": "png", "img/icons/k.svg": "<svg fill=\"#123456\"/>"}
JS = ["", "\n", "const a = 1;\n", "import { x } from \"/js/x.js\";\nx;", "import \"/js/x.js\"", "// a\nlet b = 2; // @@type-hint\nb = 3;", "var s = '</b>' + \"<i>\" + `${1}`;", "if (1 < 2 && 3 > 2) { x = \"&amp;\"; }", "\n  alert('é 😀');\n", "/* c */", "var r = /<\\/script>/.test(\"\");",
      "import(\"/js/x.js\");", "x = 1\n\n\n", "{\"@context\": \"https://schema.org\"}", "import y from \"https://x.example/y.js\"", "// <b>\n", "a\t=\t1"]
CSS = ["", "\n", "a{b:c}", ".x { background: url(/img/i.png) }", ".y{background:url(\"data:image/svg+xml,%3Csvg/%3E\")}", ".w > b::before { content: \"</b><i>\"; }", "<!-- a{b:c} -->", "/*! PREPROCESSOR: icon k primary all-colors all-sizes no-btn */",
       ".z { /*! PREPROCESSOR: import .r */ }", ".z { /*! PREPROCESSOR: import .q FROM /css/o.css */ }", "@import url(\"/css/o.css\");", "@media print{a{b:c}}", "é{content:'😀 & <'}", "a{background:url(data:image/png;base64,AAAA),url(/img/i.png)}", "/* <b> */", "/* <!-- */ a{b:c}"]


@st.composite
def block(draw):
    if draw(st.booleans()):
        at = [a for a in draw(H.attributes(["type", "async", "defer", "nonce", "crossorigin", "nomodule", "rel", "media", "href2"])) if a[0] != "src"]
        if draw(st.booleans()):
            at = [a for a in at if a[0] != "type"] + [["type", "module"]]
        text = draw(st.one_of(st.sampled_from(JS), st.sampled_from(JS), jsgen.string().map(lambda s: "s = " + s + ";")))
        if any(x in text.lower() for x in ("</script", "<!--", "<script", "\r", "\0", "\x0c")):
            text = "a;"
        return ["e", "script", at, [["t", text]] if text else []]
    at = draw(H.attributes(["type", "media", "nonce", "blocking", "rel", "href", "title"]))
    text = draw(st.one_of(st.sampled_from(CSS), st.sampled_from(CSS), cssgen.declaration().map(lambda s: "a{" + s + "}")))
    if any(x in text.lower() for x in ("</style", "\r", "\0", "url", "@import")) and text not in CSS:
        text = "b{}"
    return ["e", "style", at, [["t", text]] if text else []]


PARTIAL = ["raw", "<!--[TEMPLATE: [\"/sub/p.html\"]]-->"]


@st.composite
def case_strategy(draw):
    leaf = st.one_of(block(), block(), block(), st.just(PARTIAL))
    pages = []
    for p in draw(st.lists(st.sampled_from(["index.html", "a.html", "a/index.html", "a/1.html", "sub/deep/q.html", "x.y.html", "x.html", "css/a.html", "js/gen/a.html", "a b.html", "é.html"]), min_size=1, max_size=4, unique=True)):
        doc = H.Gen(draw, leaf=leaf, budget=draw(st.sampled_from([5, 12, 25])), foreign=False).document()
        pages.append([p, doc, draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 7)) == 0])
    partial = [draw(block()) if draw(st.booleans()) else draw(H.text()) for _ in range(draw(st.integers(0, 3)))]
    return {"pages": pages, "partial": partial, "dev": draw(st.booleans()), "schedule": draw(st.lists(st.integers(0, 5), max_size=12)), "workers": draw(st.sampled_from([1, 4]))}


def substituted(nodes, partial):
    out = []
    for n in nodes:
        if n[0] == "raw":
            out += [list(x) for x in partial]
        elif n[0] == "e":
            out.append(["e", n[1], n[2], substituted(n[3], partial)])
        else:
            out.append(n)
    return out


def inline(n):
    return n[0] == "e" and (n[1] == "style" or n[1] == "script" and not any(k == "src" for k, _ in n[2]))


def run(case, ctx):
    files = {"src/public/" + k: v for k, v in FILES.items()}
    files["src/partials/sub/p.html"] = H.write(case["partial"], 7)
    pages = []
    for p, doc, seed, crlf in case["pages"]:
        doc = clean(doc)
        # a script may not stand in a noscript of the head, and text of a partial not in the head
        doc = H.mapped(doc, lambda n: [["e", "head", n[2], [c if c[0] != "e" or c[1] != "noscript" else ["e", "noscript", c[2], [x for x in c[3] if x[0] == "e" and x[1] in ("style", "link")]]
                                                            for c in n[3] if c[0] != "raw" or all(x[0] == "e" for x in case["partial"])]]] if n[1] == "head" else [n])
        files["src/public/" + p] = H.write(doc, seed, crlf)
        pages.append([p, substituted(doc, case["partial"])])
    with scratch.tempdir() as d:
        site.project(d, files)
        before = site.read_tree(d, "src")
        try:
            site.build(d, dev=case["dev"], schedule=case["schedule"], workers=case["workers"], real=case.get("real", False))
        except site.BuildFailed as e:
            raise Violation(f"does not build: {e}; {files!r}")
        www = site.www(d)
        if site.read_tree(d, "src") != before:
            raise Violation(f"the sources changed: {sorted(set(site.read_tree(d, 'src')) ^ set(before))}")
    taken = {}
    total = 0
    for p, doc in pages:
        out = H.normal(H.parse(www[p]))
        want = H.normal(doc)
        blocks = [n for n in H.walk(want) if inline(n)]
        total += len(blocks)
        for n in H.walk(out):
            if inline(n):
                raise Violation(f"{p} has inline content: {n!r}; {files['src/public/' + p]!r}")
        # the references in document order stand for the blocks in document order
        refs = [n for n in H.walk(out) if n[0] == "e" and (n[1] == "script" or n[1] == "link" and any(k == "rel" and v == "stylesheet" for k, v in n[2]))]
        if len(refs) != len(blocks):
            raise Violation(f"{p} has {len(blocks)} inline blocks, but {len(refs)} references: {www[p]!r}; {files['src/public/' + p]!r}")
        at = iter(zip(blocks, refs))

        def f(n):
            if not inline(n):
                return [n]
            b, r = next(at)
            attr = "src" if n[1] == "script" else "href"
            url = dict(map(tuple, r[2])).get(attr)
            if url is None or not url.startswith("/"):
                raise Violation(f"{p}: {n!r} became {r!r}")
            path = unquote(url[1:].partition("?")[0])
            if path not in www:
                raise Violation(f"{p}: {n!r} refers to {path} which does not exist")
            if path in taken:
                raise Violation(f"{path} is used for {taken[path]} and for a block of {p}")
            taken[path] = (p, n[3][0][1] if n[3] else "")
            if "?" + url.partition("?")[2] != site.suffix(www[path]):
                raise Violation(f"{p}: {url} is not the digest of its content")
            if not path.endswith(".js" if n[1] == "script" else ".css"):
                raise Violation(f"{p}: {path} has the wrong extension")
            if n[1] == "script":
                return [["e", "script", n[2] + [["src", url]], []]]
            return [["e", "link", [a for a in n[2] if a[0] not in ("rel", "href")] + [["rel", "stylesheet"], ["href", url]], []]]

        # blocks are not nested, so that children-first order is document order
        df = H.diff(H.normal(H.mapped(want, f)), out)
        if df:
            raise Violation(f"{p}: {df}\nsource {files['src/public/' + p]!r}\nbuilt {www[p].decode()!r}")
    # the same contents as files of their own
    with scratch.tempdir() as d:
        ref = {"src/public/" + k: v for k, v in FILES.items()}
        ref.update({"src/public/" + k: v[1] for k, v in taken.items()})
        site.project(d, ref)
        try:
            site.build(d, dev=case["dev"])
        except site.BuildFailed as e:
            raise Violation(f"the blocks do not build as files: {e}; {taken!r}")
        rwww = site.www(d)
    mine = {k: v for k, v in www.items() if not k.endswith((".html", ".html.hash"))}
    for k in sorted(set(mine) | set(rwww)):
        if mine.get(k) != rwww.get(k):
            raise Violation(f"{k} is {mine.get(k)!r}, but as processed from files {rwww.get(k)!r}; {taken.get(k)!r}; {files!r}")
    ctx.label(f"blocks-{min(total, 9)}", f"pages-{len(pages)}")
    if total:
        ctx.nontrivial()


@st.composite
def pool_case(draw):
    names = draw(st.lists(st.sampled_from(["index.html", "a.html", "a/index.html", "a/b.html", "a/b/c.html", "a/index/x.html", "x.html", "x/y.html", "z.html", "css/a.html", "js/gen/a.html"]), min_size=3, max_size=11, unique=True))
    pages = []
    for p in names:
        blocks = draw(st.lists(block(), min_size=1, max_size=5))
        pages.append([p, [["d", "html", None, None], ["e", "html", [], [["e", "head", [], blocks], ["e", "body", [], []]]]], 1, False])
    return {"pages": pages, "partial": [], "dev": False, "schedule": None, "workers": None, "real": True}


CHECK = Check(
    "C15", [Prop("inline", lambda tier: case_strategy(), run, quick=2500, thorough=50000), Prop("pool", lambda tier: pool_case(), run, quick=40, thorough=800, flaky=True)],
    rule="one to four whole pages (with a partial) generated as trees with inline scripts and styles with attributes at every permitted place; the built page has to be the generated tree with each block replaced by a reference, the files "
         "distinct, and everything but the pages byte for byte what the same contents build to as files of their own; any schedule; some with the real process pool; non-trivial: at least one block",
    assumptions=["inline content refers to other files by absolute path (a relative path is taken relative to the generated file)", "scripts and styles in inline svg images are left out"])

"""C14: documents are preserved except for documented rewrites."""
from hypothesis import strategies as st

from vp import htmlgen as H
from vp import scratch, site
from vp.core import Check, Prop, Violation

FILES = {"css/a.css": "a{b:c}", "css/sub/b.css": "@charset \"utf-8\";x{y:z}", "js/x.js": "const x = 1;\n", "js/é.js": "export const y = 2;", "f.woff": "woff\x00", "img/i.svg": "<svg/>", "other.html": "<!DOCTYPE html><p>hi", "a.txt": "t"}
HREFS = ["/" + f for f in FILES] * 2 + ["/css/a.css?x=1", "/css/a.css#f", "https://x.example/css/a.css", "//x.example/css/a.css", "css/a.css", "../js/x.js", "", "#top", "/css/./sub/../a.css", "/js/../css/a.css", "data:text/css,a", "?v=1", "http:/css/a.css",
                                         "/css/a.css?v=abc&pv=1.0.0"]


@st.composite
def link(draw):
    k = draw(st.integers(0, 9))
    at = [a for a in draw(H.attributes(["as", "type", "crossorigin", "media", "integrity"], max_size=3)) if a[0] not in ("rel", "href", "src")]
    href = draw(st.sampled_from(HREFS))
    if k <= 4:
        if draw(st.integers(0, 9)):
            at.append(["href", href])
        if draw(st.integers(0, 9)):
            at.append(["rel", draw(st.sampled_from(["stylesheet", "stylesheet", "preload", "preload", "icon", "alternate", "manifest", "dns-prefetch", "x-stylesheet", "stylesheetx", ""]))])
        if draw(st.integers(0, 5)) == 0:
            at.append(["src", draw(st.sampled_from(HREFS))])
        name = "link"
    elif k <= 7:
        at.append(["src", href])
        if draw(st.integers(0, 4)) == 0:
            at.append(["href", draw(st.sampled_from(HREFS))])
        at += [["rel", draw(st.sampled_from(["stylesheet", "preload"]))]] if draw(st.integers(0, 9)) == 0 else []
        name = "script"
    else:
        name, a = draw(st.sampled_from([("a", "href"), ("img", "src"), ("iframe", "src"), ("img", "srcset"), ("object", "data"), ("x-link", "href"), ("embed", "src")]))
        at = [[a, href], ["rel", draw(st.sampled_from(["stylesheet", "preload"]))]]
        at = [a for a in at if draw(st.integers(0, 5))]
    at = draw(st.permutations(at))
    ch = []
    if name == "script" and draw(st.integers(0, 3)) == 0:
        ch = [["t", draw(st.sampled_from(["var a = 1 < 2 && \"&amp;\";", "\n", "// <!-- x", "é <b>"]))]]
    return ["e", name, at, ch]


def head_only(n):
    return n[1] in ("link", "script")


@st.composite
def case_strategy(draw):
    pages = []
    for p in draw(st.lists(st.sampled_from(["index.html", "sub/p.html", "a b/q.html", "x.y.html", "src/public/z.html"]), min_size=1, max_size=2, unique=True)):
        g = H.Gen(draw, leaf=link(), budget=draw(st.sampled_from([6, 20, 45])))
        doc = g.document()
        pages.append([p, doc, draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 5)) == 0])
    return {"pages": pages}


def clean(nodes, where=None, ban=frozenset()):
    """Links of other kinds than head allows are moved out of the head, and
    nested links and objects are taken apart, so that the source is well formed."""
    out = []
    for n in nodes:
        if n[0] != "e":
            out.append(n)
            continue
        w = n[1] if n[1] in ("head", "body") else where
        if w == "head" and n[1] in ("a", "img", "iframe", "object", "x-link", "embed"):
            continue
        if n[1] in ban:
            continue
        if n[1] == "script" and where == "head-noscript":
            continue
        if w == "head" and n[1] == "noscript":
            w = "head-noscript"
        if n[1] in ("select", "option", "svg", "math", "picture", "video", "audio", "template") and any(c[0] == "e" and c[1] in ("object",) for c in n[3]):
            continue
        b = ban | ({"a"} if n[1] in ("a", "button") else set())
        out.append(["e", n[1], n[2], clean(n[3], w, b)])
    return out


def rewrite(www):
    import posixpath

    def f(n):
        attr = None
        at = dict(map(tuple, n[2]))
        if n[1] == "link" and at.get("rel") in ("stylesheet", "preload"):
            attr = "href"
        elif n[1] == "script":
            attr = "src"
        v = at.get(attr)
        if v is None or not v.startswith("/") or v.startswith("//") or "?" in v or "#" in v:
            return [n]
        path = posixpath.normpath(v)
        return [["e", n[1], [[k, path + site.suffix(www[path[1:]]) if k == attr else x] for k, x in n[2]], n[3]]]

    return f


def run(case, ctx):
    files = {"src/public/" + k: v for k, v in FILES.items()}
    pages = [[p, clean(doc), seed, crlf] for p, doc, seed, crlf in case["pages"]]
    for p, doc, seed, crlf in pages:
        files["src/public/" + p] = H.write(doc, seed, crlf)
    with scratch.tempdir() as d:
        site.project(d, files)
        try:
            site.build(d)
        except site.BuildFailed as e:
            raise Violation(f"does not build: {e}; {[files['src/public/' + p[0]] for p in pages]}")
        www = site.www(d)
    n_links = 0
    for p, doc, seed, crlf in pages:
        out = H.normal(H.parse(www[p]))
        for n in H.walk(out):
            if n[0] == "e" and n[1] in ("link", "script") and any(k in ("href", "src") and "&pv=" in v for k, v in n[2]):
                n_links += 1
        want = H.normal(H.mapped(doc, rewrite(www)))
        df = H.diff(want, out)
        if df:
            raise Violation(f"{p}: {df}\nsource {files['src/public/' + p]!r}\nbuilt {www[p].decode()!r}")
    ctx.label("links" if n_links else "no-links")
    if sum(1 for p in pages for _ in H.walk(p[1])) >= 8:
        ctx.nontrivial()


@st.composite
def missing_case(draw):
    h = draw(st.sampled_from(["/css/no.css", "/nothere.js", "/css/sub/a.css", "/css/a.cssx", "/js/x.js/y", "/a.css"]))
    return [draw(st.sampled_from(["link", "script"])), h]


def run_missing(case, ctx):
    n = ["e", "link", [["rel", "stylesheet"], ["href", case[1]]], []] if case[0] == "link" else ["e", "script", [["src", case[1]]], []]
    doc = [["d", "html", None, None], ["e", "html", [], [["e", "head", [], [n]], ["e", "body", [], []]]]]
    with scratch.tempdir() as d:
        site.project(d, dict({"src/public/" + k: v for k, v in FILES.items()}, **{"src/public/index.html": H.write(doc, 1)}))
        try:
            site.build(d)
        except site.BuildFailed:
            ctx.nontrivial()
            return
        raise Violation(f"a page linking the missing file {case[1]} builds: {site.www(d)['index.html']!r}")


CHECK = Check(
    "C14", [Prop("document", lambda tier: case_strategy(), run, quick=3000, thorough=60000), Prop("missing", lambda tier: missing_case(), run_missing, quick=24, thorough=48, shards=2)],
    rule="one or two whole pages generated as trees (all content categories, svg and mathml, raw text elements, templates, comments, doctypes) and written in varied notation (character references, quoting, case, omitted end tags, "
         "CRLF), with links and scripts of every kind of url; the built page, parsed, has to be the generated tree with just the documented urls versioned; non-trivial: at least 8 nodes",
    assumptions=["boolean attributes are compared by presence", "a meta charset at the start of the head and trailing space in the body may be added", "urls are written without percent escapes",
                 "templates hold flow content (the html library drops table rows in them)"])

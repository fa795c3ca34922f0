"""C17: canonical links and og:url become full urls of the page."""
from hypothesis import strategies as st

from vp import htmlgen as H
from vp import scratch, site
from vp.core import Check, Prop, Violation

HOSTS = ["example.com", "www.example.com", "localhost:8888", "é.example", "a.b-c.example:1"]
PAGES = ["index.html", "account.html", "sub/p.html", "a/b/c/index.html", "http.html", "src/public/x.html", "é.html", "x.y.html", "public/index.html", "https/p.html"]
FULL = ["https://other.example/a?b=c&d#e", "http://example.com", "https://example.com/", "HTTPS://EXAMPLE.com/x", "http://h/../x", "https://h/?", "mailto:a@b.c", "https:x"]
SITE = ["/", "/x.html", "/a/b?c=d&e=%20#f", "", "/http://x", "/é", "/a/../b", "/?q", "/#", "/a//b", "/https"]
# values relative to the folder of the page, or to the scheme
RELATIVE = [("x.html", "{dir}x.html"), ("./x.html", "{dir}x.html"), ("http-guide.html", "{dir}http-guide.html"), ("https/x", "{dir}https/x"), ("a/b?c=d", "{dir}a/b?c=d"), ("?q=1", "{page}?q=1"), ("//cdn.example/x", "https://cdn.example/x"), ("//example.com", "https://example.com"),
            ("x/../y", "{dir}y")]


@st.composite
def tag(draw):
    name = draw(st.sampled_from(["link", "link", "meta", "meta", "a", "x-link"]))
    mark = draw(st.sampled_from({"link": [["rel", "canonical"]] * 4 + [["rel", "alternate"], ["property", "og:url"], ["rel", "next"], ["rel", "canonicals"]], "meta": [["property", "og:url"]] * 4 + [["property", "og:image"], ["rel", "canonical"], ["name", "og:url"], ["property", "og:urls"]],
                                 "a": [["rel", "canonical"]], "x-link": [["rel", "canonical"], ["property", "og:url"]]}[name]))
    at = [a for a in draw(H.attributes(["hreflang", "data-href"])) if a[0] not in ("rel", "property", "href", "content")]
    at.append(mark)
    val = "content" if mark[0] == "property" else "href"
    if draw(st.integers(0, 3)):
        k = draw(st.integers(0, 2))
        at.append([val, draw(st.sampled_from(FULL)) if k == 0 else draw(st.sampled_from(SITE)) if k == 1 else draw(st.sampled_from(RELATIVE))[0]])
    if draw(st.integers(0, 3)) == 0:
        at.append([{"content": "href", "href": "content"}[val], draw(st.sampled_from(SITE + FULL))])
    return ["e", name, draw(st.permutations(at)), []]


@st.composite
def case_strategy(draw):
    pages = []
    for p in draw(st.lists(st.sampled_from(PAGES), min_size=1, max_size=3, unique=True)):
        head = draw(st.lists(tag(), min_size=1, max_size=5))
        body = [["e", "div", [], draw(st.lists(tag(), max_size=2))]] if draw(st.booleans()) else []
        pages.append([p, head, body, draw(st.integers(0, 10 ** 6))])
    return {"host": draw(st.sampled_from(HOSTS)) if draw(st.integers(0, 5)) else None, "pages": pages, "partial": draw(st.booleans())}


def marked(n):
    at = dict(map(tuple, n[2]))
    if n[1] == "link" and at.get("rel") == "canonical":
        return "href"
    if n[1] == "meta" and at.get("property") == "og:url":
        return "content"
    return None


def full(v, host, page):
    """The url that a value stands for; None if it already is one."""
    if v in FULL:
        return None
    if v is None:
        return f"https://{host}/{page}"
    for r, to in RELATIVE:
        if v == r:
            d = page.rpartition("/")[0]
            return to.replace("{dir}", f"https://{host}/{d}{'/' if d else ''}").replace("{page}", f"https://{host}/{page}")
    return f"https://{host}{v}"


def run(case, ctx):
    host = case["host"]
    files, docs, needs = {}, {}, False
    for p, head, body, seed in case["pages"]:
        # what is no link or meta cannot stand in the head
        head, rest = [n for n in head if n[1] in ("link", "meta")], [n for n in head if n[1] not in ("link", "meta")]
        doc = [["d", "html", None, None], ["e", "html", [], [["e", "head", [], head], ["e", "body", [], rest + body]]]]
        src = doc
        if case["partial"] and rest + body:
            files[f"src/partials/{p}"] = H.write(rest + body, seed + 1)
            src = [doc[0], ["e", "html", [], [["e", "head", [], head], ["e", "body", [], [["raw", f"<!--[TEMPLATE: [\"/{p}\"]]-->"]]]]]]
        files["src/public/" + p] = H.write(src, seed)
        docs[p] = doc
        for n in H.walk(doc):
            if n[0] == "e" and marked(n) and full(dict(map(tuple, n[2])).get(marked(n)), "h", p) is not None:
                needs = True
    cfg = site.config(host=host)
    with scratch.tempdir() as d:
        site.project(d, files, cfg)
        try:
            site.build(d)
        except site.BuildFailed as e:
            if host is None and needs:
                ctx.label("no-host-fails")
                ctx.nontrivial()
                return
            raise Violation(f"does not build: {e}; {files!r}")
        www = site.www(d)
    if host is None and needs:
        raise Violation(f"builds without a host: {files!r}; { {p: www[p] for p in docs} }")
    count = 0
    for p, doc in docs.items():
        def f(n):
            nonlocal count
            attr = marked(n)
            if not attr:
                return [n]
            v = dict(map(tuple, n[2])).get(attr)
            url = full(v, host, p)
            if url is None:
                return [n]
            count += 1
            return [["e", n[1], [a for a in n[2] if a[0] != attr] + [[attr, url]], n[3]]]

        df = H.diff(H.normal(H.mapped(doc, f)), H.normal(H.parse(www[p])))
        if df:
            raise Violation(f"{p} of {host}: {df}\nsource {files['src/public/' + p]!r}\nbuilt {www[p].decode()!r}")
    ctx.label("rewritten" if count else "nothing")
    if count:
        ctx.nontrivial()


CHECK = Check(
    "C17", [Prop("canonical", lambda tier: case_strategy(), run, quick=4000, thorough=80000)],
    rule="one to three pages at various depths with canonical links, og:url metas and lookalikes with any other attributes, and no value, a site path, a relative or a full url; the built page has to be the source with exactly the "
         "marked tags rewritten; without a host the build has to fail if one is needed; non-trivial: at least one tag to rewrite",
    assumptions=["the marking attributes are written in lower case", "page paths need no percent escapes"])

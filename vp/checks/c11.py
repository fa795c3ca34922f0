"""C11: site urls in stylesheets are versioned, image data urls outlined."""
import base64
import posixpath
from urllib.parse import quote_from_bytes

from hypothesis import strategies as st

from vp import cssgen, cssref, scratch, site
from vp.core import Check, Prop, Violation
from vp.checks.c10 import first_difference

FILES = ["img/a.png", "img/b.svg", "x.png", "fonts/f.woff2", "a b.gif", "img/é.png", "img/deep/d/z.webp", "css/other.css", "noext", "img/it's.png", "js/s.js", "img/p(1).png", "img/gen.png", "URL.png", "css/base/main.css", "other/s.css", "css/top.css", "sub/dir/s.css"]
OTHER = ["x.png", "./x.png", "../img/a.png", "//cdn.example/x.png", "https://h.example/img/a.png", "http://h/x", "/img/a.png?v=1", "/img/a.png#f", "/x.png?", "/img/b.svg?a#b", "#f", "data:font/woff;base64,AAAA",
         "data:,x", "data:text/plain,/x.png", "", "about:blank", "img/a.png", "blob:x", "data:application/svg,a"]
TYPES = [("png", "png"), ("jpeg", "jpeg"), ("svg+xml", "svg"), ("gif", "gif"), ("webp", "webp"), ("x-icon", "x-icon"), ("PNG", "png")]
MAIN = ["css/main.css", "css/sub/dir/s.css", "top.css", "css/main.x.css", "css/a b.css"]


@st.composite
def data_uri(draw):
    """[uri, extension, hex of the bytes]"""
    t, ext = draw(st.sampled_from(TYPES))
    data = draw(st.one_of(st.sampled_from([b"<svg xmlns='http://www.w3.org/2000/svg'/>", b"a", b"\x89PNG\r\n", b"a,b;c", b"#%20 ?x", b"&+/="]), st.binary(min_size=1, max_size=6)))
    params = draw(st.sampled_from(["", "", ";charset=utf-8", ";utf8", ";a=b;c=d"]))
    scheme = draw(st.sampled_from(["data:image/", "data:image/", "data:image/", "DATA:image/", "data:Image/"]))
    if draw(st.booleans()):
        b = base64.b64encode(data).decode()
        if draw(st.integers(0, 3)) == 0:
            b = b.replace("=", "%3D").replace("+", "%2B").replace("/", "%2F")
        uri = f"{scheme}{t}{params};{draw(st.sampled_from(['base64', 'base64', 'Base64']))},{b}"
    else:
        safe = draw(st.sampled_from(["", "<>='/:#?;, ", "/;,", "abc'\""]))
        uri = f"{scheme}{t}{params},{quote_from_bytes(data, safe=safe)}"
    return [uri, ext, data.hex()]


def written(draw, v, quoted=None):
    """A css token sequence for url(v), possibly with escapes."""
    fn = draw(st.sampled_from(["url", "url", "url", "url", "URL", "Url", "u\\72 l"]))
    sp = st.sampled_from(["", "", "", " ", "\n", "  ", "\t "])
    form = draw(st.integers(0, 3))
    special = draw(st.integers(0, 3)) == 0

    def esc(c, last=False):
        if special and draw(st.integers(0, 3)) == 0 and c != "\n":
            k = draw(st.integers(0, 2))
            if k == 0:
                return "\\%x " % ord(c)
            if k == 1:
                return "\\%06x " % ord(c)
            if c not in "0123456789abcdefABCDEF" and c.isprintable():
                return "\\" + c
        return None

    if form <= 1:
        q = "'\""[form]
        s = "".join(esc(c) or ("\\" + c if c in (q, "\\") else ("\\a " if c == "\n" else c)) for c in v)
        if special and draw(st.booleans()) and v:
            i = draw(st.integers(0, 1)) * len(s)
            s = s[:i] + "\\\n" + s[i:]
        gap = draw(sp)
        return f"{fn}({gap}{q}{s}{q}{draw(sp)})"
    bad = "\"'()\\ \n\t"
    s = "".join(esc(c) or (("\\a " if c == "\n" else "\\" + c if c.isprintable() else "\\%x " % ord(c)) if c in bad or cssref.is_nonprint(c) else c) for c in v)
    return f"{fn}({draw(sp)}{s}{draw(sp)})"


def dotted(draw, f):
    """The url of a file, maybe with dot segments."""
    if draw(st.integers(0, 7)):
        return "/" + f
    return draw(st.sampled_from(["/./", "/css/../", "/nowhere/../", "/../", "/a/./b/../../"])) + f


@st.composite
def sheet(draw, main, files, pool):
    out = ""
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 9))
        if k <= 3:
            v = dotted(draw, draw(st.sampled_from(files)))
        elif k <= 5:
            v = draw(st.sampled_from(OTHER))
        elif k <= 8:
            v = draw(st.sampled_from(pool))[0]
        else:
            out += draw(st.sampled_from(["/* url(/x.png) */", ".a{content:\"url(/x.png)\"}", ".a{content:'data:image/png;base64,AA=='}", ".b{b:uri(\"/x.png\")}", ".c{c:format(\"/x.png\")}",
                                         ".d{d:url(\"x.png\")/\"/x.png\"}", ".e{content:\"/x.png\"}", ".f{f:local(\"/x.png\")url(x)}"]))
            continue
        u = written(draw, v)
        wrap = draw(st.integers(0, 6))
        if wrap == 0:
            out = f"@import {u};" + out if not v.startswith("data") else out + f".a{{b:{u}}}"
        elif wrap == 1:
            out += f"@font-face{{src:{u} format(\"woff\"),local(\"/x.png\")}}"
        elif wrap == 2:
            out += f"@media print{{.x{{background:red {u}no-repeat}}}}"
        elif wrap == 3:
            out += f".i{{background-image:image-set({u} 1x, {written(draw, draw(st.sampled_from(pool))[0])} 2x)}}"
        else:
            out += f".y{draw(cssgen.OPTSEP)}{{background:{draw(cssgen.OPTSEP)}{u}{draw(cssgen.OPTSEP)}}}"
        out += draw(cssgen.OPTSEP)
    return out


@st.composite
def case_strategy(draw):
    files = sorted(draw(st.sets(st.sampled_from(FILES), min_size=1, max_size=5)))
    pool = draw(st.lists(data_uri(), min_size=1, max_size=4))
    if draw(st.booleans()):
        # the same content once more, under another spelling
        u = pool[0]
        pool.append(["data:image/png;base64," + base64.b64encode(bytes.fromhex(u[2])).decode(), "png", u[2]])
    mains = sorted(draw(st.sets(st.sampled_from(MAIN), min_size=1, max_size=2)))
    sheets = {m: draw(sheet(m, files, pool)) for m in mains}
    return {"files": files, "pool": pool, "sheets": sheets, "self": draw(st.integers(0, 5)) == 0}


def run(case, ctx):
    data = {u: (ext, bytes.fromhex(h)) for u, ext, h in case["pool"]}
    sheets = dict(case["sheets"])
    if case["self"]:
        m = sorted(sheets)[0]
        if " " not in m:
            sheets[m] += f".self{{b:url(/{m})}}"
    for s in sheets.values():
        try:
            cssref.check_valid(s)
        except cssref.Invalid as e:
            ctx.label("invalid-source")
            return
    with scratch.tempdir() as d:
        files = {"src/public/" + f: (b"body{}" if f.endswith(".css") else b"var a;" if f.endswith(".js") else b"bytes of " + f.encode()) for f in case["files"]}
        files.update({"src/public/" + m: s for m, s in sheets.items()})
        site.project(d, files)
        try:
            site.build(d)
        except site.BuildFailed as e:
            raise Violation(f"does not build: {e}; {case!r}")
        www = site.www(d)
        expected_gen = set()
        total = 0
        for m, s in sheets.items():
            src = cssref.normal(cssref.check_valid(s))
            out = www[m].decode("utf-8")
            got = cssref.normal(cssref.tokenize(out))
            if len(src) != len(got):
                raise Violation(f"tokens differ at {first_difference(src, got)}; {case!r}; output {out!r}")
            inside = False
            seen = {}
            for a, b in zip(src, got):
                v = None
                if a[0] == "url":
                    v = a[1]
                elif a[0] == "function" and a[1].lower() == "url":
                    inside = True
                elif a[0] == ")":
                    inside = False
                elif a[0] == "string" and inside:
                    v = a[1]
                if v is None or a[0] != b[0]:
                    if a != b:
                        raise Violation(f"{a} became {b}; {case!r}; output {out!r}")
                    continue
                if v in data:
                    ext, content = data[v]
                    total += 1
                    path, _, query = b[1].partition("?")
                    if not path.startswith("/") or path[1:] not in www:
                        raise Violation(f"image data {v!r} became {b[1]!r}, no file of the site; {case!r}")
                    if www[path[1:]] != content:
                        raise Violation(f"image data {v!r} became {b[1]!r} which holds {www[path[1:]]!r} instead of {content!r}; {case!r}")
                    if "?" + query != site.suffix(content):
                        raise Violation(f"wrong version in {b[1]!r}; {case!r}")
                    if posixpath.splitext(path)[1] != "." + ext:
                        raise Violation(f"image data {v!r} is of type {ext}, became {b[1]!r}; {case!r}")
                    expected_gen.add(path[1:])
                elif v.startswith("/") and not v.startswith("//") and "?" not in v and "#" not in v:
                    f = posixpath.normpath(v)[1:]
                    if f == m:
                        if posixpath.normpath(b[1].partition("?")[0]) != "/" + f:
                            raise Violation(f"{a} became {b}")
                        continue
                    total += 1
                    want = v + site.suffix(www[f])
                    if b[1] not in (want, "/" + f + site.suffix(www[f])):
                        raise Violation(f"site url {v!r} became {b[1]!r} instead of {want!r}; {case!r}")
                elif a != b:
                    raise Violation(f"foreign url {a} became {b}; {case!r}; output {out!r}")
        gen = {f for f in www if f.startswith("img/gen/") and not f.endswith(".hash")}
        if gen != expected_gen:
            raise Violation(f"outlined files {sorted(gen)} but the stylesheets use {sorted(expected_gen)}; {case!r}")
    ctx.label(f"rewrites-{min(total, 4)}")
    if expected_gen:
        ctx.label("outlined")
    if total:
        ctx.nontrivial()


CHECK = Check(
    "C11", [Prop("urls", lambda tier: case_strategy(), run, quick=6000, thorough=120000)],
    rule="a generated site with one or two stylesheets whose url()s (quoted, unquoted, escaped, any case and spacing, in declarations, at-rules and image-set) name site files, "
         "foreign targets and image data URIs (base64, percent-encoded, with parameters, repeated), next to lookalikes in strings, comments and other functions; every token of "
         "the output, read by the reference tokenizer, is compared with what the rewrite must give, and every generated file with the decoded image; non-trivial: at least one rewritten url",
    assumptions=["a stylesheet's url to itself may stay without a digest", "image data is decoded as RFC 2397 says, the generated stylesheets only use valid data URIs"])

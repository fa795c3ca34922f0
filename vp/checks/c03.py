"""C03: cache-busting links carry the digest of what is served."""
import html
import os
import posixpath
import re
from urllib.parse import parse_qsl, unquote

from hypothesis import strategies as st

from vp import scratch, site, sitegen
from vp.core import Check, Prop, Violation

TAG = re.compile(r"<(script|link)\b([^>]*)>", re.I)
ATTR = re.compile(r'([a-zA-Z-]+)\s*=\s*("[^"]*"|\'[^\']*\'|[^\s">]+)')
URL = re.compile(r"url\(\s*(\"[^\"]*\"|'[^']*'|[^\"'()\s]+)\s*\)")
IMPORT = re.compile(r"^\s*import\s+(?:[^'\";]*?\sfrom\s+)?([\"'])([^\"'\n]*)\1", re.M)


def links_of(path, text):
    """The links in a served file that are to be versioned, as (what, url)."""
    if path.endswith((".html",)):
        for m in TAG.finditer(text):
            attrs = {a.lower(): html.unescape(v.strip("\"'")) for a, v in ATTR.findall(m[2])}
            if m[1].lower() == "script" and "src" in attrs:
                yield "script", attrs["src"]
            elif m[1].lower() == "link" and attrs.get("rel") in ("stylesheet", "preload") and "href" in attrs:
                yield "link", attrs["href"]
    elif path.endswith(".css"):
        for m in URL.finditer(text):
            u = m[1].strip("\"'")
            yield "url()", re.sub(r"\\([0-9a-fA-F]{1,6})\s?|\\(.)", lambda e: chr(int(e[1], 16)) if e[1] else e[2], u)
    elif path.endswith(".js") and not path.endswith("constants.js"):
        for m in IMPORT.finditer(text):
            yield "import", m[2]


def check_links(tree, where="", whole=True):
    """Checks every link in a served tree; returns how many there were."""
    n = 0
    for p in sorted(tree):
        if p.endswith(".hash"):
            t = p[:-5]
            if t not in tree:
                if whole:
                    raise Violation(f"{where}{p} is the hash of nothing")
                continue
            if tree[p].decode("latin-1").strip() != site.digest(tree[t]):
                raise Violation(f"{where}{p} holds {tree[p]!r}, but the file's digest is {site.digest(tree[t])}")
            continue
        if not p.endswith((".html", ".css", ".js")):
            continue
        text = tree[p].decode("utf-8")
        for what, u in links_of(p, text):
            if re.match(r"[a-zA-Z][a-zA-Z0-9+.-]*:|//|#", u):
                continue
            base, _, query = u.partition("?")
            target = unquote(posixpath.normpath(posixpath.join("/" + posixpath.dirname(p), base))).lstrip("/")
            if target == p and not query:
                continue  # a file cannot hold its own digest
            if target not in tree:
                raise Violation(f"{where}{p} has a {what} to {u}, which is not served")
            got = dict(parse_qsl(query.partition("#")[0]))
            want = {"v": site.digest(tree[target]), "pv": site.pv()}
            if got != want:
                raise Violation(f"{where}{p} has a {what} to {u}; the served file's digest is {want['v']}")
            if target + ".hash" not in tree:
                raise Violation(f"{where}{p} has a {what} to {u}, which has no hash file")
            n += 1
    return n


def run(case, ctx):
    with scratch.tempdir() as d:
        site.project(d, {}, site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES))
        clock = sitegen.Clock(case.get("clock"))
        before = {}
        for i, step in enumerate(case["steps"]):
            for op in step["ops"]:
                sitegen.apply(d, op, clock)
            try:
                site.build(d, dev=step["dev"], symlinks=step["links"], schedule=case.get("schedule"))
            except site.BuildFailed:
                ctx.label("fails")
                continue
            tree = site.www(d)
            n = check_links(tree, f"step {i}: ")
            changed = [p for p in tree if p in before and before[p] != tree[p] and not p.endswith(".hash")]
            if i and n and changed:
                ctx.nontrivial()
                if any(p.endswith((".html", ".css", ".js")) and re.sub(rb"\?v=[^&]*", b"", tree[p]) == re.sub(rb"\?v=[^&]*", b"", before[p]) for p in changed):
                    ctx.label("only links changed")
            before = tree


@st.composite
def cases(draw, images=False, tier="quick"):
    deep = tier != "quick"
    case = draw(sitegen.history(images=images, soft=True, max_steps=8 if deep else 5, max_files=16 if deep else 11))
    case["schedule"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=5)))
    return case


def run_deep(case, ctx, real=False):
    from vp.checks import c28

    nodes = [c28.norm(n) for n in case["nodes"]]
    with scratch.tempdir() as d:
        site.project(d, {}, site.config(images=site.IMAGES))
        clock = sitegen.Clock(case.get("clock"))
        now = {}
        for s, step in enumerate(case["steps"]):
            files = c28.materialise(nodes, step)
            for p in now:
                if p not in files:
                    sitegen.apply(d, ["del", p], clock)
            for p in files:
                if now.get(p) != files[p]:
                    sitegen.apply(d, ["set", p, files[p]], clock)
            now = files
            try:
                site.build(d, symlinks=False, schedule=step["schedule"], real=real)
            except site.BuildFailed:
                ctx.label("fails")
                continue
            if check_links(site.www(d), f"step {s}: ") >= 3 and s:
                ctx.nontrivial()


def deep_cases(tier):
    from vp.checks import c28

    return c28.cases(tier=tier, max_steps=6)


SIZES = [4095, 4096, 8192, 65535, 65536, 65537, 131072, 262144, 300000, 524288, 1000000, 1048576, 1048577, 2500000]


def filler(size, edits, style):
    """Content of a given size, one piece repeated, with bytes changed at places (in thousandths of it)."""
    if style == "raw":
        data = bytearray((bytes(range(256)) * (size // 256 + 1))[:size])
    else:
        data = bytearray((b"/* " + b"x" * max(size - 6, 0) + b" */")[:max(size, 6)])
    for at, value in edits:
        lo, hi = (3, len(data) - 4) if style != "raw" else (0, len(data) - 1)
        data[lo + (hi - lo) * at // 1000] = value if style == "raw" else 97 + value % 26
    return bytes(data)


def run_large(case, ctx):
    """A page and a stylesheet linking to files which may be large; only the files change."""
    with scratch.tempdir() as d:
        site.project(d, {}, site.config())
        clock = sitegen.Clock()
        sitegen.apply(d, ["set", "src/public/index.html", '<!DOCTYPE html><html><head><title>t</title><link rel="stylesheet" href="/css/m.css"><link rel="preload" as="image" href="/img/a.png"><script src="/js/a.js"></script></head><body></body></html>'], clock)
        sitegen.apply(d, ["set", "src/public/css/m.css", ".a{background:url(/img/a.png)}\n"], clock)
        before = None
        for i, (raw, js) in enumerate(case["steps"]):
            for p, data in (("img/a.png", filler(*raw, "raw")), ("js/a.js", b"a();" + filler(*js, "js"))):
                full = os.path.join(d, "src/public", p)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "wb") as f:
                    f.write(data)
                os.utime(full, (1600000000 + i * 10,) * 2)
            site.build(d, symlinks=False)
            tree = site.www(d)
            if tree["img/a.png"] != filler(*raw, "raw"):
                raise Violation(f"step {i}: the image of {raw[0]} bytes is served with other content")
            if check_links(tree, f"step {i}: ") < 4:
                raise Violation(f"step {i}: the links of the page are gone")
            if before is not None and tree != before and max(raw[0], js[0]) > 60000:
                ctx.nontrivial()
            before = tree


@st.composite
def large_cases(draw, tier):
    def one(limit):
        return [draw(st.one_of(st.sampled_from([s for s in SIZES if s <= limit]), st.integers(1, limit))), []]
    raw, js = one(2500000), one(80000)
    steps = []
    for _ in range(draw(st.integers(2, 4))):
        if steps:
            k = draw(st.integers(0, 5))
            if k == 0:
                raw = one(2500000)
            elif k == 1:
                js = one(80000)
            else:
                at = st.one_of(st.sampled_from([0, 1000, 999, 500]), st.integers(0, 1000))
                which = raw if k <= 3 else js
                new = [which[0], which[1] + [[draw(at), draw(st.integers(0, 255))]]]
                if k <= 3:
                    raw = new
                else:
                    js = new
        steps.append([raw, js])
    return {"steps": steps}


CHECK = Check("C03", [
    Prop("large", large_cases, run_large, quick=150, thorough=4000),
    Prop("history", lambda tier: cases(tier=tier), lambda c, x: run(c, x), quick=5000, thorough=150000),
    Prop("images", lambda tier: cases(images=True, tier=tier), lambda c, x: run(c, x), quick=600, thorough=20000),
    Prop("deep", deep_cases, run_deep, quick=4000, thorough=120000),
    Prop("pool", lambda tier: __import__("vp.checks.c28", fromlist=["cases"]).cases(tier=tier, max_steps=3, rich=True), lambda c, x: run_deep(c, x, real=True), quick=32, thorough=600, flaky=True),
], rule="a case is a history of builds; it counts as non-trivial when a rebuild changed what is served and there were links to check (in 'deep': three or more; in 'large': a file of over 60 000 bytes was involved)",
    assumptions=["a stylesheet's url() to itself stays without a digest"])

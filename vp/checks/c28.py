"""C28: dependency order is respected; cycles fail cleanly."""
import os
import subprocess
import sys

from hypothesis import strategies as st

from vp import boot, scratch, site, sitecmp, sitegen
from vp.checks.c03 import check_links
from vp.core import Check, Prop, Violation

EXT = {"css": "css", "js": "js", "html": "html", "txt": "txt"}
FOLDERS = {"css": ["css", "css/sub", "x"], "js": ["js", "js/lib/deep", "x"], "html": ["", "sub", "x"], "txt": ["assets", "x"]}

# kind -> [(name of the mechanism, kinds it can refer to)]
HOW = {
    "css": [("url", "css js html txt"), ("import", "css"), ("rule", "css"), ("rule", "css")],
    "js": [("import", "js"), ("import", "js"), ("star", "js")],
    "html": [("link", "css"), ("script", "js"), ("preload", "css js html txt"), ("template", "partial"), ("inline script", "js"), ("inline style", "css js html txt")],
    "partial": [("template", "partial"), ("script", "js"), ("inline script", "js")],
    "txt": [],
}


def hows(a, b):
    return [h for h, kinds in HOW[a] if b in kinds.split()]


def path_of(node):
    kind, name, folder = node
    if kind == "partial":
        return "src/partials/" + os.path.join(folder, name + ".html")
    return "src/public/" + os.path.join(FOLDERS[kind][folder % len(FOLDERS[kind])], name + "." + EXT[kind])


def url_of(node):
    p = path_of(node)
    return p[len("src/partials"):] if node[0] == "partial" else p[len("src/public"):]


def norm(node):
    k, n, f = node
    return [k, n, ("" if not f % 2 else "d") if k == "partial" else f]


def relative(u, base):
    r = os.path.relpath(u, os.path.dirname(base))
    return r if r.startswith("../") else "./" + r


def piece(how, i, u, mine):
    if how == "url":
        return '.u%d { background: url("%s"); }\n' % (i, u)
    if how == "rule":
        return ".u%d { color: red; /*! PREPROCESSOR: import .own from %s */ }\n" % (i, u)
    if how == "import" and mine.endswith(".css"):
        return "@import url(%s);\n" % u
    if how == "import":
        return 'import "%s";\n' % (relative(u, mine) if i % 2 else u)
    if how == "star":
        return "import * as m%d from '%s';\n" % (i, u)
    if how == "link":
        return '<link rel="stylesheet" href="%s">\n' % u
    if how == "script":
        return '<script type="module" src="%s"></script>\n' % u
    if how == "preload":
        return '<link rel="preload" as="fetch" href="%s">\n' % u
    if how == "template":
        return '<!--[TEMPLATE: ["%s", {}]]-->\n' % u
    if how == "inline script":
        return '<script type="module">import "%s"; let a = %d;</script>\n' % (u, i)
    if how == "inline style":
        return '<style>.u%d { background: url("%s"); }</style>\n' % (i, u)
    raise AssertionError(how)


HEAD = ("link", "preload", "inline style")


def text(node, version, refs, url):
    """refs: [(how, url)]"""
    kind = node[0]
    if kind == "txt":
        return "text %d\n" % version
    parts = [(h, piece(h, i, u, url)) for i, (h, u) in enumerate(refs)]
    if kind == "html":
        return "<!DOCTYPE html>\n<html><head><title>%d</title>%s</head><body>%s</body></html>\n" % (
            version, "".join(t for h, t in parts if h in HEAD), "".join(t for h, t in parts if h not in HEAD))
    if kind == "css":
        return "".join(t for h, t in parts if h == "import") + ".own { margin: %dpx; }\n" % version + "".join(t for h, t in parts if h != "import")
    if kind == "js":
        return "".join(t for _, t in parts) + "let v = %d;\n" % version
    return "<p>%d</p>\n" % version + "".join(t for _, t in parts)


def materialise(nodes, step):
    refs = {i: [] for i in range(len(nodes))}
    for i, j, h in step["edges"]:
        how = hows(nodes[i][0], nodes[j][0])
        refs[i].append((how[h % len(how)], url_of(nodes[j])))
    for i, h in step["missing"]:
        u = {"import": "/none/x.js" if nodes[i][0] == "js" else "/none/x.css", "star": "/none/x.js", "rule": "/none/x.css", "script": "/none/x.js", "inline script": "/none/x.js",
             "template": "/none/x.html"}.get(h, "/none/x.css")
        refs[i].append((h, u))
    return {path_of(n): text(n, step["versions"][i], refs[i], url_of(n)) for i, n in enumerate(nodes) if i not in step["absent"]}


def has_cycle(n, edges):
    out = {i: [j for a, j, _ in edges if a == i] for i in range(n)}
    state = {}

    def visit(i):
        if state.get(i) == 1:
            return True
        if state.get(i) == 2:
            return False
        state[i] = 1
        if any(visit(j) for j in out[i]):
            return True
        state[i] = 2
        return False

    return any(visit(i) for i in range(n))


def sound(nodes, step):
    """Whether this step's site has no cycle and no dangling reference.
    None when it is not for this check to say."""
    n = len(nodes)
    # a stylesheet's reference to itself (url, or a rule of its own) is no dependency
    edges = [(i, j, h) for i, j, h in step["edges"] if not (i == j and i not in step["absent"] and nodes[i][0] == "css")]
    # what only an unused partial lacks is never looked at
    live = reachable(nodes, step)
    if any(i in live for i, _ in step["missing"]) or any(i in live and j in step["absent"] for i, j, _ in step["edges"] if i not in step["absent"]):
        return False
    if has_cycle(n, [(i, j, h) for i, j, h in edges if i in live and j in live]):
        return False
    return True


def reachable(nodes, step):
    live = {i for i, n in enumerate(nodes) if n[0] != "partial" and i not in step["absent"]}
    todo = list(live)
    while todo:
        i = todo.pop()
        for a, j, _ in step["edges"]:
            if a == i and j not in live and j not in step["absent"]:
                live.add(j)
                todo.append(j)
    return live


def run(case, ctx, real=False):
    nodes = [norm(n) for n in case["nodes"]]
    cfg = site.config(images=site.IMAGES)
    with scratch.tempdir() as d:
        site.project(d, {}, cfg)
        clock = sitegen.Clock(case.get("clock"))
        now = {}
        for s, step in enumerate(case["steps"]):
            files = materialise(nodes, step)
            gone = [p for p in now if p not in files]
            for p in gone:
                sitegen.apply(d, ["del", p], clock)
            for k in range(len(files)):
                p = sorted(files)[(k * 7 + s) % len(files)] if len(files) % 7 else sorted(files)[k]
                if now.get(p) != files[p]:
                    sitegen.apply(d, ["set", p, files[p]], clock)
            now = files
            kw = dict(symlinks=False, schedule=step["schedule"], real=real, workers=case["workers"] if real else None)
            good = sound(nodes, step)
            try:
                site.build(d, **kw)
            except site.BuildFailed as e:
                if good:
                    raise Violation(f"step {s}: the build of a site without cycles or dangling references fails: {e}")
                ctx.label("fails")
                ctx.nontrivial()
                continue
            if not good:
                raise Violation(f"step {s}: a site with a cycle or a dangling reference builds")
            got = site.www(d)
            n = check_links(got, f"step {s}: ")
            if n >= 3:
                ctx.nontrivial()
            want, _ = sitecmp.reference(d, False, False)
            diff = sitecmp.summary(got, want)
            if diff:
                raise Violation(f"step {s}: out/www/{diff}")


NAMES = ["a", "b", "c", "d", "main", "z", "index", "m1", "k", "ab", "y", "q", "0", "zz", "r", "s"]


@st.composite
def cases(draw, tier="quick", max_steps=4, rich=False, sound_only=False):
    deep = tier != "quick"
    n = draw(st.integers(6 if rich else 2, 20 if deep else 11))
    shape = draw(st.integers(0, 4))
    kinds = {0: ["css"], 1: ["js"], 2: ["html", "partial"], 3: ["css", "js", "html", "partial", "txt"], 4: ["css", "html", "js"]}[shape]
    nodes = []
    seen = set()
    for i in range(n):
        node = [draw(st.sampled_from(kinds)), draw(st.sampled_from(NAMES)), draw(st.integers(0, 2))]
        if path_of(norm(node)) not in seen:
            seen.add(path_of(norm(node)))
            nodes.append(node)
    n = len(nodes)

    def edges(order):
        res = []
        dense = draw(st.integers(0, 2))
        for at in range(1, n):
            i = order[at]
            picks = [order[at - 1]] if rich or dense < 2 and draw(st.integers(0, 3)) else []
            picks += [order[draw(st.integers(0, at - 1))] for _ in range(draw(st.integers(0, 2)))] if dense else []
            for j in dict.fromkeys(picks):
                if hows(nodes[i][0], nodes[j][0]):
                    res.append([i, j, draw(st.integers(0, 5))])
        return res

    steps = []
    cur = None
    for s in range(draw(st.integers(1, max_steps))):
        k = draw(st.integers(0, 9)) if cur else 0
        if k <= 1:
            cur = {"edges": edges(draw(st.permutations(range(n)))), "versions": [draw(st.integers(0, 2)) for _ in range(n)], "missing": [], "absent": []}
        else:
            cur = {x: list(v) if isinstance(v, list) else v for x, v in cur.items()}
            cur["missing"] = [] if draw(st.booleans()) else cur["missing"]
            cur["absent"] = [] if draw(st.booleans()) else cur["absent"]
            if k <= 4:
                for _ in range(draw(st.integers(1, 3))):
                    cur["versions"][draw(st.integers(0, n - 1))] = draw(st.integers(0, 5))
            elif k <= 6 and cur["edges"]:
                for _ in range(draw(st.integers(1, 2))):
                    if cur["edges"]:
                        e = cur["edges"].pop(draw(st.integers(0, len(cur["edges"]) - 1)))
                        if draw(st.booleans()) and hows(nodes[e[1]][0], nodes[e[0]][0]):
                            cur["edges"].append([e[1], e[0], e[2]])  # the other way round: may close a cycle
            else:
                i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
                if hows(nodes[i][0], nodes[j][0]):
                    cur["edges"].append([i, j, draw(st.integers(0, 5))])
        if not sound_only and draw(st.integers(0, 6)) == 0:
            i = draw(st.integers(0, n - 1))
            if HOW[nodes[i][0]]:
                cur["missing"].append([i, draw(st.sampled_from(HOW[nodes[i][0]]))[0]])
        if not sound_only and draw(st.integers(0, 6)) == 0:
            cur["absent"].append(draw(st.integers(0, n - 1)))
        cur["schedule"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 19), min_size=1, max_size=8)))
        steps.append(dict(cur, edges=[list(e) for e in cur["edges"]], versions=list(cur["versions"]), missing=[list(x) for x in cur["missing"]], absent=list(cur["absent"])))
    return {"nodes": nodes, "steps": steps, "clock": draw(sitegen.CLOCKS), "workers": draw(st.integers(1, 4))}


def run_cli(case, ctx):
    """The command's exit status says whether the site was built."""
    nodes = [norm(n) for n in case["nodes"]]
    with scratch.tempdir() as d:
        site.project(d, {}, site.config(images=site.IMAGES))
        clock = sitegen.Clock(case.get("clock"))
        now = {}
        for s, step in enumerate(case["steps"]):
            files = materialise(nodes, step)
            for p in now:
                if p not in files:
                    sitegen.apply(d, ["del", p], clock)
            for p in files:
                if now.get(p) != files[p]:
                    sitegen.apply(d, ["set", p, files[p]], clock)
            now = files
            try:
                r = subprocess.run([sys.executable, "-c", "from vanillaplusjs.main import main; main()", "build", "--folder", d, "--no-symlinks"],
                                   cwd=d, env=dict(os.environ, PYTHONPATH=boot.REPO), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            except subprocess.TimeoutExpired:
                raise Violation(f"step {s}: the command does not end")
            good = sound(nodes, step)
            if good != (r.returncode == 0):
                raise Violation(f"step {s}: exit status {r.returncode} for a {'sound' if good else 'broken'} site: {r.stdout[-400:]!r}")
            if not good or step["edges"]:
                ctx.nontrivial()
            ctx.label("ok" if good else "fails")


CHECK = Check("C28", [
    Prop("graphs", lambda tier: cases(tier=tier), lambda c, x: run(c, x), quick=4000, thorough=120000),
    Prop("pool", lambda tier: cases(tier=tier, max_steps=3, rich=True), lambda c, x: run(c, x, real=True), quick=32, thorough=1000, flaky=True),
    Prop("command", lambda tier: cases(tier=tier, max_steps=3, rich=True), run_cli, quick=24, thorough=600, flaky=True),
], rule="a case is a history of reference graphs, with schedules; it counts as non-trivial when a build made three links or more, or had to fail",
    assumptions=["a partial that no page includes is not looked at, so a dangling reference in it is not an error"])

"""C02: a rebuild touches only what an edit can affect."""
import os
import re

from hypothesis import strategies as st

from vp import scratch, site, sitegen
from vp.checks import c28
from vp.core import Check, Prop, Violation


def stats(root):
    """{path: what changes when the file is written, replaced or removed}."""
    res = {}
    for top in ("out/www", "artifacts"):
        for d, dirs, files in os.walk(os.path.join(root, top)):
            for f in files:
                p = os.path.join(d, f)
                s = os.lstat(p)
                res[os.path.relpath(p, root)] = (s.st_ino, s.st_mtime_ns, s.st_size, os.readlink(p) if os.path.islink(p) else None)
    return res


def untouched(where, before, after, exempt=lambda p: False):
    n = 0
    for p in sorted(set(before) | set(after)):
        if exempt(p):
            continue
        n += 1
        if p not in before:
            raise Violation(f"{where}: {p} appears")
        if p not in after:
            raise Violation(f"{where}: {p} is removed")
        if before[p] != after[p]:
            raise Violation(f"{where}: {p} is written again")
    return n


# -- sites of every kind, dependencies taken from what the files mention ------

MAIN = "src/public/css/main.css"


def mentions(path, text, files):
    """The other files that this one depends on, at most."""
    res = set()
    if not isinstance(text, str) or sitegen.KIND.get(path) in ("plain", "svg", "png", "constants", "other"):
        return res
    for q in files:
        name = "/" + os.path.basename(q).replace(".images.json", ".images.js")
        if q != path and name in text:
            res.add(q)
    for name in re.findall(r"PREPROCESSOR: icon (\S+)", text):
        res |= {MAIN, f"src/public/img/icons/{name}.svg"}
    for name in re.findall(r"/img/icons/([^/\"')]+)/", text):
        res |= {q for q, t in files.items() if isinstance(t, str) and f"PREPROCESSOR: icon {name} " in t}
    return res


def closure(changed, graphs):
    affected = set(changed)
    again = True
    while again:
        again = False
        for g in graphs:
            for p, deps in g.items():
                if p not in affected and deps & affected:
                    affected.add(p)
                    again = True
    return affected


def owners(out, files):
    """The sources an output may come from."""
    if out.startswith("artifacts/"):
        p = out[len("artifacts/"):]
        p = p[len("out/www/"):] if p.startswith("out/www/") else p
    else:
        p = out[len("out/www/"):]
    p = p[:-5] if p.endswith(".hash") else p
    res = set()
    if "src/public/" + p in files:
        res.add("src/public/" + p)
    if p.endswith(".images.js"):
        res.add("src/public/" + p + "on")
    m = re.fullmatch(r"(?:js|css|img)/gen/(.*)/[^/]*", p)
    if m:
        res |= {q for q in files if os.path.splitext(q)[0] == "src/public/" + m[1]}
    m = re.match(r"img/icons/([^/]*)/[^/]*$", p)
    if m:
        res.add(f"src/public/img/icons/{m[1]}.svg")
        res |= {q for q, t in files.items() if isinstance(t, str) and f"PREPROCESSOR: icon {m[1]} " in t}
    m = re.match(r"img/gen/(.*)/\d+\.\w+$", p) or None
    if m:
        res |= {q for q in files if os.path.splitext(q)[0] == "src/public/css/" + m[1] or os.path.splitext(q)[0] == "src/public/" + m[1]}
    return res


def run(case, ctx, images=False):
    with scratch.tempdir() as d:
        site.project(d, {}, site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES))
        clock = sitegen.Clock(case.get("clock"))
        after_texts = sitegen.texts_after(case["steps"])
        old, graph, dev = {}, {}, None
        for i, step in enumerate(case["steps"]):
            before = stats(d)
            for op in step["ops"]:
                sitegen.apply(d, op, clock)
            kw = dict(dev=step["dev"], symlinks=step["links"])
            try:
                site.build(d, schedule=case["schedule"], **kw)
            except site.BuildFailed as e:
                ctx.label("fails")
                return
            files = after_texts[i]
            new_graph = {p: mentions(p, t, files) for p, t in files.items()}
            after = stats(d)
            if i:
                changed = set()
                for op in step["ops"]:
                    changed |= set(op[1:3]) if op[0] == "mv" else {op[1]}
                if step["dev"] != dev:
                    changed.add(sitegen.CONSTANTS)
                affected = closure(changed, [graph, new_graph])
                every = dict(old)
                every.update(files)
                pictures = variants(d, every, affected) if images else {}

                def exempt(out):
                    m = PICTURE.fullmatch(out)
                    if m and images:
                        return pictures.get(re.sub(r"\.\w+$", "", m[1]), {}).get(m[2], True)
                    own = owners(out, old) | owners(out, files)
                    if not own and (images or out not in after):
                        return True
                    return not own or bool(own & affected)

                n = untouched(f"step {i}: the edit can affect only {sorted(affected)}", before, after, exempt)
                if n and changed:
                    ctx.nontrivial()
            # and nothing at all when nothing changed
            site.build(d, schedule=case["schedule"], **kw)
            n = untouched(f"step {i}: nothing changed since", after, stats(d))
            if n >= 6:
                ctx.label("no change")
            old, graph, dev = files, new_graph, step["dev"]


PICTURE = re.compile(r"(?:out/www|artifacts)/(img/.*)/(\d+)/[^/]*")


def variants(root, files, affected):
    """{picture without extension: {number: whether an edit can affect it}} by
    the pages that show it."""
    res = {}
    for p, t in files.items():
        if not isinstance(t, dict):
            continue
        key = os.path.splitext(p[len("src/public/"):])[0]
        users = [q for q, x in files.items() if isinstance(x, str) and "/" + os.path.basename(p) in x]
        mine = res.setdefault(key, {})
        tree = {}
        for q in users:
            for out in produced(root, q, files):
                try:
                    tree.setdefault(q, "")
                    tree[q] += site.text(root, out)
                except OSError:
                    pass
        for q, text in tree.items():
            for m in re.finditer(r"/" + re.escape(key) + r"/(\d+)/", text):
                mine[m[1]] = mine.get(m[1], False) or q in affected or p in affected
    return res


def produced(root, q, files):
    if q.startswith("src/public/"):
        rel = q[len("src/public/"):]
        return ["out/www/" + (rel[:-2] if rel.endswith(".images.json") else rel)]
    return []


@st.composite
def cases(draw, images=False, tier="quick"):
    deep = tier != "quick"
    case = draw(sitegen.history(images=images, soft=True, max_steps=6 if deep else 3, max_files=18 if deep else 13))
    case["schedule"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=5)))
    return case


# -- reference graphs with known edges ---------------------------------------

def run_graph(case, ctx):
    nodes = [c28.norm(n) for n in case["nodes"]]
    paths = [c28.path_of(n) for n in nodes]
    with scratch.tempdir() as d:
        site.project(d, {}, site.config(images=site.IMAGES))
        clock = sitegen.Clock(case.get("clock"))
        now, graph = {}, {}
        fresh = True
        for s, step in enumerate(case["steps"]):
            files = c28.materialise(nodes, step)
            before = stats(d)
            changed = {p for p in set(now) | set(files) if now.get(p) != files.get(p)}
            for p in sorted(changed):
                sitegen.apply(d, ["set", p, files[p]] if p in files else ["del", p], clock)
            deps = {}
            for a, b, _ in step["edges"]:
                deps.setdefault(paths[a], set()).add(paths[b])
            try:
                site.build(d, symlinks=False, schedule=step["schedule"])
            except site.BuildFailed:
                ctx.label("fails")
                return
            after = stats(d)
            if s:
                affected = closure(changed, [graph, deps])

                def exempt(out):
                    rel = out[len("out/www/"):]
                    rel = rel[:-5] if rel.endswith(".hash") else rel
                    m = re.fullmatch(r"(?:js|css)/gen/(.*)/[^/]*", rel)
                    if m:
                        return any(os.path.splitext(q)[0] == "src/public/" + m[1] for q in affected)
                    return "src/public/" + rel in affected

                n = untouched(f"step {s}: the edit can affect only {sorted(affected)}", before, after, exempt)
                if n and changed:
                    ctx.nontrivial()
            site.build(d, symlinks=False, schedule=step["schedule"])
            untouched(f"step {s}: nothing changed since", after, stats(d))
            now, graph = files, deps


CHECK = Check("C02", [
    Prop("sites", lambda tier: cases(tier=tier), lambda c, x: run(c, x), quick=3000, thorough=80000),
    Prop("graphs", lambda tier: c28.cases(tier=tier, sound_only=True), run_graph, quick=4000, thorough=100000),
    Prop("images", lambda tier: cases(images=True, tier=tier), lambda c, x: run(c, x, True), quick=600, thorough=16000),
], rule="a case is a history of builds; it counts as non-trivial when a rebuild after an edit had outputs to leave alone",
    assumptions=["a file that is written again with the same content, or gets a new modification time, counts as edited"])

"""C21: image-json files build to a module describing the same images."""
import json
import os
import re

from hypothesis import strategies as st

from vp import imgref, jsoracle, scratch, site, sitegen
from vp.checks import c03, c19, c20
from vp.core import Check, Prop, Violation

JSONS = ["src/public/js/pics.images.json", "src/public/img/p.images.json", "src/public/a.b.images.json", "src/public/js/sub/ü 1.images.json"]
JS = ["src/public/js/main.js", "src/public/img/m.js", "src/public/zz.js"]
PAGE = "src/public/index.html"
USER = ["export default {};\n", "export default {\"a\": 1};\n", "not a module {", "", "import './none.js';\n", {"raw": "\xff\xfe"}]


def placeholder(path):
    return path[:-2]


def importer(path, jsons):
    res = []
    for i, j in enumerate(jsons):
        spec = "/" + j[len("src/public/"):-2]
        if i % 2 and os.path.dirname(j) == os.path.dirname(path):
            spec = "./" + os.path.basename(spec)
        res.append(f"import p{i} from \"{spec}\";\n")
    return "".join(res) + "export default [" + ", ".join(f"p{i}" for i in range(len(jsons))) + "];\n"


def check_importer(root, path, jsons, tree, where):
    """The importer sees what the modules hold."""
    out = path[len("src/public/"):]
    text = tree[out].decode()
    specs = [u for what, u in c03.links_of(out, text)]
    if len(specs) != len(jsons):
        raise Violation(f"{where}: {out} imports {specs}")
    files = {}
    for j, u in zip(jsons, specs):
        files[u] = tree[j[len("src/public/"):-2]].decode()
    r = jsoracle.ask("run", src=text, files=files)
    if "err" in r:
        raise Violation(f"{where}: {out} does not run: {r['err']}")
    got = c20.value(dict(r["exports"])["default"])
    got = [got[str(i)] for i in range(len(jsons))] if isinstance(got, dict) else got
    for j, g in zip(jsons, got):
        m = c20.module(where, tree[j[len("src/public/"):-2]].decode())
        if g != m:
            raise Violation(f"{where}: {out} sees {g} instead of {m}")


def stat(path):
    if not os.path.lexists(path):
        return None
    s = os.stat(path)
    with open(path, "rb") as f:
        return f.read(), s.st_ino, s.st_mtime_ns


def valid(w, j, images):
    cmds = w.jsons.get(j)
    if cmds is None or "raw" in cmds:
        return False
    return all(c19.satisfiable(c, c19.resolve(j, c["path"]), images) for c in cmds.values())


def run(case, ctx):
    with scratch.tempdir() as d:
        w, clock = c20.World(), sitegen.Clock(case.get("clock"))
        site.project(d, {}, site.config(images=case["settings"][0]))
        before, prev, last, imports = {}, {}, {}, {}
        modules = {}
        builds = changes = 0
        for i, step in enumerate(case["steps"]):
            where = f"build {i}"
            for op in step["ops"]:
                if op[0] == "touch":
                    if os.path.isfile(os.path.join(d, op[1])):
                        clock.stamp(os.path.join(d, op[1]))
                elif op[0] == "import":
                    imports[op[1]] = op[2]
                elif op[0] in ("user", "forget"):
                    pass
                else:
                    c20.apply(w, op)
            images = w.bytes()
            w.others = {}
            for js, wanted in imports.items():
                have = [j for j in wanted if valid(w, j, images)]
                if have:
                    w.others[js] = importer(js, have).encode()
            before = c20.write_world(d, w, clock, before)
            for op in step["ops"]:
                p = os.path.join(d, placeholder(op[1])) if op[0] in ("user", "forget") else None
                if op[0] == "user":
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    sitegen.apply(d, ["set", placeholder(op[1]), op[2]], clock)
                elif op[0] == "forget" and os.path.lexists(p):
                    os.remove(p)
            settings = case["settings"][step["set"] % len(case["settings"])]
            site.write(d, "vanillaplusjs.json", json.dumps(site.config(images=settings, auto_generate_images_js_placeholders=step["auto"])))
            was = {j: stat(os.path.join(d, placeholder(j))) for j in JSONS}
            hopeless = False
            at = [(PAGE, c) for p in w.pages for c in c20.placements(w, p)]
            at += [(j, c) for j, cmds in w.jsons.items() if valid(w, j, images) for c in cmds.values()]
            for p, c in at:
                src = c19.resolve(p, c["path"])
                s = c19.satisfiable(c, src, images)
                if s is None or s and p == PAGE and (c["w"], c["h"]) not in [x for x, _ in imgref.expected(settings, images[src], c["w"], c["h"], c["crop"]).get(settings["default_format"], [])]:
                    hopeless = True
            for cmds in w.jsons.values():
                if "raw" in cmds:
                    try:
                        json.loads(cmds["raw"])
                    except ValueError:
                        hopeless = True
            try:
                site.build(d, dev=step["dev"], symlinks=case["links"], schedule=step["schedule"], real=case.get("real", False), workers=4)
            except site.BuildFailed as e:
                prev, last = {}, {}
                if hopeless:
                    ctx.label("failed build")
                    continue
                raise Violation(f"{where}: fails: {e}")
            builds += 1
            prev, _ = c20.verify(d, w, settings, prev, ctx, where)
            tree = site.www(d)
            c03.check_links(tree, where + ": ")
            for js in w.others:
                check_importer(d, js, [j for j in imports[js] if valid(w, j, images)], tree, where)
                ctx.label("imported")
            for j in JSONS:
                now = stat(os.path.join(d, placeholder(j)))
                name = f"{where}: {placeholder(j)}"
                if was[j] is not None:
                    if now != was[j]:
                        raise Violation(f"{name}: was there, but became {now and now[0][:300]!r}")
                elif not step["auto"] or not valid(w, j, images):
                    if now is not None:
                        raise Violation(f"{name}: appears though {'it is not enabled' if not step['auto'] else 'there is no module'}")
                elif now is None:
                    if last.get(j) != w.jsons[j]:
                        raise Violation(f"{name}: is missing, but not generated")
                    ctx.label("placeholder not generated again")
                else:
                    if c20.module(name, now[0].decode()) != {}:
                        raise Violation(f"{name}: {now[0]!r}")
                    ctx.label("placeholder")
                out = j[len("src/public/"):-2]
                if out in tree and now is not None and os.path.samefile(os.path.join(d, "out/www", out), os.path.join(d, placeholder(j))):
                    raise Violation(f"{where}: {out} is the placeholder")
                if j not in w.jsons and out in tree:
                    raise Violation(f"{where}: {out} is served without {j}")
                if out in tree and modules.get(j) not in (None, tree[out]):
                    changes += 1
                    ctx.label("changed module")
                modules[j] = tree.get(out)
            last = {j: dict(cmds) for j, cmds in w.jsons.items()}
        if builds > 1 and changes:
            ctx.nontrivial()


# -- generators ---------------------------------------------------------------

NAMES = ["a", "b", "img 1", "ü", "", "0", "7", "constructor", "a\"b", "a'b\\", "</script>", "\u2028", "default", "line\nbreak", "a.b", "😀"]
E = {"path": "/img/p.png", "width": 3, "height": 3}
BADS = [[], 3, None, "x", True, [E], {"a": 3}, {"a": None}, {"a": [E]}, {"a": {}}, {"a": {**E, "path": 3}}, {"a": {**E, "path": "img/p.png"}}, {"a": {**E, "path": "p.png"}}, {"a": {**E, "path": "/img/none.png"}},
        {"a": {**E, "path": "/img"}}, {"a": {**E, "path": "/index.html"}}, {"a": {**E, "path": "/../secret/x.png"}}, {"a": {**E, "width": 0}}, {"a": {**E, "width": -1}}, {"a": {**E, "width": "3"}},
        {"a": {**E, "width": 3.5}}, {"a": {**E, "width": None}}, {"a": {**E, "height": 0}}, {"a": {**E, "height": 100000}}, {"a": {"path": "/img/p.png", "width": 3}}, {"a": {"path": "/img/p.png", "height": 3}},
        {"a": {**E, "crop_style": "contain"}}, {"a": {**E, "crop_style": None}}, {"a": {**E, "crop_arguments": [1]}}, {"a": {**E, "crop_arguments": None}}, {"a": {**E, "crop_arguments": {"top": 1}}},
        {"a": {**E, "crop_arguments": {"pre_top_crop": -1}}}, {"a": {**E, "crop_arguments": {"crop_left_percentage": 1.1}}}, {"a": {**E, "crop_arguments": {"crop_top_percentage": -0.1}}},
        {"a": {**E, "crop_arguments": {"pre_left_crop": 30}}}, {"a": {**E, "crop_arguments": {"pre_top_crop": 15, "pre_bottom_crop": 15}}}, {"a": {**E, "width": 40}}]
BADS += [{"a": {**E, "crop_arguments": {"pre_%s_crop" % side: n}}} for side in ("top", "left", "right", "bottom") for n in (-1, -10, 1000)]
BADS += [{"a": {**E, "crop_arguments": {"crop_%s_percentage" % side: x}}} for side in ("top", "left") for x in (-0.01, 1.01, 7, -1)]
BADS += [{"a": {**E, "crop_arguments": {"pre_%s_crop" % a: 15, "pre_%s_crop" % b: 15}}} for a, b in (("left", "right"), ("top", "bottom"))]
RAW = st.one_of(*[st.sampled_from(BADS).map(json.dumps)] * 4, st.sampled_from(["", "{", "{\"a\": ", "{}}", "export default {};"]))


@st.composite
def cases(draw, tier="quick", real=False):
    p = draw(c20.pool(draw(st.integers(2, 5))))
    settings = [draw(c19.settings_for({c["w"] * c["h"] for c in p}))]
    if draw(st.booleans()):
        settings.append(draw(c20.near(settings[0])))
    sources = sorted({c19.resolve(PAGE, c["path"])[len("src/public"):] for c in p})
    names = st.lists(st.sampled_from(NAMES), min_size=0, max_size=4, unique=True)

    def cmds():
        if draw(st.integers(0, 7)) == 0:
            return {"raw": draw(RAW)}
        return {n: draw(st.sampled_from(p)) for n in draw(names)}

    def one():
        k = draw(st.integers(0, 19))
        if k <= 4:
            return ["image", draw(st.sampled_from(sources)), draw(st.one_of(c20.spec, c20.spec, c20.spec, c20.spec, st.just("none"), st.none()))]
        if k <= 9:
            return ["json", draw(st.sampled_from(JSONS)), cmds() if draw(st.integers(0, 5)) else None]
        if k <= 11:
            return ["page", PAGE, [draw(st.lists(st.sampled_from(p), max_size=3)), False]]
        if k <= 13:
            return ["import", draw(st.sampled_from(JS)), draw(st.lists(st.sampled_from(JSONS), max_size=3, unique=True))]
        if k <= 15:
            return ["user", draw(st.sampled_from(JSONS)), draw(st.sampled_from(USER))]
        if k <= 17:
            return ["forget", draw(st.sampled_from(JSONS))]
        if k == 18:
            return ["swap", *draw(st.permutations(c20.IMAGES))[:2]]
        return ["touch", draw(st.sampled_from(["src/public" + x for x in c20.IMAGES] + [PAGE] + JSONS + [placeholder(j) for j in JSONS] + JS))]

    steps = []
    for i in range(draw(st.integers(2, 5 if tier == "quick" else 9))):
        ops = []
        if i == 0:
            ops += [["image", x, draw(c20.spec)] for x in sources]
            ops += [["json", x, cmds()] for x in draw(st.lists(st.sampled_from(JSONS), min_size=1, max_size=3, unique=True))]
            ops += [["page", PAGE, [draw(st.lists(st.sampled_from(p), max_size=3)), False]]] if draw(st.booleans()) else []
            ops += [["import", x, draw(st.lists(st.sampled_from(JSONS), min_size=1, max_size=3, unique=True))] for x in draw(st.lists(st.sampled_from(JS), max_size=2, unique=True))]
        ops += [one() for _ in range(draw(st.sampled_from([1, 2, 3, 1, 4, 0])))]
        steps.append({"ops": ops, "set": draw(st.sampled_from([0, 0, 0, 1])), "dev": draw(st.integers(0, 5)) == 0, "auto": draw(st.booleans()),
                      "schedule": draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=4)))})
    return {"settings": settings, "steps": steps, "clock": draw(sitegen.CLOCKS), "links": draw(st.booleans()), "real": real}


CHECK = Check("C21", [
    Prop("modules", lambda tier: cases(tier=tier), run, quick=2500, thorough=50000),
    Prop("workers", lambda tier: cases(tier="quick", real=True), run, quick=8, thorough=120),
], rule="a case is a history of edits of image-json files (valid and not), their images, a page with image commands, importing modules, placeholders (by the user) and the configuration, with a build after each step; modules are run by "
        "node and compared with own computations of all files and with the products of page commands of the same settings; non-trivial: a module changes between builds",
    assumptions=["Pillow resizes (Lanczos) and encodes the same pixels to the same bytes", "a placeholder that is missing is promised only for new and changed image-json files"])

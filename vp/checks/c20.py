"""C20: image products are shared, reused and never mixed up."""
import json
import os
import shutil

from hypothesis import strategies as st

from vp import imgref, jsoracle, scratch, site, sitegen
from vp.checks import c19
from vp.core import Check, Prop, Violation

IMAGES = ["/img/p.png", "/img/p.jpg", "/img/sub/p.png", "/q.webp", "/img/p/1.png", "/img/p.x.png"]
PAGES = ["src/public/index.html", "src/public/about.html", "src/public/sub/x.html", "src/partials/p.html"]
JSONS = ["src/public/js/pics.images.json", "src/public/img/p.images.json"]


# -- modules ------------------------------------------------------------------


def value(v):
    """A value that the JavaScript side described."""
    if isinstance(v, list):
        return [value(x) for x in v]
    if isinstance(v, dict):
        if v["t"] == "object":
            return {k: value(x) for k, x in v["v"]}
        if v["t"] == "number":
            f = float(v["v"])
            return int(f) if f.is_integer() else f
        raise Violation(f"the module holds a {v['t']}")
    return v


def module(where, src):
    """What the images module exports."""
    r = jsoracle.ask("run", src=src)
    if "err" in r:
        raise Violation(f"{where}: the module does not run ({r['err']}): {src[:600]!r}")
    got = {k: value(v) for k, v in r["exports"]}
    if set(got) != {"default"} or not isinstance(got["default"], dict):
        raise Violation(f"{where}: the module exports {sorted(got)}")
    return got["default"]


def check_entry(root, settings, entry, cmd, data, where):
    """One image of a module; returns the urls, by format."""
    exp = imgref.expected(settings, data, cmd["w"], cmd["h"], cmd["crop"])
    if set(entry) != {"target"} or set(entry["target"]) != {"settings", "outputs"}:
        raise Violation(f"{where}: {entry}")
    want = {"width": cmd["w"], "height": cmd["h"], "crop": "cover", "crop_settings": dict(imgref.DEFAULTS, **cmd["crop"])}
    if entry["target"]["settings"] != want:
        raise Violation(f"{where}: settings {entry['target']['settings']} instead of {want}")
    outputs = entry["target"]["outputs"]
    if set(outputs) != set(exp):
        raise Violation(f"{where}: formats {sorted(outputs)} instead of {sorted(exp)}")
    urls = {}
    for fmt, listed in outputs.items():
        if [(o["width"], o["height"]) for o in listed] != [s for s, _ in exp[fmt]]:
            raise Violation(f"{where}: {fmt} in {[(o['width'], o['height']) for o in listed]} instead of {[s for s, _ in exp[fmt]]}")
        urls[fmt] = [(o["url"], o["width"]) for o in listed]
        c19.check_files(root, settings, fmt, urls[fmt], exp[fmt], where)
        for o, (size, variants) in zip(listed, exp[fmt]):
            bad = imgref.wrong(variants, c19.fetch(root, o["url"]), o["choice"])
            if bad:
                raise Violation(f"{where}: {o['url']} {bad}")
    return urls


# -- the model ----------------------------------------------------------------


class World:
    def __init__(self):
        self.images, self.pages, self.jsons, self.others = {}, {}, {}, {}

    def bytes(self):
        return {"src/public" + p: b"no image" if s == "none" else imgref.picture(s) for p, s in self.images.items()}


def page_source(path, cmds, partial):
    body = "".join(c["hole"] % ("<!--" + c19.command_text(c) + "-->") for c in cmds)
    if path.startswith("src/partials/"):
        return f"<b>{body}</b>"
    if partial:
        body += '<!--[TEMPLATE: ["/p.html"]]-->'
    return f"<!DOCTYPE html>\n<html><head><title>t</title></head>\n<body>{body}</body></html>\n"


def json_source(cmds):
    if "raw" in cmds:
        return cmds["raw"]
    res = {}
    for name, c in cmds.items():
        e = {"path": c["path"], "width": c["w"], "height": c["h"]}
        if c["args"] >= 1:
            e["crop_style"] = "cover"
        if c["args"] >= 2:
            e["crop_arguments"] = c["crop"]
        if c["lazy"]:
            e["lazy"] = c["lazy"] == "lazy"
        res[name] = e
    return json.dumps(res)


def key(c, page):
    crop = dict(imgref.DEFAULTS, **c["crop"])
    return (c19.resolve(page, c["path"]), c["w"], c["h"], tuple(sorted(crop.items())))


def placements(w, page):
    """The commands of a page in order, with what a template adds."""
    cmds, partial = w.pages[page]
    return list(cmds) + (list(w.pages["src/partials/p.html"][0]) if partial and "src/partials/p.html" in w.pages else [])


def usable(w):
    """True when the build must succeed."""
    for page, (cmds, partial) in w.pages.items():
        if partial and "src/partials/p.html" not in w.pages and not page.startswith("src/partials/"):
            return False
    return True


def stats(root, urls):
    res = {}
    for lst in urls.values():
        for u, _ in lst:
            p = os.path.join(root, "artifacts" + u)
            if os.path.isfile(p):
                s = os.stat(p)
                res[u] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return res


def verify(root, w, settings, prev, ctx, where):
    """Checks the site of a successful build.  prev: of the last successful
    one, {key: (image bytes, settings id, urls, stats)}."""
    images = w.bytes()
    used, owner = {}, {}
    said = json.dumps(settings)  # in this order, which decides between equals

    def note(k, urls, at):
        flat = {f: [u for u, _ in lst] for f, lst in urls.items()}
        if k in used:
            if used[k][0] != flat:
                raise Violation(f"{where}: {at}: files {flat} though the same settings elsewhere have {used[k][0]}")
            ctx.label("shared")
        used[k] = (flat, stats(root, urls))
        for lst in flat.values():
            for u in lst:
                if owner.setdefault(u, k) != k:
                    raise Violation(f"{where}: {at}: {u} is used for {owner[u]} and {k}")

    for page in w.pages:
        if page.startswith("src/partials/"):
            continue
        text = site.text(root, "out/www/" + page[len("src/public/"):])
        found = [f for f in c19.read_page(text) if f[0] == "picture" or "IMAGE" in f[1]]
        cmds = placements(w, page)
        if len(found) != len(cmds):
            raise Violation(f"{where}: {page}: {len(found)} pictures and commands instead of {len(cmds)}")
        for c, (kind, what) in zip(cmds, found):
            at = f"{where}: {page}: {c19.command_text(c)}"
            src = c19.resolve(page, c["path"])
            ok = c19.satisfiable(c, src, images)
            if ok is None:
                continue
            if not ok:
                if kind != "comment" or what != c19.command_text(c):
                    raise Violation(f"{at}: is not satisfiable, but becomes {what}")
                ctx.label("unsatisfiable")
                continue
            if kind != "picture":
                raise Violation(f"{at}: is left as it is")
            note(key(c, page), c19.check_picture(root, settings, what, c, images[src], at), page)
    for path, cmds in w.jsons.items():
        out = "out/www/" + path[len("src/public/"):-2]
        if "raw" in cmds:
            if os.path.lexists(os.path.join(root, out)):
                raise Violation(f"{where}: {out} is there though {path} is {cmds['raw']!r}")
            ctx.label("invalid json")
            continue
        oks = [c19.satisfiable(c, c19.resolve(path, c["path"]), images) for c in cmds.values()]
        if not all(oks):
            if os.path.lexists(os.path.join(root, out)):
                raise Violation(f"{where}: {out} is there though an image of {path} cannot be made")
            ctx.label("unsatisfiable json")
            continue
        got = module(f"{where}: {out}", site.text(root, out))
        if set(got) != set(cmds):
            raise Violation(f"{where}: {out} has {sorted(got)} instead of {sorted(cmds)}")
        for name, c in cmds.items():
            src = c19.resolve(path, c["path"])
            note(key(c, path), check_entry(root, settings, got[name], c, images[src], f"{where}: {out}: {name}"), path)
    n = 0
    for k, (flat, st_) in used.items():
        if k in prev and prev[k][0] == images[k[0]] and prev[k][1] == said:
            if prev[k][2] != flat:
                raise Violation(f"{where}: {k}: the same image and settings as in the build before have now {flat} instead of {prev[k][2]}")
            for u, s in prev[k][3].items():
                if st_.get(u) != s:
                    raise Violation(f"{where}: {k}: the artifact {u} was not reused: {s} became {st_.get(u)}")
            n += 1
            ctx.label("reused")
        elif k in prev:
            ctx.label("renewed")
    return {k: (images[k[0]], said, flat, s) for k, (flat, s) in used.items()}, n


def write_world(root, w, clock, before):
    """Brings the files up to date with the model."""
    files = dict(w.bytes(), **w.others)
    for p, (cmds, partial) in w.pages.items():
        files[p] = page_source(p, cmds, partial).encode()
    for p, cmds in w.jsons.items():
        files[p] = json_source(cmds).encode()
    for p in set(before) - set(files):
        sitegen.apply(root, ["del", p], clock)
    for p, data in files.items():
        if before.get(p) != data:
            sitegen.apply(root, ["set", p, {"raw": data.decode("latin-1")}], clock)
    return files


def apply(w, op):
    kind, p = op[0], op[1]
    table = {"image": w.images, "page": w.pages, "json": w.jsons}.get(kind)
    if table is not None:
        if op[2] is None:
            table.pop(p, None)
        else:
            table[p] = op[2]
    elif kind == "copy" and p in w.images:
        w.images[op[2]] = w.images[p]
    elif kind == "swap" and p in w.images and op[2] in w.images:
        w.images[p], w.images[op[2]] = w.images[op[2]], w.images[p]
    elif kind == "rename" and p in w.images:
        w.images[op[2]] = w.images.pop(p)


def lose(root, picks):
    """Removes some of the artifacts, as an incomplete checkout lacks them."""
    files = []
    for d, dirs, fs in os.walk(os.path.join(root, "artifacts")):
        dirs.sort()
        files += [os.path.join(d, f) for f in sorted(fs) if f not in ("counter.txt", "placeholder.json")]
    for n in picks:
        if files:
            p = files.pop(n % len(files))
            os.remove(p)
            try:
                os.rmdir(os.path.dirname(p))
            except OSError:
                pass


def run(case, ctx):
    with scratch.tempdir() as d:
        w = World()
        clock = sitegen.Clock(case.get("clock"))
        site.project(d, {}, site.config(images=case["settings"][0]))
        before, prev = {}, {}
        builds = reuse = 0
        for i, step in enumerate(case["steps"]):
            for op in step["ops"]:
                if op[0] == "touch":
                    if op[1] in before:
                        clock.stamp(os.path.join(d, op[1]))
                else:
                    apply(w, op)
            before = write_world(d, w, clock, before)
            settings = case["settings"][step["set"] % len(case["settings"])]
            site.write(d, "vanillaplusjs.json", json.dumps(site.config(images=settings)))
            if step["rm_out"]:
                shutil.rmtree(os.path.join(d, "out"), ignore_errors=True)
                if step["lose"]:
                    lose(d, step["lose"])
                    prev = {}
            where = f"build {i}"
            images = w.bytes()
            hopeless = not usable(w)
            for page in w.pages:
                if page.startswith("src/partials/"):
                    continue
                for c in placements(w, page):
                    src = c19.resolve(page, c["path"])
                    s = c19.satisfiable(c, src, images)
                    if s and (c["w"], c["h"]) not in [x for x, _ in imgref.expected(settings, images[src], c["w"], c["h"], c["crop"]).get(settings["default_format"], [])]:
                        hopeless = True
                    if s is None:
                        hopeless = True
            try:
                site.build(d, dev=step["dev"], symlinks=case["links"], schedule=step["schedule"], real=case.get("real", False), workers=4)
            except site.BuildFailed as e:
                prev = {}
                if hopeless:
                    ctx.label("failed build")
                    continue
                raise Violation(f"{where}: fails: {e}")
            builds += 1
            prev, n = verify(d, w, settings, prev, ctx, where)
            reuse += n
        if builds > 1 and reuse:
            ctx.nontrivial()


# -- generators ---------------------------------------------------------------

DIMS = [(24, 20), (24, 20), (20, 24), (12, 12), (31, 24)]
spec = st.builds(lambda d, seed, style, fmt: {"w": d[0], "h": d[1], "mode": "RGB", "fmt": fmt, "seed": seed, "style": style},
                 st.sampled_from(DIMS), st.integers(0, 2), st.sampled_from([0, 1, 1, 2]), st.sampled_from(["png", "png", "png", "bmp", "jpeg"]))


@st.composite
def near(draw, s):
    """Settings that differ a little."""
    import copy

    s = copy.deepcopy(s)
    f = draw(st.sampled_from(sorted(s["formats"])))
    fs = s["formats"][f]
    e = fs["exports"][draw(st.sampled_from(sorted(fs["exports"])))]
    k = draw(st.integers(0, 8))
    if k == 0:
        s["formats"] = dict(reversed(list(s["formats"].items())))
    elif k == 1:
        fs["exports"] = dict(reversed(list(fs["exports"].items())))
    elif k == 2:
        e["preference"] += 1
    elif k == 3:
        s["maximum_resolution"] = s["maximum_resolution"] % 3 + 1
    elif k == 4:
        s["resolution_step"] = "0.75"
    elif k == 5:
        s["default_format"] = f
    elif k == 6:
        e["formatter_kwargs"] = draw(c19.KWARGS[f])
    elif k == 7:
        # what a weak digest of the settings may take for the same
        kw = [x for x, v in sorted(e["formatter_kwargs"].items()) if type(v) is int]
        e = fs["exports"][sorted(fs["exports"])[-1]]
        kw = [x for x, v in sorted(e["formatter_kwargs"].items()) if type(v) is int]
        if kw and kw[-1] == sorted(e["formatter_kwargs"])[-1] and fs["minimum_unit_size_bytes"] >= 31 and e["formatter_kwargs"][kw[-1]] < {"quality": 90, "compress_level": 9, "method": 2}[kw[-1]]:
            e["formatter_kwargs"][kw[-1]] += 1
            fs["minimum_unit_size_bytes"] -= 31
    else:
        fs["minimum_unit_size_bytes"] += draw(st.sampled_from([1, 31, 100, 1000]))
    return s


@st.composite
def pool(draw, n):
    """Commands of which many agree in all or all but one setting."""
    res = []
    for _ in range(n):
        if res and draw(st.integers(0, 2)):
            c = dict(draw(st.sampled_from(res)))
            k = draw(st.integers(0, 5))
            if k == 0:
                c["path"] = draw(st.sampled_from(IMAGES))
            elif k == 1:
                c["w"] = max(1, c["w"] + draw(st.integers(-1, 1)))
            elif k == 2:
                c["h"] = max(1, c["h"] + draw(st.integers(-1, 1)))
            elif k == 3:
                x = draw(st.sampled_from(c19.CROP_KEYS))
                c["crop"] = dict(c["crop"], **{x: draw(st.sampled_from([0, 1, 2] if x.startswith("pre") else [0, 0.5, 1, 0.25]))})
                c["args"] = 2
            elif k == 4:  # the same, said in another way
                c["crop"] = dict(imgref.DEFAULTS, **c["crop"]) if draw(st.booleans()) else {k: v for k, v in c["crop"].items() if v != imgref.DEFAULTS[k]}
                c["args"] = 2
            else:
                c["hole"] = draw(st.sampled_from(c19.HOLES))
            res.append(c)
        else:
            d = {p: {"w": 24, "h": 20} for p in IMAGES}
            c = draw(c19.commands(d, wild=False))
            if not c["path"].startswith("/"):
                c["path"] = "/" + c["path"]
            if draw(st.integers(0, 2)):
                c["w"], c["h"] = draw(st.sampled_from([(10, 10), (12, 8), (6, 10), (5, 5)]))
            res.append(c)
    return res


@st.composite
def cases(draw, tier="quick", real=False):
    p = draw(pool(draw(st.integers(2, 6))))
    base = draw(c19.settings_for({c["w"] * c["h"] for c in p}))
    settings = [base]
    for _ in range(draw(st.integers(0, 2))):
        settings.append(draw(near(draw(st.sampled_from(settings)))))
    some = st.lists(st.sampled_from(p), min_size=0, max_size=4)
    page = st.tuples(some, st.booleans()).map(list)
    names = st.lists(st.sampled_from(["a", "b", "img 1", "ü"]), min_size=0, max_size=3, unique=True)

    def one(first):
        k = draw(st.integers(0, 19))
        if k <= 5:
            return ["image", draw(st.sampled_from(IMAGES)), draw(st.one_of(spec, spec, spec, spec, st.just("none"), st.none()))]
        if k <= 10:
            return ["page", draw(st.sampled_from(PAGES)), draw(page) if draw(st.integers(0, 5)) else None]
        if k <= 13:
            return ["json", draw(st.sampled_from(JSONS)), {n: draw(st.sampled_from(p)) for n in draw(names)} if draw(st.integers(0, 4)) else None]
        if k == 14:
            return ["swap", *draw(st.permutations(IMAGES))[:2]]
        if k == 15:
            return ["copy", *draw(st.permutations(IMAGES))[:2]]
        if k == 16:
            return ["rename", *draw(st.permutations(IMAGES))[:2]]
        return ["touch", draw(st.sampled_from(["src/public" + x for x in IMAGES] + PAGES + JSONS))]

    steps = []
    for i in range(draw(st.integers(2, 5 if tier == "quick" else 9))):
        ops = []
        if i == 0:
            ops += [["image", x, draw(spec)] for x in draw(st.lists(st.sampled_from([c19.resolve(PAGES[0], c["path"])[len("src/public"):] for c in p]), min_size=1, max_size=4, unique=True))]
            ops += [["page", x, draw(page)] for x in draw(st.lists(st.sampled_from(PAGES), min_size=1, max_size=3, unique=True))]
            ops += [["page", "src/partials/p.html", draw(page)]] if draw(st.integers(0, 3)) else []
        ops += [one(i == 0) for _ in range(draw(st.integers(0, 3)))]
        rm = i > 0 and draw(st.integers(0, 5)) == 0
        steps.append({"ops": ops, "set": draw(st.sampled_from([0, 0, 0, 1, 2])), "dev": draw(st.booleans()) if draw(st.integers(0, 5)) == 0 else False, "rm_out": rm,
                      "lose": draw(st.lists(st.integers(0, 60), max_size=3)) if rm and draw(st.booleans()) else [],
                      "schedule": draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=4)))})
    return {"settings": settings, "steps": steps, "clock": draw(sitegen.CLOCKS), "links": draw(st.booleans()), "real": real}


CHECK = Check("C20", [
    Prop("histories", lambda tier: cases(tier=tier), run, quick=4000, thorough=60000),
    Prop("workers", lambda tier: cases(tier="quick", real=True), run, quick=8, thorough=160),
], rule="a case is a history of edits of images, pages, a partial, images.json files and the image settings, with builds in between (some after losing out/, some also after losing artifacts); after each build all files "
        "are compared with an own computation and with those of the build before; non-trivial: several builds and at least one reuse",
    assumptions=["Pillow resizes (Lanczos) and encodes the same pixels to the same bytes", "after losing artifacts or a failed build nothing is promised about reuse"])

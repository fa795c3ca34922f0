"""C19: image commands yield a correct picture element and files."""
import html.parser
import io
import json
import os
import posixpath
import re

from hypothesis import strategies as st
from PIL import Image

from vp import imgref, scratch, site
from vp.core import Check, Prop, Violation

CROP_KEYS = ["pre_top_crop", "pre_left_crop", "pre_right_crop", "pre_bottom_crop", "crop_left_percentage", "crop_top_percentage"]


# -- reading the page ---------------------------------------------------------


class Reader(html.parser.HTMLParser):
    """The pictures and comments of a page, in order."""

    def __init__(self):
        super().__init__()
        self.found = []
        self.cur = None

    def handle_starttag(self, tag, attrs):
        if tag == "picture":
            if self.cur is not None:
                raise Violation("a picture in a picture")
            self.cur = {"sources": [], "img": None}
        elif self.cur is not None:
            if tag == "source":
                if self.cur["img"] is not None:
                    raise Violation("a source after the img")
                self.cur["sources"].append(dict(attrs))
            elif tag == "img":
                if self.cur["img"] is not None:
                    raise Violation("two img in a picture")
                self.cur["img"] = dict(attrs)
            else:
                raise Violation(f"<{tag}> in a picture")
        elif tag in ("img", "source"):
            raise Violation(f"<{tag}> outside of a picture")

    def handle_endtag(self, tag):
        if tag == "picture":
            if self.cur is None or self.cur["img"] is None:
                raise Violation("a picture without img")
            self.found.append(["picture", self.cur])
            self.cur = None

    def handle_data(self, data):
        if self.cur is not None and data.strip():
            raise Violation(f"text {data!r} in a picture")

    def handle_comment(self, data):
        self.found.append(["comment", data])


def read_page(text):
    r = Reader()
    r.feed(text)
    r.close()
    if r.cur is not None:
        raise Violation("the picture does not end")
    return r.found


def srcset(value):
    res = []
    for part in (value or "").split(", "):
        m = re.fullmatch(r"(/\S+) (\d+)w", part)
        if not m:
            raise Violation(f"srcset {value!r}")
        res.append((m[1], int(m[2])))
    return res


def fetch(root, url):
    path = url.split("?")[0]
    if not path.startswith("/"):
        raise Violation(f"{url!r} is not a url of the site")
    try:
        return site.read(root, "out/www" + path)
    except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
        raise Violation(f"{url!r} is not among the built files")


PIL_NAMES = {"jpeg": "JPEG", "webp": "WEBP", "png": "PNG"}


def check_files(root, settings, fmt, listed, exp, where):
    """listed: [(url, width)] in one format; exp: [(size, variants)]."""
    if [w for _, w in listed] != [s[0] for s, _ in exp]:
        raise Violation(f"{where}: widths {[w for _, w in listed]} instead of {[s[0] for s, _ in exp]} for {fmt}")
    if len(set(u for u, _ in listed)) != len(listed):
        raise Violation(f"{where}: a file is listed twice: {listed}")
    for (url, _), (size, variants) in zip(listed, exp):
        data = fetch(root, url)
        im = Image.open(io.BytesIO(data))
        if im.format != PIL_NAMES[fmt] or im.size != size:
            raise Violation(f"{where}: {url} is {im.format} of {im.size} instead of {fmt} of {size}")
        bad = imgref.wrong(variants, data)
        if bad:
            raise Violation(f"{where}: {url} {bad}")


def check_picture(root, settings, pic, cmd, data, where):
    """Returns the urls, by format."""
    exp = imgref.expected(settings, data, cmd["w"], cmd["h"], cmd["crop"])
    img, fmts = dict(pic["img"]), [f for f in settings["formats"] if f != settings["default_format"] and f in exp]
    want = {"width": str(cmd["w"]), "height": str(cmd["h"])}
    for k, v in want.items():
        if img.get(k) != v:
            raise Violation(f"{where}: {k}={img.get(k)!r} instead of {v!r}")
    if (img.get("loading") == "lazy") != (cmd["lazy"] != "eager") or img.get("loading", "eager") not in ("lazy", "eager"):
        raise Violation(f"{where}: loading={img.get('loading')!r} for {cmd['lazy']!r}")
    if set(img) - {"width", "height", "loading", "src", "srcset"}:
        raise Violation(f"{where}: attributes {sorted(img)}")
    if len(pic["sources"]) != len(fmts):
        raise Violation(f"{where}: {len(pic['sources'])} sources for the formats {fmts}")
    urls = {}
    def by_format(s):  # the order of the sources is not specified
        first = srcset(s.get("srcset"))[0][0]
        name = Image.open(io.BytesIO(fetch(root, first))).format
        return next((i for i, f in enumerate(fmts) if PIL_NAMES[f] == name), -1)

    for fmt, s in zip(fmts, sorted(pic["sources"], key=by_format)):
        if set(s) - {"srcset", "type"} or s.get("type", "image/" + fmt) != "image/" + fmt:
            raise Violation(f"{where}: source attributes {s}")
        urls[fmt] = srcset(s.get("srcset"))
        check_files(root, settings, fmt, urls[fmt], exp[fmt], where)
    d = settings["default_format"]
    urls[d] = srcset(img.get("srcset"))
    check_files(root, settings, d, urls[d], exp[d], where)
    base = [u for (u, _), (size, _) in zip(urls[d], exp[d]) if size == (cmd["w"], cmd["h"])]
    if [img.get("src")] != base:
        raise Violation(f"{where}: src={img.get('src')!r} instead of {base}")
    return urls


# -- commands -----------------------------------------------------------------


def command_text(c):
    s = c["space"]
    t = f"{s[0]}[{s[1]}IMAGE{s[1]}: {c['path']} {c['w']}{s[2]} {c['h']}"
    if c["args"] >= 1:
        t += " cover"
    if c["args"] >= 2:
        t += " " + json.dumps(c["crop"], indent=1 if s[2] == "\n" else None)
        if c["lazy"]:
            t += " " + c["lazy"] + s[2]
    return t + s[1] + "]" + s[0]


def resolve(page, path):
    """The source below the project folder that a command means."""
    if path.startswith("/"):
        return posixpath.normpath("src/public" + path)
    return posixpath.normpath(posixpath.join(posixpath.dirname(page), path))


def satisfiable(c, src, images):
    """True, False, or None where it is not specified."""
    if src not in images:
        return False
    try:
        im = imgref.opened(images[src])
    except Exception:
        return False
    if c["w"] > im.width or c["h"] > im.height:
        return False
    crop = dict(imgref.DEFAULTS, **c["crop"])
    if im.width - crop["pre_left_crop"] - crop["pre_right_crop"] < c["w"] or im.height - crop["pre_top_crop"] - crop["pre_bottom_crop"] < c["h"]:
        return None
    return True


HOLES = ["<div>%s</div>", "<p>a %s b</p>", "%s", "<a href=\"#x\">%s</a>", "<ul><li>%s</li></ul>", "<p>x</p>\n    %s\n    <p>y</p>", "<table><tr><td>%s</td></tr></table>", "<!-- c -->%s<!-- d -->"]


def page_text(cmds, marks):
    body = "".join(c["hole"] % ("<!--" + (f"@{i}@" if marks else command_text(c)) + "-->") for i, c in enumerate(cmds))
    return f"<!DOCTYPE html>\n<html><head><title>t</title></head>\n<body>{body}\n</body></html>\n"


def run(case, ctx):
    with scratch.tempdir() as d:
        settings = case["settings"]
        images = {"src/public" + p: imgref.picture(s) for p, s in case["images"].items()}
        files = dict(images)
        files["src/public/img/none.png"] = "no image"
        files["src/secret/x.png"] = imgref.picture({"w": 60, "h": 60, "mode": "RGB", "fmt": "png", "seed": 1, "style": 0})
        files["src/publicity/x.png"] = files["src/secret/x.png"]
        for page, cmds in case["pages"].items():
            files[page] = page_text(cmds, False)
            files[page[:-5] + "-marks.html"] = page_text(cmds, True)
        if case["partial"]:
            files["src/partials/p.html"] = "<i>%s</i>" % ("<!--" + command_text(case["partial"]) + "-->")
            files["src/public/partial.html"] = "<!DOCTYPE html>\n<html><head></head><body><!--[TEMPLATE: [\"/p.html\"]]--></body></html>\n"
        site.project(d, files, site.config(images=settings))
        ok = [(page, i, c) for page, cmds in case["pages"].items() for i, c in enumerate(cmds)]
        if case["partial"]:
            ok.append(("src/public/partial.html", 0, case["partial"]))
        hopeless = unclear = False
        for page, i, c in ok:
            src = resolve(page, c["path"])
            s = satisfiable(c, src, images)
            unclear = unclear or s is None
            if s:
                exp = imgref.expected(settings, images[src], c["w"], c["h"], c["crop"])
                if (c["w"], c["h"]) not in [x for x, _ in exp.get(settings["default_format"], [])]:
                    hopeless = True
        try:
            site.build(d, dev=case["dev"], symlinks=case["links"], schedule=case["schedule"], real=case.get("real", False), workers=3)
        except site.BuildFailed as e:
            if hopeless or unclear:
                ctx.label("no default output" if hopeless else "pre-crop leaves too little")
                return
            raise Violation(f"the build fails: {e}")
        if unclear:
            ctx.label("pre-crop leaves too little")
            return
        if hopeless:
            raise Violation("the default format has no export for the size, but the build succeeds")
        n = 0
        seen = {}
        for page, cmds in list(case["pages"].items()) + ([("src/public/partial.html", [case["partial"]])] if case["partial"] else []):
            out = "out/www/" + page[len("src/public/"):]
            text = site.text(d, out)
            found = [f for f in read_page(text) if f[0] == "picture" or "IMAGE" in f[1]]
            if len(found) != len(cmds):
                raise Violation(f"{page}: {len(found)} pictures and commands instead of {len(cmds)}")
            for i, (c, (kind, what)) in enumerate(zip(cmds, found)):
                src = resolve(page, c["path"])
                where = f"{page}: {command_text(c)}"
                if not satisfiable(c, src, images):
                    if kind != "comment" or what != command_text(c):
                        raise Violation(f"{where}: is not satisfiable, but becomes {what}")
                    ctx.label("unsatisfiable")
                    continue
                if kind != "picture":
                    raise Violation(f"{where}: is left as it is")
                urls = check_picture(d, settings, what, c, images[src], where)
                if any(len(u) > 1 for u in urls.values()):
                    n += 1
                if imgref.opened(images[src]).mode != "RGB":
                    ctx.label(imgref.opened(images[src]).mode)
            if page in case["pages"]:
                marks = site.text(d, out[:-5] + "-marks.html")
                it = iter(range(len(cmds)))
                plain = re.sub(r"<picture>.*?</picture>|<!--\s*\[\s*IMAGE.*?-->", lambda m: f"<!--@{next(it)}@-->", text, flags=re.S)
                if plain != marks:
                    raise Violation(f"{page}: the rest of the page differs: {plain!r} instead of {marks!r}")
        if n:
            ctx.nontrivial()


def run_bad(case, ctx):
    with scratch.tempdir() as d:
        png = imgref.picture({"w": 20, "h": 16, "mode": "RGB", "fmt": "png", "seed": 1, "style": 0})
        text = "<!--" + case["text"] + "-->"
        site.project(d, {"src/public/img/p.png": png, "src/public/index.html": "<!DOCTYPE html>\n<html><head></head><body>" + text + "</body></html>\n"}, site.config(images=site.IMAGES))
        try:
            site.build(d)
        except site.BuildFailed:
            ctx.nontrivial()
            return
        if case["kind"] == "malformed":
            raise Violation(f"{text}: is malformed, but the build succeeds")
        if text not in site.text(d, "out/www/index.html"):
            raise Violation(f"{text}: cannot be satisfied, but the page becomes {site.text(d, 'out/www/index.html')!r}")
        ctx.label("left")


# -- generators ---------------------------------------------------------------

KWARGS = {
    "jpeg": st.fixed_dictionaries({"quality": st.integers(1, 95)}, optional={"optimize": st.booleans(), "progressive": st.booleans()}),
    "webp": st.fixed_dictionaries({"quality": st.integers(0, 100), "method": st.integers(0, 2)}, optional={"lossless": st.booleans()}),
    "png": st.fixed_dictionaries({"compress_level": st.integers(0, 9)}),
}
STEPS = ["0.5", "0.5", "1", "0.25", "0.3", "1.5", 1, 2, 0.125, "0.75", "0.1"]


@st.composite
def settings_for(draw, areas, formats=("jpeg", "webp", "png")):
    """Image settings; areas: sizes of interest for the limits of exports."""
    names = draw(st.lists(st.sampled_from(formats), min_size=1, max_size=3, unique=True))
    limit = st.one_of(st.none(), st.none(), st.sampled_from(sorted(areas) or [100]).flatmap(lambda a: st.integers(max(0, a - 1), a + 1)), st.integers(0, 4000))
    default = draw(st.sampled_from(names))
    res = {}
    for f in names:
        exports = {}
        for k in draw(st.lists(st.sampled_from(["100", "85", "30", "a", "b-1", "best", "7"]), min_size=1, max_size=4, unique=True)):
            lo, hi = draw(limit), draw(limit)
            if f == default and not exports and draw(st.integers(0, 9)):
                lo = hi = None
            exports[k] = {"min_area_px2": lo, "max_area_px2": hi, "preference": draw(st.integers(1, 9)), "formatter_kwargs": draw(KWARGS[f])}
        keys = draw(st.permutations(sorted(exports)))
        res[f] = {"minimum_unit_size_bytes": draw(st.sampled_from([0, 0, 10, 200, 350, 500, 700, 1000, 3000])), "exports": {k: exports[k] for k in keys}}
    return {"formats": res, "default_format": default, "maximum_resolution": draw(st.integers(1, 4)), "resolution_step": draw(st.sampled_from(STEPS))}


PATHS = ["/img/p.png", "/img/p.jpg", "/img/sub/q.jpg", "/r.webp", "/img/sub/deep/s.t.png", "/img/ü.png", "/img/p.PNG"]


@st.composite
def pictures(draw, most=64, modes=("RGB", "RGB", "RGB", "L"), paths=PATHS):
    res = {}
    for p in draw(st.lists(st.sampled_from(paths), min_size=1, max_size=3, unique=True)):
        size = st.one_of(st.integers(1, 8), st.integers(1, most), st.integers(most // 2, most))
        mode = draw(st.sampled_from(modes))
        fmt = draw(st.sampled_from(["png", "png", "jpeg", "webp", "bmp"] if mode == "RGB" else ["png"]))
        res[p] = {"w": draw(size), "h": draw(size), "mode": mode, "fmt": fmt, "seed": draw(st.integers(0, 3)), "style": draw(st.integers(0, 3))}
    return res


@st.composite
def crops(draw, pw, ph):
    """Crop arguments that mostly leave a part of a pw x ph picture."""
    res = {}
    for k in draw(st.lists(st.sampled_from(CROP_KEYS), max_size=4, unique=True)):
        if k.startswith("pre"):
            res[k] = draw(st.one_of(st.just(0), st.integers(0, 3), st.integers(0, max(1, (pw if "left" in k or "right" in k else ph) // 3))))
        else:
            res[k] = draw(st.sampled_from([0, 1, 0.5, 0.25, 0.0, 1.0, 0.1, 0.9, 0.3333]))
    return res


@st.composite
def commands(draw, images, page="src/public/index.html", wild=True):
    p = draw(st.sampled_from(sorted(images)))
    im = images[p]
    crop = draw(crops(im["w"], im["h"]))
    pw = max(1, im["w"] - crop.get("pre_left_crop", 0) - crop.get("pre_right_crop", 0))
    ph = max(1, im["h"] - crop.get("pre_top_crop", 0) - crop.get("pre_bottom_crop", 0))
    k = draw(st.integers(0, 9))
    if k == 0 and wild:
        w, h = draw(st.integers(1, im["w"] + 2)), draw(st.integers(1, im["h"] + 2))
    elif k <= 2:
        w, h = draw(st.integers(1, pw)), draw(st.integers(1, ph))
    elif k == 3:
        w, h = pw, ph
    else:
        f = draw(st.sampled_from([1, 1.5, 2, 3, 4, 6]))
        w, h = max(1, int(pw / f)), max(1, int(ph / draw(st.sampled_from([f, f, 1, 2.5]))))
    path = p
    r = draw(st.integers(0, 11))
    if r <= 2:
        path = posixpath.relpath("src/public" + p, posixpath.dirname(page))
    elif r == 3:
        path = draw(st.sampled_from(["/.%s", "/none/..%s", "/../public%s", "/img/./..%s", "/../../src/public%s"])) % p
    elif r == 4 and wild:
        path = draw(st.sampled_from(["/../secret/x.png", "/img/../../publicity/x.png", "/img", "/img/none.png/p.png", "/img/none.png", "/img/missing.png", "/missing.jpg", "../secret/x.png", "../publicity/x.png", "../../src/secret/x.png"]))
    args = 2 if crop else draw(st.integers(0, 2))
    return {"path": path, "w": w, "h": h, "crop": crop, "args": args, "lazy": draw(st.sampled_from([None, "lazy", "eager"])) if args == 2 else None,
            "space": [draw(st.sampled_from(["", " ", "  "])), draw(st.sampled_from(["", "", " "])), draw(st.sampled_from(["", "", " ", "\n"]))], "hole": draw(st.sampled_from(HOLES))}


@st.composite
def cases(draw, tier="quick"):
    modes = draw(st.sampled_from([("RGB",), ("RGB", "L"), ("RGB", "RGBA")]))
    images = draw(pictures(64 if tier == "quick" or draw(st.integers(0, 3)) else 200, modes))
    pages = {}
    for p in draw(st.lists(st.sampled_from(["src/public/index.html", "src/public/sub/a.html", "src/public/img/b.html"]), min_size=1, max_size=2, unique=True)):
        pages[p] = draw(st.lists(commands(images, p), min_size=1, max_size=3))
    partial = draw(commands(images, "src/public/partial.html")) if draw(st.integers(0, 4)) == 0 else None
    areas = {c["w"] * c["h"] for cs in pages.values() for c in cs} | {int(c["w"] * 1.5) * int(c["h"] * 1.5) for cs in pages.values() for c in cs}
    settings = draw(settings_for(areas, ("webp", "png") if "RGBA" in modes else ("jpeg", "webp", "png")))
    return {"images": images, "pages": pages, "partial": partial, "settings": settings, "links": draw(st.booleans()), "dev": draw(st.booleans()),
            "schedule": draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=4)))}


MALFORMED = ["/img/p.png", "/img/p.png 5", "/img/p.png five 5", "/img/p.png 5 5px", "/img/p.png 5.5 5", "/img/p.png 5 5 contain", "/img/p.png 5 5 COVER", "/img/p.png 5 5 lazy", "/img/p.png 5 5 cover lazy", "/img/p.png 5 5 cover {",
             "/img/p.png 5 5 cover {\"pre_top_crop\": 1", "/img/p.png 5 5 cover [1]", "/img/p.png 5 5 cover {'pre_top_crop': 1}", "/img/p.png 5 5 cover {\"pre_top_crop\"}", "/img/p.png 5 5 cover {\"top\": 1}", "/img/p.png 5 5 cover {\"pre_top_crop\": 1} lazily",
             "/img/p.png 5 5 cover {} lazy eager", "/img/p.png 5x5", "5 5 /img/p.png", "/img/p.png 5 five cover {}", "/img/p.png 5 5 cover {,}", "/img/p.png 5 5 cover {\"pre_top_crop\": 1,}", "/img/p.png 5,5", "/img/p.png 0x5 5", "/img/p.png 5 5 cover 7", "/img/p.png 5 5 fill {}"]
UNSAT = ["/img/p.png 21 5", "/img/p.png 5 17", "/img/p.png 100000 5", "/img/x.png 5 5", "/index.html 5 5", "../../vanillaplusjs.json 1 1", "/img 1 1", "/img/p.png 0 5", "/img/p.png 5 0", "/img/p.png -5 5", "/img/p.png 5 -5",
         "/img/p.png 5 5 cover {\"pre_left_crop\": 20}", "/img/p.png 5 5 cover {\"pre_left_crop\": 10, \"pre_right_crop\": 10}", "/img/p.png 5 5 cover {\"pre_top_crop\": 9, \"pre_bottom_crop\": 9}", "/img/p.png 0 0", "/img/p.png 5 5 cover {\"pre_bottom_crop\": 1000}"]
bad = st.one_of(
    st.sampled_from(MALFORMED).map(lambda t: {"kind": "malformed", "text": f"[IMAGE: {t}]"}),
    st.sampled_from(UNSAT).map(lambda t: {"kind": "unsatisfiable", "text": f"[IMAGE: {t}]"}),
    st.builds(lambda a, b, c: {"kind": "malformed", "text": f"[IMAGE: /img/p.png {a}5 {b}5{c}]"}, st.sampled_from(["", "x", "5_x", "e"]), st.sampled_from(["", "#"]), st.sampled_from([" x", " cover x", " cover {} x", "!", "%"])),
)

CHECK = Check("C19", [
    Prop("pictures", lambda tier: cases(tier=tier), run, quick=2500, thorough=60000),
    Prop("malformed", lambda tier: bad, run_bad, quick=200, thorough=2000),
    Prop("workers", lambda tier: cases(tier="quick").map(lambda c: dict(c, real=True)), run, quick=6, thorough=80),
], rule="a case is a project with source images of random size, mode, format and content, image settings (formats, exports with area limits and preferences, steps) and pages with image commands (pre-crops, percentages, loading mode, "
        "absolute and relative paths, missing and too small images); expected files are computed by an own crop, resize, encode and choice; non-trivial: a command with more than one resolution (malformed: the build fails)",
    assumptions=["Pillow resizes (Lanczos) and encodes the same pixels to the same bytes", "pre-crops that leave less than the requested size are unspecified", "source images are RGB, grey or (for formats that can) RGBA"])

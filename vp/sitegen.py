"""Generated sites and histories of edits, for the checks of whole builds.

A history is plain data:
  {"steps": [{"ops": [...], "dev": bool, "links": bool}, ...], ...}
where the first step's operations create the site.  An operation is
  ["set", path, text]         text, or {"png": [w, h, seed]} for an image
  ["del", path]  ["mv", old, new]  ["touch", path]
Sources only refer to sources that exist and that come earlier in a fixed
order, so a site is free of cycles unless a check adds one.
"""
import io
import os

from hypothesis import strategies as st

CONSTANTS = "src/public/js/constants.js"
CONFIG_CONSTANTS = {"relpath": CONSTANTS, "shared": {"A": 1, "HOST": "x"}, "dev": {"A": 2, "DEBUG": True}, "prod": {"DEBUG": False}}

# path -> kind, in reference order: later ones refer to earlier ones
SLOTS = [
    ("src/public/assets/a.txt", "plain"),
    ("src/public/assets/b", "plain"),
    ("src/public/assets/b/c.txt", "plain"),      # a file where the one above is a folder
    ("src/public/assets/b/d/e/f.txt", "plain"),
    ("src/public/assets/sp ace/é.svg", "svg"),
    ("src/public/img/icons/x.svg", "svg"),
    ("src/public/img/icons/y.svg", "svg"),
    ("src/public/img/p.png", "png"),
    ("src/public/img/sub/q.jpg", "png"),
    ("src/public/css/main.css", "css"),
    ("src/public/css/a.css", "css"),
    ("src/public/css/sub/b.css", "css"),
    ("src/public/css/sub/c.css", "css"),
    (CONSTANTS, "constants"),
    ("src/public/js/pics.images.json", "images"),
    ("src/public/x.images.json", "soft"),        # perhaps invalid; nothing imports its module
    ("src/public/js/a.js", "js"),
    ("src/public/js/lib/b.js", "js"),
    ("src/public/js/lib/c.js", "js"),
    ("src/public/main.js", "js"),
    ("src/partials/p.html", "partial"),
    ("src/partials/sub/q.html", "partial"),
    ("src/partials/r.html", "partial"),
    ("src/public/index.html", "html"),
    ("src/public/about.html", "html"),
    ("src/public/sub/x.html", "html"),
    ("src/public/sub/y/index.html", "html"),
    ("src/public/index.htm", "plain"),
    ("src/notes.txt", "other"),
]
KIND = dict(SLOTS)
ORDER = {p: i for i, (p, _) in enumerate(SLOTS)}
MEDIA = ("plain", "svg", "png")
PNGS = [p for p, k in SLOTS if k == "png"]
SOFT_SIZES = [(6, 6), (8, 6), (14, 14), (20, 12), (20, 18)]
DATA = ["data:image/svg+xml;utf8,<svg xmlns=%22http://www.w3.org/2000/svg%22/>", "data:image/svg+xml,%3Csvg/%3E", "data:image/png;base64,iVBORw0KGgo="]


def url(path):
    assert path.startswith("src/public/")
    return path[len("src/public"):]


SOFT = '["m"]'  # the sizes of icon commands that may not be applicable


class Model:
    """The site while it is generated: path -> list of parts (text, refs)."""

    def __init__(self, images=False, icons=True, soft=False):
        self.files = {}
        self.soft = soft
        self.images = images
        self.icons = icons
        self.version = 0
        self.icon_target = None

    def have(self, kinds, before=None):
        return [p for p in self.files if KIND[p] in kinds and (before is None or ORDER[p] < ORDER[before]) and not (KIND[p] == "css" and False)]

    def text(self, path):
        parts = self.files[path]
        if isinstance(parts, dict):
            return parts
        k = KIND[path]
        body = [t for t, _, place in parts if place == "b"]
        if k == "html":
            head = [t for t, _, place in parts if place == "h"]
            return "<!DOCTYPE html>\n<html><head><title>" + str(len(parts)) + "</title>\n" + "\n".join(head) + "</head>\n<body>" + "\n".join(body) + "</body></html>\n"
        if k in ("images", "soft"):
            return "{" + ", ".join(body) + "}"
        return "\n".join(body) + "\n"

    def refs(self, path):
        parts = self.files[path]
        if isinstance(parts, dict):
            return set()
        return {r for _, rs, _ in parts for r in rs}

    def clashes(self, path):
        """Whether a path cannot exist besides the present ones."""
        return any(p.startswith(path + "/") or path.startswith(p + "/") for p in self.files)


def rules_in(parts):
    return [t[: t.index("{")].strip() for t, _, _ in parts if t.startswith(".r")]


def has_root(parts):
    return any(t.startswith(":root") for t, _, _ in parts)


def draw_parts(draw, m, path):
    kind = KIND[path]
    m.version += 1
    v = draw(st.integers(0, 3))
    if kind in ("plain", "other", "constants"):
        return [["content %d %s" % (v, "é" * draw(st.integers(0, 2))), [], "b"]]
    if kind == "svg":
        return [['<svg xmlns="http://www.w3.org/2000/svg"><path stroke="#111111" d="M%d 1"/></svg>' % v, [], "b"]]
    if kind == "png":
        return {"png": [draw(st.sampled_from([12, 16, 24])), draw(st.sampled_from([12, 16, 20])), draw(st.integers(0, 3))]}
    if kind == "css":
        return css_parts(draw, m, path)
    if kind == "js":
        return js_parts(draw, m, path)
    if kind == "soft":
        return [['"i%d": {"path": "%s", "width": %d, "height": %d}' % (i, url(draw(st.sampled_from(PNGS))), *draw(st.sampled_from(SOFT_SIZES))), [], "b"] for i in range(draw(st.integers(0, 2)))]
    if kind == "images":
        pics = m.have(("png",), path)
        parts = []
        for i in range(draw(st.integers(0, 2)) if pics else 0):
            p = draw(st.sampled_from(pics))
            w, h = draw(st.sampled_from([(6, 6), (8, 6), (10, 10)]))
            parts.append(['"i%d": {"path": "%s", "width": %d, "height": %d, "crop_arguments": {}}' % (i, url(p), w, h), [p], "b"])
        return parts
    if kind == "partial":
        return html_parts(draw, m, path, partial=True)
    return html_parts(draw, m, path)


def soft_icon(draw, svgs):
    """An icon command that only applies while main.css has the settings; the
    other commands and all references are about the icons in the color c1."""
    t = draw(st.sampled_from(svgs))
    return '/*! PREPROCESSOR: icon %s c1 ["c2"] %s no-btn */' % (os.path.splitext(os.path.basename(t))[0], SOFT), t


def css_parts(draw, m, path):
    parts = []
    media = m.have(MEDIA, path)
    sheets = [p for p in m.have(("css",), path)]
    if path.endswith("main.css") and draw(st.integers(0, 3)):
        parts.append([":root { --col-c1: #111111; --col-c2: %s; --icon-size-m: %drem; }" % (draw(st.sampled_from(["#222222", "#333"])), draw(st.integers(1, 2))), [], "b"])
    root = bool(parts)
    for i in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 12))
        if k <= 1:
            parts.append([".r%d { margin: %dpx; }" % (i, draw(st.integers(0, 3))), [], "b"])
        elif k <= 3 and media:
            t = draw(st.sampled_from(media))
            parts.append([".r%d { background: url(%s); }" % (i, '"%s"' % url(t)), [t], "b"])
        elif k <= 5:
            parts.append([".r%d { background: url('%s'); }" % (i, draw(st.sampled_from(DATA))), [], "b"])
        elif k <= 7 and sheets:
            t = draw(st.sampled_from(sheets))
            rules = rules_in(m.files[t])
            if rules:
                parts.append([".r%d { color: red; /*! PREPROCESSOR: import %s from %s */ }" % (i, draw(st.sampled_from(rules)), url(t)), [t], "b"])
        elif k == 8 and draw(st.booleans()):
            made = [(t, x[0].split()[3]) for t in sheets for x in m.files[t] if "PREPROCESSOR: icon" in x[0] and SOFT not in x[0]]
            if made:
                t, name = draw(st.sampled_from(made))
                parts.append(['.r%d { background: url("/img/icons/%s/c1.svg"); }' % (i, name), [t], "b"])
        elif k == 8 and sheets:
            t = draw(st.sampled_from(sheets))
            parts.append(["@import url(%s);" % url(t), [t], "b"])
        elif m.icons:
            svgs = [p for p in m.have(("svg",), path) if "/icons/" in p]
            main = "src/public/css/main.css"
            if svgs and draw(st.integers(0, 3)) == 0:
                text, t = soft_icon(draw, svgs)
                parts.append([text, [t], "b"])
            elif svgs and (path == main and root or path != main and main in m.files and has_root(m.files[main])):
                t = draw(st.sampled_from(svgs))
                cols = draw(st.sampled_from(["all-colors", '["c1"]', '["c1", "c2"]']))
                name = os.path.splitext(os.path.basename(t))[0]
                parts.append(["/*! PREPROCESSOR: icon %s c1 %s all-sizes no-btn */" % (name, cols), [t] + ([] if path == main else [main]), "b"])
    return parts


def js_parts(draw, m, path):
    parts = []
    mods = m.have(("js", "constants") + (("images",) if m.images else ()), path)
    for i in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 3))
        if k <= 1 and mods:
            t = draw(st.sampled_from(mods))
            u = url(t).replace(".images.json", ".images.js")
            if u.startswith(os.path.dirname(url(path)).rstrip("/") + "/") and draw(st.booleans()):
                u = "./" + os.path.relpath(u, os.path.dirname(url(path)))
            parts.append([draw(st.sampled_from(['import "%s";', 'import * as m%d from "%%s";' % i])) % u, [t], "b"])
        elif k == 2:
            parts.append(["import { T } from './types.js'; // @vanillaplusjs:typehint" if False else "const x%d = %d; // c" % (i, draw(st.integers(0, 3))), [], "b"])
        else:
            parts.append(["console.log(%d);" % draw(st.integers(0, 3)), [], "b"])
    return parts


def html_parts(draw, m, path, partial=False):
    parts = []
    css = m.have(("css",), path)
    js = m.have(("js", "constants"), path)
    media = m.have(MEDIA, path)
    pics = m.have(("png",), path) if m.images else []
    partials = m.have(("partial",), path)
    for i in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 11))
        if k <= 1 and css and not partial:
            t = draw(st.sampled_from(css))
            parts.append(['<link rel="stylesheet" href="%s">' % url(t), [t], "h"])
        elif k <= 2 and media and not partial:
            t = draw(st.sampled_from(media))
            parts.append(['<link rel="preload" as="fetch" href="%s">' % url(t), [t], "h"])
        elif k <= 4 and js:
            t = draw(st.sampled_from(js))
            parts.append(['<script src="%s" type="module"></script>' % url(t), [t], "b"])
        elif k == 5:
            refs = []
            code = "let v = %d;" % draw(st.integers(0, 2))
            if js and draw(st.booleans()):
                refs = [draw(st.sampled_from(js))]
                code = 'import "%s";\n' % url(refs[0]) + code
            parts.append(['<script type="module">%s</script>' % code, refs, "b"])
        elif k == 6 and not partial:
            refs = []
            code = ".a { margin: %dpx }" % draw(st.integers(0, 2))
            if media and draw(st.booleans()):
                refs = [draw(st.sampled_from(media))]
                code += ' .b { background: url("%s") }' % url(refs[0])
            elif draw(st.booleans()):
                code += " .b { background: url('%s') }" % draw(st.sampled_from(DATA[1:]))
            svgs = [p for p in m.have(("svg",), path) if "/icons/" in p] if m.icons else []
            if svgs and draw(st.integers(0, 2)) == 0:
                text, t = soft_icon(draw, svgs)
                refs, code = refs + [t], code + " " + text
            parts.append(["<style>%s</style>" % code, refs, "h"])
        elif k <= 8 and partials:
            t = draw(st.sampled_from(partials))
            parts.append(['<!--[TEMPLATE: ["/%s", {"title": "t%d"}]]-->' % (t[len("src/partials/"):], draw(st.integers(0, 2))), [t], "b"])
        elif k == 9 and partial:
            parts.append(['<h1><!--[STACK: ["retrieve", "title"]]--></h1>', [], "b"])
        elif k <= 10 and m.soft and draw(st.integers(0, 2)) == 0:
            parts.append(["<div><!--[IMAGE: %s %d %d]--></div>" % (url(draw(st.sampled_from(PNGS))), *draw(st.sampled_from(SOFT_SIZES))), [], "b"])
        elif k <= 10 and pics:
            t = draw(st.sampled_from(pics))
            w, h = draw(st.sampled_from([(6, 6), (8, 6), (10, 10)]))
            extra = draw(st.sampled_from(["", "", " cover {} eager", ' cover {"crop_left_percentage": 0}']))
            parts.append(["<div><!--[IMAGE: %s %d %d%s]--></div>" % (url(t), w, h, extra), [t], "b"])
        elif k == 11 and not partial:
            parts.append(['<link rel="canonical">', [], "h"])
        else:
            parts.append(["<p>text %d</p>" % draw(st.integers(0, 3)), [], "b"])
    return parts


def broken(m, path):
    """Whether a part that another file's content decides does not hold."""
    parts = m.files[path]
    if KIND[path] != "css":
        return []
    bad = []
    for i, (t, refs, _) in enumerate(parts):
        if "PREPROCESSOR: import" in t and refs:
            rule = t.split("import ")[1].split(" from")[0]
            if rule not in rules_in(m.files.get(refs[0], [])):
                bad.append(i)
        if "/c1.svg" in t and not any(x[0].startswith("/*! PREPROCESSOR: icon " + t.split("/icons/")[1].split("/")[0]) and SOFT not in x[0] for x in m.files.get(refs[0], [])):
            bad.append(i)
        elif "/c1.svg" in t and any(x[0].startswith("/*! PREPROCESSOR: icon " + t.split("/icons/")[1].split("/")[0]) for q, k in KIND.items() if k == "css" and ORDER[q] >= ORDER[path] for x in m.files.get(q, [])):
            # whichever sheet is taken to make it, there is to be no cycle
            bad.append(i)
        if "PREPROCESSOR: icon" in t and SOFT not in t:
            main = "src/public/css/main.css"
            if path != main and not has_root(m.files.get(main, [])) or path == main and not has_root(parts):
                bad.append(i)
    return bad


def used_as_image(m, path):
    return any(path in rs and "IMAGE:" in t or path in rs and '"path":' in t for p, parts in m.files.items() if not isinstance(parts, dict) for t, rs, _ in parts)


def repair(m, ops, gone=()):
    """Drops the parts that refer to what no longer exists, until none do."""
    again = True
    while again:
        again = False
        for p in list(m.files):
            parts = m.files[p]
            if isinstance(parts, dict):
                continue
            bad = set(broken(m, p))
            keep = [x for i, x in enumerate(parts) if i not in bad and all(r in m.files for r in x[1])]
            if len(keep) != len(parts):
                m.files[p] = keep
                ops.append(["set", p, m.text(p)])
                again = True


P = "src/public/"
THEMES = [
    [P + "css/main.css", P + "css/a.css", P + "css/sub/b.css", P + "img/icons/x.svg", P + "index.html"],
    [P + "css/main.css", P + "css/sub/b.css", P + "css/sub/c.css", P + "img/icons/x.svg", P + "img/icons/y.svg"],
    ["src/partials/p.html", "src/partials/sub/q.html", P + "index.html", P + "about.html", P + "js/a.js", P + "js/lib/b.js"],
    ["src/partials/p.html", "src/partials/r.html", P + "index.html", P + "sub/x.html", P + "main.js", P + "css/a.css"],
    [P + "css/a.css", P + "css/sub/b.css", P + "css/sub/c.css", P + "assets/a.txt", P + "index.html"],
    [CONSTANTS, P + "js/a.js", P + "js/lib/b.js", P + "js/lib/c.js", P + "main.js", P + "index.html"],
]
PICTURES = [
    [P + "img/p.png", P + "index.html", P + "about.html", "src/partials/p.html"],
    [P + "img/p.png", P + "img/sub/q.jpg", P + "index.html", P + "js/pics.images.json", P + "js/a.js"],
]

SOFT_PICTURES = [
    [P + "img/p.png", P + "x.images.json", P + "index.html", "src/partials/p.html"],
    [P + "img/sub/q.jpg", P + "x.images.json", P + "index.html", P + "about.html"],
]


def slots(m):
    return [p for p, k in SLOTS if (m.images or k not in ("png", "images")) and (m.soft or k != "soft")]


@st.composite
def history(draw, images=False, icons=True, max_steps=5, max_files=10, dangling=False, modes=True, links=None, soft=False):
    """dangling: files may be removed while others refer to them.  soft: image
    commands and image-json files may not be satisfiable."""
    m = Model(images=images, icons=icons, soft=images and soft)
    steps = []
    pool = slots(m)
    n = draw(st.integers(1, max_files))
    chosen = draw(st.sets(st.sampled_from(pool), min_size=min(n, len(pool)), max_size=min(n, len(pool)))) if draw(st.integers(0, 3)) == 0 else draw(st.sets(st.sampled_from(pool), max_size=max(0, n - 6)))
    if len(chosen) <= n - 4:
        chosen = set(chosen) | set(draw(st.sampled_from((PICTURES * 2 + (SOFT_PICTURES * 2 if m.soft else []) if images else []) + THEMES)))
    chosen = sorted(chosen, key=ORDER.get)
    ops = []
    for p in chosen:
        if not m.clashes(p):
            m.files[p] = draw_parts(draw, m, p)
            ops.append(["set", p, m.text(p)])
    repair(m, ops)
    dev = draw(st.booleans()) if modes else False
    link = draw(st.booleans()) if links is None else links
    steps.append({"ops": ops, "dev": dev, "links": link})
    for _ in range(draw(st.integers(1, max_steps))):
        ops = []
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.integers(0, 9))
            have = list(m.files)
            if k <= 3 or not have:
                # edit or add
                p = draw(st.sampled_from(have)) if have and draw(st.booleans()) else draw(st.sampled_from(pool))
                if p not in m.files and m.clashes(p):
                    # one gives way to the other
                    for q in [q for q in m.files if q.startswith(p + "/") or p.startswith(q + "/")]:
                        del m.files[q]
                        ops.append(["del", q])
                m.files[p] = draw_parts(draw, m, p)
                ops.append(["set", p, m.text(p)])
            elif k <= 5:
                p = draw(st.sampled_from(have))
                del m.files[p]
                ops.append(["del", p])
            elif k <= 7:
                p = draw(st.sampled_from(have))
                others = [q for q in pool if KIND[q] == KIND[p] and q != p]
                if not others:
                    continue
                q = draw(st.sampled_from(others))
                if q not in m.files and m.clashes(q):
                    continue
                was = m.files.pop(p)
                m.files[q] = was
                ops.append(["mv", p, q])
                # references to later files are dropped
                if not isinstance(was, dict):
                    keep = [x for x in was if all(ORDER[r] < ORDER[q] for r in x[1]) and '"./' not in x[0]]
                    if len(keep) != len(was):
                        m.files[q] = keep
                        ops.append(["set", q, m.text(q)])
                if draw(st.booleans()):
                    # the other way: whoever referred to it follows
                    for o in list(m.files):
                        if isinstance(m.files[o], dict) or ORDER[o] <= ORDER[q] or KIND[p] == "partial" and False:
                            continue
                        new = [[x[0].replace(ref(p), ref(q)), [q if r == p else r for r in x[1]], x[2]] if p in x[1] else x for x in m.files[o] if p not in x[1] or ref(p) in x[0]]
                        if new != m.files[o]:
                            m.files[o] = new
                            ops.append(["set", o, m.text(o)])
            else:
                ops.append(["touch", draw(st.sampled_from(have))])
        if not dangling or draw(st.integers(0, 2)):
            repair(m, ops)
        if modes and draw(st.integers(0, 3)) == 0:
            dev = not dev
        if links is None and draw(st.integers(0, 7)) == 0:
            link = not link
        steps.append({"ops": ops, "dev": dev, "links": link})
    if dangling:
        ops = []
        repair(m, ops)
        steps.append({"ops": ops, "dev": dev, "links": link})
    return {"steps": steps, "clock": draw(CLOCKS)}


# Sites of a few stylesheets and pages that make icons, perhaps the same ones,
# and refer to each other and to the icons.  Unlike in the histories above, the
# direction of the references changes between the steps.  Without main.css
# there are no icon settings, and no icons.
TANGLE = [P + "css/main.css", P + "css/a.css", P + "css/b.css", P + "css/sub/c.css", P + "z.css", P + "index.html", P + "about.html"]
ICONS = ["x", "y"]


def tangle_text(path, f):
    """f: {"v": int, "makes": [icon], "uses": [icon], "refs": [[path, how]]}"""
    css = "".join("/*! PREPROCESSOR: icon %s c1 [\"c1\"] all-sizes no-btn */\n" % n for n in f["makes"])
    # a page does not link what it makes itself
    linked = [n for n in f["uses"] if n not in f["makes"]] if f["v"] < 3 and path.endswith(".html") else []
    css += "".join('.u%s { background: url("/img/icons/%s/c1.svg"); }\n' % (n, n) for n in f["uses"] if n not in linked)
    if path.endswith(".css"):
        head = ":root { --col-c1: #111111; --icon-size-m: %drem; }\n" % (1 + f["v"] % 2) if path.endswith("main.css") else ""
        for i, (t, how) in enumerate(f["refs"]):
            css += ".i%d { color: red; /*! PREPROCESSOR: import .own from %s */ }\n" % (i, url(t)) if how and t.endswith(".css") else '.i%d { background: url("%s"); }\n' % (i, url(t))
        return head + ".own { margin: %dpx; }\n" % f["v"] + css
    head = "".join('<link rel="stylesheet" href="%s">' % url(t) if t.endswith(".css") else '<link rel="preload" as="fetch" href="%s">' % url(t) for t, _ in f["refs"])
    head += "".join('<link rel="preload" as="image" href="/img/icons/%s/c1.svg">' % n for n in linked)
    return "<!DOCTYPE html>\n<html><head><title>%d</title>%s%s</head><body></body></html>\n" % (f["v"], head, "<style>%s</style>" % css if css else "")


def tangle_needs(files, p):
    """The files that p needs built first, whichever makes the icons it uses."""
    f = files[p]
    need = {t for t, _ in f["refs"]}
    if f["makes"] and TANGLE[0] in files:
        need.add(TANGLE[0])
    for n in f["uses"]:
        if n not in f["makes"]:
            need |= {q for q in files if n in files[q]["makes"]}
    return need - {p}


def tangle_bad(files):
    """A file to drop a reference from, with what to drop, or None."""
    for p in files:
        for t, how in files[p]["refs"]:
            if t not in files:
                return p, t
        for n in files[p]["uses"]:
            if TANGLE[0] not in files or not any(n in f["makes"] for f in files.values()):
                return p, None
    state = {}

    def visit(p):
        state[p] = 1
        for q in sorted(tangle_needs(files, p)):
            if state.get(q) == 1:
                return p, q
            if q not in state:
                r = visit(q)
                if r:
                    return r
        state[p] = 2
        return None

    for p in sorted(files):
        if p not in state:
            r = visit(p)
            if r:
                return r
    return None


@st.composite
def tangle(draw, max_steps=5):
    svg = '<svg xmlns="http://www.w3.org/2000/svg"><path stroke="#111111" d="M%d 1"/></svg>'
    ops = [["set", P + "img/icons/%s.svg" % n, svg % 1] for n in ICONS]
    files, steps = {}, []
    for s in range(draw(st.integers(2, max_steps))):
        old = {p: tangle_text(p, f) for p, f in files.items()}
        only = s and draw(st.integers(0, 3)) == 0  # only an icon changes
        order = draw(st.permutations(TANGLE))
        for i, p in enumerate(order):
            k = 9 if only else draw(st.integers(0, 7))
            if s and k >= 4:
                continue
            if k == 1:
                files.pop(p, None)
                continue
            if k in (2, 3) and p in files:
                f = dict(files[p])
                part = draw(st.sampled_from(["v", "makes", "uses"]))
                f[part] = draw(st.integers(0, 3)) if part == "v" else f[part][1:] if f[part] else [draw(st.sampled_from(ICONS))]
                files[p] = f
                continue
            before = [q for q in order[:i]]
            files[p] = {"v": draw(st.integers(0, 3)),
                        "makes": sorted(draw(st.sets(st.sampled_from(ICONS)))) if draw(st.integers(0, 2)) else [],
                        "uses": sorted(draw(st.sets(st.sampled_from(ICONS)))) if draw(st.integers(0, 2)) else [],
                        "refs": [[t, draw(st.booleans())] for t in sorted(draw(st.sets(st.sampled_from(before), max_size=2)))] if before else []}
        if TANGLE[0] not in files and draw(st.integers(0, 3)):
            files[TANGLE[0]] = {"v": 0, "makes": [], "uses": [], "refs": []}
        while True:
            bad = tangle_bad(files)
            if bad is None:
                break
            p, q = bad
            f = dict(files[p])
            if any(t == q for t, _ in f["refs"]):
                f["refs"] = [r for r in f["refs"] if r[0] != q]
            elif q == TANGLE[0] and f["makes"]:
                f["makes"] = []
            elif q is None:
                f["uses"] = [n for n in f["uses"] if TANGLE[0] in files and any(n in g["makes"] for g in files.values())]
            else:
                f["uses"] = []
            files[p] = f
        ops += [["del", p] for p in old if p not in files]
        ops += [["set", p, tangle_text(p, f)] for p, f in sorted(files.items()) if old.get(p) != tangle_text(p, f)]
        if only or draw(st.integers(0, 3)) == 0:
            ops.append(["set", P + "img/icons/%s.svg" % draw(st.sampled_from(ICONS)), svg % draw(st.integers(0, 3))])
        steps.append({"ops": ops, "dev": False, "links": False})
        ops = []
    return {"steps": steps, "clock": draw(CLOCKS)}


def ref(path):
    return path[len("src/partials"):] if path.startswith("src/partials/") else url(path)


def texts_after(steps):
    """{path: contents} after each step."""
    files, out = {}, []
    for step in steps:
        for op in step["ops"]:
            if op[0] == "set":
                files[op[1]] = op[2]
            elif op[0] == "del":
                files.pop(op[1], None)
            elif op[0] == "mv":
                files[op[2]] = files.pop(op[1])
        out.append(dict(files))
    return out


BAD = {
    "html": ['<!DOCTYPE html>\n<html><head><link rel="stylesheet" href="/css/none.css"></head><body></body></html>\n',
             '<!DOCTYPE html>\n<html><head></head><body><script src="/js/none.js"></script></body></html>\n',
             '<!DOCTYPE html>\n<html><head></head><body><!--[TEMPLATE: ["/none.html", {}]]--></body></html>\n',
             '<!DOCTYPE html>\n<html><head></head><body><p>a</p><!--[STACK: ["retrieve", "nothing"]]--></body></html>\n',
             '<!DOCTYPE html>\n<html><head></head><body><!--[TEMPLATE: ["/none.html"]--></body></html>\n',
             '<!DOCTYPE html>\n<html><head></head><body><script>import "/js/none.js";</script></body></html>\n',
             '<!DOCTYPE html>\n<html><head><style>.a { background: url("/none.png"); }</style></head><body></body></html>\n',
             {"raw": "\xff\xfe<p>"}],
    "partial": ['<!--[TEMPLATE: ["/none.html", {}]]-->', '<!--[STACK: ["retrieve", "nothing"]]-->', '<script src="/js/none.js"></script>', '<!--[STACK: ["pop", "x"]]-->'],
    "css": ['.a { background: url("/none.png"); }\n', '.a { /*! PREPROCESSOR: import .none from /css/none.css */ }\n', '.r0 { color: red } .a { /*! PREPROCESSOR: import .none */ }\n',
            '/*! PREPROCESSOR: icon none c1 all-colors all-sizes */\n', '@import "/css/none.css"; @import url(/css/none.css);\n', {"raw": ".a { content: '\xff' }"}],
    "js": ['import "/js/none.js";\n', 'import "./none.js";\nlet a;\n', 'let s = "unterminated\n', 'let r = `unterminated\n', {"raw": "let s = '\xff';"}],
    "images": ['{"a": ', '[]', '{"a": {"path": "/img/none.png", "width": 1, "height": 1}}'],
}
BAD_PATHS = {"html": "src/public/zz.html", "css": "src/public/css/zz.css", "js": "src/public/js/zz.js", "partial": "src/partials/zz.html", "images": "src/public/js/zz.images.json"}


@st.composite
def with_breaks(draw, inner, times=2):
    """A history with further steps in which some source is unsound, each
    followed by one where it is as it was."""
    case = draw(inner)
    steps = case["steps"]
    for _ in range(draw(st.integers(1, times))):
        at = draw(st.integers(1, len(steps)))
        before = texts_after(steps)[at - 1]
        kinds = ["html", "html", "css", "js", "partial", "images"] + ["cycle"]
        kind = draw(st.sampled_from(kinds))
        base = {"dev": steps[at - 1]["dev"], "links": steps[at - 1]["links"]}
        if kind == "cycle":
            ops, undo = draw_cycle(draw, before)
        else:
            have = [p for p in before if KIND.get(p) == kind] if draw(st.integers(0, 3)) else []
            p = draw(st.sampled_from(have)) if have else BAD_PATHS[kind]
            bad = draw(st.sampled_from(BAD[kind]))
            ops = [["set", p, bad]]
            undo = [["set", p, before[p]]] if p in before else [["del", p]]
        steps.insert(at, dict(base, ops=ops))
        if at + 1 < len(steps) and draw(st.booleans()):
            steps[at + 1]["ops"] = undo + steps[at + 1]["ops"]
        else:
            steps.insert(at + 1, dict(base, ops=undo))
    return case


CYCLES = [
    [("src/public/js/z1.js", 'import "/js/z2.js";\n'), ("src/public/js/z2.js", 'import * as a from "./z1.js";\n')],
    [("src/public/js/z1.js", 'import "/js/z2.js";\n'), ("src/public/js/z2.js", 'import "/js/z3.js";\n'), ("src/public/js/z3.js", 'import "./z1.js";\n')],
    [("src/public/js/z1.js", 'import "/js/z1.js";\n')],
    [("src/public/css/z1.css", "@import url(/css/z1.css);\n")],
    [("src/public/css/z1.css", "@import url(/css/z2.css);\n"), ("src/public/css/z2.css", '.a { background: url("/css/z1.css"); }\n')],
    [("src/public/css/z1.css", ".a { /*! PREPROCESSOR: import .b from /css/z2.css */ }\n"), ("src/public/css/z2.css", ".b { /*! PREPROCESSOR: import .a from /css/z1.css */ }\n")],
    [("src/public/css/z1.css", ".a { /*! PREPROCESSOR: import .a */ }\n")],
    [("src/public/css/z1.css", ".a { color: red; /*! PREPROCESSOR: import .b */ } .b { /*! PREPROCESSOR: import .a */ }\n")],
    [("src/public/z1.html", '<!DOCTYPE html>\n<html><head><link rel="preload" as="fetch" href="/z2.html"></head><body></body></html>\n'),
     ("src/public/z2.html", '<!DOCTYPE html>\n<html><head><link rel="preload" as="fetch" href="/z1.html"></head><body></body></html>\n')],
    [("src/public/z1.html", '<!DOCTYPE html>\n<html><head><link rel="preload" as="fetch" href="/z1.html"></head><body></body></html>\n')],
    [("src/public/z1.html", '<!DOCTYPE html>\n<html><head></head><body><!--[TEMPLATE: ["/z1.html", {}]]--></body></html>\n'), ("src/partials/z1.html", '<p><!--[TEMPLATE: ["/z2.html", {}]]--></p>'), ("src/partials/z2.html", '<!--[TEMPLATE: ["/z1.html", {}]]-->')],
    [("src/public/z1.html", '<!DOCTYPE html>\n<html><head></head><body><!--[TEMPLATE: ["/z1.html", {}]]--></body></html>\n'), ("src/partials/z1.html", '<!--[TEMPLATE: ["/z1.html", {}]]-->')],
    [("src/public/z1.html", '<!DOCTYPE html>\n<html><head><style>.a { background: url("/css/z1.css") }</style></head><body></body></html>\n'), ("src/public/css/z1.css", '.a { background: url("/z1.html") }\n')],
    [("src/public/z1.html", '<!DOCTYPE html>\n<html><head></head><body><script type="module">import "/js/z1.js";</script></body></html>\n'), ("src/public/js/z1.js", 'import "./z2.js";\n'), ("src/public/js/z2.js", 'import "/js/z1.js";\n')],
]


def draw_cycle(draw, before):
    """Operations that add files in a cycle, and those that undo it."""
    files = draw(st.sampled_from(CYCLES))
    ops = [["set", p, t] for p, t in draw(st.permutations(files))]
    if draw(st.booleans()):
        undo = [["del", p] for p, _ in files]
    else:
        p = draw(st.sampled_from([p for p, _ in files]))
        undo = [["del", q] for q, _ in files if q != p]
        undo = draw(st.sampled_from([undo + [["set", p, "sound"]], undo + [["del", p]]]))
    return ops, undo


_pngs = {}


def png(w, h, seed, fmt="PNG"):
    key = (w, h, seed, fmt)
    if key not in _pngs:
        import random

        from PIL import Image

        r = random.Random(seed)
        im = Image.new("RGB", (w, h))
        base = [(r.randrange(256), r.randrange(256), r.randrange(256)) for _ in range(4)]
        im.putdata([base[(x * 2 // w) + 2 * (y * 2 // h)] for y in range(h) for x in range(w)])
        b = io.BytesIO()
        im.save(b, fmt)
        _pngs[key] = b.getvalue()
    return _pngs[key]


class Clock:
    """Modification times of edits. They rise and never repeat, though edits can be
    close ("rising"), or fall, as when older versions are restored ("falling"), or
    are all the same, each edit replacing the file by another one ("frozen")."""

    def __init__(self, mode=None):
        self.now = 1_600_000_000
        self.step = {"falling": -0.125, "frozen": 0}.get(mode, 0.125)
        self.kept = []

    def stamp(self, path):
        self.now += self.step
        os.utime(path, (self.now, self.now), follow_symlinks=False)

    def replaces(self, path):
        """Called before the file is removed or written: whether to write another file"""
        if self.step == 0 and os.path.lexists(path):
            self.kept.append(open(path, "rb"))  # so that its inode isn't used again
            return True
        return False


CLOCKS = st.sampled_from(["rising", "rising", "frozen", "falling"])


def content(x):
    if isinstance(x, dict):
        if "raw" in x:
            return x["raw"].encode("latin-1")
        return png(*x["png"])
    return x.encode("utf-8")


def apply(root, op, clock):
    """Applies one operation to the sources below root."""
    p = os.path.join(root, op[1])
    if op[0] == "set":
        os.makedirs(os.path.dirname(p), exist_ok=True)
        q = os.path.join(root, "new.tmp") if clock.replaces(p) else p
        with open(q, "wb") as f:
            f.write(content(op[2]))
        clock.stamp(q)
        if q != p:
            os.replace(q, p)
    elif op[0] == "del":
        if os.path.lexists(p):
            clock.replaces(p)
            os.unlink(p)
        prune(root, os.path.dirname(op[1]))
    elif op[0] == "mv":
        q = os.path.join(root, op[2])
        os.makedirs(os.path.dirname(q), exist_ok=True)
        os.replace(p, q)
        prune(root, os.path.dirname(op[1]))
    elif op[0] == "touch":
        clock.stamp(p)


def prune(root, folder):
    while folder not in ("src", "src/public", "src/partials", ""):
        try:
            os.rmdir(os.path.join(root, folder))
        except OSError:
            break
        folder = os.path.dirname(folder)

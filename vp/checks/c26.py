"""C26: init completes a project and never overwrites anything."""
import contextlib
import json
import os
import stat
import sys

from hypothesis import strategies as st

from vp import jsoracle, scratch, site, sitegen
from vp.core import Check, Prop, Violation

FOLDERS = ["src", "src/public", "src/public/img", "src/public/js", "src/partials"]
CONFIG = "vanillaplusjs.json"
INDEX = "src/public/index.html"


def export(lo, hi, preference, **kwargs):
    return {"min_area_px2": lo, "max_area_px2": hi, "preference": preference, "formatter_kwargs": kwargs}


def webp(quality, lossless=False):
    return {"quality": quality, "method": 6, "lossless": lossless}


IMAGES = {
    "jpeg": {"50": export(360000, None, 1, quality=50), "75": export(None, None, 2, quality=75), "85": export(None, None, 3, quality=85), "100": export(None, 360000, 5, quality=100)},
    "webp": {"50": export(160000, None, 1, **webp(50)), "75": export(360000, None, 2, **webp(75)), "85": export(None, None, 3, **webp(85)),
             "100": export(None, 360000, 5, **webp(100)), "lossless": export(None, 160000, 8, **webp(100, True))},
}


def snapshot(root):
    """Everything below root, links not followed."""
    res = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            s = os.lstat(p)
            if os.path.islink(p):
                res[rel] = ("link", os.readlink(p), s.st_ino)
            elif stat.S_ISDIR(s.st_mode):
                res[rel] = ("folder", s.st_mode, s.st_ino)
            else:
                with open(p, "rb") as f:
                    res[rel] = ("file", f.read(), s.st_mode, s.st_ino, s.st_mtime_ns)
    return res


def check_defaults(where, cfg, host):
    from vanillaplusjs.build.build_context import load_external_files, load_js_constants
    from vanillaplusjs.build.html.manips.images.settings import load_image_settings
    from vanillaplusjs.constants import CONFIGURATION_VERSION

    if cfg.get("host", 0) != host or type(cfg.get("host")) is not type(host):
        raise Violation(f"{where}: the host is {cfg.get('host')!r} instead of {host!r}")
    if cfg.get("version") != CONFIGURATION_VERSION:
        raise Violation(f"{where}: version {cfg.get('version')!r}")
    if cfg.get("auto_generate_images_js_placeholders") is not True:
        raise Violation(f"{where}: placeholders are not on")
    try:
        img = load_image_settings(cfg["images"])
        ext = load_external_files(cfg["external_files"])
        js = load_js_constants(cfg["js_constants"])
    except Exception as e:
        raise Violation(f"{where}: the configuration does not load: {type(e).__name__}: {e}")
    got = {n: {k: {"min_area_px2": x.min_area_px2, "max_area_px2": x.max_area_px2, "preference": x.preference, "formatter_kwargs": x.formatter_kwargs} for k, x in f.exports.items()}
           for n, f in img.formats.items()}
    if got != IMAGES or any(f.minimum_unit_size_bytes != 85000 for f in img.formats.values()):
        raise Violation(f"{where}: image exports {got}")
    if (img.default_format, img.maximum_resolution, str(img.resolution_step)) != ("jpeg", 7, "0.5"):
        raise Violation(f"{where}: {img.default_format}, {img.maximum_resolution}, {img.resolution_step}")
    if ext != {}:
        raise Violation(f"{where}: external files {ext}")
    if (js.relpath, js.shared, js.dev, js.prod) != ("src/public/js/constants.js", {}, {"API_URL": "http://127.0.0.1:8080"}, {"API_URL": ""}):
        raise Violation(f"{where}: js constants {js}")


@contextlib.contextmanager
def inside(folder):
    old = os.getcwd()
    os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(old)


def call_init(d, how, host):
    from vanillaplusjs import main as top
    from vanillaplusjs.runners import init as ri

    if how == "function":
        ri.init(d, host)
        return
    if how == "relative":
        with inside(os.path.dirname(d)):
            ri.init(os.path.basename(d), host=host)
        return
    argv = ["vanillaplusjs", "init"] + (["--host", host] if host is not None else [])
    if how == "command --folder":
        argv += ["--folder", d]
    old = sys.argv
    try:
        sys.argv = argv
        with inside(d if how == "command" else os.path.dirname(d)):
            top.main()
    finally:
        sys.argv = old


def do_init(where, d, ev, ctx):
    before = snapshot(d)
    try:
        call_init(d, ev["how"], ev["host"])
    except SystemExit as e:
        raise Violation(f"{where}: exit {e.code}")
    except Exception as e:
        raise Violation(f"{where}: fails with {type(e).__name__}: {e}")
    after = snapshot(d)
    for p, was in before.items():
        if after.get(p) != was:
            raise Violation(f"{where}: {p} is {'gone' if p not in after else 'changed'}")
    for p in FOLDERS:
        if not os.path.isdir(os.path.join(d, p)):
            raise Violation(f"{where}: there is no folder {p}")
    for p in (CONFIG, INDEX):
        if not os.path.isfile(os.path.join(d, p)):
            raise Violation(f"{where}: there is no file {p}")
    for p in set(after) - set(before):
        if p not in FOLDERS + [CONFIG, INDEX]:
            raise Violation(f"{where}: {p} is made")
    if CONFIG not in before:
        try:
            cfg = json.loads(after[CONFIG][1])
        except ValueError as e:
            raise Violation(f"{where}: the configuration is no json: {e}")
        check_defaults(where, cfg, ev["host"])
    try:
        call_init(d, ev["again"], ev["host2"])
    except SystemExit as e:
        raise Violation(f"{where}, again: exit {e.code}")
    except Exception as e:
        raise Violation(f"{where}, again: fails with {type(e).__name__}: {e}")
    if snapshot(d) != after:
        raise Violation(f"{where}: running init again changes something")
    if set(before) & {CONFIG, INDEX} or len(before) > 0:
        ctx.nontrivial()


def do_build(where, d, dev):
    try:
        site.build(d, dev=dev)
    except site.BuildFailed as e:
        raise Violation(f"{where}: the build fails: {e}")
    if not os.path.isfile(os.path.join(d, "out/www/index.html")):
        raise Violation(f"{where}: the build makes no index.html")
    # a cold build of its own and one that reuses the first both work
    out = os.path.join(d, "out/www/js/constants.js")
    cfg = json.loads(site.read(d, CONFIG))
    if os.path.isfile(os.path.join(d, "src/public/js/constants.js")) and cfg["js_constants"]["relpath"] == "src/public/js/constants.js" and "API_URL" in cfg["js_constants"]["dev"]:
        r = jsoracle.ask("run", src=site.text(d, "out/www/js/constants.js"))
        want = cfg["js_constants"]["dev" if dev else "prod"]["API_URL"]
        if "err" in r or dict(r["exports"]).get("API_URL") not in (want, ["s", want]):
            raise Violation(f"{where}: API_URL is {r} instead of {want!r} in {out}")


def put(d, path, what):
    """Adds one thing that the folder holds already; False if it is in the way of something."""
    p = os.path.join(d, path)
    if os.path.lexists(p):
        return False
    parent = os.path.dirname(p)
    while parent != d:
        if os.path.lexists(parent) and not os.path.isdir(parent):
            return False
        parent = os.path.dirname(parent)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if what[0] == "folder":
        os.mkdir(p)
    elif what[0] == "link":
        target = os.path.join(d, "elsewhere", os.path.basename(path))
        os.makedirs(os.path.dirname(target), exist_ok=True)
        if not os.path.exists(target):
            site.write(d, os.path.relpath(target, d), what[1])
        os.symlink(target, p)
    else:
        site.write(d, path, what[1])
        os.chmod(p, what[2])
    return True


def run(case, ctx):
    with scratch.tempdir() as top:
        d = os.path.join(top, case["name"])
        os.mkdir(d)
        clock = sitegen.Clock()
        inited = False
        for i, ev in enumerate(case["events"]):
            where = f"event {i}, {ev['op']}"
            if ev["op"] == "put":
                if put(d, ev["path"], ev["what"]):
                    clock.stamp(os.path.join(d, ev["path"])) if hasattr(clock, "stamp") else None
            elif ev["op"] == "remove":
                p = os.path.join(d, ev["path"])
                if os.path.islink(p) or os.path.isfile(p):
                    os.remove(p)
                elif os.path.isdir(p) and not os.listdir(p):
                    os.rmdir(p)
            elif ev["op"] == "init":
                do_init(where, d, ev, ctx)
                do_build(where, d, ev["dev"])
                inited = True
            elif ev["op"] == "clean" and inited:
                from vanillaplusjs.runners.clean import clean
                if os.path.isfile(os.path.join(d, CONFIG)):
                    clean(d, False)


MINE = json.dumps({"version": "1.0.0", "host": "my.host", "images": site.IMAGES, "auto_generate_images_js_placeholders": False, "external_files": {},
                   "js_constants": {"relpath": "src/public/js/my.js", "shared": {"A": 1}, "dev": {}, "prod": {}}})
HOLD = {
    CONFIG: [MINE, MINE.replace('"host": "my.host"', '"host": null'), "  " + MINE + "\n\n"],
    INDEX: ["<!DOCTYPE html>\n<html><head></head><body>mine</body></html>\n", "<!DOCTYPE html>\r\n<html><head></head><body><p>ü</p></body></html>"],
    "src/public/css/main.css": [":root { --x: 1px; }\n", "a { color: red; }"],
    "src/public/js/constants.js": ["", "export const API_URL = 'mine';"],
    "src/public/js/a.js": ["export const a = 1;\n", 'import "/js/a.js";\n'.replace("import \"/js/a.js\";", "let x;")],
    "src/partials/p.html": ["<p>partial</p>", ""],
    "src/public/about.html": ["<!DOCTYPE html>\n<html><head></head><body>about</body></html>"],
    "src/public/assets/big.bin": ["\0\1\2", "x" * 1000],
    "src/public/img/icons/c.svg": ['<svg xmlns="http://www.w3.org/2000/svg" width="1" height="1"></svg>'],
    "src/public/js/pics.images.json": ["{}"],
    "src/notes.txt": ["notes"], "README.md": ["read me"], ".gitignore": ["out/\n"], "index.html": ["not the page"], "package.json": ["{}"],
    "artifacts/old": ["old"], "src/public/index.htm": ["<p>htm</p>"], "vanillaplusjs.json.bak": ["{"], "src/public/js.txt": ["js"], "src/public/INDEX.html.txt": ["upper"],
}
EMPTY = ["src", "src/public", "src/public/img", "src/public/js", "src/partials", "docs", "src/public/css", "src/public/img/icons"]
LINKS = [p for p in HOLD if p not in ("artifacts/old",)]
hosts = st.one_of(st.none(), st.sampled_from(["example.com", "www.example.com:8080", "", "münchen.de", "a\"b", "\\", "localhost", "例え.jp", "xn--a", "a b", "😀", "null"]), st.text(max_size=8))


def cli_host(h):
    return h is None or not h.startswith("-") and "\ud800" not in h


@st.composite
def holds(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return {"op": "put", "path": draw(st.sampled_from(EMPTY)), "what": ["folder"]}
    path = draw(st.sampled_from(sorted(HOLD)))
    if k <= 2:
        path = draw(st.sampled_from([CONFIG, INDEX]))
    text = draw(st.sampled_from(HOLD[path]))
    if k == 3 and path in LINKS:
        return {"op": "put", "path": path, "what": ["link", text]}
    return {"op": "put", "path": path, "what": ["file", text, draw(st.sampled_from([0o644, 0o600, 0o444, 0o755]))]}


@st.composite
def inits(draw):
    return {"op": "init", "how": draw(st.sampled_from(["function", "relative", "command", "command --folder"])), "again": draw(st.sampled_from(["function", "relative", "command", "command --folder"])),
            "host": draw(hosts.filter(cli_host)), "host2": draw(hosts.filter(cli_host)), "dev": draw(st.booleans())}


@st.composite
def cases(draw, tier="quick"):
    events = draw(st.lists(holds(), max_size=7))
    for _ in range(draw(st.integers(1, 3 if tier == "quick" else 5))):
        events.append(draw(inits()))
        for _ in range(draw(st.integers(0, 3))):
            events.append(draw(st.one_of(holds(), st.builds(lambda p: {"op": "remove", "path": p}, st.sampled_from([CONFIG, INDEX, INDEX] + EMPTY + sorted(HOLD))),
                                         st.just({"op": "clean"}))))
    if events[-1]["op"] != "init":
        events.append(draw(inits()))
    return {"name": draw(st.sampled_from(["site", "my site", "süß", "src", "a.b"])), "events": events}


CHECK = Check("C26", [
    Prop("init", lambda tier: cases(tier=tier), run, quick=3000, thorough=100000),
], rule="a case is a folder's content and a sequence of init runs, edits, removals and builds; it counts as non-trivial when init ran on a folder that already held something",
    assumptions=["the folder exists", "no file has the name of a folder that the layout needs (or the reverse)", "a configuration that is already there is valid"])

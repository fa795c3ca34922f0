"""C05: builds are reproducible."""
import os
import random
import shutil

from hypothesis import strategies as st

from vp import scratch, site, sitecmp, sitegen
from vp.core import Check, Prop, Violation
from vp.peer import peer

NAMES = ["p", "a b", "é", "src", "out", "www.src.public", "x" * 80, "d/e/f", "artifacts/src/public", "#1", "%41"]


def write(root, files, order, cfg):
    site.project(root, {}, cfg)
    clock = sitegen.Clock()
    paths = sorted(files)
    random.Random(order).shuffle(paths)
    for p in paths:
        sitegen.apply(root, ["set", p, files[p]], clock)


def trees(root):
    return site.www(root), site.read_tree(root, "artifacts")


def same(what, a, b, exact):
    for name, x, y in (("out/www/", a[0], b[0]), ("artifacts/", a[1], b[1])):
        if not exact:
            f = sitecmp.plain if name.startswith("out") else sitecmp.artifacts
            x, y = f(x), f(y)
        diff = sitecmp.summary(y, x)
        if diff:
            raise Violation(f"{what}: {name}{diff}")


def run(case, ctx, images, real=False):
    files = sitegen.texts_after(case["steps"])[-1]
    dev = case["steps"][-1]["dev"]
    cfg = site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES)
    with scratch.tempdir() as d:
        a = os.path.join(d, "one")
        write(a, files, 0, cfg)
        site.build(a, dev=dev, symlinks=False)
        want = trees(a)
        for i, v in enumerate(case["variants"]):
            b = os.path.join(d, str(i), v["name"])
            write(b, files, v["order"], cfg)
            kw = dict(dev=dev, symlinks=v["links"])
            if real:
                site.build(b, real=True, workers=v["order"] % 4 + 1, **kw)
            else:
                peer(v["hash"]).build(b, listing=v["order"], inside=v["inside"], schedule=v["schedule"], **kw)
            got = trees(b)
            same(f"built in {v['name']!r}, links {v['links']}, another order", want, got, exact=not images)
            if v["again"]:
                # a copy without out/ but with the artifacts
                shutil.rmtree(os.path.join(b, "out"), ignore_errors=True)
                if real:
                    site.build(b, real=True, **kw)
                else:
                    peer(v["hash"] + 1).build(b, listing=v["order"] + 1, inside=not v["inside"], schedule=v["schedule"], **kw)
                same("built again with the artifacts kept", got, trees(b), exact=True)
                ctx.label("again")
            if v["links"]:
                ctx.label("links")
        if len(files) >= 3:
            ctx.nontrivial()


@st.composite
def cases(draw, images=False, tier="quick", variants=2):
    deep = tier != "quick"
    case = draw(sitegen.history(images=images, soft=True, max_steps=1, max_files=16 if deep else 11))
    case["variants"] = [{
        "name": draw(st.sampled_from(NAMES)), "order": draw(st.integers(0, 99)), "links": draw(st.booleans()), "inside": draw(st.booleans()),
        "hash": draw(st.integers(1, 3)) * 10, "schedule": draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=6))), "again": draw(st.booleans()),
    } for _ in range(draw(st.integers(1, variants)))]
    return case


CHECK = Check("C05", [
    Prop("sites", lambda tier: cases(tier=tier), lambda c, x: run(c, x, False), quick=2000, thorough=60000),
    Prop("images", lambda tier: cases(images=True, tier=tier), lambda c, x: run(c, x, True), quick=600, thorough=20000),
    Prop("pool", lambda tier: cases(images=True, tier=tier, variants=1), lambda c, x: run(c, x, True, real=True), quick=24, thorough=800, flaky=True),
], rule="a case is a site built in one way and in one or two others; it counts as non-trivial when it has three files or more",
    assumptions=["the numbers that the variants of an image get (img/x/<n>/) are not compared between two builds without artifacts in common"])

"""C01: incremental builds equal a from-scratch build."""
import json

from hypothesis import strategies as st

from vp import scratch, site, sitecmp, sitegen
from vp.core import Check, Prop, Violation


def run_history(case, ctx, images=False):
    with scratch.tempdir() as d:
        site.project(d, {}, site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES))
        clock = sitegen.Clock(case.get("clock"))
        edits = 0
        for i, step in enumerate(case["steps"]):
            if "config" in step:
                site.write(d, "vanillaplusjs.json", json.dumps(configuration(step["config"])))
                ctx.label("settings changed")
            for op in step["ops"]:
                sitegen.apply(d, op, clock)
            edits += i > 0 and bool(step["ops"])
            try:
                want, wart = sitecmp.reference(d, step["dev"], step["links"])
            except site.BuildFailed as e:
                ctx.label("clean fails")
                raise Violation(f"step {i}: a from-scratch build of sound sources fails: {e}")
            try:
                site.build(d, dev=step["dev"], symlinks=step["links"], schedule=case.get("schedule"))
            except site.BuildFailed as e:
                raise Violation(f"step {i}: the build fails, but succeeds from scratch: {e}")
            got, gart = site.www(d), site.read_tree(d, "artifacts")
            compare(i, got, want, gart, wart, images)
        if edits:
            ctx.nontrivial()


HOSTS = ["www.example.com", "example.org", "a.b"]
FORMATS = {
    "jpeg": {"minimum_unit_size_bytes": 10, "exports": {
        "30": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {"quality": 30}},
        "90": {"min_area_px2": None, "max_area_px2": 100, "preference": 3, "formatter_kwargs": {"quality": 90}}}},
    "webp": {"minimum_unit_size_bytes": 10, "exports": {"60": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {"quality": 60, "method": 0}}}},
    "png": {"minimum_unit_size_bytes": 10, "exports": {"100": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}}},
}


def configuration(c):
    formats = {f: json.loads(json.dumps(FORMATS[f])) for f in c["formats"]}
    for f in formats.values():
        for e in f["exports"].values():
            if "quality" in e["formatter_kwargs"]:
                e["formatter_kwargs"]["quality"] += c["quality"]
    constants = json.loads(json.dumps(sitegen.CONFIG_CONSTANTS))
    constants["shared"].update(c["constants"])
    if c["relpath"]:
        constants["relpath"] = c["relpath"]
    return site.config(host=c["host"], js_constants=constants, images=dict(site.IMAGES, formats=formats, default_format=c["formats"][0], resolution_step=c["step"]))


@st.composite
def with_config(draw, inner):
    c = draw(inner)
    for step in c["steps"][draw(st.integers(0, 1)):]:
        if draw(st.booleans()):
            step["config"] = {"host": draw(st.sampled_from(HOSTS)), "formats": draw(st.sampled_from([["jpeg"], ["jpeg", "webp"], ["webp", "jpeg"], ["jpeg", "png"]])), "quality": draw(st.sampled_from([0, 0, 5])),
                              "constants": draw(st.dictionaries(st.sampled_from(["A", "B"]), st.integers(0, 2), max_size=2)), "step": draw(st.sampled_from(["0.5", "0.25"])),
                              "relpath": draw(st.sampled_from([None, None, "src/public/js/a.js", "src/public/js/lib/c.js"]))}
    return c


def compare(i, got, want, gart, wart, images):
    if images:
        got, want = sitecmp.plain(got), sitecmp.plain(want)
        gart, wart = sitecmp.artifacts(gart), sitecmp.artifacts(wart)
    diff = sitecmp.summary(got, want)
    if diff:
        raise Violation(f"step {i}: out/www/{diff}")
    diff = sitecmp.summary(gart, wart)
    if diff:
        raise Violation(f"step {i}: artifacts/{diff}")


def plain_strategy(tier):
    return with_schedule(sitegen.history(max_steps=5 if tier == "quick" else 8, max_files=10 if tier == "quick" else 16))


@st.composite
def with_schedule(draw, inner):
    c = draw(inner)
    c["schedule"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=5)))
    return c


def run_plain(case, ctx):
    run_history(case, ctx)


def images_strategy(tier):
    return with_schedule(sitegen.history(images=True, soft=True, max_steps=4 if tier == "quick" else 7, max_files=8 if tier == "quick" else 12))


def run_images(case, ctx):
    run_history(case, ctx, images=True)


CHECK = Check("C01", [Prop("history", plain_strategy, run_plain, quick=4000, thorough=100000), Prop("images", images_strategy, run_images, quick=400, thorough=12000),
                     Prop("shared icons", lambda tier: with_schedule(sitegen.tangle(max_steps=6 if tier == "quick" else 8)), run_plain, quick=2400, thorough=60000),
                     Prop("settings", lambda tier: with_config(plain_strategy(tier)), run_plain, quick=1000, thorough=30000), Prop("image settings", lambda tier: with_config(images_strategy(tier)), run_images, quick=300, thorough=8000)],
              rule="a case is a history of builds; it counts as non-trivial when a build after the first one follows edits to the sources",
              assumptions=[])

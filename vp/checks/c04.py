"""C04: a failed or interrupted build never poisons the next one."""
import json
import os

from hypothesis import strategies as st

from vp import faults, scratch, site, sitecmp, sitegen
from vp.core import Check, Prop, Violation


def reference(d, step):
    try:
        return sitecmp.reference(d, step["dev"], step["links"])
    except site.BuildFailed as e:
        return str(e)


def run_case(case, ctx, images=False):
    failed = 0
    with scratch.tempdir() as d:
        site.project(d, {}, site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES))
        clock = sitegen.Clock(case.get("clock"))
        for i, step in enumerate(case["steps"]):
            for op in step["ops"]:
                sitegen.apply(d, op, clock)
            kw = dict(dev=step["dev"], symlinks=step["links"], schedule=case.get("schedule"))
            for f in step.get("faults", []):
                how, out = faults.faulty_build(d, f["at"], f["mode"], within=f.get("within", ""), **kw)
                ctx.label(how + (" by fault" if out.get("hit") else ""))
                if how == "done" and not out["hit"]:
                    break  # it has no such point
                if how != "done":
                    failed += 1
                else:
                    # a fault it claims to have coped with: check below
                    pass
                last = out.get("killed") or out.get("hit")
            if step.get("onward") and i + 1 < len(case["steps"]):
                # the sources are edited before anything is built again
                ctx.label("edited first")
                continue
            want = reference(d, step)
            try:
                site.build(d, **kw)
            except site.BuildFailed as e:
                if isinstance(want, str):
                    failed += 1
                    ctx.label("fails")
                    continue
                raise Violation(f"step {i}: a build of sound sources fails after an unsuccessful one: {e}")
            if isinstance(want, str):
                raise Violation(f"step {i}: the build claims success over sources that fail from scratch with {want}")
            got, (want, wart) = site.www(d), want
            if images:
                got, want = sitecmp.plain(got), sitecmp.plain(want)
            diff = sitecmp.summary(got, want)
            if diff:
                raise Violation(f"step {i}: after an unsuccessful build out/www/{diff}")
            if failed:
                ctx.nontrivial()


@st.composite
def broken(draw, images=False, tier="quick"):
    deep = tier != "quick"
    inner = sitegen.history(images=images, soft=True, max_steps=6 if deep else 3, max_files=12 if deep else 8, dangling=draw(st.integers(0, 3)) == 0)
    case = draw(sitegen.with_breaks(inner, times=3 if deep else 2))
    case["schedule"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=5)))
    return case


@st.composite
def killed(draw, images=False, tier="quick"):
    deep = tier != "quick"
    inner = sitegen.history(images=images, soft=True, max_steps=5 if deep else 3, max_files=12 if deep else 8)
    case = draw(sitegen.with_breaks(inner, times=1)) if draw(st.integers(0, 3)) == 0 else draw(inner)
    for step in draw(st.sets(st.integers(0, len(case["steps"]) - 1), min_size=1, max_size=2)):
        case["steps"][step]["faults"] = [{"at": draw(st.one_of(st.integers(1, 12), st.integers(1, 60 if not images else 150))), "mode": draw(st.sampled_from(["before", "after", "fail"]))}
                                         for _ in range(draw(st.integers(1, 2)))]
        for f in case["steps"][step]["faults"]:
            if draw(st.integers(0, 2)) == 0:
                # among what is done to the build's own records
                f.update(within="out", at=draw(st.integers(1, 14)))
            elif images and draw(st.integers(0, 1)) == 0:
                # among what is done to the exported images and their records
                f.update(within="artifacts/", at=draw(st.integers(1, 40)))
            elif images and draw(st.integers(0, 3)) == 0:
                # at the placeholders
                f.update(within="src/", at=draw(st.integers(1, 4)))
        case["steps"][step]["onward"] = draw(st.booleans())
    case["schedule"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=5)))
    return case


@st.composite
def exporting(draw):
    """Builds cut short while the exports of a few images are made."""
    pics = draw(st.lists(st.sampled_from(["src/public/img/p.png", "src/public/img/sub/q.jpg"]), min_size=1, max_size=2, unique=True))

    def shot(p):
        return ["set", p, {"png": [draw(st.sampled_from([12, 16, 24])), draw(st.sampled_from([12, 16, 20])), draw(st.integers(0, 3))]}]

    def page(name):
        sizes = [(draw(st.sampled_from(pics)), *draw(st.sampled_from([(6, 6), (8, 6), (10, 10)]))) for _ in range(draw(st.integers(1, 2)))]
        body = "".join("<div><!--[IMAGE: %s %d %d]--></div>\n" % (p[len("src/public"):], w, h) for p, w, h in sizes)
        return ["set", "src/public/%s.html" % name, "<!DOCTYPE html>\n<html><head><title>t</title></head><body>\n%s</body></html>\n" % body]

    steps = []
    for i in range(draw(st.integers(1, 3))):
        ops = [shot(p) for p in pics if i == 0 or draw(st.integers(0, 2)) == 0]
        ops += [page(n) for n in ("index", "about") if (i == 0 and n == "index") or draw(st.integers(0, 2)) == 0]
        step = {"ops": ops, "dev": False, "links": False}
        if i == 0 or draw(st.booleans()):
            step["faults"] = [{"at": draw(st.integers(1, 45)), "mode": draw(st.sampled_from(["before", "before", "after", "fail"])), "within": draw(st.sampled_from(["artifacts/", "artifacts/", "out/www/img/", "out/locks/"]))}
                              for _ in range(draw(st.integers(1, 2)))]
        step["onward"] = draw(st.integers(0, 3)) == 0
        steps.append(step)
    return {"steps": steps}


def run_external(case, ctx):
    """Builds with external files that are killed."""
    from vp.checks import c25

    srv = c25.server()
    port = srv.server_address[1]
    with scratch.tempdir() as d:
        site.project(d, {}, site.config())
        clock = sitegen.Clock()
        managed, unsure = set(), False
        for i, step in enumerate(case["steps"]):
            where = f"step {i}"
            cfg = step["config"]
            name = lambda p: f"/{i}/{c25.PATHS.index(p)}"
            right = {p: c25.contents(p, v) for p, v in cfg.items()}
            srv.right = {name(p): x for p, x in right.items()}
            srv.how = {name(p): "ok" for p in cfg}
            for p, how in step["ops"]:
                old = c25.disk(d, p)
                if old is not None and how == "delete":
                    os.remove(os.path.join(d, p))
                elif old is not None and c25.tampered(old, how) != old:
                    sitegen.apply(d, ["set", p, {"raw": c25.tampered(old, how).decode("latin-1")}], clock)
            site.write(d, "src/public/index.html", c25.page(cfg))
            clock.stamp(os.path.join(d, "src/public/index.html"))
            site.write(d, "vanillaplusjs.json", json.dumps(site.config(external_files={
                p: {"url": f"http://127.0.0.1:{port}{name(p)}", "integrity": c25.integrity("sha256", right[p])} for p in cfg})))
            for f in step["faults"]:
                how, out = faults.faulty_build(d, f["at"], f["mode"], within=f["within"])
                ctx.label(how + (" by fault" if out.get("hit") else ""))
                if how == "done" and not out["hit"]:
                    break
                unsure = True
            if step["onward"] and i + 1 < len(case["steps"]):
                ctx.label("edited first")
                continue
            try:
                site.build(d)
            except site.BuildFailed as e:
                raise Violation(f"{where}: a build of sound sources fails after an unsuccessful one: {e}")
            for p in cfg:
                if c25.disk(d, p) != right[p]:
                    raise Violation(f"{where}: {p} is {c25.show(c25.disk(d, p))} instead of {c25.show(right[p])}")
            for p in managed - set(cfg):
                if c25.disk(d, p) is not None:
                    raise Violation(f"{where}: {p} is not configured any more, but still there")
            managed = set(cfg)
            want = sitecmp.reference(d, False, False)[0]
            diff = sitecmp.summary(site.www(d), want)
            if diff:
                raise Violation(f"{where}: after an unsuccessful build out/www/{diff}")
            if unsure:
                ctx.nontrivial()


@st.composite
def external(draw):
    from vp.checks import c25

    paths = draw(st.lists(st.sampled_from(c25.PATHS), min_size=1, max_size=3, unique=True))
    steps = []
    for i in range(draw(st.integers(1, 4))):
        cfg = {p: draw(st.integers(0, 1)) for p in paths if draw(st.integers(0, 3))}
        ops = [[p, draw(st.sampled_from(["delete", "cut", "append"]))] for p in paths if i and draw(st.integers(0, 3)) == 0]
        fs = [{"at": draw(st.integers(1, 14)), "mode": draw(st.sampled_from(["before", "before", "after", "fail"])), "within": draw(st.sampled_from(["out", "out", "", "src/", "lib/"]))}
              for _ in range(draw(st.integers(0 if i else 1, 2)))]
        steps.append({"config": cfg, "ops": ops, "faults": fs, "onward": draw(st.integers(0, 3)) == 0})
    return {"steps": steps}


CHECK = Check("C04", [
    Prop("unsound", lambda tier: broken(tier=tier), lambda c, ctx: run_case(c, ctx), quick=2000, thorough=60000),
    Prop("killed", lambda tier: killed(tier=tier), lambda c, ctx: run_case(c, ctx), quick=2000, thorough=60000),
    Prop("images", lambda tier: killed(images=True, tier=tier), lambda c, ctx: run_case(c, ctx, True), quick=300, thorough=12000),
    Prop("exports", lambda tier: exporting(), lambda c, ctx: run_case(c, ctx, True), quick=400, thorough=12000),
    Prop("external files", lambda tier: external(), run_external, quick=500, thorough=15000),
], rule="a case is a history of builds, some of which fail or are cut short; it counts as non-trivial when a build succeeds after one that did not",
    assumptions=["a kill ends the build's process between two file system operations, with up to half of a file being written on disk; reordering of writes by a machine that loses power is not covered"])

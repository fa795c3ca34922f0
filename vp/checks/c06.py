"""C06: building never alters sources; cleaning removes only products."""
import builtins
import contextlib
import io
import json
import os

from hypothesis import strategies as st

from vp import scratch, site, sitegen
from vp.core import Check, Prop, Violation

JSONS = ["src/public/js/pics.images.json", "src/public/x.images.json", "src/public/js/sub/y z.images.json", "src/partials/p.images.json"]
PUBLIC_JSONS = JSONS[:3]
EXTRA = ["README.md", "notes/a.txt", "outer/index.html", "out.txt", "artifacts.txt", "artifacts2/x/1/metadata.json", ".git/config", "src/a.js", "src/sub/b.css", "src/out/www/index.html",
         "src/public/out/a.txt", "src/public/artifacts/a.txt", "node_modules/x/out/y.js", "placeholder_graph.json", "src/public/assets/a.txt.hash", "src/public/index.html.hash",
         "src/public/js/gen/index/1.js", "src/public/css/gen/index/1.css", "src/public/img/icons/x/c1.svg", "src/public/js/pics.images.js.hash", "src/public/img/p/1/placeholder.json",
         "src/public/img/p/1/6x6.jpeg", "src/public/js/constants.js.hash", "src/public/locks/a"]


def snapshot(root):
    res = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel == ".":
            dirs[:] = sorted(x for x in dirs if x not in ("out", "artifacts"))
        else:
            res[rel + "/"] = "folder"
        for f in files:
            p = os.path.join(d, f)
            s = os.lstat(p)
            with open(p, "rb") as h:
                res[os.path.normpath(os.path.join(rel, f))] = (h.read(), s.st_mtime_ns, s.st_ino, s.st_mode, os.path.islink(p))
    return res


def compare(where, before, after, may_come=(), may_go=()):
    for p in sorted(set(before) | set(after)):
        if p not in after and p not in may_go:
            raise Violation(f"{where}: {p} is gone")
        if p not in before and p not in may_come:
            raise Violation(f"{where}: {p} appears")
        if p in before and p in after and before[p] != after[p]:
            what = "changed" if before[p][0] != after[p][0] else "written again"
            raise Violation(f"{where}: {p} is {what}: {after[p][0][:200]!r}")


def js_of(j):
    return j[:-2]


def cleaned(d, placeholders, how):
    """how: None, "flag", or what is answered to the prompt of the command."""
    from vanillaplusjs.runners.clean import clean, main

    if how is None:
        return clean(d, placeholders)
    answers = list(how) if how != "flag" else []

    def answer(*a):
        if not answers:
            raise Violation(f"clean {how}: asks again")
        return answers.pop(0)

    real, builtins.input = builtins.input, answer
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            main(["--folder", d] + ([] if how != "flag" else ["--placeholders" if placeholders else "--no-placeholders"]))
    finally:
        builtins.input = real


def run(case, ctx, real=False):
    from vanillaplusjs.runners.init import init

    with scratch.tempdir() as d, elsewhere(case["elsewhere"]):
        cfg = site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES)
        site.project(d, {}, cfg)
        clock = sitegen.Clock(case.get("clock"))
        ph = {}  # generated or otherwise known placeholders -> "generated" or "unclear"
        built = 0
        known = {}  # the project as of the last build that succeeded
        for i, step in enumerate(case["steps"]):
            for op in step["ops"]:
                if op[0] in ("set", "mv") and os.path.isdir(os.path.join(d, op[-1] if op[0] == "mv" else op[1])):
                    continue
                try:
                    sitegen.apply(d, op, clock)
                except (FileExistsError, NotADirectoryError, FileNotFoundError):
                    continue  # the other files of this check are in its way
            for ev in step["events"]:
                where = f"step {i}, {ev[0]}"
                if ev[0] == "user":
                    p = os.path.join(d, ev[1])
                    if os.path.isdir(p) or any(os.path.isfile(os.path.join(d, q)) for q in parents(ev[1])):
                        continue
                    sitegen.apply(d, ["set", ev[1], ev[2]], clock)
                    if ev[1] in ph:
                        ph[ev[1]] = "unclear"
                elif ev[0] == "remove":
                    if os.path.isfile(os.path.join(d, ev[1])):
                        os.remove(os.path.join(d, ev[1]))
                        if ev[1] in ph:
                            ph[ev[1]] = "unclear"
                elif ev[0] == "config":
                    cfg["auto_generate_images_js_placeholders"] = ev[1]
                    site.write(d, "vanillaplusjs.json", json.dumps(cfg))
                elif ev[0] == "clean":
                    before = snapshot(d)
                    try:
                        cleaned(d, ev[1], ev[2] if len(ev) > 2 else None)
                    except SystemExit as e:
                        raise Violation(f"{where}: exit {e.code}")
                    except Exception as e:
                        raise Violation(f"{where}: fails with {type(e).__name__}: {e}")
                    for top in ("out", "artifacts"):
                        if os.path.lexists(os.path.join(d, top)):
                            raise Violation(f"{where}: {top}/ is still there")
                    after = snapshot(d)
                    compare(where, before, after, may_go=[p for p in ph if ev[1]])
                    if ev[1]:
                        for p, how in ph.items():
                            if how == "generated" and p in after:
                                raise Violation(f"{where}: the generated placeholder {p} is still there")
                        if any(h == "generated" for h in ph.values()):
                            ctx.label("placeholders cleaned")
                    ph = {p: "unclear" for p in ph if p in after}
                    if built:
                        ctx.nontrivial()
                        ctx.label("cleaned")
                elif ev[0] == "init":
                    before = snapshot(d)
                    init(d, "www.other.com")
                    compare(where, before, {p: v for p, v in snapshot(d).items() if p in before}, may_come=())
            before = snapshot(d)
            where = f"step {i}, build"
            fresh = not os.path.exists(os.path.join(d, "out"))
            mine = {j: js_of(j) for j in PUBLIC_JSONS if j in before}
            may = {p for j, p in mine.items() if p not in before} if cfg["auto_generate_images_js_placeholders"] else set()
            for p in ph:
                if p + "on" not in before:
                    ph[p] = "unclear"  # what it was generated from is gone
            ok = True
            try:
                site.build(d, dev=step["dev"], symlinks=step["links"], schedule=case["schedule"], real=real)
            except site.BuildFailed as e:
                ok = False
                ctx.label("fails")
                if os.environ.get("VP_SHOW"):
                    with open(os.environ["VP_SHOW"], "a") as h:
                        h.write(str(e)[:90] + "\n")
            after = snapshot(d)
            compare(where + ("" if ok else " (which failed)"), before, after, may_come=may)
            for p in may & set(after):
                ph[p] = "generated"
                if b"export default" not in after[p][0]:
                    raise Violation(f"{where}: the placeholder {p} holds {after[p][0]!r}")
            if ok:
                for p in may - set(after):
                    if valid(before[p + "on"][0]) and (fresh or known.get(p + "on") != before[p + "on"]):
                        raise Violation(f"{where}: no placeholder for {p}on")
                known = before
            built += ok
            if built and ok and i:
                ctx.nontrivial()


@contextlib.contextmanager
def elsewhere(there):
    """Runs inside a folder that has files of its own by the same names."""
    here = os.getcwd()
    with scratch.tempdir("e") as d:
        if there:
            for j in JSONS:
                site.write(d, js_of(j), "not this one")
        before = snapshot(d)
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(here)
        compare("the current folder", before, snapshot(d))


def valid(data):
    try:
        return isinstance(json.loads(data), dict)
    except ValueError:
        return False


def parents(p):
    p = os.path.dirname(p)
    while p:
        yield p
        p = os.path.dirname(p)


@st.composite
def cases(draw, tier="quick", max_steps=5):
    deep = tier != "quick"
    inner = sitegen.history(images=draw(st.booleans()), max_steps=8 if deep else max_steps, max_files=14 if deep else 9, dangling=draw(st.integers(0, 5)) == 0)
    case = draw(sitegen.with_breaks(inner, times=2)) if draw(st.integers(0, 3)) == 0 else draw(inner)
    odd = draw(st.integers(0, 2))
    for step in case["steps"]:
        step["events"] = []
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.integers(0, 10))
            if k <= 2:
                asked = draw(st.booleans())
                yes = ["y", "Y"] if asked else ["n", "N"]
                step["events"].append(["clean", asked] + draw(st.sampled_from([[], [], ["flag"], [["y" if asked else "n"]], [["", "perhaps", yes[1]]]])))
            elif k <= 4 and odd:
                step["events"].append(["user", draw(st.sampled_from(EXTRA if odd == 2 else EXTRA[:14])), "mine %d" % draw(st.integers(0, 2))])
            elif k <= 6:
                step["events"].append(["user", draw(st.sampled_from(JSONS)), draw(st.sampled_from(["{}", "{}", "{}", "{ }", "[]", "{"]))])
            elif k == 7:
                step["events"].append(["user", js_of(draw(st.sampled_from(JSONS))), draw(st.sampled_from(["", "export default 1;", "not javascript (("]))])
            elif k == 8:
                step["events"].append(["remove", draw(st.sampled_from([js_of(j) for j in JSONS] + JSONS))])
            elif k == 9:
                step["events"].append(["config", draw(st.booleans())])
            else:
                step["events"].append(["init"])
    case["elsewhere"] = draw(st.booleans())
    case["schedule"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=5)))
    return case


CHECK = Check("C06", [
    Prop("history", lambda tier: cases(tier=tier), lambda c, x: run(c, x), quick=3000, thorough=100000),
    Prop("pool", lambda tier: cases(tier=tier), lambda c, x: run(c, x, real=True), quick=16, thorough=500, flaky=True),
], rule="a case is a history of builds, edits, cleans and inits; it counts as non-trivial when a project that was built is built again or cleaned",
    assumptions=["it is left open whether clean --placeholders removes a generated placeholder that was edited or written anew by the user, whose images.json is gone, or from before the last clean"])

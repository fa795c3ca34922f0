"""C22: the constants module exports the configured values."""
import json
import math
import os

from hypothesis import strategies as st

from vp import jsoracle, scratch, site, sitegen
from vp.checks.c03 import check_links
from vp.core import Check, Prop, Violation

NAMES = ["A", "B", "API_URL", "$x", "_", "a1", "camelCase", "é", "DEBUG", "undefined_", "of", "async", "constructor", "toString"]
ENV = ["VP_TEST_ONE", "VP_TEST_TWO"]
PATHS = ["src/public/js/constants.js", "src/public/c.js", "src/public/js/sub/é k.js"]


def decode(v):
    if isinstance(v, list):
        return [decode(x) for x in v]
    if isinstance(v, dict):
        if v["t"] == "object":
            return {k: decode(x) for k, x in v["v"]}
        if v["t"] == "number":
            return ("number", v["v"])
        return ("other", v["t"])
    return v


def expect(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, list):
        return [expect(x) for x in v]
    return {k: expect(x) for k, x in v.items()}


def equal(want, got):
    if isinstance(want, float):
        if not (isinstance(got, tuple) and got[0] == "number"):
            return False
        if math.isnan(want):
            return got[1] == "NaN"
        try:
            g = float(got[1].replace("Infinity", "inf"))
        except ValueError:
            return False
        return g == want and math.copysign(1, g) == math.copysign(1, want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(equal(a, b) for a, b in zip(want, got))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(equal(want[k], got[k]) for k in want)
    return type(want) is type(got) and want == got


def table(cfg, dev):
    t = dict(cfg["shared"])
    t.update(cfg["dev"] if dev else cfg["prod"])
    return t


def check_module(where, data, want):
    try:
        src = data.decode("utf-8")
    except UnicodeDecodeError:
        raise Violation(f"{where}: the module is not utf-8: {data!r}")
    r = jsoracle.ask("run", src=src)
    if "err" in r:
        raise Violation(f"{where}: the module does not run ({r['err']}): {src[:600]!r}")
    got = {k: decode(v) for k, v in r["exports"]}
    if set(got) != set(want):
        raise Violation(f"{where}: the module exports {sorted(got)} instead of {sorted(want)}")
    for k in want:
        if not equal(expect(want[k]), got[k]):
            raise Violation(f"{where}: {k} is {got[k]!r} instead of {want[k]!r}: {src[:400]!r}")


def resolved(cfg, env):
    out = {}
    for part in ("shared", "dev", "prod"):
        out[part] = {k: env[v[6:]] if isinstance(v, str) and v.startswith("env://") else v for k, v in cfg[part].items()}
    return out


def run(case, ctx):
    path = case["path"]
    out = "out/www/" + path[len("src/public/"):]
    old_env = {k: os.environ.get(k) for k in ENV}
    try:
        with scratch.tempdir() as d:
            site.project(d, {}, site.config())
            clock = sitegen.Clock(case.get("clock"))
            for i, step in enumerate(case["steps"]):
                for k in ENV:
                    os.environ[k] = step["env"][k]
                site.write(d, "vanillaplusjs.json", json.dumps(site.config(js_constants=dict(step["cfg"], relpath=path)), ensure_ascii=case["ascii"]))
                for p, text in step["files"].items():
                    p = p if p != "constants" else path
                    if text is None:
                        if os.path.exists(os.path.join(d, p)):
                            os.remove(os.path.join(d, p))
                    else:
                        sitegen.apply(d, ["set", p, text.replace("@", "/" + path[len("src/public/"):])], clock)
                there = os.path.exists(os.path.join(d, path))
                users = [p for p in USERS if os.path.exists(os.path.join(d, p)) and b"/" + path[len("src/public/"):].encode() in site.read(d, p)]
                try:
                    site.build(d, dev=step["dev"], symlinks=step["links"], schedule=case["schedule"])
                except site.BuildFailed as e:
                    if users and not there:
                        ctx.label("missing")
                        continue
                    raise Violation(f"step {i}: the build fails: {e}")
                if not there:
                    if os.path.exists(os.path.join(d, out)):
                        raise Violation(f"step {i}: a module is made though there is no constants file")
                    continue
                want = table(resolved(step["cfg"], step["env"]), step["dev"])
                check_module(f"step {i}, {'dev' if step['dev'] else 'prod'}", site.read(d, out), want)
                n = check_links(site.www(d), f"step {i}: ")
                if n and i:
                    ctx.label("imported")
                if want and (i or len(case["steps"]) == 1):
                    ctx.nontrivial()
    finally:
        for k, v in old_env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


USERS = ["src/public/js/a.js", "src/public/index.html", "src/public/js/b.js"]
TEXTS = {
    "src/public/js/a.js": ['import * as c from "@";\n', "let a;\n"],
    "src/public/js/b.js": ['import "/js/a.js";\nimport {A} from "@";\n', 'import "/js/a.js";\n'],
    "src/public/index.html": ['<!DOCTYPE html>\n<html><head></head><body><script type="module" src="@"></script></body></html>\n',
                              '<!DOCTYPE html>\n<html><head></head><body><script type="module">import "@";</script></body></html>\n', '<!DOCTYPE html>\n<html><head></head><body></body></html>\n'],
}

chars = st.one_of(st.sampled_from(list("\"'\\`$/<>\n\r\t\0\b\v\f\u2028\u2029\ufeff\x7f\x85\ud800\udc00é😀 n0x1u{}")), st.characters())
strings = st.one_of(st.text(chars, max_size=12), st.sampled_from(["", "http://127.0.0.1:8080", "</script>", "${x}", "env:/", "xenv://A", "\\u0041", "\0" "1", "*/", "'\""]))
scalars = st.one_of(strings, strings, st.integers(-(2**70), 2**70), st.integers(-5, 5), st.floats(allow_nan=True, allow_infinity=True), st.booleans(), st.none())
keys = st.text(chars, max_size=6).filter(lambda k: k != "__proto__")
values = st.one_of(scalars, scalars, st.recursive(scalars, lambda x: st.one_of(st.lists(x, max_size=4), st.dictionaries(keys, x, max_size=4)), max_leaves=8))
# (hypothesis also draws strings it finds in the code; a variable that isn't set is an error)
plain = values.filter(lambda v: not (isinstance(v, str) and v.startswith("env://")))
top = st.one_of(plain, plain, plain, st.sampled_from(["env://" + k for k in ENV]))
envs = st.one_of(strings, st.text(max_size=8)).map(lambda s: "".join(c for c in s if c != "\0" and not 0xD800 <= ord(c) <= 0xDFFF))


def tables(names, n):
    return st.dictionaries(st.sampled_from(names), top, max_size=n)


@st.composite
def cases(draw, tier="quick", history=False):
    steps = []
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    cfg = None
    dev = draw(st.booleans())
    for i in range(draw(st.integers(2, 8 if tier != "quick" else 5)) if history else 1):
        if cfg is None or draw(st.integers(0, 3)) == 0:
            cfg = {"shared": dict({names[0]: draw(scalars)}, **draw(tables(names, 5))), "dev": draw(tables(names, 3)), "prod": draw(tables(names, 3))}
            env = {k: draw(envs) for k in ENV}
        elif draw(st.integers(0, 4)) == 0:
            env = {k: draw(envs) for k in ENV}
        files = {}
        if i == 0:
            files["constants"] = draw(st.sampled_from(["", "export const A = 1;", "not ( javascript", 'import "/nothing.js";', "é"]))
        if history:
            for p in TEXTS:
                if draw(st.integers(0, 2 if i == 0 else 3)) == 0 and (p != "src/public/js/b.js" or i == 0):
                    files[p] = draw(st.sampled_from(TEXTS[p]))
            if i == 0 and "src/public/js/b.js" in files:
                files.setdefault("src/public/js/a.js", TEXTS["src/public/js/a.js"][0])
            if i and steps[-1]["files"].get("constants", "") is None:
                files["constants"] = "back again"
            elif i and draw(st.integers(0, 9)) == 0:
                files["constants"] = None
            elif i and draw(st.integers(0, 4)) == 0:
                files["constants"] = draw(st.sampled_from(["changed", "export const B = 2;"]))
        if draw(st.booleans()):
            dev = not dev
        steps.append({"cfg": cfg, "env": env, "files": files, "dev": dev, "links": draw(st.booleans()) if i == 0 else steps[0]["links"]})
    return {"path": draw(st.sampled_from(PATHS if not history else PATHS[:2])), "steps": steps, "clock": draw(sitegen.CLOCKS), "ascii": draw(st.booleans()) if not surrogates(steps) else True, "schedule": draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=4)))}


def surrogates(x):
    return "\\ud" in json.dumps(x)


CHECK = Check("C22", [
    Prop("values", lambda tier: cases(tier=tier), run, quick=4000, thorough=120000),
    Prop("history", lambda tier: cases(tier=tier, history=True), run, quick=1500, thorough=50000),
], rule="a case is a constants table (and, in 'history', a sequence of modes, tables, environments and source edits); it counts as non-trivial when a table with constants was built (in 'history': on a rebuild)",
    assumptions=["names are identifiers that are not reserved", "no nested object has the key __proto__", "only top level values are environment references, and the environment has them"])

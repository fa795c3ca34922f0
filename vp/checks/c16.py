"""C16: templates expand to the partial's content with scoped variables."""
import json
import os
import posixpath
import random

from hypothesis import strategies as st

from vp import htmlgen as H
from vp import scratch, site
from vp.core import Check, Prop, Violation

VARS = ["title", "a", "b", "price", "é", "x y", "a.b"]
VALUES = H.TEXTS + ["$24.99", "", "Try it Now", "-->", "]", "\"", "[STACK: [\"retrieve\", \"a\"]]", "<!--[TEMPLATE: [\"/p0.html\"]]-->", "</title>", "\\", "a]]-->b"]
NUMBERS = [0, 1, -3, 24.99, 1.5, 10 ** 12]
PARTIALS = ["p0.html", "head/p1.html", "a/p2.html", "a/b/p3.html", "p4.htm", "head/p5.html"]
PAGES = ["index.html", "sub/q.html", "a b/r.html"]


def value():
    return st.one_of(st.sampled_from(VALUES), st.sampled_from(VALUES), st.sampled_from(NUMBERS))


class Env:
    """What is defined while a file is generated, in document order."""

    def __init__(self, params):
        self.frames = [set(params)]

    @property
    def names(self):
        return sorted(self.frames[-1])


@st.composite
def command(draw, env, relpath, usable, params, title=False):
    """A command node: ["S", args] or ["T", path as written, variables, resolved path]"""
    k = draw(st.integers(0, 15))
    if k <= 2 or (k <= 8 and not env.names and not usable):
        n = draw(st.sampled_from(VARS))
        env.frames[-1].add(n)
        return ["S", ["define", n, draw(value())]]
    if k <= 8 and env.names:
        return ["S", ["retrieve", draw(st.sampled_from(env.names))]]
    if k == 9 and not title:
        env.frames.append(set())
        return ["S", ["push", draw(st.sampled_from(["/p0.html", "/x/y.html"]))]]
    if k == 10 and len(env.frames) > 1:
        env.frames.pop()
        return ["S", ["pop"]]
    if not usable:
        return ["t", "."]
    p = draw(st.sampled_from(usable))
    args = {}
    for n in params[p] + draw(st.lists(st.sampled_from(VARS), max_size=1)):
        if env.names and draw(st.integers(0, 2)) == 0:
            args[n] = {"type": "variable", "name": draw(st.sampled_from(env.names))}
        else:
            args[n] = draw(value())
    target = "src/partials/" + p
    path = "/" + p
    if draw(st.integers(0, 2)) == 0 and len(env.frames) == 1:
        path = posixpath.relpath(target, posixpath.dirname(relpath))
        if draw(st.integers(0, 4)) == 0:
            path = "./" + path
    return ["T", path, args or draw(st.sampled_from([None, {}])), target]


def title_nodes(draw, env, relpath, usable, params):
    parts = []
    for _ in range(draw(st.integers(0, 3))):
        parts.append(draw(command(env, relpath, usable, params, True)) if draw(st.booleans()) else ["t", draw(st.sampled_from(["a", " b ", "x & y", "é", "<", "\n"]))])
    return parts


@st.composite
def file(draw, relpath, kind, usable_by_kind, params, own):
    """The nodes of a page or of a partial of the given kind."""
    env = Env(own)
    if kind == "text":
        nodes = title_nodes(draw, env, relpath, usable_by_kind["text"], params)
    elif kind == "head":
        g = H.Gen(draw, leaf=None, budget=8, foreign=False)
        g.headleaf = command(env, relpath, usable_by_kind["head"] + usable_by_kind["empty"], params)
        g.headleaf = g.headleaf.map(lambda n: ["e", "title", [], [n]] if n[0] == "S" and n[1][0] == "retrieve" else n if n[0] != "t" else ["t", " "])
        nodes = g.many(g.head, 4)
    elif kind == "page":
        leaf = command(env, relpath, usable_by_kind["phrasing"] + usable_by_kind["text"], params)
        block = command(env, relpath, usable_by_kind["phrasing"] + usable_by_kind["text"] + usable_by_kind["flow"], params)
        g = H.Gen(draw, leaf=leaf, block=block, budget=draw(st.sampled_from([5, 15, 30])), foreign=False)
        g.headleaf = command(env, relpath, usable_by_kind["head"], params).map(lambda n: ["e", "meta", [], []] if n[0] == "t" or n[0] == "S" and n[1][0] == "retrieve" else n)
        nodes = g.document(title_nodes(draw, env, relpath, usable_by_kind["text"], params))
    else:
        leaf = command(env, relpath, usable_by_kind["phrasing"] + usable_by_kind["text"], params)
        block = command(env, relpath, usable_by_kind["phrasing"] + usable_by_kind["text"] + usable_by_kind["flow"], params)
        g = H.Gen(draw, leaf=leaf, block=block, budget=draw(st.sampled_from([3, 8, 15])), foreign=False)
        # these may be expanded anywhere, so that they contain nothing that must not be nested
        ban = frozenset(["a", "button", "label", "noscript", "form"])
        nodes = g.many((lambda: g.flow(ban)) if kind == "flow" else (lambda: g.phrasing(ban)), 4)
    pops = [["S", ["pop"]] for _ in env.frames[1:]]
    if kind == "page":
        html = nodes[-1]
        # everything pushed is popped at the end of the body
        html[3][-1][3] += pops
    else:
        nodes = nodes + pops
    return nodes


@st.composite
def case_strategy(draw):
    n = draw(st.integers(0, len(PARTIALS)))
    names = draw(st.permutations(PARTIALS))[:n]
    kinds = {p: draw(st.sampled_from(["flow", "flow", "phrasing", "text", "head"])) for p in names}
    params = {p: draw(st.lists(st.sampled_from(VARS), max_size=3, unique=True)) for p in names}
    partials = {}
    done = []
    for p in names:
        by = {k: [q for q in done if kinds[q] == k] for k in ("flow", "phrasing", "text", "head")}
        by["empty"] = []
        partials[p] = draw(file("src/partials/" + p, kinds[p], by, params, params[p]))
        done.append(p)
    by = {k: [q for q in done if kinds[q] == k] for k in ("flow", "phrasing", "text")}
    page_by = dict(by, head=[q for q in done if kinds[q] == "head"])
    pages = {}
    for p in draw(st.lists(st.sampled_from(PAGES), min_size=1, max_size=2, unique=True)):
        pages[p] = draw(file("src/public/" + p, "page", dict(by, head=page_by["head"]), params, []))
    edit = draw(st.sampled_from([None] + names)) if names else None
    fault = draw(st.sampled_from([None] * 8 + ["undefined", "undefined-in-partial", "missing", "pop", "push", "list", "self", "mutual", "leak", "other-type", "no-type"]))
    return {"pages": pages, "partials": partials, "kinds": kinds, "edit": edit, "remove": draw(st.integers(0, 3)) == 0, "fault": fault, "seed": draw(st.integers(0, 10 ** 6)), "crlf": draw(st.integers(0, 5)) == 0}


# ------------------------------------------------------------------ the model

class Fails(Exception):
    pass


def expand(nodes, files, frames, active):
    out = []
    for n in nodes:
        if n[0] == "e":
            out.append(["e", n[1], n[2], expand(n[3], files, frames, active)])
        elif n[0] == "S":
            a = n[1]
            if a[0] == "define":
                frames[-1][a[1]] = a[2]
            elif a[0] == "retrieve":
                if a[1] not in frames[-1]:
                    raise Fails(f"{a[1]} is undefined")
                v = frames[-1][a[1]]
                if isinstance(v, (dict, list)):
                    raise Fails("no plain value")
                out.append(["t", str(v)])
            elif a[0] == "push":
                frames.append({})
            elif a[0] == "pop":
                if len(frames) == 1:
                    raise Fails("nothing to pop")
                frames.pop()
        elif n[0] == "T":
            if n[3] not in files:
                raise Fails("missing partial")
            if n[3] in active:
                raise Fails("recursion")
            frame = {}
            for k, v in (n[2] or {}).items():
                frame[k] = frames[-1].get(v["name"], v) if isinstance(v, dict) and v.get("type") == "variable" else v
            out += expand(files[n[3]], files, frames + [frame], active + [n[3]])
        else:
            out.append(n)
    return out


def spelled(nodes, rng, rcdata=False):
    """Commands as comments."""
    out = []
    for n in nodes:
        if n[0] == "e":
            out.append(["e", n[1], n[2], spelled(n[3], rng, n[1] in ("title", "textarea"))])
        elif n[0] in "ST":
            args = n[1] if n[0] == "S" else [n[1]] + ([n[2]] if n[2] is not None else [])
            s = json.dumps(args, ensure_ascii=rng.random() < 0.5, indent=2 if rng.random() < 0.2 else None)
            s = s.replace("--", "-\\u002d").replace("\u2028", "\\u2028")
            if rcdata or rng.random() < 0.5:
                s = s.replace("&", "\\u0026").replace("<", "\\u003c").replace(">", "\\u003e")
            sp = lambda *o: rng.choice(["", "", ""] + list(o))
            out.append(["raw", f"<!--{sp(' ')}[{sp(' ')}{'STACK' if n[0] == 'S' else 'TEMPLATE'}{sp(' ')}:{rng.choice([' ', '  ', chr(10)])}{s}{sp(' ', chr(10))}]{sp(' ')}-->"])
        else:
            out.append(n)
    return out


def write(nodes, seed, crlf):
    return H.write(spelled(nodes, random.Random(seed)), seed + 1, crlf)


def faulty(case):
    pages, partials = json.loads(json.dumps([case["pages"], case["partials"]]))
    f = case["fault"]
    if f is None:
        return pages, partials
    page = pages[sorted(pages)[0]]
    body = page[-1][3][-1][3]
    if f == "undefined":
        body.insert(len(body) // 2, ["S", ["retrieve", "never"]])
    elif f == "undefined-in-partial":
        partials["bad.html"] = [["S", ["retrieve", "title"]]]
        body.insert(0, ["T", "/bad.html", {"a": 1}, "src/partials/bad.html"])
        body.insert(0, ["S", ["define", "title", "x"]])
    elif f == "leak":
        # what a partial defines is not defined after it
        partials["leak.html"] = [["S", ["define", "leaked", "x"]]]
        body.insert(0, ["S", ["retrieve", "leaked"]])
        body.insert(0, ["T", "/leak.html", None, "src/partials/leak.html"])
    elif f == "missing":
        body.append(["T", "/no/such.html", None, "src/partials/no/such.html"])
    elif f == "pop":
        body.append(["S", ["pop"]])
    elif f == "push":
        body.insert(0, ["S", ["push", "/p0.html"]])
    elif f == "list":
        body.append(["S", ["define", "l", [1]]])
        body.append(["S", ["retrieve", "l"]])
    elif f in ("other-type", "no-type"):
        # an object which is not a reference to a variable is no plain value
        partials["obj.html"] = [["S", ["retrieve", "v"]]]
        body.insert(0, ["T", "/obj.html", {"v": {"type": "constant", "name": "title"} if f == "other-type" else {"name": "title"}}, "src/partials/obj.html"])
        body.insert(0, ["S", ["define", "title", "x"]])
    elif f == "self":
        partials["self.html"] = [["t", "x"], ["T", "/self.html", None, "src/partials/self.html"]]
        body.append(["T", "/self.html", None, "src/partials/self.html"])
    elif f == "mutual":
        partials["m1.html"] = [["e", "p", [], [["T", "m2.html", {"a": 1}, "src/partials/m2.html"]]]]
        partials["m2.html"] = [["T", "/m1.html", None, "src/partials/m1.html"]]
        body.append(["T", "/m1.html", None, "src/partials/m1.html"])
    return pages, partials


def expected(pages, partials):
    files = {"src/partials/" + p: n for p, n in partials.items()}
    out = {}
    for p, nodes in pages.items():
        frames = [{}]
        res = expand(nodes, files, frames, ["src/public/" + p])
        if len(frames) > 1:
            raise Fails("something is still pushed")
        out[p] = H.normal(res)
    return out


def attempt(pages, partials):
    try:
        return expected(pages, partials)
    except Fails:
        return None


def run(case, ctx):
    pages, partials = faulty(case)
    seed, crlf = case["seed"], case["crlf"]
    files = {"src/public/" + p: write(n, seed, crlf) for p, n in pages.items()}
    files.update({"src/partials/" + p: write(n, seed + 2, crlf) for p, n in partials.items()})
    want = attempt(pages, partials)
    with scratch.tempdir() as d:
        site.project(d, files)

        def check(want, what):
            try:
                site.build(d)
            except site.BuildFailed as e:
                if want is None:
                    return
                raise Violation(f"{what} does not build: {e}; {files!r}")
            www = site.www(d)
            if want is None:
                raise Violation(f"{what} builds; {files!r}; { {p: www[p] for p in pages} }")
            for p, w in want.items():
                df = H.diff(w, H.normal(H.parse(www[p])))
                if df:
                    raise Violation(f"{what}, {p}: {df}\nsources {files!r}\nbuilt {www[p].decode()!r}")

        check(want, "the site")
        e = case["edit"]
        if e is not None and want is not None:
            if case["remove"]:
                os.unlink(os.path.join(d, "src/partials", e))
                del files["src/partials/" + e]
                partials = {p: n for p, n in partials.items() if p != e}
            else:
                partials = dict(partials, **{e: [["e", "meta", [["name", "edited"]], []] if case["kinds"][e] == "head" else ["t", " edited "]] + partials[e]})
                files["src/partials/" + e] = write(partials[e], seed + 2, crlf)
                site.write(d, "src/partials/" + e, files["src/partials/" + e])
            want = attempt(pages, partials)
            check(want, f"after {'removing' if case['remove'] else 'editing'} {e} the site")
            ctx.label("edited")
    cmds = sum(1 for ns in list(pages.values()) + list(partials.values()) for n in all_nodes(ns) if n[0] in "ST")
    ctx.label("fails" if attempt(*faulty(case)) is None else "expands", f"commands-{min(cmds, 12) // 3 * 3}")
    if cmds >= 2:
        ctx.nontrivial()


def all_nodes(ns):
    for n in ns:
        yield n
        if n[0] == "e":
            yield from all_nodes(n[3])


CHECK = Check(
    "C16", [Prop("templates", lambda tier: case_strategy(), run, quick=3000, thorough=60000)],
    rule="up to six partials and two pages generated as trees with template and stack commands at every permitted place (titles and textareas included), paths absolute or relative, arguments of every kind, in varied notation; the built "
         "page has to be the tree that a model interpreter expands to, the build has to fail where the model does (undefined variables, missing partials, unbalanced stack, recursion), and again after an edit or removal of a partial; "
         "non-trivial: at least two commands",
    assumptions=["a partial only uses its arguments and what it defines itself; stack pushes start an empty scope", "values are texts and numbers; booleans are left out"])

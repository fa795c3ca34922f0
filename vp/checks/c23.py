"""C23: FileDependencyGraph against a plain directed multigraph."""
import io
import json

from hypothesis import strategies as st

from vanillaplusjs.build.graph import FileDependencyGraph, FileRelationship
from vp.core import Check, Prop, Violation

NAMES = ["src/public/a.js", "b", "src/public/img/é ü.png", "out/www/q\"uote.css", "e", "f", "g", "h"]


class Model:
    def __init__(self):
        self.sig = {}
        self.ch = {}  # path -> list of children

    def parents(self, a):
        return [p for p in self.ch for c in self.ch[p] if c == a]

    def reach(self, a):
        seen, q = set(), list(self.ch[a])
        while q:
            x = q.pop()
            if x in seen:
                continue
            seen.add(x)
            q.extend(self.ch[x])
        return seen


def sig():
    return st.tuples(st.sampled_from([0, 1, 17, 2**40]),
                     st.sampled_from([0.0, 1.5, 1656633600.1234567, 1e-3]),
                     st.sampled_from([0, 3, 2**50]))


def ops(tier):
    n = st.integers(0, len(NAMES) - 1)
    many = st.lists(n, max_size=3)
    op = st.one_of(
        st.tuples(st.just("add"), n, sig(), st.one_of(st.none(), many)),
        st.tuples(st.just("add"), n, sig(), st.none()),
        st.tuples(st.just("set"), n, many, st.booleans()),
        st.tuples(st.just("set"), n, many, st.booleans()),
        st.tuples(st.just("remove"), n, st.booleans(), st.booleans()),
        st.tuples(st.just("reload")),
    )
    return st.fixed_dictionaries({
        "init": st.one_of(st.lists(sig(), max_size=3), st.lists(sig(), min_size=5, max_size=8),
                          st.lists(sig(), min_size=5, max_size=8)),
        "ops": st.lists(op, min_size=4, max_size=25 if tier == "quick" else 60)})


def expect(cond, what):
    if not cond:
        raise Violation(what)


def queries(g, m, where):
    expect(set(g.nodes) == set(m.sig), f"{where}: files {sorted(g.nodes)} != {sorted(m.sig)}")
    for a in NAMES:
        expect((a in g) == (a in m.sig), f"{where}: membership of {a}")
        for bad in [(0, 0, 0), (1, 1.5, 3)]:
            want = a in m.sig and m.sig[a] == bad
            expect(g.check_file(a, *bad) is want, f"{where}: check_file {a} {bad}")
        if a not in m.sig:
            for f in (g.get_children, g.get_parents):
                raises(lambda: f(a), f"{where}: query of missing {a}")
            continue
        s = m.sig[a]
        expect(g.check_file(a, *s) is True, f"{where}: check_file {a} {s}")
        expect(g.check_file(a, s[0] + 1, s[1], s[2]) is False, f"{where}: check_file size {a}")
        expect(g.check_file(a, s[0], s[1] + 1, s[2]) is False, f"{where}: check_file mtime {a}")
        expect(g.check_file(a, s[0], s[1], s[2] + 1) is False, f"{where}: check_file inode {a}")
        expect(g.get_children(a) == m.ch[a], f"{where}: children of {a}: {g.get_children(a)} != {m.ch[a]}")
        expect(sorted(g.get_parents(a)) == sorted(m.parents(a)),
               f"{where}: parents of {a}: {g.get_parents(a)} != {m.parents(a)}")
    for a in m.sig:
        ra = m.reach(a)
        for b in NAMES:
            if b == a or b not in m.sig:
                raises(lambda: g.check_direct_relationship(a, b), f"{where}: direct {a} {b}")
                raises(lambda: g.check_nested_relationship(a, b), f"{where}: nested {a} {b}")
                continue
            down, up = b in m.ch[a], a in m.ch[b]
            want = rel(down, up)
            got = g.check_direct_relationship(a, b)
            expect(got == want, f"{where}: direct relation {a} {b}: {got} != {want}")
            want = rel(b in ra, a in m.reach(b))
            got = g.check_nested_relationship(a, b)
            expect(got == want, f"{where}: nested relation {a} {b}: {got} != {want}")


def rel(down, up):
    if down and up:
        return FileRelationship.cyclic
    if down:
        return FileRelationship.parent
    if up:
        return FileRelationship.child
    return FileRelationship.unrelated


def raises(f, what):
    try:
        f()
    except ValueError:
        return
    raise Violation(f"{what}: accepted")


def attempt(f, ok, what):
    """The operation must succeed iff ok; rejection is a ValueError."""
    try:
        f()
    except ValueError as e:
        if ok:
            raise Violation(f"{what}: rejected: {e}")
        return
    if not ok:
        raise Violation(f"{what}: accepted")


def reload(g):
    buf = io.StringIO()
    g.store(buf)
    json.loads(buf.getvalue())
    buf.seek(0)
    return FileDependencyGraph.load(buf)


def run(case, ctx):
    g, m = FileDependencyGraph(), Model()
    for name, s in zip(NAMES, case["init"]):
        g.add_file(name, *s)
        m.sig[name] = tuple(s)
        m.ch[name] = []
    edges = removed = rejected = 0
    for i, op in enumerate(case["ops"]):
        kind = op[0]
        where = f"after op {i} {op}"
        if kind == "add":
            a, s = NAMES[op[1]], tuple(op[2])
            ch = None if op[3] is None else [NAMES[x] for x in op[3]]
            ok = a not in m.sig and all(c in m.sig for c in ch or [])
            attempt(lambda: g.add_file(a, *s, children=ch), ok, where)
            if ok:
                m.sig[a] = s
                m.ch[a] = list(ch or [])
                edges += len(ch or [])
            else:
                rejected += 1
        elif kind == "set":
            a, ch, prevent = NAMES[op[1]], [NAMES[x] for x in op[2]], op[3]
            ok = a in m.sig and all(c in m.sig for c in ch)
            if ok and prevent:
                ok = not any(c == a or a in m.reach(c) for c in ch)
            attempt(lambda: g.set_children(a, list(ch), prevent_cycles=prevent), ok, where)
            if ok:
                m.ch[a] = ch
                edges += len(ch)
            else:
                rejected += 1
        elif kind == "remove":
            a, cp, cc = NAMES[op[1]], op[2], op[3]
            ok = a in m.sig
            if ok and not cp and m.parents(a):
                ok = False
            if ok and not cc and m.ch[a]:
                ok = False
            if ok and a in m.ch[a]:
                continue  # removing a self-dependent file is not a use the code has
            attempt(lambda: g.remove_file(a, clear_parents=cp, clear_children=cc), ok, where)
            if ok:
                if m.parents(a) or m.ch[a]:
                    removed += 1
                del m.sig[a]
                del m.ch[a]
                for p in m.ch:
                    m.ch[p] = [c for c in m.ch[p] if c != a]
            else:
                rejected += 1
        elif kind == "reload":
            g2 = reload(g)
            expect(g2 == g and g == g2, f"{where}: stored graph does not load to an equal one")
            queries(g2, m, where + " (loaded)")
            g = g2
        queries(g, m, where)
    g2 = reload(g)
    expect(g2 == g and g == g2, "stored graph does not load to an equal one")
    queries(g2, m, "loaded at the end")
    # graphs that differ must not compare equal, whichever side is asked
    for what, g3, same in variants(g, m):
        expect((g3 == g) is same and (g == g3) is same, f"wrong equality for {what}")
    if edges >= 2 and (removed or rejected):
        ctx.nontrivial()
    if removed:
        ctx.label("remove-with-edges")
    if rejected:
        ctx.label("rejected-op")
    if any(a in m.reach(a) for a in m.sig):
        ctx.label("cyclic-at-end")
    if not any(len(set(c)) != len(c) for c in m.ch.values()):
        ctx.label("simple")


def variants(g, m):
    """Copies of the stored graph with exactly one difference."""
    buf = io.StringIO()
    g.store(buf)
    text = buf.getvalue()

    def load(d):
        return FileDependencyGraph.load(io.StringIO(json.dumps(d)))

    yield "nothing", load(json.loads(text)), True
    for a in m.sig:
        for k in ("filesize", "mtime", "inode"):
            d = json.loads(text)
            d[a]["metadata"][k] += 1
            yield f"different {k} of {a}", load(d), False
        if m.ch[a]:
            d = json.loads(text)
            b = d[a]["children"].pop()
            d[b]["parents"].remove(a)
            yield f"missing edge {a} -> {b}", load(d), False
        for b in m.sig:
            if b not in m.ch[a] and b != a:
                d = json.loads(text)
                d[a]["children"].append(b)
                d[b]["parents"].append(a)
                yield f"extra edge {a} -> {b}", load(d), False
                if m.ch[a]:
                    d = json.loads(text)
                    c = d[a]["children"].pop()
                    d[c]["parents"].remove(a)
                    d[a]["children"].append(b)
                    d[b]["parents"].append(a)
                    yield f"edge {a} -> {c} moved to {b}", load(d), False
                break
    for x in NAMES:
        if x not in m.sig:
            d = json.loads(text)
            d[x] = {"parents": [], "children": [], "metadata": {"filesize": 0, "mtime": 0.0, "inode": 0}}
            yield f"extra file {x}", load(d), False
            if m.sig:
                old = next(iter(m.sig))
                t = text.replace(json.dumps(old), json.dumps(x))
                yield f"file {old} renamed to {x}", load(json.loads(t)), False
            break


def shape(tier):
    """Larger graphs: path-like, dense, layered; only the public operations."""
    n = st.integers(2, 40)
    return n.flatmap(lambda k: st.fixed_dictionaries({
        "n": st.just(k),
        "edges": st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)), max_size=3 * k),
        "probe": st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)), min_size=1, max_size=12),
        "remove": st.lists(st.integers(0, k - 1), max_size=6)}))


def run_shape(case, ctx):
    g, m = FileDependencyGraph(), Model()
    for i in range(case["n"]):
        g.add_file(f"f{i}", i, float(i), i + 1)
        m.sig[f"f{i}"] = (i, float(i), i + 1)
        m.ch[f"f{i}"] = []
    rejected = 0
    for u, v in case["edges"]:
        a, b = f"f{u}", f"f{v}"
        if b in m.ch[a]:
            continue
        ok = not (a == b or a in m.reach(b))
        attempt(lambda: g.set_children(a, m.ch[a] + [b]), ok, f"edge {a}->{b}")
        if ok:
            m.ch[a] = m.ch[a] + [b]
        else:
            rejected += 1
            expect(g.get_children(a) == m.ch[a], f"rejected update changed {a}")
    for r in case["remove"]:
        a = f"f{r}"
        if a in m.sig:
            g.remove_file(a, clear_parents=True, clear_children=True)
            del m.sig[a]
            del m.ch[a]
            for p in m.ch:
                m.ch[p] = [c for c in m.ch[p] if c != a]
    h = reload(g)
    expect(h == g and g == h, "stored graph does not load to an equal one")
    linked = [a for a in m.sig if m.ch[a]]
    if linked:
        a = linked[case["probe"][0][0] % len(linked)]
        h.set_children(a, h.get_children(a)[:-1])
        expect(not (h == g) and not (g == h), f"equal despite the missing edge {a} -> {m.ch[a][-1]}")
    g = reload(g)
    for u, v in case["probe"]:
        a, b = f"f{u}", f"f{v}"
        if a == b or a not in m.sig or b not in m.sig:
            continue
        want = rel(b in m.reach(a), a in m.reach(b))
        expect(g.check_nested_relationship(a, b) == want, f"nested {a} {b}")
    for a in m.sig:
        expect(g.get_children(a) == m.ch[a], f"children {a}")
        expect(sorted(g.get_parents(a)) == sorted(m.parents(a)), f"parents {a}")
    if rejected and len(case["edges"]) > 5:
        ctx.nontrivial()


def long(tier):
    """Deep and wide graphs: chains, stars and combs of thousands of files."""
    return st.fixed_dictionaries({
        "shape": st.sampled_from(["chain", "chain", "star", "fan", "comb"]),
        "n": st.integers(500, 2500 if tier == "quick" else 20000),
        "order": st.sampled_from(["up", "down", "odd"]),
        "at": st.integers(0, 10 ** 6),
        "differ": st.sampled_from(["edge", "size", "mtime", "inode", "file"])})


def run_long(case, ctx):
    n, shape = case["n"], case["shape"]
    if shape == "chain":
        edges = [(i, i + 1) for i in range(n - 1)]
    elif shape == "star":
        edges = [(0, i) for i in range(1, n)]
    elif shape == "fan":
        edges = [(i, 0) for i in range(1, n)]
    else:
        edges = [(i, i + 1) for i in range(n // 2)] + [(i, i + n // 2) for i in range(1, n - n // 2)]
    ids = list(range(n))
    ids = ids if case["order"] == "up" else ids[::-1] if case["order"] == "down" else ids[::2] + ids[1::2]
    ch = {i: [] for i in range(n)}
    par = {i: [] for i in range(n)}
    for u, v in edges:
        ch[u].append(v)
        par[v].append(u)
    g = FileDependencyGraph()
    for i in ids:
        g.add_file(f"f{i}", i, float(i), i + 1)
    for u in range(n):
        if ch[u]:
            # with cycle prevention, which walks the graph, only now and then
            g.set_children(f"f{u}", [f"f{v}" for v in ch[u]], prevent_cycles=len(ch[u]) < 5 and u % 97 == 0)
    h = reload(g)
    expect(h == g and g == h, "stored graph does not load to an equal one")
    last = n // 2 if shape == "comb" else n - 1
    if shape != "fan":
        expect(h.check_nested_relationship("f0", f"f{last}") == FileRelationship.parent, f"f0 leads to f{last}")
        attempt(lambda: h.set_children(f"f{last}", [f"f{c}" for c in ch[last]] + ["f0"]), False,
                f"cycle from f{last} to f0")
    for i in (0, 1, n // 2, n - 1, case["at"] % n):
        expect(h.get_children(f"f{i}") == [f"f{c}" for c in ch[i]], f"children of f{i}")
        expect(sorted(h.get_parents(f"f{i}")) == sorted(f"f{p}" for p in par[i]), f"parents of f{i}")
    expect(h == g, "a rejected update or a query changed the graph")
    u, v = edges[case["at"] % len(edges)]
    if case["differ"] == "edge":
        h.set_children(f"f{u}", [f"f{c}" for c in ch[u] if c != v], prevent_cycles=False)
    elif case["differ"] == "file":
        h.add_file("other", 0, 0, 0)
    else:
        k = ["size", "mtime", "inode"].index(case["differ"])
        buf = io.StringIO()
        g.store(buf)
        d = json.loads(buf.getvalue())
        d[f"f{u}"]["metadata"][["filesize", "mtime", "inode"][k]] += 1
        h = FileDependencyGraph.load(io.StringIO(json.dumps(d)))
    expect(not (h == g) and not (g == h), f"equal despite a different {case['differ']} at f{u}")
    h = reload(g)
    h.remove_file(f"f{v}", clear_parents=True, clear_children=True)
    expect(f"f{v}" not in h and f"f{v}" not in h.get_children(f"f{u}"), f"f{v} was not removed")
    expect(len(h.nodes) == n - 1, "other files were removed")
    ctx.nontrivial()
    ctx.label(shape)


CHECK = Check(
    "C23",
    [Prop("ops", ops, run, quick=2500, thorough=60000),
     Prop("shape", shape, run_shape, quick=800, thorough=20000),
     Prop("long", long, run_long, quick=60, thorough=600)],
    rule="sequences of add/set/remove/reload over 8 paths (and edge insertion over up to 40, chains, stars and combs of thousands), compared with a dict "
         "model after every operation; non-trivial: at least two edges and a rejected operation or the removal of a "
         "connected file",
    assumptions=["order of parents is not part of the contract", "a file that is its own child is never removed"])

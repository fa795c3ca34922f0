#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): small random changes to the
code, kept when the repository's tests still pass, then given to the checks.

  mutate.py tests N SEED [FILE...]   makes mutants and keeps those that pass the tests
  mutate.py checks [WORKERS]         runs the checks on the kept ones
State is in /tmp/mut/mutants.jsonl and /tmp/mut/results.jsonl."""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys

REPO = "/repo"
OUT = "/tmp/mut"
B = "vanillaplusjs/build/"
MAP = [
    (B + "css/manips/icons", "C13 C01"),
    (B + "css/manips/nest", "C12"),
    (B + "css/manips/outline", "C11 C01"),
    (B + "css/manips/version", "C11 C03 C28"),
    (B + "css/", "C10 C11 C12 C13"),
    (B + "js/manips/hash", "C09 C28"),
    (B + "js/manips/type", "C08 C07"),
    (B + "js/", "C07 C09 C08"),
    (B + "html/manips/images/cover", "C18 C19"),
    (B + "html/manips/images/resol", "C18 C19"),
    (B + "html/manips/images/settings", "C20 C19 C21"),
    (B + "html/manips/images", "C19 C20 C21 C05 C27"),
    (B + "html/manips/link_rel_can", "C17 C14"),
    (B + "html/manips/link", "C14 C03 C28"),
    (B + "html/manips/outline", "C15 C14 C05"),
    (B + "html/manips/template", "C16 C28 C01"),
    (B + "html", "C14 C15 C16"),
    (B + "handlers/image_glue", "C21 C20 C06 C19 C27"),
    (B + "handlers/js_const", "C22 C01"),
    (B + "handlers/html", "C14 C01 C03"),
    (B + "handlers/css", "C12 C13 C11 C01 C03"),
    (B + "handlers/js", "C09 C07 C01 C03"),
    (B + "handlers", "C03 C05 C01 C02"),
    (B + "graph", "C23 C01"),
    (B + "hot", "C01 C02 C28 C04 C27 C06 C20 C05"),
    (B + "cold", "C25 C01 C02 C04"),
    (B + "ioutil", "C24 C10 C04 C27"),
    (B + "build_context", "C25 C22 C01 C03 C13"),
    (B, "C01 C02 C05 C04"),
    ("vanillaplusjs/runners/build", "C26 C01 C04 C05 C25"),
    ("vanillaplusjs/runners/clean", "C06"),
    ("vanillaplusjs/runners/dev", "C27"),
    ("vanillaplusjs/runners/init", "C26"),
    ("vanillaplusjs/runners/run", "C29"),
    ("vanillaplusjs/http", "C29"),
    ("vanillaplusjs/", "C26 C01 C29"),
]
SKIP = ("derived_core", "unicode_derived")


def files():
    res = subprocess.run(["git", "-C", REPO, "ls-files", "vanillaplusjs/*.py"], capture_output=True, text=True)
    return [f for f in res.stdout.split() if not any(s in f for s in SKIP)]


def original_lines(f):
    res = subprocess.run(["git", "-C", REPO, "blame", "-s", f], capture_output=True, text=True, errors="replace")
    return {i + 1 for i, l in enumerate(res.stdout.split("\n")) if l.startswith("^82658c3")}


CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def candidates(f):
    """(line, kind, start offset, end offset, new text) of text with LF line ends"""
    text = open(os.path.join(REPO, f), newline="").read().replace("\r\n", "\n")
    lines = text.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()

    def off(line, col):
        return starts[line - 1] + col

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    def is_log(n):
        s = src(n)
        return s.startswith(("logger.", "print(", "'", '"'))

    tree = ast.parse(text)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise,)) or (isinstance(n, ast.Expr) and is_log(n)) or isinstance(n, ast.Assert):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for m in [n.args, n.returns] + n.decorator_list:
                if m is not None:
                    skip.update(id(x) for x in ast.walk(m))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
    res = []
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        a, b = span(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            left, right = src(n.left), src(n.comparators[0])
            res.append((n.lineno, "cmp", a, b, f"({left}) {CMP[type(n.ops[0])]} ({right})"))
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                neg = {ast.Lt: ">=", ast.Gt: "<=", ast.LtE: ">", ast.GtE: "<"}[type(n.ops[0])]
                res.append((n.lineno, "neg", a, b, f"({left}) {neg} ({right})"))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            res.append((n.lineno, "boolop", a, b, op.join(f"({src(v)})" for v in n.values)))
            for i in range(len(n.values)):
                keep = [v for j, v in enumerate(n.values) if j != i]
                o = " and " if isinstance(n.op, ast.And) else " or "
                res.append((n.lineno, "drop-operand", a, b, "(" + o.join(f"({src(v)})" for v in keep) + ")"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            res.append((n.lineno, "not", a, b, f"({src(n.operand)})"))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            res.append((n.lineno, "int", a, b, str(n.value + 1)))
            if n.value > 0:
                res.append((n.lineno, "int", a, b, str(n.value - 1)))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            res.append((n.lineno, "bool", a, b, str(not n.value)))
        elif isinstance(n, ast.Constant) and type(n.value) is str and 0 < len(n.value) < 30 and raw[a:a+1] in b"'\"":
            res.append((n.lineno, "str", a, b, repr(n.value[:-1])))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            op = "-" if isinstance(n.op, ast.Add) else "+"
            res.append((n.lineno, "arith", a, b, f"({src(n.left)}) {op} ({src(n.right)})"))
            res.append((n.lineno, "left", a, b, f"({src(n.left)})"))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)):
            res.append((n.lineno, "delete", a, b, "pass"))
        elif isinstance(n, ast.If):
            t = n.test
            x, y = span(t)
            res.append((n.lineno, "if-true", x, y, "True"))
            res.append((n.lineno, "if-false", x, y, "False"))
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
    return raw, res


def mutated(f, m):
    raw, _ = candidates(f)
    return (raw[:m[2]] + m[4].encode() + raw[m[3]:]).replace(b"\n", b"\r\n")


def clone(i):
    d = f"{OUT}/wt{i}"
    if not os.path.exists(d):
        subprocess.run(["git", "clone", "-q", REPO, d], check=True)
    subprocess.run("git fetch -q && git reset -q --hard origin/HEAD", shell=True, cwd=d, check=True)
    return d


def run_tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONHASHSEED="0")
    shutil.rmtree(d + "/tmp", ignore_errors=True)
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60",
                        "--ignore=tests/test_build_feat_external_files.py", "tests"],
                       cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def stage_tests(n, seed, only):
    rnd = random.Random(seed)
    pool = []
    for f in files():
        if only and not any(o in f for o in only):
            continue
        orig = original_lines(f)
        raw, res = candidates(f)
        for m in res:
            try:
                ast.parse(raw[:m[2]] + m[4].encode() + raw[m[3]:])
            except SyntaxError:
                continue
            pool.append((f, m, m[0] in orig))
    print("pool", len(pool))
    # spread over files: sqrt weighting
    byfile = {}
    for x in pool:
        byfile.setdefault(x[0], []).append(x)
    chosen = []
    for f, xs in byfile.items():
        rnd.shuffle(xs)
    weights = {f: len(xs) ** 0.6 for f, xs in byfile.items()}
    total = sum(weights.values())
    for f, xs in byfile.items():
        chosen += xs[: max(1, round(n * weights[f] / total))]
    rnd.shuffle(chosen)
    done = set()
    if os.path.exists(OUT + "/mutants.jsonl"):
        done = {(j["file"], tuple(j["m"])) for j in map(json.loads, open(OUT + "/mutants.jsonl"))}
    chosen = [c for c in chosen if (c[0], tuple(c[1])) not in done]
    print("chosen", len(chosen))
    import queue, threading
    q = queue.Queue()
    for c in chosen:
        q.put(c)
    lock = threading.Lock()

    def worker(i):
        d = clone(i)
        while True:
            try:
                f, m, orig = q.get_nowait()
            except queue.Empty:
                return
            with open(os.path.join(d, f), "wb") as fp:
                fp.write(mutated(f, m))
            ok = run_tests(d)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
            with lock, open(OUT + "/mutants.jsonl", "a") as fp:
                fp.write(json.dumps({"file": f, "m": m, "orig": orig, "survived": ok}) + "\n")

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def stage_checks(workers):
    import queue, threading
    muts = [j for j in map(json.loads, open(OUT + "/mutants.jsonl")) if j["survived"]]
    done = set()
    if os.path.exists(OUT + "/results.jsonl"):
        done = {(j["file"], tuple(j["m"])) for j in map(json.loads, open(OUT + "/results.jsonl"))}
    q = queue.Queue()
    for j in muts:
        if (j["file"], tuple(j["m"])) not in done:
            q.put(j)
    print("to check", q.qsize())
    lock = threading.Lock()

    def worker(i):
        d = clone(f"c{i}")
        v = f"{OUT}/verif{i}"
        shutil.rmtree(v, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/verif", v], check=True)
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                return
            f, m = j["file"], j["m"]
            with open(os.path.join(d, f), "wb") as fp:
                fp.write(mutated(f, m))
            props = next(p for pre, p in MAP if f.startswith(pre)).split()
            res = {}
            for p in props:
                try:
                    r = subprocess.run([v + "/bin/check", p, "--scale", os.environ.get("MUT_SCALE", "0.4")],
                                   env=dict(os.environ, VP_REPO=d, VERIF_SEED="3"), capture_output=True, text=True, timeout=600)
                    res[p] = r.returncode
                    out = r.stdout[-500:]
                except subprocess.TimeoutExpired:
                    res[p] = "timeout"
                    out = ""
                if res[p] == 1:
                    break
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
            with lock, open(OUT + "/results.jsonl", "a") as fp:
                fp.write(json.dumps(dict(j, res=res, caught=1 in res.values(), out=out if 1 not in res.values() else "")) + "\n")

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def show():
    for j in map(json.loads, open(OUT + "/results.jsonl")):
        if j["caught"]:
            continue
        f, m = j["file"], j["m"]
        raw, _ = candidates(f)
        print(f"{f}:{m[0]} {m[1]}: {raw[m[2]:m[3]].decode()[:150]!r} -> {m[4][:150]!r}  {j['res']}")


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == "tests":
        stage_tests(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
    elif sys.argv[1] == "checks":
        stage_checks(int(sys.argv[2]) if len(sys.argv) > 2 else 2)
    else:
        show()

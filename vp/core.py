"""Runs the generated-input search for one property: shards it over worker
processes, shrinks failures, writes replay files and the evidence file."""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

from vp import scratch
from vp.boot import VERIF

EVID = os.path.join(VERIF, "evidence")
NSHARDS = 8


class Violation(AssertionError):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """The check itself cannot work (never a verdict on the code)."""


class CaseHang(KeyboardInterrupt):
    """A KeyboardInterrupt, so that an event loop lets it through."""


class Prop:
    def __init__(self, name, strategy, run, quick, thorough=None, cpu_s=60, wall_s=180,
                 flaky=False, shards=NSHARDS, rule=None):
        self.name = name
        self.strategy = strategy  # callable(tier) -> hypothesis strategy of JSON data
        self.run = run            # run(case, ctx); raises Violation
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.cpu_s = cpu_s
        self.wall_s = wall_s
        self.flaky = flaky        # owns real concurrency: a failure may not recur
        self.shards = shards
        self.rule = rule


class Ctx:
    """Per-shard statistics and per-case scratch space."""

    def __init__(self, tier):
        self.tier = tier
        self.evaluations = 0
        self.labels = {}
        self.nontrivial_hashes = set()
        self.samples = []
        self.excluded = {}
        self._case_nontrivial = False
        self._case = None
        self.notes = {}

    def nontrivial(self):
        self._case_nontrivial = True

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def exclude(self, name):
        """Count a piece of input left out because of a listed finding."""
        self.excluded[name] = self.excluded.get(name, 0) + 1

    def begin(self, case):
        self._case = case
        self._case_nontrivial = False

    def end(self):
        self.evaluations += 1
        if self._case_nontrivial:
            h = hashlib.sha1(dumps(self._case).encode()).digest()[:10]
            self.nontrivial_hashes.add(h)
            if len(self.samples) < 2:
                s = dumps(self._case)
                if len(s) < 6000:
                    self.samples.append(self._case)


def dumps(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True)


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    lines = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-6:]]
    return f"{type(e).__name__}: {e} [{' < '.join(reversed(lines))}]"


_current_case_timeout = [False]


def _on_alarm(signum, frame):
    raise CaseHang("case did not finish within its limit")


def run_guarded(prop, case, ctx):
    """Runs one case; any failure comes out as Violation, HarnessError or
    MemoryError/OSError of the sandbox itself."""
    ctx.begin(case)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, prop.cpu_s, 2)
    signal.setitimer(signal.ITIMER_REAL, prop.wall_s, 5)
    try:
        prop.run(case, ctx)
    except CaseHang:
        raise Violation(f"{prop.name}: did not terminate within {prop.cpu_s}s cpu / {prop.wall_s}s")
    except (Violation, HarnessError, MemoryError):
        raise
    except RecursionError as e:
        raise Violation("RecursionError " + str(e)[:200])
    except OSError as e:
        if e.errno in (28, 24, 23, 12):  # disk full, too many files, no memory
            raise HarnessError(short_tb(e))
        raise Violation("unexpected exception: " + short_tb(e)) from e
    except Exception as e:
        import hypothesis.errors as he

        if isinstance(e, he.HypothesisException):
            raise
        raise Violation("unexpected exception: " + short_tb(e)) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    ctx.end()


def save_json(path, obj):
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
    os.replace(tmp, path)


class Best:
    """Smallest failing case so far, kept on disk so that a killed shrink
    still leaves a reproduction."""

    def __init__(self, path, pid, prop):
        self.path, self.pid, self.prop = path, pid, prop
        self.size = None

    def offer(self, case, msg):
        n = len(dumps(case))
        if self.size is None or n <= self.size:
            self.size = n
            save_json(self.path, {"property": self.pid, "check": self.prop.name,
                                  "hashseed": os.environ.get("PYTHONHASHSEED", "0"),
                                  "message": str(msg)[:4000], "case": case})


def run_shard(pid, prop, tier, seed, shard, n, outdir):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 60
    ctx = Ctx(tier)
    s = derive_seed(seed, pid, prop.name, shard)
    random.seed(s)
    best = Best(os.path.join(outdir, f"fail-{prop.name}-{shard}.json"), pid, prop)
    res = {"prop": prop.name, "shard": shard, "status": "ok", "msg": ""}

    @hypothesis.seed(s)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), print_blob=False)
    @given(prop.strategy(tier))
    def test(case):
        if case is None:
            return
        try:
            run_guarded(prop, case, ctx)
        except Violation as e:
            best.offer(case, e)
            raise Violation(str(e)[:4000]) from None

    try:
        test()
    except HarnessError as e:
        res.update(status="error", msg=short_tb(e))
    except BaseException as e:  # noqa
        import hypothesis.errors as he

        if isinstance(e, Violation):
            res.update(status="fail", msg=str(e)[:4000])
        elif best.size is not None:
            # hypothesis could not make the failure recur
            with open(best.path) as f:
                case = json.load(f)["case"]
            again = None
            for _ in range(20 if prop.flaky else 5):
                try:
                    run_guarded(prop, case, Ctx(tier))
                except Violation as v:
                    again = v
                    break
            if again is not None or prop.flaky:
                res.update(status="fail", msg=f"{again or e} (intermittent)", why=short_tb(e)[:2000])
            else:
                os.replace(best.path, best.path.replace("fail-", "unconfirmed-"))
                res.update(status="unconfirmed", msg=str(e)[:1000])
        else:
            res.update(status="error", msg=short_tb(e) + "\n" + traceback.format_exc()[-2000:])
    res.update(evaluations=ctx.evaluations, labels=ctx.labels, excluded=ctx.excluded,
               samples=ctx.samples, notes=ctx.notes,
               nontrivial=[h.hex() for h in ctx.nontrivial_hashes])
    save_json(os.path.join(outdir, f"res-{prop.name}-{shard}.json"), res)


class Check:
    def __init__(self, pid, props, rule, assumptions=(), level="exploration", setup=None, case_filter=None):
        self.pid = pid
        self.props = props
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.setup = setup

    def prop(self, name):
        for p in self.props:
            if p.name == name:
                return p
        raise HarnessError(f"no sub-check {name} in {self.pid}")


def load_check(pid):
    return importlib.import_module(f"vp.checks.{pid.lower()}").CHECK


def kill_tree(pids):
    for p in pids:
        try:
            os.killpg(p, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def load_cases(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def known_cases(pid):
    """Listed findings: known_findings/<pid>.json, [{id, check, what, case}]."""
    return load_cases(os.path.join(VERIF, "known_findings", pid + ".json"))


def fork_case(prop, case, tier, times=1):
    """Runs a case in its own process; returns None or the failure text."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        os.close(r)
        out = {"ok": True}
        try:
            for _ in range(times):
                run_guarded(prop, case, Ctx(tier))
        except Violation as e:
            out = {"fail": str(e)[:4000]}
        except BaseException as e:
            out = {"error": short_tb(e)}
        with os.fdopen(w, "w") as f:
            json.dump(out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    kill_tree([pid])
    if not data:
        return "error", "worker died"
    out = json.loads(data)
    if "fail" in out:
        return "fail", out["fail"]
    if "error" in out:
        return "error", out["error"]
    return "ok", ""


def regress_case(pid, prop, r, tier, outdir):
    """Runs a saved case, under its own string hashing if it names one."""
    if "hashseed" not in r:
        return fork_case(prop, r["case"], tier)
    import subprocess

    path = os.path.join(outdir, "regress.json")
    save_json(path, r)
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(VERIF, "vp", "main.py"), pid, "--tier", tier, "--replay", path],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONHASHSEED=r["hashseed"]))
    text = "\n".join(x for x in p.stdout.decode("utf-8", "replace").splitlines() if not x.startswith("VIOLATION"))
    return {0: "ok", 1: "fail"}.get(p.returncode, "error"), text[:4000]


def shard_hashseed(seed, pid, name, shard):
    """String hashing decides the order of sets: each shard gets another one."""
    return "0" if shard == 0 else str(derive_seed(seed, pid, name, shard, "hash") % 1000)


def spawn_shard(pid, prop, tier, seed, shard, n, outdir):
    import subprocess

    env = dict(os.environ, VP_SCRATCH_ROOT=scratch.ROOT, PYTHONHASHSEED=shard_hashseed(seed, pid, prop.name, shard))
    with open(os.path.join(outdir, f"log-{prop.name}-{shard}.txt"), "wb") as log:
        return subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(VERIF, "vp", "main.py"), pid, "--tier", tier, "--seed", str(seed), "--shard", f"{prop.name}:{shard}:{n}"],
                                stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=env, process_group=0)


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VP_SCALE", "1")))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--shard", help=argparse.SUPPRESS)
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args(argv)
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    check = load_check(pid)

    if a.shard:
        name, s, n = a.shard.split(":")
        if check.setup:
            check.setup(tier)
        run_shard(pid, check.prop(name), tier, a.seed, int(s), int(n), os.path.join(EVID, f"run-{pid}"))
        return 0

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        want = rep.get("hashseed", os.environ.get("PYTHONHASHSEED", "0"))
        if want != os.environ.get("PYTHONHASHSEED"):
            sys.stdout.flush()
            os.execve(sys.executable, [sys.executable, "-W", "ignore", os.path.join(VERIF, "vp", "main.py")] + list(argv), dict(os.environ, PYTHONHASHSEED=want))
        prop = check.prop(rep["check"])
        if check.setup:
            check.setup(tier)
        st, msg = fork_case(prop, rep["case"], tier, times=20 if prop.flaky else 1)
        if st == "fail":
            print(msg)
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        if st == "error":
            print("error:", msg, file=sys.stderr)
            return 2
        print("replay passes")
        return 0

    budget = a.budget or (700 if tier == "quick" else 4 * 3600)
    os.makedirs(EVID, exist_ok=True)
    outdir = os.path.join(EVID, f"run-{pid}")
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    if check.setup:
        check.setup(tier)

    violations = []
    known_lines = []
    errors = []
    evals = 0

    # 1. saved cases: listed findings, and regressions that bypass the library
    for k in known_cases(pid):
        if a.only and k["check"] != a.only:
            continue
        st, msg = fork_case(check.prop(k["check"]), k["case"], tier)
        evals += 1
        if st == "fail":
            known_lines.append(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
        elif st == "error":
            errors.append(f"known finding {k['id']}: {msg}")
    for i, r in enumerate(load_cases(os.path.join(VERIF, "regress", pid + ".json"))):
        if a.only and r["check"] != a.only:
            continue
        prop = check.prop(r["check"])
        st, msg = regress_case(pid, prop, r, tier, outdir)
        evals += 1
        if st == "fail":
            path = os.path.join(outdir, f"fail-regress-{i}.json")
            save_json(path, dict({"property": pid, "message": msg}, **r))
            violations.append((msg, path))
            break
        if st == "error":
            errors.append(f"regression case {i}: {msg}")

    # 2. the search
    tasks = []
    if not violations:
        for prop in check.props:
            if a.only and prop.name != a.only:
                continue
            total = max(1, int((prop.quick if tier == "quick" else prop.thorough) * a.scale))
            shards = min(prop.shards, total)
            for s in range(shards):
                n = total // shards + (1 if s < total % shards else 0)
                tasks.append((prop, s, n))
        # long ones first is unknowable; interleave shards instead
        tasks.sort(key=lambda t: t[1])
    running = {}
    procs = []  # kept, so that only the loop below waits for them
    results = []
    workers = min(8, os.cpu_count() or 8)
    stopped = None
    queue = list(tasks)
    while (queue or running) and not violations:
        while queue and len(running) < workers:
            prop, s, n = queue.pop(0)
            procs.append(spawn_shard(pid, prop, tier, a.seed, s, n, outdir))
            p = procs[-1].pid
            running[p] = (prop, s)
        if time.time() - t0 > budget:
            stopped = f"time budget of {budget:.0f}s reached with {len(running)} shards running and {len(queue)} not started"
            break
        p, status = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            time.sleep(0.02)
            continue
        if p not in running:
            continue
        prop, s = running.pop(p)
        kill_tree([p])
        rp = os.path.join(outdir, f"res-{prop.name}-{s}.json")
        if not os.path.exists(rp):
            fp = os.path.join(outdir, f"fail-{prop.name}-{s}.json")
            if os.path.exists(fp):
                violations.append((json.load(open(fp))["message"], fp))
            else:
                errors.append(f"shard {prop.name}/{s} died (status {status})")
            continue
        with open(rp) as f:
            r = json.load(f)
        results.append(r)
        if r["status"] == "fail":
            violations.append((r["msg"], os.path.join(outdir, f"fail-{prop.name}-{s}.json")))
        elif r["status"] == "error":
            errors.append(f"{prop.name}/{s}: {r['msg']}")
    kill_tree(list(running))
    for p in list(running):
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    if not violations:
        for f in sorted(os.listdir(outdir)):
            if f.startswith("fail-"):
                fp = os.path.join(outdir, f)
                violations.append((json.load(open(fp))["message"], fp))

    scratch.sweep()

    # 3. evidence
    labels, excluded, notes = {}, {}, {}
    nt = set()
    samples = []
    per = {}
    for r in results:
        evals += r["evaluations"]
        for k, v in r["labels"].items():
            key = f"{r['prop']}:{k}"
            labels[key] = labels.get(key, 0) + v
        for k, v in r["excluded"].items():
            excluded[k] = excluded.get(k, 0) + v
        for h in r["nontrivial"]:
            nt.add((r["prop"], h))
        d = per.setdefault(r["prop"], {"evaluations": 0, "nontrivial": 0})
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += len(r["nontrivial"])
        if r["samples"] and sum(1 for x in samples if x["check"] == r["prop"]) < 1:
            samples.append({"check": r["prop"], "case": r["samples"][-1]})
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(nt),
        "rule": check.rule,
        "samples": samples or [{"check": "none", "case": "no non-trivial case this run"}],
        "per_check": per,
        "classes": dict(sorted(labels.items())),
        "excluded_by_findings": excluded,
        "unconfirmed": [r["msg"] for r in results if r["status"] == "unconfirmed"],
        "stopped": stopped,
        "shards": len(results),
    }
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    if not a.only:
        save_json(os.path.join(EVID, pid + ".json"), ev)

    for l in known_lines:
        print(l)
    print(f"{pid} {tier} seed={a.seed}: {evals} cases, {len(nt)} distinct non-trivial, "
          f"{time.time()-t0:.1f}s" + (f"; {stopped}" if stopped else ""))
    if a.only or os.environ.get("VP_VERBOSE"):
        print(json.dumps(cov["per_check"]), json.dumps(cov["classes"], indent=0))
    if violations:
        msg, path = violations[0]
        print(msg[:3000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors[:5]:
            print("error:", e, file=sys.stderr)
        return 2
    return 0

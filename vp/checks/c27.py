"""C27: watch mode ends up with the same site as a fresh dev build."""
import json
import os
import shutil
import signal
import socket
import subprocess
import sys
import time

from hypothesis import strategies as st

from vp import inline_executor, scratch, site, sitecmp, sitegen
from vp.core import Check, HarnessError, Prop, Violation


# -- edits as a program makes them, and the events that they cause ------------
# A micro step is a list of (action, events): the action changes the files, the
# events are what the observer reports for it (a list of (kind, path[, to])).

EXTRA = ["src/public/xa", "src/public/xb", "src/public/xa/in", "src/public/xc/deep"]
EXTRA_FILES = {
    "index.html": ["<!DOCTYPE html>\n<html><head></head><body>extra %d</body></html>\n", "<!DOCTYPE html>\n<html><head></head><body><style>.a { color: red; top: %dpx; }</style></body></html>\n"],
    "s.css": [".x { margin: %dpx; }\n", ".x { .y { padding: %dpx; } }\n"],
    "m.js": ["export const m = %d;\n"],
    "t.txt": ["text %d\n"],
    "sub/u.txt": ["deeper %d\n"],
}


class World:
    """The project on disk and the queue of events not delivered yet."""

    def __init__(self, root):
        self.root = root
        self.clock = sitegen.Clock()
        self.queue = []
        self.away = {}

    def path(self, rel):
        return os.path.join(self.root, rel)

    def write(self, rel, data, stamp=True):
        os.makedirs(os.path.dirname(self.path(rel)), exist_ok=True)
        with open(self.path(rel), "wb") as f:
            f.write(data)
        self.clock.stamp(self.path(rel))

    def emit(self, *events):
        self.queue.extend(events)

    def folders_made(self, rel):
        """mkdir -p of the folder of a file, with its events."""
        missing = []
        p = os.path.dirname(rel)
        while p and not os.path.isdir(self.path(p)):
            missing.append(p)
            p = os.path.dirname(p)
        for p in reversed(missing):
            os.mkdir(self.path(p))
            self.emit(["dir created", p], ["dir modified", os.path.dirname(p)])

    def pruned(self, rel):
        p = os.path.dirname(rel)
        while p not in ("src", "src/public", "src/partials", ""):
            try:
                os.rmdir(self.path(p))
            except OSError:
                break
            self.emit(["dir deleted", p], ["dir modified", os.path.dirname(p)])
            p = os.path.dirname(p)

    def walk(self, rel):
        dirs, files = [], []
        for d, ds, fs in os.walk(self.path(rel)):
            x = os.path.relpath(d, self.root)
            dirs += [os.path.join(x, y) for y in sorted(ds)]
            files += [os.path.join(x, y) for y in sorted(fs)]
        return dirs, files


def micro(w, op, how):
    """Yields after each part of the edit; how chooses the way it is made."""
    kind = op[0]
    noise = ["dir modified", os.path.dirname(op[1])]
    if kind == "set":
        p, data = op[1], sitegen.content(op[2])
        w.folders_made(p)
        there = os.path.exists(w.path(p))
        if how % 4 == 0 or how % 4 == 1 and not there:  # in place
            if not there:
                w.write(p, b"" if how % 8 < 4 else data)
                w.emit(["created", p], noise)
                if how % 3 == 0:
                    w.emit(["created", p])
                yield
            w.write(p, data)
            w.emit(*[["modified", p]] * (1 + how % 3))
            if how % 5 == 0:
                w.emit(noise)
        elif how % 4 == 1:  # truncated, then written
            w.write(p, b"")
            w.emit(["modified", p])
            yield
            w.write(p, data)
            w.emit(["modified", p])
        elif how % 4 == 2:  # a new file in place of the old one
            t = p + (".tmp", "~", ".part.html", ".new.css")[how // 4 % 4]
            if how // 16 % 2:
                t = w.path("other.tmp")  # from outside of what is watched
                with open(t, "wb") as f:
                    f.write(data)
                w.clock.stamp(t)
                os.replace(t, w.path(p))
                w.emit(["created", p], noise)
            else:
                w.write(t, data)
                w.emit(["created", t], noise, ["modified", t])
                yield
                os.replace(w.path(t), w.path(p))
                w.emit(["moved", t, p], noise, noise)
        elif there:  # the old one is kept while the new one is written
            t = p + "~"
            os.replace(w.path(p), w.path(t))
            w.emit(["moved", p, t], noise, noise)
            yield
            w.write(p, data)
            w.emit(["created", p], noise, ["modified", p])
            yield
            os.remove(w.path(t))
            w.emit(["deleted", t], noise)
        else:
            w.write(p, data)
            w.emit(["created", p], noise, ["modified", p])
    elif kind == "del":
        if os.path.lexists(w.path(op[1])):
            os.remove(w.path(op[1]))
            if how % 2:
                w.emit(["modified", op[1]])
            w.emit(["deleted", op[1]], noise)
            yield
            w.pruned(op[1])
    elif kind == "mv":
        p, q = op[1], op[2]
        w.folders_made(q)
        os.replace(w.path(p), w.path(q))
        if how % 3 == 0:  # the two halves were not put together
            w.emit(["deleted", p], noise, ["created", q])
        else:
            w.emit(["moved", p, q], noise, noise)
        yield
        w.pruned(p)
    elif kind == "touch":
        w.clock.stamp(w.path(op[1]))
        w.emit(["modified", op[1]])
    elif kind == "fill":  # a folder with some files
        for name, text in op[2].items():
            p = os.path.join(op[1], name)
            if os.path.isdir(w.path(p)):
                continue
            w.folders_made(p)
            there = os.path.exists(w.path(p))
            w.write(p, text.encode())
            w.emit(["modified" if there else "created", p])
            yield
    elif kind == "dir mv":
        p, q = op[1], op[2]
        if os.path.isdir(w.path(p)) and not os.path.lexists(w.path(q)) and not (q + "/").startswith(p + "/"):
            w.folders_made(q)
            os.rename(w.path(p), w.path(q))
            w.emit(["dir moved", p, q], noise, noise)
            if how % 3 == 0 and not os.path.lexists(w.path(q + "2")):  # moved on before the observer could look into it
                os.rename(w.path(q), w.path(q + "2"))
                w.emit(["dir moved", q, q + "2"], noise, noise)
                p, q = q, q + "2"
            dirs, files = w.walk(q)
            for x in dirs:
                w.emit(["dir moved", p + x[len(q):], x])
            for x in files:
                w.emit(["moved", p + x[len(q):], x])
            yield
            w.pruned(op[1])
    elif kind == "dir out":
        if os.path.isdir(w.path(op[1])):
            t = w.path("away%d" % len(w.away))
            os.rename(w.path(op[1]), t)
            w.away[len(w.away)] = t
            w.emit(["dir deleted", op[1]], noise)
            yield
            w.pruned(op[1])
    elif kind == "dir in":
        if w.away and not os.path.lexists(w.path(op[1])):
            k = sorted(w.away)[op[2] % len(w.away)]
            w.folders_made(op[1])
            os.rename(w.away.pop(k), w.path(op[1]))
            w.emit(["dir created", op[1]], noise)
            dirs, files = w.walk(op[1])
            w.emit(*[["dir created", x] for x in dirs], *[["created", x] for x in files])
    elif kind == "dir del":
        if os.path.isdir(w.path(op[1])):
            dirs, files = w.walk(op[1])
            for f in files:
                os.remove(w.path(f))
                if how % 2:
                    w.emit(["modified", f])
                w.emit(["deleted", f])
                yield
            for x in reversed([op[1]] + dirs):
                if os.path.isdir(w.path(x)):
                    os.rmdir(w.path(x))
                    w.emit(["dir deleted", x])
            w.pruned(op[1])
    elif kind == "flash":  # a file that is gone before anyone looks
        p = op[1]
        if not os.path.lexists(w.path(p)):
            w.write(p, b"x")
            w.emit(["created", p], ["modified", p])
            if how % 2:
                yield
            os.remove(w.path(p))
            w.emit(["deleted", p])
    elif kind == "config":
        site.write(w.root, "vanillaplusjs.json", op[2])
    yield


def deliver(handler, root, ev):
    from watchdog import events as e

    cls = {"created": e.FileCreatedEvent, "modified": e.FileModifiedEvent, "deleted": e.FileDeletedEvent, "moved": e.FileMovedEvent,
           "dir created": e.DirCreatedEvent, "dir modified": e.DirModifiedEvent, "dir deleted": e.DirDeletedEvent, "dir moved": e.DirMovedEvent}[ev[0]]
    handler.dispatch(cls(*[os.path.join(root, x) for x in ev[1:]]))


def sources(root):
    res = {}
    for d, _, files in os.walk(os.path.join(root, "src")):
        for f in files:
            p = os.path.join(d, f)
            s = os.lstat(p)
            res[os.path.relpath(p, root)] = (s.st_mtime_ns, s.st_size, s.st_ino)
    return res


def run(case, ctx):
    from vanillaplusjs.runners.dev import DevEventHandler

    with scratch.tempdir() as d:
        site.project(d, {}, site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES))
        w = World(d)
        ops = [op for s in case["steps"] for op in s["ops"]]
        for op in case["first"]:
            for _ in micro(w, op, 0):
                pass
        w.queue.clear()
        site.build(d, dev=True, symlinks=case["links"])
        handler = DevEventHandler(folder=d, debounce_seconds=0, symlinks=case["links"])
        script = case["script"]
        pos = [0]

        def choose():
            v = script[pos[0] % len(script)]
            pos[0] += 1
            return v

        def edits():
            for op in ops:
                yield from micro(w, op, choose()[0])

        todo = edits()
        stats = {"builds": 0, "inside": 0, "failed": 0}

        def pump(n):
            for _ in range(min(n, len(w.queue))):
                deliver(handler, d, w.queue.pop(0))

        def rebuild(inside):
            """One look at whether to rebuild; inside: after how many of the
            build's tasks the next edits are made and reported."""
            def hook(n):
                if inside is not None and n == inside:
                    for _ in range(choose()[1] + 1):
                        if next(todo, None) is None and False:
                            break
                    stats["inside"] += bool(w.queue)
                    # what the build itself wrote is reported as well, in order
                    pump(len(w.queue))

            before = sources(d)
            inline_executor.configure(schedule=case["schedule"], hook=hook if inside is not None else None)
            try:
                handler.rebuild_if_appropriate()
            except SystemExit as e:
                raise Violation(f"the watcher ends with exit {e.code}")
            except Exception as e:
                raise Violation(f"the watcher dies of {type(e).__name__}: {e}")
            n = len(inline_executor.order())
            inline_executor.configure()
            if n and inside is None:
                after = sources(d)
                for p in sorted(set(after) - set(before)):  # placeholders
                    w.emit(["created", p], ["modified", p])
            elif n:
                w.emit(*[["created", p] for p in sorted(set(sources(d)) - set(before)) if p.endswith(".images.js")])
            stats["builds"] += n > 0
            return n

        more = True
        while more:
            more = next(todo, 0) is None
            a, b, c, e = choose()
            pump([0, 0, 1, 2, 3, len(w.queue), len(w.queue), len(w.queue)][b])
            if c:
                rebuild(e if e < 6 else None)
                if e >= 9 and rebuild(None):
                    raise Violation("the watcher rebuilds again though nothing was reported since")
        for _ in todo:
            pass
        pump(len(w.queue))
        for i in range(12):
            n = rebuild(None)
            if not n and not w.queue:
                break
            pump(len(w.queue))
        else:
            raise Violation("the watcher never comes to rest")
        if rebuild(None):
            raise Violation("the watcher rebuilds though nothing changed since it last looked")
        try:
            want, _ = sitecmp.reference(d, True, case["links"])
        except site.BuildFailed:
            ctx.label("unbuildable in the end")
            return
        got = site.www(d)
        if case["images"]:
            got, want = sitecmp.plain(got), sitecmp.plain(want)
        diff = sitecmp.summary(got, want)
        if diff:
            raise Violation(f"after all events: out/www/{diff}")
        if stats["builds"] > 1:
            ctx.nontrivial()
        if stats["inside"]:
            ctx.label("edits during a rebuild")


def run_watch(case, ctx):
    """The command itself, with the real observer."""
    from vp.boot import REPO
    from vp.checks.c29 import free_port

    with scratch.tempdir() as d:
        site.project(d, {}, site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES))
        w = World(d)
        ops = [op for s in case["steps"] for op in s["ops"]]
        for op in case["first"]:
            for _ in micro(w, op, 0):
                pass
        site.write(d, "src/public/probe.txt", "probe")
        port = free_port()
        code = ("import sys; sys.dont_write_bytecode = True; sys.path.insert(0, {!r}); import vanillaplusjs.main as m; sys.argv[0] = 'vanillaplusjs'; m.main()").format(REPO)
        args = ["dev", "--watch", "--debounce", str(case["debounce"]), "--port", str(port), "--host", "127.0.0.1"]
        log = open(os.path.join(d, "log.txt"), "wb")
        p = subprocess.Popen([sys.executable, "-c", code] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True, preexec_fn=scratch.die_with_parent)

        class Ended(Exception):
            pass

        def alive():
            if p.poll() is not None:
                if case["start"] and b"Running server" not in site.read(d, "log.txt"):
                    raise Ended  # the edits made the first build fail
                raise Violation(f"the watcher ends with {p.returncode}: {open(log.name, errors='replace').read()[-1500:]}")

        try:
            end = time.time() + 120
            wait = case["start"]
            if wait == 0:  # until the site is served
                while True:
                    alive()
                    try:
                        socket.create_connection(("127.0.0.1", port), timeout=5).close()
                        break
                    except OSError:
                        time.sleep(0.02)
                    if time.time() > end:
                        raise Violation("the site is not served within two minutes")
            elif wait == 1:  # until the first build ended
                while not os.path.exists(os.path.join(d, "out/dependency_graph.json")) and time.time() < end:
                    alive()
                    time.sleep(0.001)
            elif wait == 2:  # amid the first build
                while not os.path.exists(os.path.join(d, "out/www/probe.txt")) and time.time() < end:
                    alive()
                    time.sleep(0.001)
            script = case["script"]
            k = 0
            for op in ops:
                for _ in micro(w, op, script[k % len(script)][0]):
                    k += 1
                    pause = script[k % len(script)][1]
                    if pause:
                        time.sleep([0, 0, 0.01, 0.05, 0.15, 0.3, 0.6, 1.0][pause])
            try:
                want, _ = sitecmp.reference(d, True, True)
            except site.BuildFailed:
                ctx.label("unbuildable in the end")
                return
            diff, end = "?", time.time() + 60
            while diff and time.time() < end:
                alive()
                time.sleep(0.1)
                try:
                    diff = sitecmp.summary(sitecmp.plain(site.www(d)), sitecmp.plain(want))
                except (FileNotFoundError, KeyError, UnicodeDecodeError):
                    diff = "?"
            if diff:
                raise Violation(f"a minute after the last edit: out/www/{diff}\n" + open(log.name, errors="replace").read()[-6000:])
            time.sleep(0.5)
            alive()
            if sitecmp.summary(sitecmp.plain(site.www(d)), sitecmp.plain(want)):
                raise Violation("the site was complete, but changed again")
            if ops:
                ctx.nontrivial()
            p.send_signal(signal.SIGINT)
            try:
                rc = p.wait(60)
            except subprocess.TimeoutExpired:
                raise Violation("the watcher does not end on an interrupt")
            if rc != 0:
                raise Violation(f"the watcher ends with {rc} on an interrupt")
        except Ended:
            ctx.label("first build failed")
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            log.close()


@st.composite
def extras(draw):
    n = draw(st.integers(0, 3))
    if n == 0:
        return []
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 9))
        p, q = draw(st.sampled_from(EXTRA)), draw(st.sampled_from(EXTRA))
        if k <= 3:
            names = draw(st.lists(st.sampled_from(sorted(EXTRA_FILES)), min_size=1, max_size=4, unique=True))
            ops.append(["fill", p, {x: draw(st.sampled_from(EXTRA_FILES[x])) % draw(st.integers(0, 3)) for x in names}])
        elif k <= 5:
            ops.append(["dir mv", p, q])
        elif k == 6:
            ops.append(["dir out", p])
        elif k == 7:
            ops.append(["dir in", p, draw(st.integers(0, 3))])
        elif k == 8:
            ops.append(["dir del", p])
        else:
            ops.append(["flash", draw(st.sampled_from(["src/public/fl.html", "src/public/css/fl.css", "src/public/fl.txt", "src/public/4913"])), 0])
    return ops


@st.composite
def cases(draw, tier="quick", images=False, max_steps=4, config=True):
    inner = sitegen.history(images=images, soft=True, max_steps=max_steps if tier == "quick" else max_steps + 4, max_files=9 if tier == "quick" else 14, dangling=draw(st.integers(0, 4)) == 0, modes=False)
    base = draw(sitegen.with_breaks(inner, times=2)) if draw(st.integers(0, 2)) == 0 else draw(inner)
    steps = []
    for s in base["steps"][1:]:
        ops = list(s["ops"])
        at = draw(st.integers(0, len(ops)))
        ops[at:at] = draw(extras())
        if config and draw(st.integers(0, 11)) == 0:
            cfg = site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES, host=draw(st.sampled_from(["a.b", "c.d"])))
            good = json.dumps(cfg)
            at = draw(st.integers(0, len(ops)))
            if draw(st.booleans()):
                ops[at:at] = [["config", "x", draw(st.sampled_from(["", good[:40], "[]", "{}"]))], ["set", "src/public/xcfg.txt", "1"], ["config", "x", good], ["set", "src/public/xcfg.txt", "2"], ["del", "src/public/xcfg.txt"]]
            else:
                ops[at:at] = [["config", "x", good], ["set", "src/public/xcfg.txt", "1"]]
        steps.append({"ops": ops})
    script = draw(st.lists(st.tuples(st.integers(0, 47), st.integers(0, 7), st.sampled_from([0, 0, 1, 1, 1]), st.integers(0, 11)).map(list), min_size=4, max_size=24))
    return {"first": base["steps"][0]["ops"], "steps": steps, "debounce": draw(st.sampled_from([0, 20, 100])), "start": draw(st.sampled_from([0, 0, 1, 2])), "links": draw(st.booleans()), "images": images, "script": script, "schedule": draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=4)))}


CHECK = Check("C27", [
    Prop("events", lambda tier: cases(tier=tier), run, quick=2500, thorough=80000),
    Prop("watch", lambda tier: cases(tier=tier, max_steps=3, config=False), run_watch, quick=24, thorough=400, flaky=True, wall_s=400),
    Prop("images", lambda tier: cases(tier=tier, images=True, max_steps=3), run, quick=250, thorough=8000),
], rule="a case is a history of edits with their events, and a script that says when events are delivered and rebuilds happen; it counts as non-trivial when there were at least two rebuilds",
    assumptions=["events are those that watchdog's inotify emitter reports, in order", "the configuration is not watched; a change of it applies with the next event"])

"""C25: external files are installed only with the declared digest."""
import base64
import gzip
import hashlib
import http.server
import json
import os
import socket
import threading

from hypothesis import strategies as st

from vp import scratch, site, sitegen
from vp.checks.c03 import check_links
from vp.core import Check, Prop, Violation

# -- the server: each url has a list of behaviours, one per request -----------


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def finish(self):
        try:
            super().finish()
        except OSError:
            pass

    def send(self, status, body, headers=(), length=None):
        self.send_response(status)
        for k, v in headers:
            self.send_header(k, v)
        self.send_header("Content-Length", str(len(body) if length is None else length))
        self.send_header("Connection", "close")
        self.end_headers()
        self.wfile.write(body)
        self.close_connection = True

    def do_GET(self):
        srv = self.server
        name = self.path
        if name.startswith("/moved"):
            self.send(200, srv.right[name[6:]])
            return
        with srv.guard:
            srv.log.append(name)
            how = srv.how.get(name)
        if how is None:
            self.send(404, b"no such thing")
            return
        right = srv.right[name]
        wrong = b"WRONG" + right[:20]
        if how == "ok":
            self.send(200, right)
        elif how == "ok gzip":
            self.send(200, gzip.compress(right), [("Content-Encoding", "gzip")])
        elif how in ("ok chunked", "cut chunked"):
            self.send_response(200)
            self.send_header("Transfer-Encoding", "chunked")
            self.send_header("Connection", "close")
            self.end_headers()
            n = max(1, len(right) // 3)
            parts = [right[i:i + n] for i in range(0, len(right), n)]
            if how == "cut chunked":
                parts = parts[:-1]
            for x in parts:
                self.wfile.write(b"%x\r\n%s\r\n" % (len(x), x))
            if how == "ok chunked":
                self.wfile.write(b"0\r\n\r\n")
            self.close_connection = True
        elif how == "ok no length":
            self.send_response(200)
            self.send_header("Connection", "close")
            self.end_headers()
            self.wfile.write(right)
            self.close_connection = True
        elif how == "ok moved":
            self.send(302, b"", [("Location", "/moved" + name)])
        elif how == "wrong":
            self.send(200, wrong)
        elif how == "longer":
            self.send(200, right + b"\n")
        elif how == "empty":
            self.send(200, b"")
        elif how == "prefix":
            self.send(200, right[:-1])
        elif how == "short":  # the connection ends before the content does
            self.send(200, right[:len(right) // 2], length=len(right))
        elif how == "short all but one":
            self.send(200, right[:-1], length=len(right))
        elif how in ("404", "500", "403"):
            self.send(int(how), b"error")
        elif how == "500 with content":
            self.send(500, right)
        elif how == "404 with content":
            self.send(404, right)
        elif how == "loop":
            self.send(302, b"", [("Location", name)])
        elif how == "bad gzip":
            self.send(200, gzip.compress(right)[:-20], [("Content-Encoding", "gzip")])
        elif how == "no gzip":
            self.send(200, right, [("Content-Encoding", "gzip")])
        elif how == "reset":
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
            self.connection.close()
            self.close_connection = True
        elif how == "garbage":
            self.wfile.write(b"\0\1\2 this is no http\r\n\r\n")
            self.close_connection = True


OK = ["ok", "ok gzip", "ok chunked", "ok no length", "ok moved"]
BAD = ["wrong", "longer", "empty", "prefix", "short", "short all but one", "404", "500", "403", "500 with content", "404 with content", "loop", "bad gzip", "no gzip", "reset", "garbage", "cut chunked"]


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 64

    def handle_error(self, request, address):
        pass


_server = {}


def server():
    if _server.get("pid") != os.getpid():
        s = Server(("127.0.0.1", 0), Handler)
        s.guard = threading.Lock()
        s.log, s.how, s.right = [], {}, {}
        threading.Thread(target=s.serve_forever, daemon=True).start()
        _server.update(pid=os.getpid(), server=s)
    return _server["server"]


# -- the files ----------------------------------------------------------------

PATHS = ["src/public/css/lib/boot.min.css", "src/public/js/lib/boot.min.js", "src/public/js/lib/other.js", "src/public/assets/big.bin", "src/partials/lib.html", "src/public/img/icons/ext.svg", "lib/not served.txt", "src/public/css/lib/ü b.css"]
ALGS = ["sha384", "sha256", "sha512"]


def contents(path, v):
    """The right content of version v."""
    mark = f"MARK-{PATHS.index(path)}-{v}-KRAM"
    pad = "x" * [0, 10, 5000, 9000, 8192 - len(mark), 100000][v % 6]
    if path.endswith(".css"):
        return f".a {{ content: \"{mark}{pad}\"; }}\n".encode()
    if path.endswith(".js"):
        return f"export const m = \"{mark}{pad}\";\n".encode()
    if path.endswith(".html"):
        return f"<p>{mark}{pad}</p>".encode()
    if path.endswith(".svg"):
        return f'<svg xmlns="http://www.w3.org/2000/svg" width="1" height="1"><!--{mark}{pad}--></svg>'.encode()
    if v % 6 in (2, 5):  # these are only copied, so that they can be large
        pad = "x" * (300000 if v % 6 == 2 else 1100000)
    return (mark + pad).encode() + bytes(range(256))


def integrity(alg, data):
    return alg + "-" + base64.b64encode(getattr(hashlib, alg)(data).digest()).decode()


def page(paths):
    head = "".join(f'<link rel="stylesheet" href="/{p[11:]}">' for p in sorted(paths) if p.endswith(".css"))
    body = "".join(f'<script type="module">import "/{p[11:]}";</script>' for p in sorted(paths) if p.endswith(".js"))
    if "src/partials/lib.html" in paths:
        body += '<!--[TEMPLATE: ["/lib.html", {}]]-->'
    return f"<!DOCTYPE html>\n<html><head>{head}</head><body>{body}</body></html>\n"


def tampered(data, how):
    if not data:
        return b"mine"
    if how == "append":
        return data + b" "
    if how == "flip":
        return data[:-1] + bytes([data[-1] ^ 1])
    if how == "cut":
        return data[: len(data) // 2]
    if how == "empty":
        return b""
    return b"mine"


def disk(d, p):
    try:
        with open(os.path.join(d, p), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def run(case, ctx, real=False):
    srv = server()
    port = srv.server_address[1]
    with scratch.tempdir() as d:
        site.project(d, {"src/public/a.html": "<!DOCTYPE html>\n<html><head></head><body>a</body></html>\n"}, site.config())
        clock = sitegen.Clock()
        managed = set()   # configured in the last build that succeeded: removed when dropped
        unclear = set()   # may be removed by the next build that succeeds
        for i, step in enumerate(case["steps"]):
            where = f"step {i}"
            cfg = step["config"]  # {path: [version, alg, behaviour]}
            for op in step["ops"]:
                p = op[1]
                old = disk(d, p)
                if op[0] == "clean":
                    from vanillaplusjs.runners.clean import clean
                    clean(d, False)
                    unclear |= managed
                    managed = set()
                elif op[0] == "tamper":
                    new = tampered(old, op[2])
                    if new == old:
                        continue
                    sitegen.apply(d, ["set", p, {"raw": new.decode("latin-1")}], clock)
                elif op[0] == "touch" and old is not None:
                    clock.stamp(os.path.join(d, p))
                elif op[0] == "delete" and old is not None:
                    os.remove(os.path.join(d, p))
                elif op[0] == "place":  # the right content of some version, put there by hand
                    sitegen.apply(d, ["set", p, {"raw": contents(p, op[2]).decode("latin-1")}], clock)
            mine = {p: disk(d, p) for p in PATHS if p not in cfg and p not in managed and p not in unclear and disk(d, p) is not None}
            site.write(d, "src/public/index.html", page(cfg))
            clock.stamp(os.path.join(d, "src/public/index.html"))
            name = lambda p: f"/{i}/{PATHS.index(p)}"
            srv.how = {name(p): b for p, (v, alg, b) in cfg.items()}
            srv.right = {name(p): contents(p, v) for p, (v, alg, b) in cfg.items()}
            ext = {}
            for p, (v, alg, b) in cfg.items():
                ext[p if not step["keys"] else f"key {PATHS.index(p)}"] = dict({"url": f"http://127.0.0.1:{port}{name(p)}", "integrity": integrity(alg, contents(p, v))}, **({"relpath": p} if step["keys"] else {}))
            site.write(d, "vanillaplusjs.json", json.dumps(site.config(external_files=ext)))
            before = {p: disk(d, p) for p in PATHS}
            ours = snapshot(d)
            needed = {p for p, (v, alg, b) in cfg.items() if before[p] != contents(p, v)}
            broken = {p for p in needed if cfg[p][2] not in OK}
            srv.log.clear()
            err = None
            try:
                site.build(d, dev=step["dev"], schedule=case["schedule"], real=real)
            except site.BuildFailed as e:
                err = e
            with srv.guard:
                log = list(srv.log)
            after = {p: disk(d, p) for p in PATHS}
            # the requests made
            for p in cfg:
                n = log.count(name(p))
                if n and p not in needed:
                    raise Violation(f"{where}: {p} has the declared content, but is downloaded")
                if n > 1 and cfg[p][2] != "loop":
                    raise Violation(f"{where}: {p} is requested {n} times")
            # what is there in any case
            for p, (v, alg, b) in cfg.items():
                right = contents(p, v)
                if p not in needed or err is None:
                    if after[p] != right:
                        raise Violation(f"{where}: {p} is {show(after[p])} instead of {show(right)} ({'the build succeeds' if err is None else f'it was right before, and the build fails: {err}'})")
                elif after[p] not in (before[p], right):
                    raise Violation(f"{where}: {p} was {show(before[p])}, and the failing build makes it {show(after[p])}")
                elif p in broken and after[p] != before[p]:
                    raise Violation(f"{where}: {p} becomes {show(after[p])} though it cannot be downloaded ({b})")
            for p, was in mine.items():
                if after[p] != was:
                    raise Violation(f"{where}: {p}, no external file, was {show(was)} and is {show(after[p])}")
            compare_rest(where, ours, snapshot(d), set(cfg) | managed | unclear)
            leftovers(where, d, {p for p in PATHS})
            if broken:
                if err is None:
                    raise Violation(f"{where}: the build succeeds though {sorted(broken)} cannot be downloaded ({[cfg[p][2] for p in broken]})")
                ctx.label("download fails")
            elif err is not None:
                raise Violation(f"{where}: the build fails: {err}")
            dropped = {p for p in managed if p not in cfg}
            if err is None:
                for p in dropped:
                    if after[p] is not None:
                        raise Violation(f"{where}: {p} is not configured any more, but still there")
                    ctx.label("dropped")
                managed = set(cfg)
                unclear = set()
                www = site.www(d)
                check_links(www, where + ": ")
                for p in cfg:
                    if p.startswith("src/public/") and not p.endswith((".css", ".js", ".html")) and www.get(p[11:]) != after[p]:
                        raise Violation(f"{where}: {p} is not served as it is")
                    if p.endswith(".js") and contents(p, cfg[p][0]).strip()[:40] not in www.get(p[11:], b""):
                        raise Violation(f"{where}: {p} is not what is served")
            else:
                gone = {p for p in dropped if after[p] is None}
                # removed by the failing build: done with; else by the next that succeeds
                managed -= gone
                unclear |= {p for p in cfg if p not in managed}
                for p in gone:
                    unclear.discard(p)
            unclear -= managed
            if needed and i:
                ctx.nontrivial()
            if needed - broken:
                ctx.label("downloaded")
            if needed and any(before[p] is not None for p in needed):
                ctx.label("replaced")


def show(data):
    return "missing" if data is None else repr(data[:60]) + (f" ({len(data)} bytes)" if len(data) > 60 else "")


def snapshot(d):
    res = {}
    for x, dirs, files in os.walk(d):
        if x == d:
            dirs[:] = [y for y in dirs if y not in ("out", "artifacts")]
        for f in files:
            p = os.path.relpath(os.path.join(x, f), d)
            if p not in PATHS:
                with open(os.path.join(x, f), "rb") as h:
                    res[p] = h.read()
    return res


def compare_rest(where, a, b, may):
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            raise Violation(f"{where}: {p} {'appears' if p not in a else 'is changed'}: {b.get(p, b'')[:80]!r}")


def leftovers(where, d, paths):
    """No copy of downloaded content beyond the files and what is built from them."""
    for x, dirs, files in os.walk(d):
        rel = os.path.relpath(x, d)
        if rel == "src" or rel.startswith(os.path.join("out", "www")):
            dirs[:] = []
            continue
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            if p in paths:
                continue
            with open(os.path.join(x, f), "rb") as h:
                data = h.read()
            if b"MARK-" in data or p.startswith("out" + os.sep) and p.endswith(".tmp"):
                raise Violation(f"{where}: {p} is left behind: {data[:80]!r}")


@st.composite
def cases(draw, tier="quick", max_steps=5):
    paths = draw(st.lists(st.sampled_from(PATHS), min_size=1, max_size=4, unique=True))
    steps = []
    cfg = {}
    for i in range(draw(st.integers(2, max_steps if tier == "quick" else max_steps + 4))):
        cfg = {p: list(v) for p, v in cfg.items()}
        for p in paths:
            k = draw(st.integers(0, 9)) if i else draw(st.integers(4, 9))
            if k <= 1:
                cfg.pop(p, None)
            elif k <= 4 or i == 0 and k <= 7:
                cfg[p] = [draw(st.integers(0, 5)), draw(st.sampled_from(ALGS)), "ok"]
        if draw(st.integers(0, 7)) == 0:
            cfg = {}
        for p in cfg:
            cfg[p] = cfg[p][:2] + [draw(st.sampled_from(OK)) if draw(st.integers(0, 9)) else draw(st.sampled_from(BAD))]
        ops = []
        if i:
            for _ in range(draw(st.integers(0, 3))):
                p = draw(st.sampled_from(paths))
                k = draw(st.integers(0, 11))
                if k <= 4:
                    ops.append(["tamper", p, draw(st.sampled_from(["append", "flip", "cut", "empty", "mine"]))])
                elif k <= 6:
                    ops.append(["delete", p])
                elif k <= 8:
                    ops.append(["touch", p])
                elif k <= 10:
                    ops.append(["place", p, cfg[p][0] if p in cfg and draw(st.booleans()) else draw(st.integers(0, 5))])
                elif draw(st.integers(0, 2)) == 0:
                    ops.append(["clean", p])
        elif draw(st.integers(0, 3)) == 0:
            p = draw(st.sampled_from(paths))
            ops.append(draw(st.sampled_from([["place", p, 0], ["tamper", p, "mine"]])))
        steps.append({"config": {p: list(v) for p, v in cfg.items()}, "ops": ops, "dev": draw(st.integers(0, 4)) == 0, "keys": draw(st.integers(0, 4)) == 0})
    return {"steps": steps, "schedule": draw(st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=4)))}


CHECK = Check("C25", [
    Prop("histories", lambda tier: cases(tier=tier), run, quick=1500, thorough=50000),
    Prop("pool", lambda tier: cases(tier=tier, max_steps=3), lambda c, x: run(c, x, real=True), quick=40, thorough=1000, flaky=True),
], rule="a case is a sequence of configurations, local edits and server behaviours with a build after each; it counts as non-trivial when a later build had something to download",
    assumptions=["a file that is changed by hand gets another modification time", "no configured path is a folder or inside of another configured path", "which files were installed before is forgotten by clean"])

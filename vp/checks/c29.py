"""C29: the bundled server serves exactly the built files."""
import contextlib
import http.client
import json
import os
import re
import shutil
import signal
import socket
import subprocess
import sys
import time
from urllib.parse import quote, unquote_to_bytes, urlsplit

from hypothesis import strategies as st

from vp import scratch, site, sitegen
from vp.core import Check, HarnessError, Prop, Violation

TYPES = {"css": "text/css", "js": "text/javascript", "html": "text/html", "svg": "image/svg+xml", "jpg": "image/jpeg", "jpeg": "image/jpeg", "png": "image/png", "gif": "image/gif",
         "webp": "image/webp", "json": "application/json", "txt": "text/plain", "pdf": "application/pdf", "xml": ("application/xml", "text/xml"), "mp4": "video/mp4", "mp3": "audio/mpeg"}
SECRET = b"SECRET-FROM-OUTSIDE"
_next = [0]


def free_port():
    """A port that no other check uses: each process has its own range."""
    for _ in range(300):
        _next[0] += 1
        port = 10000 + (os.getpid() * 41 + _next[0] % 41) % 20000
        with socket.socket() as s:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(("127.0.0.1", port))
            except OSError:
                continue
            return port
    raise HarnessError("no free port")


def request(port, target, headers=(), method="GET"):
    """(status, headers, body) of the answer, the target sent as it is."""
    with socket.create_connection(("127.0.0.1", port), timeout=20) as s:
        head = f"{method} ".encode() + target + b" HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n"
        for k, v in headers:
            head += f"{k}: {v}\r\n".encode("latin-1")
        s.sendall(head + b"\r\n")
        r = http.client.HTTPResponse(s, method=method)
        try:
            r.begin()
            body = r.read()
        except http.client.IncompleteRead as e:
            raise Violation(f"{target!r}: the answer ends early: {e}")
        except (http.client.HTTPException, ConnectionError, socket.timeout) as e:
            raise Violation(f"{target!r}: no proper answer: {type(e).__name__}: {e}")
        return r.status, {k.lower(): v for k, v in r.getheaders()}, body


def url(path, odd=0):
    """A url path for a file, more or less of it escaped."""
    if odd == 1:
        return "".join("/" if c == "/" else "".join(f"%{b:02x}" for b in c.encode()) for c in path).encode()
    if odd == 2:
        return quote(path, safe="/!$&'()*+,;=:@~-._").encode()
    return quote(path, safe="/").encode()


def check_type(where, path, headers):
    ext = path.rsplit("/", 1)[-1].rsplit(".", 1)
    if len(ext) == 2 and ext[0].strip(".") and ext[1].lower() in TYPES:
        want = TYPES[ext[1].lower()]
        got = headers.get("content-type", "").split(";")[0].strip()
        if got not in ([want] if isinstance(want, str) else want):
            raise Violation(f"{where}: content type {got!r} instead of {want!r}")
        if "content-encoding" in headers:
            raise Violation(f"{where}: content encoding {headers['content-encoding']}")


def check_file(port, root, path, odd, query, ctx, seen=None, method="GET"):
    with open(os.path.join(root, path), "rb") as f:
        want = f.read()
    target = b"/" + url(path, odd) + query
    where = f"{target!r}"
    headers = []
    if seen is not None and path in seen:  # what a browser that keeps its copy asks
        old = seen[path]
        if "etag" in old[0]:
            headers.append(("If-None-Match", old[0]["etag"]))
        if "last-modified" in old[0]:
            headers.append(("If-Modified-Since", old[0]["last-modified"]))
    status, h, body = request(port, target, headers, method)
    if status == 304 and headers:
        if seen[path][1] != want:
            raise Violation(f"{where}: the file is said to be as before, but it went from {seen[path][1][:100]!r} to {want[:100]!r}")
        ctx.label("not modified")
        return
    if status != 200:
        raise Violation(f"{where}: the answer for a file is {status}")
    if method == "GET" and body != want:
        raise Violation(f"{where}: {body[:200]!r} instead of {want[:200]!r}")
    if "content-length" in h and int(h["content-length"]) != len(want):
        raise Violation(f"{where}: content length {h['content-length']} instead of {len(want)}")
    check_type(where, path, h)
    if seen is not None and method == "GET":
        seen[path] = (h, want)


def check_folder(port, root, path, odd, query, ctx):
    """path is '' or ends with a slash."""
    target = b"/" + url(path, odd) + query
    index = os.path.join(root, path, "index.html")
    status, h, body = request(port, target)
    if os.path.isfile(index):
        with open(index, "rb") as f:
            want = f.read()
        if status != 200 or body != want:
            raise Violation(f"{target!r}: {status} {body[:200]!r} instead of the folder's index page {want[:200]!r}")
        check_type(repr(target), "index.html", h)
        if path and PLAIN.fullmatch(path):  # without the slash: the same page, maybe by a redirect
            bare = b"/" + url(path[:-1], odd)
            status, h, body = request(port, bare + query)
            if status in (301, 302, 303, 307, 308):
                loc = urlsplit(h.get("location", ""))
                if loc.netloc not in ("", "localhost"):
                    raise Violation(f"{bare!r}: redirects to {h['location']!r}")
                status, h, body = request(port, loc.path.encode() + (b"?" + loc.query.encode() if loc.query else b""))
                ctx.label("redirect")
            if status != 200 or body != want:
                raise Violation(f"{bare!r}: leads to {status} {body[:200]!r} instead of the folder's index page")
    elif status < 400:
        raise Violation(f"{target!r}: the answer for a folder without an index page is {status} {body[:200]!r}")


PLAIN = re.compile(r"[\w/.~-]+")


def resolve(raw):
    """Where a request path leads: (segments, left the root on the way,
    normal), or None when it is no path at all."""
    p = raw.split(b"?", 1)[0]
    if b"#" in p:
        return None
    segs = unquote_to_bytes(p).split(b"/")
    if segs[0] != b"":
        return None
    out, left = [], False
    for s in segs[1:]:
        if s in (b"", b"."):
            continue
        if s == b"..":
            if out:
                out.pop()
            else:
                left = True
        else:
            out.append(s)
    return out, left


def check_odd(port, root, raw, ctx):
    """Any other request: an error, or content of the folder where the path leads to it."""
    status, h, body = request(port, raw)
    if SECRET in body or any(SECRET.decode() in v for v in h.values()):
        raise Violation(f"{raw!r}: content from outside of the folder is served: {body[:200]!r}")
    if status >= 400:
        return
    if status in (301, 302, 303, 307, 308):
        if urlsplit(h.get("location", "")).netloc not in ("", "localhost"):
            raise Violation(f"{raw!r}: redirects to {h['location']!r}")
        return
    r = resolve(raw)
    inside = None
    if r is not None:
        p = os.path.join(os.fsencode(root), *r[0])
        if b"\0" not in p:
            for q in (p, os.path.join(p, b"index.html")):
                if os.path.isfile(q):
                    with open(q, "rb") as f:
                        inside = f.read()
                    break
    if inside is None or body != inside:
        # a path that dips below the root and comes back may name a file too
        if r is not None and r[1] and status == 200:
            for d, _, files in os.walk(root):
                for f in files:
                    with open(os.path.join(d, f), "rb") as o:
                        if o.read() == body:
                            return
        raise Violation(f"{raw!r}: the answer is {status} {body[:200]!r} though this is no built file")


@contextlib.contextmanager
def at(folder):
    """Works from the given folder; the one before may be gone by now."""
    fd = os.open(".", os.O_RDONLY)
    os.chdir(folder)
    try:
        yield
    finally:
        os.fchdir(fd)
        os.close(fd)


@contextlib.contextmanager
def serving(folder, relative):
    from vanillaplusjs.http_server import host_static_files
    import logging

    logging.getLogger("uvicorn").disabled = True
    port = free_port()
    old = os.getcwd()
    devnull = open(os.devnull, "w")
    try:
        with contextlib.redirect_stderr(devnull), contextlib.redirect_stdout(devnull):
            if relative:
                os.chdir(folder)
            with host_static_files("." if relative else folder, "127.0.0.1", port):
                yield port
    finally:
        os.chdir(old)
        devnull.close()


def files_of(root):
    res, dirs = [], [""]
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        rel = "" if rel == "." else rel + "/"
        dirs += [rel + x + "/" for x in ds]
        res += [rel + f for f in fs]
    return sorted(res), sorted(dirs)


def data_of(x):
    return x["text"].encode() * x["times"]


def put(top, root, op, clock):
    """One change of the served tree; False when something is in its way."""
    p = os.path.join(root, op["path"])
    parent = os.path.dirname(p)
    while len(parent) > len(root):
        if os.path.lexists(parent) and not os.path.isdir(parent):
            return False
        parent = os.path.dirname(parent)
    if os.path.isdir(p) and not os.path.islink(p):
        return False
    if op["op"] == "remove":
        if os.path.lexists(p):
            os.remove(p)
        return True
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.lexists(p):
        os.remove(p)
    if op["op"] == "link":  # as the build makes them: absolute, to a file elsewhere
        src = os.path.join(top, "src", op["path"].replace("/", "_"))
        os.makedirs(os.path.dirname(src), exist_ok=True)
        with open(src, "wb") as f:
            f.write(data_of(op))
        stamp(src, op, clock)
        os.symlink(src, p)
    else:
        with open(p, "wb") as f:
            f.write(data_of(op))
        stamp(p, op, clock)
    return True


def stamp(p, op, clock):
    """Modification times differ, but can go back, or by less than a second."""
    clock[0] += {"later": 5, "soon": 0.25, "earlier": -1000.5}[op["when"]]
    if clock[0] in clock[1]:
        clock[0] += 0.125
    clock[1].add(clock[0])
    os.utime(p, (clock[0], clock[0]))


def outside(top, name):
    """What must not be served, in all the places next to the served folder."""
    for p in ("secret.txt", "index.html", name + ".txt", name + "2/secret.txt", name + "-old/index.html", "src/secret.txt", "out.txt", "locks/secret.txt", name + "x"):
        site.write(top, p, SECRET)


def run(case, ctx):
    with scratch.tempdir() as d:
        top = os.path.join(d, "out")
        root = os.path.join(top, case["name"])
        os.makedirs(root)
        outside(top, case["name"])
        clock = [1_600_000_000.0, set()]
        for op in case["steps"][0]["ops"]:
            put(top, root, op, clock)
        seen = {}
        with serving(root, case["relative"]) as port:
            for i, step in enumerate(case["steps"]):
                if i:
                    for op in step["ops"]:
                        put(top, root, op, clock)
                files, dirs = files_of(root)
                n = 0
                for j, p in enumerate(files):
                    r = step["asks"][j % len(step["asks"])]
                    check_file(port, root, p, r["odd"], r["query"].encode(), ctx, seen if r["browser"] else None, r["method"])
                    n += 1
                    if os.path.islink(os.path.join(root, p)):
                        ctx.label("linked file")
                for j, p in enumerate(dirs):
                    r = step["asks"][j % len(step["asks"])]
                    check_folder(port, root, p, r["odd"], r["query"].encode(), ctx)
                for raw in step["odd"]:
                    check_odd(port, root, raw.replace("@TOP@", quote(top)).replace("@NAME@", case["name"]).encode("latin-1"), ctx)
                if n and (i or any("/" in p for p in files)):
                    ctx.nontrivial()


# -- built sites --------------------------------------------------------------


def run_site(case, ctx):
    with scratch.tempdir() as d:
        site.project(d, {}, site.config(js_constants=sitegen.CONFIG_CONSTANTS, images=site.IMAGES))
        clock = sitegen.Clock()
        root = os.path.join(d, "out", "www")
        seen = {}
        with contextlib.ExitStack() as stack:
            port = None
            for i, step in enumerate(case["steps"]):
                if step["clean"] and i:
                    from vanillaplusjs.runners.clean import clean
                    with at(d):
                        clean(d, False)
                for op in step["ops"]:
                    try:
                        sitegen.apply(d, op, clock)
                    except (FileExistsError, NotADirectoryError, FileNotFoundError, IsADirectoryError):
                        continue
                try:
                    with at(d):
                        site.build(d, dev=True, symlinks=case["links"])
                except site.BuildFailed:
                    ctx.label("unbuildable")
                    continue  # what a failed build leaves is not promised
                if port is None:
                    if not os.path.isdir(root):
                        continue
                    port = stack.enter_context(serving(root, case["relative"]))
                files, dirs = files_of(root)
                for p in files:
                    check_file(port, root, p, 0, b"?v=abc&pv=1" if i % 2 else b"", ctx, seen)
                for p in dirs:
                    check_folder(port, root, p, 0, b"", ctx)
                # what the pages link to is served
                for p in files:
                    if p.endswith(".html"):
                        for m in re.findall(rb'(?:src|href)="(/[^"#{}<>\s]+)"', site.read(root, p)):
                            f = m.split(b"?")[0].replace(b"&amp;", b"&")
                            if os.path.isfile(os.path.join(os.fsencode(root), unquote_to_bytes(f)[1:])):
                                status = request(port, m.replace(b"&amp;", b"&"))[0]
                                if status != 200:
                                    raise Violation(f"step {i}: {m!r}, which {p} links to, is answered with {status}")
                                ctx.label("followed link")
                if any(os.path.islink(os.path.join(root, p)) for p in files):
                    ctx.label("linked files")
                if files and i:
                    ctx.nontrivial()


def run_command(case, ctx):
    """The commands that serve, as a process."""
    from vp.boot import REPO

    with scratch.tempdir() as d:
        site.project(d, dict(case["files"]), site.config(images=site.IMAGES))
        root = os.path.join(d, "out", "www")
        port = free_port()
        code = ("import sys; sys.dont_write_bytecode = True; sys.path.insert(0, {!r}); from loguru import logger; logger.remove(); import vanillaplusjs.main as m; "
                "sys.argv[0] = 'vanillaplusjs'; m.main()").format(REPO)
        args = [case["how"], "--port", str(port), "--host", "127.0.0.1"]
        cwd = d
        if case["folder"] == "elsewhere":
            args += ["--folder", d]
            cwd = os.path.dirname(d)
        elif case["folder"] == "relative":
            args += ["--folder", os.path.basename(d)]
            cwd = os.path.dirname(d)
        if case["how"] == "run":
            site.build(d)
        p = subprocess.Popen([sys.executable, "-c", code] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=scratch.die_with_parent)
        try:
            end = time.time() + 90
            while True:
                try:
                    request(port, b"/")
                    break
                except (ConnectionRefusedError, ConnectionResetError):
                    if p.poll() is not None:
                        raise Violation(f"{args}: ends with {p.returncode}: {p.stderr.read().decode(errors='replace')[-600:]}")
                    if time.time() > end:
                        raise Violation(f"{args}: no server within 90 s")
                    time.sleep(0.02)
            files, dirs = files_of(root)
            for f in files:
                check_file(port, root, f, 0, b"", ctx)
                if os.path.islink(os.path.join(root, f)):
                    ctx.label("linked file")
            for f in dirs:
                check_folder(port, root, f, 0, b"", ctx)
            for raw in (b"/../../vanillaplusjs.json", b"/%2e%2e/%2e%2e/vanillaplusjs.json", b"/../input_graph.json", b"/..%2f..%2fsrc/public/index.html"):
                status, _, body = request(port, raw)
                if status < 400:
                    raise Violation(f"{raw!r}: {status} {body[:200]!r}")
            ctx.nontrivial()
            p.send_signal(signal.SIGINT)
            try:
                rc = p.wait(30)
            except subprocess.TimeoutExpired:
                raise Violation(f"{args}: does not end on an interrupt")
            if rc != 0:
                raise Violation(f"{args}: ends with {rc} on an interrupt")
        finally:
            p.kill()
            p.wait()
            p.stderr.close()


def run_busy(case, ctx):
    """A server that cannot start says so instead of waiting forever."""
    from vp.boot import REPO

    with scratch.tempdir() as d, socket.socket() as s:
        site.project(d, {"src/public/index.html": "<!DOCTYPE html>\n<html><head></head><body>x</body></html>\n"}, site.config(images=site.IMAGES))
        port = free_port()
        s.bind(("127.0.0.1", port))
        s.listen()
        site.build(d)
        code = "import sys; sys.dont_write_bytecode = True; sys.path.insert(0, {!r}); import vanillaplusjs.main as m; sys.argv[0] = 'vanillaplusjs'; m.main()".format(REPO)
        p = subprocess.Popen([sys.executable, "-c", code] + case["args"] + ["--port", str(port), "--host", "127.0.0.1"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=scratch.die_with_parent)
        try:
            err = p.communicate(timeout=90)[1]
        except subprocess.TimeoutExpired:
            raise Violation(f"{case['args']}: still waits after 90 s though its port is in use")
        finally:
            p.kill()
            p.wait()
        if not err.strip():
            raise Violation(f"{case['args']}: ends without saying that its port is in use")
        ctx.nontrivial()


NAMES = ["index.html", "a.css", "a.js", "x.svg", "p.jpg", "p.jpeg", "p.png", "p.gif", "p.webp", "d.json", "t.txt", "noext", "a b.css", "ü.js", "日本.html", "100%.css", "a%20b.js", "q?x.css", "h#x.js",
         "a+b.css", "A.CSS", "UP.Html", "a.min.js", "a.css.map", "a.js.hash", ".hidden", ".css", "a;b.js", "a&b.html", "x.tar.css", "e.pdf", "semi:colon.css", "it's.js", '"q".css', "a\\b.js", "404.html", "500.html",
         "data:x.js", "=.css", "~.js", "@2x.png", "a=b.webp", "index.htm", "(1).jpg", "x.js.css", "%2e%2e.js", "..a.css", "a...js", "\u202e.css", "é.css", "é.css"]
FOLDERS = ["", "", "css/", "js/lib/", "a/b/c/d/", "sp ace/", "ü/", "www/", "x.css/", "index.html.d/", "100%/", "a?b/", "h#/", "..x/", "deep/" * 12, "out/", "a%2fb/"]
QUERIES = ["", "", "", "?", "?v=abc&pv=1.3.2", "?x=/../..", "?%00", "?a=b?c", "?/index.html"]
texts = st.builds(lambda t, n: {"text": t, "times": n}, st.one_of(st.text(max_size=6), st.sampled_from(["<!DOCTYPE html><p>x</p>", "a { }", "é", "\0\r\n"])), st.sampled_from([1, 1, 1, 2, 3000, 66000, 32768]))


@st.composite
def ops(draw, paths):
    path = draw(st.sampled_from(FOLDERS)) + draw(st.sampled_from(NAMES)) if not paths or draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(paths))
    if path not in paths:
        paths.append(path)
    kind = draw(st.sampled_from(["file", "file", "file", "link", "link", "remove"] if len(paths) > 2 else ["file", "link"]))
    res = {"op": kind, "path": path}
    if kind != "remove":
        res.update(draw(texts), when=draw(st.sampled_from(["later", "soon", "earlier"])))
    return res


DOTS = ["..", "%2e%2e", "%2E.", ".", "%2e", "", "..%2f..", "..%5c", "%c0%ae%c0%ae", "%252e%252e", "..;", "%00", "...", "%2f", "@NAME@", "@NAME@2", "@NAME@x", "@NAME@-old", "secret.txt", "index.html", "src", "etc", "passwd", "www", "a", "css", "@TOP@", "%ff", "~", "x" * 300, "secret.txt%00.html", "C:", "out.txt", "locks", "@NAME@.txt", "\\..\\"]
odd_paths = st.one_of(
    st.lists(st.sampled_from(DOTS), min_size=1, max_size=8).map(lambda s: "/" + "/".join(s)),
    st.sampled_from(["/../@NAME@2/secret.txt", "/../@NAME@x", "/../@NAME@.txt", "/%2e%2e/@NAME@-old/", "/../secret.txt", "/..", "/../", "//", "///", "/@TOP@/secret.txt", "//@TOP@/secret.txt", "/%2f@TOP@/secret.txt",
                     "/%2e%2e%2fsecret.txt", "/a/../../secret.txt", "/css/../../@NAME@2/secret.txt", "/..%2f@NAME@2%2fsecret.txt", "/../../../../../../../../../../../../../../etc/passwd", "/index.html/../../secret.txt", "/missing", "/missing.css?v=1", "/missing/",
                     "/%2e%2e/@NAME@", "/index.html%00", "/index.html%20", "/INDEX.HTML", "/index"]),
    st.text(st.sampled_from("ab/.%2ef0\\~:;"), max_size=12).map(lambda s: "/" + s),
)


@st.composite
def cases(draw, tier="quick"):
    paths = []
    steps = []
    for i in range(draw(st.integers(1, 4 if tier == "quick" else 8))):
        steps.append({"ops": draw(st.lists(ops(paths), min_size=1 if i else 0, max_size=8 if i == 0 else 4)),
                      "asks": draw(st.lists(st.builds(lambda o, q, b, m: {"odd": o, "query": q, "browser": b, "method": m}, st.integers(0, 2), st.sampled_from(QUERIES), st.booleans(), st.sampled_from(["GET", "GET", "GET", "HEAD"])), min_size=1, max_size=4)),
                      "odd": draw(st.lists(odd_paths, max_size=6))})
    return {"name": draw(st.sampled_from(["www", "www", "w.x", "www (1)"])), "relative": draw(st.booleans()), "steps": steps}


@st.composite
def site_cases(draw, tier="quick"):
    base = draw(sitegen.history(images=True, max_steps=3 if tier == "quick" else 6, max_files=8))
    return {"steps": [{"ops": s["ops"], "clean": draw(st.integers(0, 3)) == 0} for s in base["steps"]], "links": draw(st.booleans()), "relative": draw(st.booleans())}


@st.composite
def commands(draw):
    files = {"src/public/index.html": "<!DOCTYPE html>\n<html><head></head><body>x</body></html>\n", "src/public/assets/a b.bin": "asset", "src/public/js/a.js": "let a;\n"}
    for p in draw(st.lists(st.sampled_from(["src/public/docs/index.html", "src/public/ü.html"]), unique=True)):
        files[p] = "<p>x</p>"
    return {"how": draw(st.sampled_from(["run", "dev"])), "folder": draw(st.sampled_from(["here", "relative", "elsewhere"])), "files": files}


CHECK = Check("C29", [
    Prop("tree", lambda tier: cases(tier=tier), run, quick=700, thorough=20000),
    Prop("site", lambda tier: site_cases(tier=tier), run_site, quick=100, thorough=3000),
    Prop("command", lambda tier: commands(), run_command, quick=8, thorough=60),
    Prop("busy", lambda tier: st.sampled_from([["run"], ["dev"], ["dev", "--watch"]]).map(lambda a: {"args": a}), run_busy, quick=3, thorough=3),
], rule="a case is a served tree with its history of changes and the requests made after each (all files, all folders, and odd paths); it counts as non-trivial when files were served after a change or from a sub-folder (in 'site': after a rebuild; in 'command': always)",
    assumptions=["a trailing slash after a file, empty and dot segments that stay in the folder, and a folder's name without its slash when it needs escaping are unspecified (error, redirect or the content meant)", "modification times of different contents differ"])

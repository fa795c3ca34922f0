"""Comparing what two builds serve."""
import hashlib
import os
import re
import shutil

from vp import scratch, site

LINK = re.compile(rb"(/[^\s\"'()<>?,]+)\?v=[A-Za-z0-9_%=-]+&(?:amp;)?pv=[0-9.]+")
VARIANT = re.compile(rb"/(img/[^\s\"'()<>?,]*?)/(\d+)/([0-9]+x[0-9]+[^\s\"'()<>?,/]*)")


def reference(root, dev, links, artifacts=False):
    """(served tree, artifacts) of a from-scratch build of root's sources.
    Raises BuildFailed when that fails."""
    with scratch.tempdir("r") as d:
        shutil.copytree(os.path.join(root, "src"), os.path.join(d, "src"), symlinks=True)
        shutil.copy(os.path.join(root, "vanillaplusjs.json"), d)
        if artifacts and os.path.exists(os.path.join(root, "artifacts")):
            shutil.copytree(os.path.join(root, "artifacts"), os.path.join(d, "artifacts"), symlinks=True)
        site.build(d, dev=dev, symlinks=links)
        return site.www(d), site.read_tree(d, "artifacts")


def summary(a, b):
    """What differs between two trees, or None."""
    for p in sorted(set(a) | set(b)):
        if p not in a:
            return f"{p} is missing"
        if p not in b:
            return f"{p} is there without a reason"
        if a[p] != b[p]:
            return f"{p} differs: {a[p][:600]!r} instead of {b[p][:600]!r}"
    return None


def plain(tree):
    """The tree with the numbers of image variants, and the digests that
    change with them, replaced by what they stand for."""
    done = {}
    variants = {}
    folders = {}
    for p in tree:
        m = re.fullmatch(r"(img/.*|.*?)/(\d+)/(\d+x\d+[^/]*)", p)
        if m and not p.endswith(".hash"):
            folders.setdefault((m[1], m[2]), []).append(p)
    for key, ps in folders.items():
        h = hashlib.sha256()
        for p in sorted(ps):
            h.update(p.rsplit("/", 1)[1].encode() + b"\0" + hashlib.sha256(tree[p]).digest())
        variants[key] = h.hexdigest()[:16]

    def folder(prefix, n):
        return variants.get((prefix, n))

    def canon(p, stack=()):
        if p in done:
            return done[p]
        data = tree[p]
        if p in stack or p.rsplit(".", 1)[-1] not in ("html", "css", "js", "htm"):
            return data

        def variant(m):
            v = folder(m[1].decode(), m[2].decode())
            return m[0] if v is None else b"/%s/%s/%s" % (m[1], v.encode(), m[3])

        def link(m):
            q = m[1].decode("utf-8", "replace").lstrip("/")
            if q not in tree:
                return m[0]
            c = canon(q, stack + (p,))
            good = site.suffix(tree[q]).encode() in m[0].replace(b"&amp;", b"&")
            return m[1] + (b"?v=" + hashlib.sha256(c).hexdigest().encode() if good else b"?v=STALE")

        data = LINK.sub(link, data)
        data = VARIANT.sub(variant, data)
        done[p] = data
        return data

    out = {}
    for p, data in tree.items():
        if p.endswith(".hash") and p[:-5] in tree:
            out[rename(p, variants)] = b"ok" if site.digest(tree[p[:-5]]).encode() == data else b"STALE " + data
        else:
            out[rename(p, variants)] = canon(p)
    return out


def rename(p, variants):
    m = re.fullmatch(r"(.*)/(\d+)/(\d+x\d+[^/]*)", p)
    if m and (m[1], m[2]) in variants:
        return f"{m[1]}/{variants[(m[1], m[2])]}/{m[3]}"
    return p


def artifacts(tree):
    """The same for the artifacts folder: each numbered folder gets a name
    made of what it holds."""
    folders = {}
    out = {}
    for p, data in tree.items():
        m = re.fullmatch(r"(.*)/(\d+)/([^/]*)", p)
        if m:
            folders.setdefault((m[1], m[2]), {})[m[3]] = data
        elif p.endswith("/counter.txt"):
            out[p] = b"a number" if data.strip().isdigit() else data
        else:
            out[p] = data
    for (prefix, n), files in folders.items():
        h = hashlib.sha256()
        for name in sorted(files):
            if name == "metadata.json":
                files[name] = files[name].replace(f"{prefix}/{n}/".encode(), f"{prefix}/N/".encode())
            h.update(name.encode() + b"\0" + hashlib.sha256(files[name]).digest())
        i = 0
        key = f"{prefix}/{h.hexdigest()[:16]}"
        while f"{key}/{i}" in out:
            i += 1  # a second folder of the same content is not accounted for
        out[f"{key}/{i}"] = repr(sorted(files)).encode()
    return out

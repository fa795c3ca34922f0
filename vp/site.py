"""Projects in a scratch folder: writing sources, building, reading results."""
import base64
import hashlib
import json
import os
import stat
import sys
from urllib.parse import quote, urlencode

from vp import inline_executor
from vp.core import HarnessError


class BuildFailed(Exception):
    """The build reported failure (any exception or a non-zero exit)."""


# a quick image configuration: few, small variants
IMAGES = {
    "formats": {
        "jpeg": {"minimum_unit_size_bytes": 10, "exports": {
            "30": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {"quality": 30}},
            "90": {"min_area_px2": None, "max_area_px2": 100, "preference": 3, "formatter_kwargs": {"quality": 90}},
        }},
        "webp": {"minimum_unit_size_bytes": 10, "exports": {
            "60": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {"quality": 60, "method": 0}},
        }},
    },
    "default_format": "jpeg",
    "maximum_resolution": 2,
    "resolution_step": "0.5",
}


def init_config(host="www.example.com"):
    """The configuration that init itself writes."""
    from vp import scratch
    from vanillaplusjs.runners.init import init

    with scratch.tempdir() as d:
        init(d, host)
        with open(os.path.join(d, "vanillaplusjs.json")) as f:
            return json.load(f)


_cfg = []


def config(**over):
    if not _cfg:
        _cfg.append(json.dumps(init_config()))
    c = json.loads(_cfg[0])
    c.update(over)
    return c


def write(root, rel, data):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.islink(p):
        raise HarnessError("would write through a link")
    if isinstance(data, str):
        data = data.encode("utf-8")
    with open(p, "wb") as f:
        f.write(data)


def write_tree(root, files):
    for rel, data in files.items():
        write(root, rel, data)


def project(root, files, cfg=None, host="www.example.com"):
    """A project with the given source files below root (paths from root)."""
    os.makedirs(os.path.join(root, "src", "public"), exist_ok=True)
    os.makedirs(os.path.join(root, "src", "partials"), exist_ok=True)
    if cfg is None:
        cfg = config(host=host)
    write(root, "vanillaplusjs.json", json.dumps(cfg))
    write_tree(root, files)


def build(root, dev=False, symlinks=False, schedule=None, real=False, workers=None):
    """Runs a build; raises BuildFailed with the cause when it fails."""
    import vanillaplusjs.runners.build as rb

    inline_executor.configure(real=real, schedule=schedule, workers=workers)
    try:
        rb.build(root, dev=dev, symlinks=symlinks, delay_files=[])
    except SystemExit as e:
        if e.code not in (0, None):
            raise BuildFailed(f"exit {e.code}") from e
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        if isinstance(e, OSError) and e.errno in (28, 24, 23, 12):
            raise HarnessError(str(e))
        raise BuildFailed(f"{type(e).__name__}: {e}") from e


def read_tree(root, sub=""):
    """{relative path: bytes} of all files below root/sub, links followed."""
    top = os.path.join(root, sub) if sub else root
    res = {}
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                res[os.path.relpath(p, top).replace(os.sep, "/")] = h.read()
    return res


def www(root):
    return read_tree(root, os.path.join("out", "www"))


def read(root, rel):
    with open(os.path.join(root, rel), "rb") as f:
        return f.read()


def text(root, rel):
    with open(os.path.join(root, rel), encoding="utf-8", newline="") as f:
        return f.read()


def digest(data):
    return base64.urlsafe_b64encode(hashlib.sha256(data).digest()).decode("ascii")


def pv():
    from vanillaplusjs.constants import PROCESSOR_VERSION

    return PROCESSOR_VERSION


def suffix(data):
    """The query that a link to these bytes gets."""
    return "?" + urlencode({"v": digest(data), "pv": pv()})

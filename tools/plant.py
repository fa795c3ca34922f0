#!/usr/bin/env python3
"""Keeps a planted bug: plant.py SPEC.py

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)] and DEMO, the
body of a function main(d) run in a scratch folder d (with the helpers below)."""
import json
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from crlfsub import sub

HELP = '''import hashlib, base64, json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from loguru import logger
logger.remove()


def put(d, rel, data):
    p = os.path.join(d, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)


def get(d, rel, mode="r"):
    with open(os.path.join(d, rel), mode, **({} if "b" in mode else {"newline": ""})) as f:
        return f.read()


def project(d, files, host="example.com", **config):
    from vanillaplusjs.runners.init import init
    os.makedirs(d, exist_ok=True)
    init(d, host)
    cfg = json.loads(get(d, "vanillaplusjs.json"))
    cfg.update(config)
    put(d, "vanillaplusjs.json", json.dumps(cfg))
    for k, v in files.items():
        put(d, k, v)


def build(d, dev=False, symlinks=False):
    from vanillaplusjs.runners.build import build as b
    b(d, dev=dev, symlinks=symlinks, delay_files=[])


def tree(d, sub):
    res = {}
    for r, _, fs in os.walk(os.path.join(d, sub)):
        for f in fs:
            p = os.path.join(r, f)
            res[os.path.relpath(p, d)] = open(p, "rb").read()
    return res


def digest(b):
    return base64.urlsafe_b64encode(hashlib.sha256(b).digest()).decode()

'''
TAIL = '''

if __name__ == "__main__":
    d = tempfile.mkdtemp(prefix="demo-")
    rc = 1
    try:
        main(os.path.join(d, "p"))
        rc = 0
    except BaseException as e:
        print(type(e).__name__, str(e)[:2000])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
'''


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    pid = spec["ID"]
    dst = os.path.join("/verif/seeded", pid)
    wt = "/tmp/plant-wt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    shutil.rmtree("/tmp/plant-new", ignore_errors=True)
    new = "/tmp/plant-new"
    os.makedirs(new)
    with open(f"{new}/demo.py", "w") as f:
        f.write(HELP + "\ndef main(d):\n" + "".join("    " + l + "\n" if l else "\n" for l in spec["DEMO"].strip("\n").split("\n")) + TAIL)
    with open(f"{new}/demo.sh", "w") as f:
        f.write('#!/bin/sh\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{new}/demo.sh", 0o755)
    r = subprocess.run(["sh", f"{new}/demo.sh"], cwd=wt, capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        sys.exit("demo fails on the unchanged tree: " + r.stdout + r.stderr[-2000:])
    for p, a, b in spec["EDITS"]:
        sub(os.path.join(wt, p), [(a, b)])
    diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True).stdout
    with open(f"{new}/patch.diff", "wb") as f:
        f.write(diff)
    r = subprocess.run(["sh", f"{new}/demo.sh"], cwd=wt, capture_output=True, text=True, timeout=300)
    if r.returncode == 0:
        sys.exit("demo passes with the change: " + r.stdout)
    print("demo:", r.stdout.strip()[-300:])
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60", "--ignore=tests/test_build_feat_external_files.py", "tests"], cwd=wt, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH=wt))
    if r.returncode != 0:
        sys.exit("tests fail: " + r.stdout[-1500:])
    with open(f"{new}/meta.json", "w") as f:
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, f, indent=1)
        f.write("\n")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(new, dst)
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check", f"{dst}/patch.diff"])
    shutil.rmtree(wt)
    print(pid, "kept")


main()

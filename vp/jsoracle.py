"""A node process that parses and runs modules; one per worker process."""
import json
import os
import subprocess

from vp.core import HarnessError

_proc = {}


def ask(op, **kw):
    p = _proc.get(os.getpid())
    if p is None or p.poll() is not None:
        p = subprocess.Popen(
            ["node", "--no-warnings", "--experimental-vm-modules", "--max-old-space-size=2048",
             os.path.join(os.path.dirname(os.path.abspath(__file__)), "jsoracle.js")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="ascii")
        _proc[os.getpid()] = p
    kw["op"] = op
    try:
        p.stdin.write(json.dumps(kw) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        raise HarnessError("the node oracle ended")
    r = json.loads(line)
    if "oracleError" in r:
        raise HarnessError(r["oracleError"])
    return r

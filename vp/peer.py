"""Builds in another interpreter with its own string hashing, folder listing
order and current folder.  Run as a script it answers one request per line."""
import atexit
import json
import os
import random
import subprocess
import sys


class Entries(list):
    def __iter__(self):
        return self

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop(0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def shuffle_listings(seed):
    rnd = random.Random(seed)
    scandir, listdir = _real

    def shuffled_scandir(*a):
        with scandir(*a) as it:
            es = Entries(sorted(it, key=lambda e: e.name))
        rnd.shuffle(es)
        return es

    def shuffled_listdir(*a):
        es = sorted(listdir(*a))
        rnd.shuffle(es)
        return es

    os.scandir, os.listdir = shuffled_scandir, shuffled_listdir


_real = (os.scandir, os.listdir)


def serve():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import vp.boot  # noqa: F401
    from vp import site

    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        q = json.loads(line)
        shuffle_listings(q["listing"])
        here = os.getcwd()
        try:
            root = q["root"]
            if q.get("inside"):
                os.chdir(root)
                root = "."
            site.build(root, **q["kw"])
            res = {"ok": True}
        except site.BuildFailed as e:
            res = {"failed": str(e)}
        except BaseException as e:  # noqa
            res = {"error": repr(e)}
        os.chdir(here)
        os.scandir, os.listdir = _real
        out.write(json.dumps(res) + "\n")
        out.flush()


class Peer:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)

    def build(self, root, listing=0, inside=False, **kw):
        from vp.core import HarnessError
        from vp.site import BuildFailed

        self.p.stdin.write(json.dumps({"root": root, "listing": listing, "inside": inside, "kw": kw}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("the other interpreter ended")
        res = json.loads(line)
        if "failed" in res:
            raise BuildFailed(res["failed"])
        if "error" in res:
            raise HarnessError(res["error"])


_peers = {}


def peer(hashseed):
    key = (os.getpid(), hashseed)
    if key not in _peers or _peers[key].p.poll() is not None:
        _peers[key] = Peer(hashseed)
        atexit.register(_peers[key].p.kill)
    return _peers[key]


if __name__ == "__main__":
    serve()

"""Scratch directories, all under one root that is removed at the end."""
import contextlib
import os
import shutil
import tempfile

BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
ROOT = os.environ.get("VP_SCRATCH_ROOT") or os.path.join(BASE, f"vp-{os.getpid()}")


@contextlib.contextmanager
def tempdir(prefix="c"):
    os.makedirs(ROOT, exist_ok=True)
    d = tempfile.mkdtemp(prefix=prefix, dir=ROOT)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sweep():
    """Removes this run's root and those of runs that no longer exist."""
    shutil.rmtree(ROOT, ignore_errors=True)
    for name in os.listdir(BASE):
        if name.startswith("vp-") and name[3:].isdigit() and not os.path.exists("/proc/" + name[3:]):
            shutil.rmtree(os.path.join(BASE, name), ignore_errors=True)


def die_with_parent():
    """preexec_fn: the child does not outlive this process."""
    import ctypes
    import signal

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)

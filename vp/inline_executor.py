"""A drop-in for ProcessPoolExecutor that runs the work in this process, one
task at a time, in an order chosen by the test case.  Arguments and results go
through pickle as with real worker processes.

A build submits tasks and waits for the first one to complete.  Inside an event
loop a submitted task is queued and run by the loop later, so several tasks can
be pending and the schedule decides which completes first; outside a loop it is
run at once.  With real(True) the original class is used instead.
"""
import asyncio
import concurrent.futures
import concurrent.futures.process
import pickle

RealPool = concurrent.futures.process.ProcessPoolExecutor

_state = {"real": False, "schedule": None, "batch": 1, "workers": None, "order": None}


def configure(real=False, schedule=None, batch=1, workers=None, hook=None):
    """schedule: list of ints choosing which pending task runs next (cyclic).
    hook is called before each task with the number of tasks run so far."""
    _state["real"] = real
    _state["schedule"] = list(schedule) if schedule else None
    _state["pos"] = 0
    _state["batch"] = max(1, batch)
    _state["workers"] = workers
    _state["order"] = []
    _state["hook"] = hook


def order():
    """(function name, last argument) of the tasks run since configure()."""
    return list(_state["order"] or [])


def _pick(n):
    sch = _state["schedule"]
    if not sch:
        return 0
    v = sch[_state["pos"] % len(sch)]
    _state["pos"] += 1
    return v % n


_depth = [0]


class InlineFuture(concurrent.futures.Future):
    """A caller that blocks on the result makes the executor run it."""

    _executor = None

    def _force(self):
        while not self.done() and self._executor is not None and self._executor._pending:
            self._executor._run_one()

    def result(self, timeout=None):
        self._force()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._force()
        return super().exception(timeout)


class InlineExecutor(concurrent.futures.Executor):
    def __init__(self, *a, **kw):
        self._pending = []
        self._down = False

    def submit(self, fn, /, *args, **kwargs):
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = InlineFuture()
        fut._executor = self
        self._pending.append((fut, fn, args, kwargs))
        loop = None
        if not _depth[0]:
            try:
                loop = asyncio.get_running_loop()
            except RuntimeError:
                pass
        if loop is None:
            self._run_one()
        else:
            loop.call_soon(self._turn)
        return fut

    def _turn(self):
        for _ in range(_state["batch"]):
            self._run_one()

    def _run_one(self):
        if not self._pending:
            return
        fut, fn, args, kwargs = self._pending.pop(_pick(len(self._pending)))
        if not fut.set_running_or_notify_cancel():
            return
        if _state.get("hook") is not None and not _depth[0]:
            _state["hook"](len(_state["order"]))
        if _state["order"] is not None:
            _state["order"].append((getattr(fn, "__name__", "?"), args[-1] if args else None))
        _depth[0] += 1
        try:
            fn, args, kwargs = pickle.loads(pickle.dumps((fn, args, kwargs)))
            # pickled while nothing else runs, as the worker would see it
            res = pickle.loads(pickle.dumps(fn(*args, **kwargs)))
        except Exception as e:
            fut.set_exception(e)
        else:
            fut.set_result(res)
        finally:
            _depth[0] -= 1

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for fut, *_ in self._pending:
                fut.cancel()
            self._pending.clear()
        while self._pending:
            self._run_one()
        self._down = True

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


class Dispatch:
    """Callable standing in for the class: picks the executor per use."""

    def __new__(cls, *a, **kw):
        if _state["real"]:
            if _state["workers"] and not a and "max_workers" not in kw:
                kw["max_workers"] = _state["workers"]
            return RealPool(*a, **kw)
        return InlineExecutor(*a, **kw)


_real_wait = concurrent.futures.wait
_real_as_completed = concurrent.futures.as_completed


def _wait(fs, *a, **kw):
    fs = list(fs)
    for f in fs:
        if isinstance(f, InlineFuture):
            f._force()
    return _real_wait(fs, *a, **kw)


def _as_completed(fs, *a, **kw):
    fs = list(fs)
    for f in fs:
        if isinstance(f, InlineFuture):
            f._force()
    return _real_as_completed(fs, *a, **kw)


def install():
    concurrent.futures.wait = _wait
    concurrent.futures.as_completed = _as_completed
    concurrent.futures.ProcessPoolExecutor = Dispatch
    concurrent.futures.process.ProcessPoolExecutor = Dispatch

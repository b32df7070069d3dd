"""
Schedule-controlled, in-process replacement for the worker pool.

SchedPool behaves like a ProcessPoolExecutor as far as callers can tell: arguments,
results and exceptions go through pickle, tasks start in submission order on at most
`_max_workers` workers and complete in any order. Which running task completes next, whether
tasks complete while the caller is still submitting, and when arguments are pickled is
decided by a list of integers that is part of the generated case.

The same module replaces multiprocessing.Manager by an in-process lock while only
SchedPools are in use (a Manager costs a process start per indexing run).
"""

import concurrent.futures as cf
import concurrent.futures._base as _base
from concurrent.futures.process import BrokenProcessPool
import multiprocessing
import multiprocessing.context
import pickle


class SchedFuture(cf.Future):
    _pool = None
    _seq = 0
    _polls = 0

    def finished(self):
        return super().done()

    def done(self):
        "Time passes for a caller that polls."
        if not self.finished() and self._pool.pending:
            self._polls += 1
            if self._polls % 3 == 0 or self._pool._choose(2):
                self._pool._run_one()
        return self.finished()

    def result(self, timeout=None):
        if not self.finished():
            self._pool._drive(self)
        return super().result(0)

    def exception(self, timeout=None):
        if not self.finished():
            self._pool._drive(self)
        return super().exception(0)


class RemoteError(Exception):
    """Carries the original exception, with its traceback, as a cause."""


class SchedPool(cf.Executor):
    def __init__(self, workers=2, choices=(), fail_at=None):
        self._max_workers = workers
        self.choices = list(choices) or [0]
        self.ci = 0
        self.pending = []
        self.submitted = 0
        self.fail_at = dict(fail_at or {})
        self.broken = False
        self.order = []
        self.closed = False
        # tasks whose arguments could not be unpickled: ends a real worker process
        self.lost = 0

    def repair(self):
        "Work without failures from now on."
        self.drain()
        self.fail_at, self.broken, self.closed = {}, False, False

    def _choose(self, n):
        c = self.choices[self.ci % len(self.choices)]
        self.ci += 1
        return c % n

    def submit(self, fn, /, *args, **kwargs):
        if self.broken:
            raise BrokenProcessPool("A child process terminated abruptly")
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SchedFuture()
        f._pool = self
        f._seq = self.submitted
        self.submitted += 1
        mode = self._choose(4)
        task = (fn, args, kwargs)
        if mode != 0:
            task = pickle.dumps(task)
        self.pending.append((f, task))
        if mode == 3 and len(self.pending) > 1:
            self._run_one()
        return f

    def _run_one(self):
        i = self._choose(min(len(self.pending), max(1, self._max_workers)))
        f, task = self.pending.pop(i)
        if not f.set_running_or_notify_cancel():
            return
        self.order.append(f._seq)
        kind = self.fail_at.get(f._seq)
        if kind == "broken":
            self.broken = True
            for g, _ in [(f, None)] + self.pending:
                g.set_exception(BrokenProcessPool("A child process terminated abruptly"))
            self.pending = []
            return
        try:
            if kind == "error":
                raise MemoryError("injected failure of a background task")
            if not isinstance(task, bytes):
                task = pickle.dumps(task)
            try:
                fn, args, kwargs = pickle.loads(task)
            except Exception:
                self.lost += 1
                raise
            result = pickle.loads(pickle.dumps(fn(*args, **kwargs)))
        except Exception as e:
            try:
                remote = pickle.loads(pickle.dumps(e))
            except Exception:
                remote = RuntimeError(repr(e))
            remote.__cause__ = e
            f.set_exception(remote)
        else:
            f.set_result(result)

    def _drive(self, future):
        while not future.finished():
            if not self.pending:
                raise RuntimeError("harness: waiting for a future that is not pending")
            self._run_one()

    def drain(self):
        while self.pending:
            self._run_one()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for f, _ in self.pending:
                f.cancel()
            self.pending = []
        elif wait:
            self.drain()


_real_wait = _base.wait
_real_as_completed = _base.as_completed


def _sched_only(fs):
    return bool(fs) and all(isinstance(f, SchedFuture) for f in fs)


def sched_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    if not _sched_only(fs):
        return _real_wait(fs, timeout, return_when)
    pool = next(iter(fs))._pool
    order = sorted(fs, key=lambda f: f._seq)
    if return_when == cf.FIRST_COMPLETED:
        while not any(f.finished() for f in order):
            pool._run_one()
        # maybe more have finished by the time the caller looks
        for _ in range(pool._choose(3)):
            if pool.pending:
                pool._run_one()
    elif return_when == cf.FIRST_EXCEPTION:
        while not all(f.finished() for f in order) and not any(
            f.finished() and not f.cancelled() and f.exception() for f in order
        ):
            pool._run_one()
    else:
        for f in order:
            if not f.finished():
                pool._drive(f)
    done = {f for f in fs if f.finished()}
    return _base.DoneAndNotDoneFutures(done, fs - done)


def sched_as_completed(fs, timeout=None):
    fs = set(fs)
    if not _sched_only(fs):
        yield from _real_as_completed(fs, timeout)
        return
    pool = next(iter(fs))._pool
    left = sorted(fs, key=lambda f: f._seq)
    while left:
        done = [f for f in left if f.finished()]
        if not done:
            pool._run_one()
            continue
        f = done[pool._choose(len(done))]
        left.remove(f)
        yield f


class _Locks:
    registry = {}
    n = 0


def _get_lock(i):
    return _Locks.registry[i]


class StubLock:
    def __init__(self):
        _Locks.n += 1
        self.i = _Locks.n
        _Locks.registry[self.i] = self
        self.held = False

    def __reduce__(self):
        return _get_lock, (self.i,)

    def acquire(self, blocking=True, timeout=None):
        if self.held:
            raise RuntimeError("deadlock: the lock is already held")
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release of a lock that is not held")
        self.held = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class StubManager:
    def __init__(self):
        self.locks = []
        self._real = None

    def Lock(self):
        lock = StubLock()
        self.locks.append(lock)
        return lock

    RLock = Lock

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if self.__dict__.get("_real") is None:
            self._real = _real_manager()
        return getattr(self._real, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def shutdown(self):
        for lock in self.locks:
            _Locks.registry.pop(lock.i, None)
        if self._real is not None:
            self._real.shutdown()
            self._real = None


_real_manager = multiprocessing.Manager
_real_ctx_manager = multiprocessing.context.BaseContext.Manager
_state = {"stub": True}


def _manager(*a, **k):
    return StubManager() if _state["stub"] else _real_manager(*a, **k)


def _ctx_manager(self, *a, **k):
    return StubManager() if _state["stub"] else _real_ctx_manager(self, *a, **k)


def install():
    cf.wait = _base.wait = sched_wait
    cf.as_completed = _base.as_completed = sched_as_completed
    multiprocessing.Manager = _manager
    multiprocessing.context.BaseContext.Manager = _ctx_manager


class real_manager:
    """With this, multiprocessing.Manager is the real one (for real process pools)."""

    def __enter__(self):
        self.old = _state["stub"]
        _state["stub"] = False

    def __exit__(self, *a):
        _state["stub"] = self.old


install()


def real_pool(env, workers=3):
    """A spawn process pool shared by all the cases of a shard."""
    key = ("pool", workers)
    if key not in env.persistent:
        pool = cf.ProcessPoolExecutor(
            max_workers=workers, mp_context=multiprocessing.get_context("spawn")
        )
        env.persistent[key] = (pool, lambda p: p.shutdown(wait=True, cancel_futures=True))
    return env.persistent[key][0]


class Switch(cf.Executor):
    """Passes everything to `current`, which can be replaced."""

    def __init__(self, current):
        self.current = current

    @property
    def _max_workers(self):
        return self.current._max_workers

    def submit(self, fn, /, *args, **kwargs):
        return self.current.submit(fn, *args, **kwargs)

    def shutdown(self, *args, **kwargs):
        return self.current.shutdown(*args, **kwargs)

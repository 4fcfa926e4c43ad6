"""A process pool whose workers are simulated processes.

It keeps what the real one guarantees: functions, arguments and results cross a
pickle boundary; items are taken in submission order by whichever worker is
free; a worker that dies breaks the pool; results reach the parent through a
separate thread of the parent."""
import concurrent.futures._base as _base
import pickle
import traceback
from collections import deque
from concurrent.futures.process import BrokenProcessPool

from . import kernel as K
from . import world as W


class _RemoteTraceback(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


def _rebuild_exc(exc, tb):
    exc.__cause__ = _RemoteTraceback(tb)
    return exc


class _Item:
    __slots__ = ("future", "payload")

    def __init__(self, future, payload):
        self.future = future
        self.payload = payload


class SimProcessPoolExecutor(_base.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(),
                 *, max_tasks_per_child=None):
        w = W.current()
        t = K.current_task()
        if w is None or t is None:
            raise K.HarnessError("process pool outside of the simulation")
        if max_workers is None:
            max_workers = w.cpus
        elif max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._w = w
        self._k = w.kernel
        self._owner = t.proc
        self._max_workers = min(max_workers, 64)
        self._initializer = initializer
        self._initargs = initargs
        self._pending = deque()
        self._results = deque()
        self._running = {}
        self._workers = []
        self._idle = []
        self._manager = None
        self._manager_task = None
        self._mgr_waiting = False
        self._shutdown = False
        self._broken = None
        w.count("pools")

    # the parent side ---------------------------------------------------------
    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise BrokenProcessPool(self._broken)
        if self._shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = _base.Future()
        item = _Item(f, (fn, args, kwargs))
        self._pending.append(item)
        if self._manager_task is None:
            self._manager_task = self._k.spawn(
                self._owner, self._manage, f"{self._owner.name}/pool-manager")
        self._adjust()
        self._kick()
        self._k.yield_point("submit")
        return f

    def _kick(self):
        while self._idle and self._pending:
            # any idle worker may take the item: which one is the scheduler's
            # choice, all that are free are woken
            t = self._idle.pop(0)
            self._k.wake(t, "work")

    def _adjust(self):
        alive = [p for p in self._workers if p.alive]
        need = len(self._pending) - len(self._idle)
        if need > 0 and len(alive) < self._max_workers:
            parent = self._owner
            p = self._k.new_process(f"{parent.name}/w{len(self._workers)}", parent, parent.cwd)
            p.on_death = [self._w._on_death, self._worker_died]
            self._workers.append(p)
            self._k.spawn(p, lambda: self._worker(p), p.name)

    def _wake_manager(self):
        if self._manager_task is not None:
            self._k.wake(self._manager_task, "result")

    def _manage(self):
        """The executor manager thread of the parent."""
        k = self._k
        while True:
            while self._results:
                kind, item, blob = self._results.popleft()
                self._deliver(kind, item, blob)
                k.yield_point("deliver")
            if self._broken:
                self._fail_all()
                return
            if self._shutdown and not self._pending and not self._running:
                for t in self._idle:
                    k.wake(t, "stop")
                self._idle = []
                return
            k.block(None, on="pool manager")

    def _deliver(self, kind, item, blob):
        try:
            value = pickle.loads(blob)
        except Exception as e:
            # the result cannot be rebuilt in the parent: the real executor
            # considers the pool broken
            self._broken = f"A result has failed to un-serialize: {e!r}"
            self._pending.appendleft(item)
            return
        if kind == "ok":
            item.future.set_result(value)
        else:
            exc, tb = value
            item.future.set_exception(_rebuild_exc(exc, tb))

    def _fail_all(self):
        exc = BrokenProcessPool(self._broken)
        items = list(self._running.values()) + list(self._pending)
        self._running.clear()
        self._pending.clear()
        for item in items:
            if not item.future.done():
                try:
                    item.future.set_exception(exc)
                except _base.InvalidStateError:
                    pass
        for p in self._workers:
            if p.alive:
                self._k.kill_process(p, "terminated by the broken pool")

    def _worker_died(self, p):
        if not self._owner.alive:
            return
        if not self._broken and not (self._shutdown and not self._running
                                     and not self._pending):
            self._broken = (
                "A process in the process pool was terminated abruptly while "
                "the future was running or pending.")
        self._wake_manager()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown = True
        if cancel_futures:
            for item in list(self._pending):
                item.future.cancel()
                item.future.set_running_or_notify_cancel()
            self._pending.clear()
        self._wake_manager()
        if wait and self._manager_task is not None:
            self._k.join(self._manager_task)
            self._manager_task_done = True

    # the worker side ---------------------------------------------------------
    def _worker(self, p):
        try:
            self._work(p)
        except KeyboardInterrupt:
            # between two items: the process ends with a traceback
            self._k.kill_process(p, "interrupted")
            raise K.SimKilled()

    def _work(self, p):
        k = self._k
        if self._initializer is not None:
            self._initializer(*self._initargs)
        me = K.current_task()
        while True:
            item = None
            while self._pending:
                it = self._pending.popleft()
                self._running[p.pid] = it  # before anything that can be interrupted
                if it.future.set_running_or_notify_cancel():
                    item = it
                    break
                self._running.pop(p.pid, None)
            if item is None:
                if self._shutdown and not self._running:
                    self._wake_manager()
                    return
                if self._broken:
                    return
                self._idle.append(me)
                try:
                    v = k.block(None, on="pool worker")
                finally:
                    if me in self._idle:
                        self._idle.remove(me)
                if v == "stop":
                    return
                continue
            k.yield_point("take")
            kind, blob = "ok", None
            try:
                fn, args, kwargs = pickle.loads(pickle.dumps(item.payload))
                r = fn(*args, **kwargs)
                blob = pickle.dumps(r)
            except (K.SimKilled, K.HarnessError):
                raise
            except BaseException as e:
                kind = "err"
                tb = traceback.format_exc()
                e.__traceback__ = None
                try:
                    blob = pickle.dumps((e, tb))
                except Exception as e2:
                    blob = pickle.dumps((RuntimeError(f"unpicklable error {e!r}: {e2!r}"), tb))
            k.yield_point("result")
            self._running.pop(p.pid, None)
            self._results.append((kind, item, blob))
            self._wake_manager()

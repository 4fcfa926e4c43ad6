"""An asyncio event loop on the simulated clock."""
import asyncio
import asyncio.base_events
import asyncio.events

from . import kernel as K
from . import world as W


class _FakeSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        loop = self.loop
        k = loop._sim_kernel
        t = K.current_task()
        k.yield_point("loop")
        if loop._woken:
            loop._woken = False
            return []
        if timeout is not None and timeout <= 0:
            return []
        deadline = None if timeout is None else k.now_ns + int(timeout * 1e9)
        loop._waiter = t
        try:
            while not loop._woken:
                v = k.block(deadline, on="event loop")
                if v == "timeout":
                    break
                if t.proc.pending_signals and t is t.proc.main:
                    k.run_signals(t.proc)
                if t.inject is not None:
                    e, t.inject = t.inject, None
                    raise e
        finally:
            loop._waiter = None
        loop._woken = False
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class SimFuture(asyncio.Future):
    __hash__ = K.numbered


class SimTask(asyncio.Task):
    __hash__ = K.numbered


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, w):
        self._sim_world = w
        self._sim_kernel = w.kernel
        super().__init__()
        self._selector = _FakeSelector(self)
        self._woken = False
        self._waiter = None
        self._signal_handlers = {}

        self.set_task_factory(lambda loop, coro, **kw: SimTask(coro, loop=loop, **kw))

    def create_future(self):
        return SimFuture(loop=self)

    def time(self):
        return self._sim_kernel.now_ns / 1e9

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        self._woken = True
        if self._waiter is not None:
            self._sim_kernel.wake(self._waiter, "loop")

    def close(self):
        if self.is_running():
            raise RuntimeError("Cannot close a running event loop")
        super().close()

    def add_signal_handler(self, sig, callback, *args):
        t = K.current_task()
        t.proc.handlers[int(sig)] = lambda s, f: self.call_soon_threadsafe(callback, *args)

    def remove_signal_handler(self, sig):
        t = K.current_task()
        return t.proc.handlers.pop(int(sig), None) is not None


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        t = K.current_task()
        w = W.current()
        if t is None or w is None:
            return super().new_event_loop()
        return SimLoop(w)

"""Deterministic kernel: real threads, parked and released one at a time.

Exactly one simulated task runs at any moment.  A task gives up the processor
only inside the kernel (a yield point in a patched system call, a blocking
primitive, a sleep), and the kernel alone decides who runs next, from the seeded
generator or from a recorded decision list.  Time is virtual: when nothing can
run, the clock jumps to the next timer.
"""
import itertools
import _thread
import heapq
import random
import sys
import threading
import traceback
import zlib

_tls = _thread._local()


def current_task():
    return getattr(_tls, "task", None)


_outside = itertools.count(1)


def numbered(obj):
    """A hash which is the same whenever the execution is: futures and tasks end
    up in sets, and the standard library locks several of them in this order."""
    try:
        return obj._sim_no
    except AttributeError:
        t = current_task()
        obj._sim_no = next(_outside if t is None else t.kernel.numbers)
        return obj._sim_no


class SimKilled(BaseException):
    """Raised in every task of a process the simulator has killed."""


raised = []  # every HarnessError of this execution, also those program code caught


class HarnessError(Exception):
    """A fault of the simulator or the harness; never a property violation."""

    def __init__(self, *a):
        super().__init__(*a)
        raised.append(self)


RUNNABLE, BLOCKED, DONE = 0, 1, 2


class Process:
    """A simulated operating-system process."""

    def __init__(self, kernel, pid, name, parent=None, cwd="/"):
        self.kernel = kernel
        self.pid = pid
        self.name = name
        self.parent = parent
        self.cwd = cwd
        self.alive = True
        self.kill_reason = None
        self.tasks = []
        self.children = []
        self.main = None
        self.handlers = {}
        self.pending_signals = []
        self.fds = {}
        self.threads = []
        self.cwd_at_end = None
        self.steps = 0
        self.io_ops = 0
        self.group = parent.group if parent is not None else self
        self.group_steps = 0
        self.group_io = 0
        self.group_mut = 0
        self.max_group_steps = None
        self.max_now = None
        self.hung = None
        self.harness = parent.harness if parent is not None else False
        self.environ = None

    def __repr__(self):
        return f"<{self.name} pid={self.pid}>"


class Task:
    __slots__ = (
        "kernel", "tid", "name", "proc", "baton", "state", "fn", "result", "exc",
        "wake_value", "timer_seq", "joiners", "unwind_steps", "exc_text", "prio",
        "waiting_on", "inject", "__weakref__",
    )

    def __init__(self, kernel, tid, name, proc, fn):
        self.kernel = kernel
        self.tid = tid
        self.name = name
        self.proc = proc
        self.fn = fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = RUNNABLE
        self.result = None
        self.exc = None
        self.exc_text = None
        self.wake_value = None
        self.timer_seq = 0
        self.joiners = []
        self.unwind_steps = 0
        self.prio = 0.0
        self.waiting_on = None
        self.inject = None

    def __repr__(self):
        return f"<task {self.tid} {self.name}>"


class SchedPolicy:
    """Chooses the next task.  `recorded` (a dict decision -> choice) turns the
    policy into a replay: every decision not in it takes the default."""

    def __init__(self, seed, kind="random", p=0.2, depth=3, horizon=2000, recorded=None):
        self.rng = random.Random(f"sched-{seed}")
        self.kind = kind
        self.p = p
        self.recorded = recorded
        self.decisions = 0
        self.taken = {}
        self.change_points = set()
        if kind == "pct":
            self.change_points = {self.rng.randrange(1, horizon) for _ in range(depth)}
        self.low = 0.0

    def new_task(self, task):
        task.prio = self.rng.random() + 1.0

    def choose(self, runnable, me):
        """runnable: list of tasks ordered by tid, len >= 2."""
        d = self.decisions
        self.decisions += 1
        default = me if (me is not None and me.state == RUNNABLE) else runnable[0]
        if self.recorded is not None:
            c = self.recorded.get(d)
            if c is None:
                return default
            pick = runnable[c % len(runnable)]
            if pick is not default:
                self.taken[d] = c % len(runnable)
            return pick
        kind = self.kind
        if kind == "fifo":
            pick = default
        elif kind == "random":
            if default is me and self.rng.random() >= self.p:
                pick = me
            else:
                pick = runnable[self.rng.randrange(len(runnable))]
        elif kind == "pct":
            if d in self.change_points and me is not None:
                self.low -= 1.0
                me.prio = self.low
            pick = max(runnable, key=lambda t: t.prio)
        elif kind == "last":
            pick = me if default is me and self.rng.random() >= self.p else runnable[-1]
        else:
            raise HarnessError(f"unknown schedule kind {kind}")
        if pick is not default:
            self.taken[d] = runnable.index(pick)
        return pick


class Kernel:
    STEP_NS = 20_000

    def __init__(self, policy, start_ns=1_700_000_000 * 10**9, max_steps=3_000_000):
        self.policy = policy
        self.start_ns = start_ns
        self.now_ns = 0
        self.wall_skew_ns = 0
        self.tasks = {}
        self.live = []  # not-done tasks ordered by tid
        self.next_tid = 1
        self.next_pid = 100
        self.current = None
        self.timers = []
        self.timer_seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.switches = 0
        self.trace_crc = 0
        self.numbers = itertools.count(1)  # for what Python would tell apart by address
        self.controller = _thread.allocate_lock()
        self.controller.acquire()
        self.finished = False
        self.fatal = None
        self.unwinding = []
        self.procs = []
        self.on_step = None  # fault hook (task, kind) -> None
        self.stopping = False
        self.root = None

    # -- processes and tasks -------------------------------------------------
    def new_process(self, name, parent=None, cwd="/"):
        p = Process(self, self.next_pid, name, parent, cwd)
        self.next_pid += 1
        self.procs.append(p)
        if parent is not None:
            parent.children.append(p)
            p.handlers = dict(parent.handlers)
            p.environ = parent.environ
        return p

    def spawn(self, proc, fn, name):
        t = Task(self, self.next_tid, name, proc, fn)
        self.next_tid += 1
        self.tasks[t.tid] = t
        self.live.append(t)
        proc.tasks.append(t)
        if proc.main is None:
            proc.main = t
        self.policy.new_task(t)
        _thread.start_new_thread(self._bootstrap, (t,))
        return t

    def _bootstrap(self, t):
        t.baton.acquire()
        threading.current_thread()  # has Python make up an object for this thread
        _tls.task = t
        try:
            try:
                if not t.proc.alive:
                    raise SimKilled()
                t.result = t.fn()
            except SimKilled as e:
                t.exc = e
            except BaseException as e:  # noqa
                t.exc = e
                try:
                    t.exc_text = traceback.format_exc()
                except BaseException:
                    t.exc_text = repr(e)
            self._finish(t)
        except BaseException as e:  # kernel bug
            self.fatal = HarnessError(f"kernel failure: {e!r}\n{traceback.format_exc()}")
            self.finished = True
            self.controller.release()

    def _finish(self, t):
        t.state = DONE
        self.live.remove(t)
        del self.tasks[t.tid]
        t.proc.tasks.remove(t)
        if t in self.unwinding:
            self.unwinding.remove(t)
        for j in t.joiners:
            self.wake(j, "joined")
        t.joiners = []
        if t is self.root or self.fatal is not None:
            if not self._teardown_next(t):
                return
            return
        self._dispatch(t)

    def _teardown_next(self, t):
        """The root task ended: unwind what is left, then give the thread of
        control back to the controller."""
        self.stopping = True
        for p in self.procs:
            p.alive = False
        for other in list(self.live):
            if other.state == BLOCKED:
                other.state = RUNNABLE
        if self.live:
            nxt = self.live[0]
            self.current = nxt
            nxt.baton.release()
            return True
        self.finished = True
        self.controller.release()
        return False

    # -- running -------------------------------------------------------------
    def run(self, fn, name="driver"):
        proc = self.new_process(name)
        proc.harness = True
        self.root = self.spawn(proc, fn, name)
        self.current = self.root
        self.root.baton.release()
        self.controller.acquire()
        if self.fatal is not None:
            raise self.fatal
        if self.root.exc is not None:
            if isinstance(self.root.exc, SimKilled):
                raise HarnessError("driver killed")
            raise self.root.exc
        return self.root.result

    def _runnable(self):
        return [t for t in self.live if t.state == RUNNABLE]

    def _pick(self, me):
        if self.stopping:
            # unwinding everything, one task after the other
            if me is not None and me.state != DONE:
                return me
            return self.live[0] if self.live else None
        if self.unwinding:
            if me is not None and me in self.unwinding and me.state != DONE:
                return me
            return self.unwinding[0]
        while True:
            if self.timers and self.timers[0][0] <= self.now_ns:
                self._fire_timers()
            r = self._runnable()
            if r:
                break
            if not self._advance():
                self._deadlock()
        if len(r) == 1:
            return r[0]
        return self.policy.choose(r, me)

    def _advance(self):
        while self.timers:
            when, seq, task, tseq, cb = self.timers[0]
            if task is not None and (task.state != BLOCKED or task.timer_seq != tseq):
                heapq.heappop(self.timers)
                continue
            if when > self.now_ns:
                self.now_ns = when
            self._fire_timers()
            return True
        return False

    def _fire_timers(self):
        while self.timers and self.timers[0][0] <= self.now_ns:
            when, seq, task, tseq, cb = heapq.heappop(self.timers)
            if cb is not None:
                cb()
            elif task.state == BLOCKED and task.timer_seq == tseq:
                task.state = RUNNABLE
                task.wake_value = "timeout"

    def _deadlock(self):
        """Nothing can ever run again: report it to the root task."""
        root = self.root
        if root.state == BLOCKED:
            info = [
                (t.proc.name, t.name, str(t.waiting_on))
                for t in self.live
                if t is not root
            ]
            root.state = RUNNABLE
            root.wake_value = ("deadlock", info)
            return
        raise HarnessError("deadlock with the root task not blocked")

    def _dispatch(self, me):
        """Hand the processor to the next task.  Returns when `me` is resumed
        (never, if `me` is done)."""
        nxt = self._pick(me)
        if nxt is None:
            self.finished = True
            self.controller.release()
            return
        if nxt is me:
            return
        self.current = nxt
        self.switches += 1
        nxt.baton.release()
        if me.state != DONE:
            me.baton.acquire()

    def _check_killed(self, me):
        if not me.proc.alive or self.stopping:
            me.unwind_steps += 1
            if me.unwind_steps > 20000:
                self.fatal = HarnessError(f"task {me} does not unwind after kill")
            raise SimKilled()

    def note(self, *what):
        self.trace_crc = zlib.crc32(repr(what).encode("utf-8", "replace"), self.trace_crc)

    def yield_point(self, kind="", preempt=True):
        me = _tls.task
        if not me.proc.alive or self.stopping:
            self._check_killed(me)
        self.steps += 1
        self.now_ns += self.STEP_NS
        p = me.proc
        g = p.group
        g.group_steps += 1
        p.steps += 1
        if self.steps > self.max_steps:
            raise HarnessError("simulation step cap exceeded")
        if g.max_group_steps is not None and g.group_steps > g.max_group_steps:
            g.hung = "step budget exhausted"
            self.kill_group(g, "hung")
            self._check_killed(me)
        if g.max_now is not None and self.now_ns > g.max_now:
            g.hung = "time budget exhausted"
            self.kill_group(g, "hung")
            self._check_killed(me)
        if preempt:
            self._dispatch(me)
            if not p.alive or self.stopping:
                self._check_killed(me)
        if p.pending_signals and me is p.main:
            self.run_signals(p)
        if me.inject is not None:
            e, me.inject = me.inject, None
            raise e

    def run_signals(self, p):
        while p.pending_signals:
            sig = p.pending_signals.pop(0)
            h = p.handlers.get(sig)
            if h is None:
                if sig == 2:
                    raise KeyboardInterrupt()
                self.kill_group(p, f"signal {sig}")
                raise SimKilled()
            if callable(h):
                h(sig, None)

    def block(self, deadline_ns=None, on=None):
        """Blocks the current task until it is woken or the deadline passes.
        Returns the wake value ("timeout" for a deadline)."""
        me = _tls.task
        if not me.proc.alive or self.stopping:
            self._check_killed(me)
        me.state = BLOCKED
        me.wake_value = None
        me.waiting_on = on
        me.timer_seq += 1
        if deadline_ns is not None:
            self.timer_seq += 1
            heapq.heappush(
                self.timers, (deadline_ns, self.timer_seq, me, me.timer_seq, None)
            )
        self.steps += 1
        g = me.proc.group
        g.group_steps += 1
        if self.steps > self.max_steps:
            me.state = RUNNABLE
            raise HarnessError("simulation step cap exceeded")
        if g.max_group_steps is not None and g.group_steps > g.max_group_steps:
            me.state = RUNNABLE
            g.hung = "step budget exhausted"
            self.kill_group(g, "hung")
            self._check_killed(me)
        if g.max_now is not None and self.now_ns > g.max_now:
            me.state = RUNNABLE
            g.hung = "time budget exhausted"
            self.kill_group(g, "hung")
            self._check_killed(me)
        self._dispatch(me)
        me.waiting_on = None
        if not me.proc.alive or self.stopping:
            self._check_killed(me)
        v = me.wake_value
        me.wake_value = None
        return v

    def wake(self, task, value="woken"):
        if task.state == BLOCKED:
            task.state = RUNNABLE
            task.wake_value = value

    def call_at(self, when_ns, cb):
        self.timer_seq += 1
        heapq.heappush(self.timers, (when_ns, self.timer_seq, None, 0, cb))

    def sleep(self, seconds):
        me = _tls.task
        self.yield_point("sleep", preempt=False)
        if seconds <= 0:
            self.yield_point("sleep0")
            return
        end = self.now_ns + int(seconds * 1e9)
        while self.now_ns < end:
            self.block(end, on="sleep")
            if me.proc.pending_signals and me is me.proc.main:
                self.run_signals(me.proc)
        if me.inject is not None:
            e, me.inject = me.inject, None
            raise e

    def join(self, task, timeout=None):
        me = _tls.task
        deadline = None if timeout is None else self.now_ns + int(timeout * 1e9)
        while task.state != DONE:
            task.joiners.append(me)
            v = self.block(deadline, on=f"join {task.name}")
            if me in task.joiners:
                task.joiners.remove(me)
            if v == "timeout":
                return False
            if isinstance(v, tuple) and v[0] == "deadlock":
                return v
            if me.proc.pending_signals and me is me.proc.main:
                self.run_signals(me.proc)
        return True

    # -- killing -------------------------------------------------------------
    def kill_process(self, p, reason="killed"):
        if not p.alive:
            return
        p.alive = False
        p.kill_reason = reason
        if p.on_death:
            for cb in list(p.on_death):
                cb(p)
        for t in p.tasks:
            if t.state == BLOCKED:
                t.state = RUNNABLE
                t.wake_value = "killed"
            if t not in self.unwinding:
                self.unwinding.append(t)

    def kill_group(self, p, reason="killed"):
        g = p.group
        def rec(q):
            for c in q.children:
                rec(c)
            self.kill_process(q, reason)
        rec(g)

    def signal(self, p, sig):
        p.pending_signals.append(sig)
        if p.main is not None and p.main.state == BLOCKED:
            p.main.state = RUNNABLE
            p.main.wake_value = "signal"

    def wall_ns(self):
        return self.start_ns + self.now_ns + self.wall_skew_ns


Process.on_death = ()


# -- synchronisation primitives built on the kernel ---------------------------
class SimLock:
    """Same interface as _thread.lock."""

    def __init__(self, kernel):
        self.kernel = kernel
        self.held = False
        self.waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = self.kernel
        t = current_task()
        if t is None or t.kernel is not k:
            # finalizers or teardown outside of the simulation
            if not self.held:
                self.held = True
                return True
            if not blocking:
                return False
            raise HarnessError("sim lock contended outside the simulation")
        k.yield_point("lock")
        if not self.held:
            self.held = True
            return True
        if not blocking:
            return False
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = k.now_ns + int(timeout * 1e9)
        while self.held:
            self.waiters.append(t)
            try:
                v = k.block(deadline, on="lock")
            finally:
                if t in self.waiters:
                    self.waiters.remove(t)
            if v == "timeout" and self.held:
                return False
            if t.proc.pending_signals and t is t.proc.main:
                k.run_signals(t.proc)
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        if self.waiters:
            for w in self.waiters:
                self.kernel.wake(w, "lock")

    def locked(self):
        return self.held

    def _at_fork_reinit(self):
        self.held = False
        self.waiters = []

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self, kernel):
        self._block = SimLock(kernel)
        self._owner = None
        self._count = 0

    def _me(self):
        t = current_task()
        return t.tid if t is not None else -_thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == self._me()

    def _recursion_count(self):
        return self._count if self._owner == self._me() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0

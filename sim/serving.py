"""What the checks of run and dev share: a command which is left running."""
import os
import sys
import threading

from loguru import logger

from . import harness as H
from . import kernel as K


class Serving:
    """A run or dev command in the background of session `s`."""

    def __init__(self, s, st, max_steps=3_000_000, max_seconds=7200.0):
        self.s, self.w, self.k, self.st = s, s.w, s.w.kernel, st
        self.announced_at = None
        self.messages = []
        self.waiter = None
        self.fired = False
        self.interrupted = False
        self.fn, self.cwd = s.cli(st["cmd"], st)
        self.limits = {"max_steps": max_steps, "max_seconds": max_seconds}

    def sink(self, msg):
        """The program's log, from INFO upwards."""
        t = str(msg)
        self.messages.append((self.k.now_ns, t.split("\n")[0][:120], t[-1500:] if "Traceback" in t else ""))
        if "Running server" in t and self.announced_at is None:
            self.announced_at = self.k.now_ns
            if self.st.get("lines") is not None and K.current_task() is self.main:
                self.count_lines(self.st["lines"])
            if self.waiter is not None:
                self.k.wake(self.waiter, "announced")

    def count_lines(self, n):
        """Interrupts the program before the n-th line which its main thread
        executes from now on, wherever that is."""
        left = [n]

        def mine(frame):
            f = frame.f_code.co_filename
            return self.st.get("deep") and f == threading.__file__ or os.sep + "vanillaplusjs" + os.sep in f

        def tracer(frame, event, arg):
            if not mine(frame) or self.interrupted:
                return None
            if event == "line":
                if left[0] == 0:
                    sys.settrace(None)
                    self.fired = True
                    self.k.signal(self.p, 2)
                    self.k.run_signals(self.p)
                    return None
                left[0] -= 1
            return tracer
        f = sys._getframe()
        while f is not None:
            if mine(f):
                f.f_trace = tracer
            f = f.f_back
        sys.settrace(tracer)

    def start(self):
        self.p = self.w.start(self.st["cmd"], self.fn, self.cwd, **self.limits)
        self.main = self.p.main
        self.started_ns = self.k.now_ns
        return self

    @property
    def ended(self):
        return self.main.state == K.DONE

    def server(self):
        return self.w.servers[-1] if self.w.servers else None

    def wait_announced(self, secs=3600.0):
        """Until the program says that it serves.  False if it ended instead."""
        self.waiter = K.current_task()
        end = self.k.now_ns + int(secs * 1e9)
        while self.announced_at is None and not self.ended and self.k.now_ns < end:
            self.k.block(self.k.now_ns + 50_000_000, on="announcement")
        self.waiter = None
        return self.announced_at is not None

    def wait_end(self, secs):
        """True if it ended within that time."""
        end = self.k.now_ns + int(secs * 1e9)
        while not self.ended:
            if self.k.now_ns >= end:
                return False
            self.k.sleep(0.05)
        return True

    def interrupt(self, group=False):
        """Control-C: of the program, or of everything in its terminal."""
        self.interrupted = True
        for q in ([q for q in self.w._group_members(self.p)] if group else [self.p]):
            self.k.signal(q, 2)

    def finish(self):
        if not self.ended:
            self.k.kill_group(self.p, "left running")
        self.outcome = self.w.finish(self.p, self.main)
        self.w.active_faults = []
        self.w.triggers = []
        self.w.log("run", self.p.run_index, self.st["cmd"], self.outcome.brief())
        return self.outcome


def listening(serving_list):
    """Context in which the log of the program reaches the Serving objects."""
    class Ctx:
        def __enter__(self):
            self.id = logger.add(lambda m: [x.sink(m) for x in serving_list], level="INFO", format="{message}\n{exception}",
                                 filter=lambda r: r["name"].startswith("vanillaplusjs"), colorize=False,
                                 backtrace=False, diagnose=False, catch=False)

        def __exit__(self, *a):
            logger.remove(self.id)
    return Ctx()


__all__ = ["Serving", "listening", "H"]

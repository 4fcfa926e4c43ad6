"""One simulated machine: kernel, file system, network, faults and the record of
what happened."""
import errno
import os as _os
import random
import zlib

from . import kernel as K
from .vfs import VFS

VROOT = "/simroot"
TMP = "/tmp"
SIGINT = 2

_current = None


def current():
    return _current


def set_current(w):
    global _current
    _current = w


class Outcome:
    """How a simulated program ended."""

    def __init__(self, kind, exc=None, text=None, code=None, info=None):
        self.kind = kind  # ok | exit | error | killed | hung | deadlock | interrupted
        self.exc = exc
        self.text = text
        self.code = code
        self.info = info

    @property
    def ok(self):
        return self.kind == "ok" or (self.kind == "exit" and self.code in (0, None))

    @property
    def failed_loudly(self):
        return self.kind in ("error", "interrupted") or (
            self.kind == "exit" and self.code not in (0, None))

    def brief(self):
        if self.kind == "error":
            return f"error {type(self.exc).__name__}: {str(self.exc)[:300]}"
        if self.kind == "exit":
            return f"exit {self.code}"
        if self.info:
            return f"{self.kind} {self.info}"
        return self.kind

    def __repr__(self):
        return f"<{self.brief()}>"


class Fault:
    """One planned fault; `fired` counts how often it really happened."""

    def __init__(self, d):
        self.d = d
        self.kind = d["kind"]
        self.run = d.get("run")
        self.at = d.get("at", 0)
        self.cls = d.get("cls", "m")
        self.count = d.get("count", 1)
        self.errno = d.get("errno", errno.EIO)
        self.match = d.get("match")
        self.seen = 0
        self.fired = 0


class World:
    def __init__(self, scenario, recorded=None):
        """scenario: the parts read here are seed, sched, env and faults."""
        self.sc = scenario
        self.seed = scenario["seed"]
        s = scenario.get("sched", {})
        if recorded is None and "decisions" in scenario and scenario["decisions"] is not None:
            recorded = {int(a): int(b) for a, b in scenario["decisions"]}
        self.policy = K.SchedPolicy(
            self.seed, s.get("kind", "random"), s.get("p", 0.2), s.get("depth", 3),
            s.get("horizon", 2000), recorded)
        self.kernel = K.Kernel(self.policy, max_steps=scenario.get("max_steps", 3_000_000))
        env = scenario.get("env", {})
        self.env = env
        self.vfs = VFS(self.kernel.wall_ns, env.get("reuse_inodes", True),
                       env.get("granularity_ns", 1))
        self.vfs.makedirs(VROOT)
        self.vfs.makedirs(TMP)
        self.cpus = env.get("cpus", 3)
        self.shuffle = env.get("shuffle", True)
        self.short_io = env.get("short_io", False)
        self.faults = [Fault(d) for d in scenario.get("faults", ())]
        self.active_faults = []
        self.run_index = -1
        self.escapes = []
        self.ops = []  # (seq, run, pid, role, op, path, extra)
        self.op_seq = 0
        self.record_ops = True
        self.stats = {}
        self.net = None
        self.outputs = {}
        self.monitors = []
        self.triggers = []  # [(number of file operations, what to do then)] for the current run
        self.monitor_violations = []
        self.servers = []
        self.observers = []
        self.entropy = random.Random(f"entropy-{self.seed}")
        self.readdir_salt = f"readdir-{self.seed}"
        self.runs = []
        self.logs = []

    # -- bookkeeping ---------------------------------------------------------
    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def log(self, *a):
        self.logs.append((self.kernel.now_ns, *a))

    def order(self, path, names):
        names = sorted(names)
        if not self.shuffle:
            return names
        salt = self.readdir_salt
        return sorted(names, key=lambda n: (zlib.crc32(f"{salt}|{path}|{n}".encode()), n))

    # -- programs ------------------------------------------------------------
    def start(self, name, fn, cwd, max_steps=400_000, max_seconds=3600.0):
        k = self.kernel
        p = k.new_process(name, None, cwd)
        p.group = p
        p.max_group_steps = max_steps
        p.max_now = k.now_ns + int(max_seconds * 1e9)
        p.run_index = self.run_index = self.run_index + 1
        self.triggers = []
        self.active_faults = [
            f for f in self.faults
            if (f.run is None or f.run == self.run_index) and f.fired < f.count]
        for f in self.active_faults:
            f.seen = 0
        p.on_death = [self._on_death]
        from . import patches
        patches.fresh_interpreter()

        def main():
            try:
                return fn()
            finally:
                if p.alive:
                    # the interpreter waits for threads which are not daemons
                    p.cwd_at_end = p.cwd
                    for th in p.threads:
                        if not th.daemon:
                            k.join(th._sim_task)
        k.spawn(p, main, name)
        self.runs.append(p)
        return p

    def finish(self, p, task):
        k = self.kernel
        v = k.join(task)
        deadlock = v if isinstance(v, tuple) else None
        if deadlock:
            k.kill_group(p, "deadlock")
            k.yield_point("reap", preempt=True)
        else:
            # the children of a process that ended are ended with it
            for q in self._group_members(p):
                if q is not p:
                    k.kill_process(q, "parent exited")
            if p.tasks and p.alive:
                k.kill_process(p, "exited")
            k.yield_point("reap", preempt=True)
            p.alive = False
        self._on_death(p)
        if deadlock:
            return Outcome("deadlock", info=deadlock[1])
        if p.hung:
            return Outcome("hung", info=p.hung)
        e = task.exc
        if e is None:
            return Outcome("ok")
        if isinstance(e, K.SimKilled):
            return Outcome("killed", info=p.kill_reason)
        if isinstance(e, SystemExit):
            return Outcome("exit", code=e.code)
        if isinstance(e, KeyboardInterrupt):
            return Outcome("interrupted", exc=e)
        if isinstance(e, K.HarnessError):
            raise e
        return Outcome("error", exc=e, text=task.exc_text)

    def run_program(self, name, fn, cwd, **kw):
        p = self.start(name, fn, cwd, **kw)
        out = self.finish(p, p.main)
        self.log("run", p.run_index, name, out.brief())
        return out

    def _on_death(self, p):
        for raw in list(getattr(p, "open_raws", {}).values()):
            raw.abandon()
        from . import syscalls
        syscalls.release_locks(self, p)

    # -- faults --------------------------------------------------------------
    def on_op(self, cls, op, path, proc, size=None):
        """Called before the effect of every file operation.  May raise OSError,
        kill the process, or (for writes) return a number of bytes after which
        the process is to be killed or the write shortened: ("kill", n)."""
        g = proc.group
        g.group_io += 1
        if self.triggers and not g.harness:
            while self.triggers and g.group_io > self.triggers[0][0]:
                self.triggers.pop(0)[1]()
        if cls == "m":
            g.group_mut += 1
        if not self.active_faults or g.harness:
            return None
        run = getattr(g, "run_index", None)
        k = self.kernel
        for f in self.active_faults:
            if f.fired >= f.count:
                continue
            if f.run is not None and f.run != run:
                continue
            kind = f.kind
            if kind == "kill":
                if cls != "m":
                    continue
                f.seen += 1
                if f.seen == f.at + 1:
                    f.fired += 1
                    self.count("fault:kill")
                    if op == "write" and size and size > 1 and f.d.get("torn"):
                        self.count("fault:torn_write")
                        return ("kill", 1 + int(f.d["torn"] * (size - 2)) if size > 2 else 1)
                    k.kill_group(proc, "crash")
                    raise K.SimKilled()
            elif kind == "wkill":
                if cls != "m" or proc.parent is None:
                    continue
                f.seen += 1
                if f.seen == f.at + 1:
                    f.fired += 1
                    self.count("fault:worker_kill")
                    if op == "write" and size and size > 1 and f.d.get("torn"):
                        return ("wkill", max(1, int(f.d["torn"] * (size - 1))))
                    k.kill_process(proc, "worker killed")
                    raise K.SimKilled()
            elif kind == "sigint":
                if cls != "m":
                    continue
                f.seen += 1
                if f.seen == f.at + 1:
                    f.fired += 1
                    self.count("fault:sigint")
                    for q in self._group_members(g):
                        k.signal(q, SIGINT)
            elif kind == "oserr":
                if not self._match(f, cls, op, path):
                    continue
                f.seen += 1
                if f.seen > f.at:
                    f.fired += 1
                    self.count("fault:" + errno.errorcode.get(f.errno, str(f.errno)))
                    if op == "write" and size and size > 1 and f.d.get("partial"):
                        return ("err", size // 2, f.errno)
                    raise OSError(f.errno, _os.strerror(f.errno), path)
            elif kind == "stall":
                f.seen += 1
                if f.seen == f.at + 1:
                    f.fired += 1
                    self.count("fault:stall")
                    k.sleep(f.d.get("secs", 1.0))
        return None

    @staticmethod
    def _match(f, cls, op, path):
        if f.cls in ("m", "r"):
            if cls != f.cls:
                return False
        elif f.cls != "*" and op != f.cls:
            return False
        if f.match and f.match not in path:
            return False
        return path.startswith(VROOT)

    def _group_members(self, g):
        out = []

        def rec(q):
            if q.alive:
                out.append(q)
            for c in q.children:
                rec(c)
        rec(g)
        return out

    def role(self, proc):
        return "main" if proc.parent is None else "worker"

    def record(self, proc, op, path, extra=None):
        self.op_seq += 1
        e = (self.op_seq, getattr(proc.group, "run_index", -1), proc.pid, op, path, extra)
        if self.record_ops:
            self.ops.append(e)
        self.kernel.note(e)
        for m in self.monitors:
            m(e)

    def fired(self):
        d = {}
        for k, v in self.stats.items():
            if k.startswith("fault:"):
                d[k[6:]] = v
        return d

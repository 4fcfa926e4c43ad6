"""The file-notification seam: watchdog's Observer fed by the simulated disk,
with the translation of the inotify emitter."""
import os

from . import kernel as K
from . import world as W


class SimObserver:
    def __init__(self, *a, **kw):
        self.w = W.current()
        self.k = self.w.kernel
        self.watches = []
        self.queue = []
        self.daemon = False
        self.task = None
        self.stopped = False
        self.proc = K.current_task().proc
        self.last = None
        self.w.observers.append(self)

    def schedule(self, handler, path, recursive=False):
        vp = path if path.startswith("/") else self.proc.cwd + "/" + path
        self.watches.append((handler, os.path.normpath(vp), recursive))
        return path

    def start(self):
        w = self.w
        for _, p, _ in self.watches:
            if not w.vfs.exists(p):
                raise FileNotFoundError(2, "No such file or directory", p)
        w.vfs.listeners.append(self.on_fs)
        self.task = self.k.spawn(self.proc, self.loop, f"{self.proc.name}/observer")
        self.k.yield_point("observer-start")

    def is_alive(self):
        return self.task is not None and self.task.state != K.DONE

    def stop(self):
        self.stopped = True
        if self.on_fs in self.w.vfs.listeners:
            self.w.vfs.listeners.remove(self.on_fs)
        if self.task:
            self.k.wake(self.task, "stop")

    def join(self, timeout=None):
        if self.task:
            self.k.join(self.task, timeout)

    # the kernel side ----------------------------------------------------------
    def inside(self, path):
        for h, root, rec in self.watches:
            if path == root or path.startswith(root + "/"):
                return h
        return None

    def on_fs(self, event, path, extra):
        from watchdog import events as E
        if self.stopped or not self.proc.alive:
            return
        h = self.inside(path)
        h2 = self.inside(extra) if event == "rename" else None
        if h is None and h2 is None:
            return
        out = []
        parent = os.path.dirname(path)
        if event == "create" or event == "symlink":
            out = [E.FileCreatedEvent(path), E.DirModifiedEvent(parent)]
        elif event in ("modify", "attrib"):
            out = [E.FileModifiedEvent(path)]
        elif event == "close_write":
            out = [E.FileClosedEvent(path), E.DirModifiedEvent(parent)]
        elif event == "unlink":
            out = [E.FileDeletedEvent(path), E.DirModifiedEvent(parent)]
        elif event == "mkdir":
            out = [E.DirCreatedEvent(path), E.DirModifiedEvent(parent)]
        elif event == "rmdir":
            out = [E.DirDeletedEvent(path), E.DirModifiedEvent(parent)]
        elif event == "rename":
            _, node = self.w.vfs.resolve(extra, False)
            isdir = node is not None and node.kind == "d"
            subs = [(r, n) for r, n in self.w.vfs.walk(extra)] if isdir else []
            dparent = os.path.dirname(extra)
            if h is not None and h2 is not None:
                cls = E.DirMovedEvent if isdir else E.FileMovedEvent
                out = [cls(path, extra), E.DirModifiedEvent(parent),
                       E.DirModifiedEvent(dparent)]
                for r, n in subs:
                    c = E.DirMovedEvent if n.kind == "d" else E.FileMovedEvent
                    out.append(c(path + "/" + r, extra + "/" + r))
            elif h2 is not None:
                cls = E.DirCreatedEvent if isdir else E.FileCreatedEvent
                out = [cls(extra), E.DirModifiedEvent(dparent)]
                for r, n in subs:
                    c = E.DirCreatedEvent if n.kind == "d" else E.FileCreatedEvent
                    out.append(c(extra + "/" + r))
            else:
                cls = E.DirDeletedEvent if isdir else E.FileDeletedEvent
                out = [cls(path), E.DirModifiedEvent(parent)]
        w = self.w
        lag = w.env.get("event_lag", 0.0)
        dup = w.env.get("event_dup", 0.0)
        delay = 0.001 + (w.entropy.random() * lag if lag else 0.0)
        when = self.k.now_ns + int(delay * 1e9)
        if self.queue:
            when = max(when, self.queue[-1][0])
        for e in out:
            self.queue.append((when, h or h2, e))
            if dup and isinstance(e, E.FileModifiedEvent) and w.entropy.random() < dup:
                w.count("fault:event_dup")
                self.queue.append((when, h or h2, e))
        if delay > 0.05:
            w.count("fault:event_delay")
        if self.task is not None:
            self.k.wake(self.task, "event")

    def loop(self):
        k = self.k
        while not self.stopped:
            if not self.queue:
                k.block(None, on="observer")
                continue
            when, h, e = self.queue[0]
            if when > k.now_ns:
                k.block(when, on="observer delay")
                continue
            self.queue.pop(0)
            self.w.count("fs_events")
            self.w.kernel.note("event", type(e).__name__, e.src_path)
            h.dispatch(e)
            k.yield_point("event")


def install():
    import watchdog.observers
    watchdog.observers.Observer = SimObserver

"""The simulated system calls: scheduling + faults + recording around vfs.py."""
import errno
import fcntl as _fcntl
import io
import os as _os
import stat as _stat
import sys

from . import kernel as K
from . import world as W
from .vfs import err

VFD_BASE = 1_000_000_000
VROOT = W.VROOT


class Escape(PermissionError):
    pass


def is_virtual_abs(p):
    return p == VROOT or p.startswith(VROOT + "/") or p == "/tmp" or p.startswith("/tmp/")


def vpath(path, task):
    """The virtual absolute path, or None for a real one."""
    if isinstance(path, bytes):
        path = path.decode("utf-8", "surrogateescape")
    if not path:
        return None
    if path[0] != "/":
        return task.proc.cwd + "/" + path
    if is_virtual_abs(path):
        return path
    return None


def lexical(path):
    return _os.path.normpath(path)


def canon(w, path):
    """Canonical path for the record: the parent is resolved, the last
    component is not followed."""
    try:
        cp, _, name = w.vfs.parent_of(path)
        return w.vfs._join(cp, name)
    except OSError:
        return lexical(path)


def enter(w, task, cls, op, path, size=None, preempt=True):
    w.kernel.yield_point(op, preempt)
    if task.proc.harness:
        return None
    return w.on_op(cls, op, path, task.proc, size)


class SimRaw(io.RawIOBase):
    """A file description on a virtual file."""

    def __init__(self, w, proc, cp, node, readable, writable, append, name, mode):
        super().__init__()
        self.w = w
        self.proc = proc
        self.cp = cp
        self.node = node
        self._r = readable
        self._w = writable
        self._append = append
        self.pos = 0
        self.name = name
        self.mode = mode
        self._fd = None
        self._dead = False
        self.wrote = False
        self._open = True
        if not hasattr(proc, "open_raws"):
            proc.open_raws = {}
        proc.open_raws[id(self)] = self

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.node.data) + off
        return self.pos

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        t = K.current_task()
        n = len(b)
        if t is not None:
            if not self.proc.alive:
                raise K.SimKilled()
            enter(self.w, t, "r", "read", self.cp)
            if self.w.short_io and n > 1 and self.w.entropy.random() < 0.3:
                self.w.count("fault:short_read")
                n = 1 + self.w.entropy.randrange(n - 1)
        d = self.node.data[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed file")
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        b = bytes(b)
        t = K.current_task()
        w = self.w
        if self._dead or not self.proc.alive or w.kernel.stopping:
            return len(b)
        if t is None:
            # buffered data flushed by a finalizer outside of the simulation
            return len(b)
        if not b:
            return 0
        v = enter(w, t, "m", "write", self.cp, len(b))
        if self._dead or not self.proc.alive:
            return len(b)
        n = len(b)
        if v is not None:
            n = min(v[1], len(b))
        elif w.short_io and n > 1 and not t.proc.harness and w.entropy.random() < 0.3:
            w.count("fault:short_write")
            n = 1 + w.entropy.randrange(n - 1)
        if self._append:
            self.pos = len(self.node.data)
        w.vfs.write(self.cp, self.node, self.pos, b[:n])
        self.pos += n
        self.wrote = True
        w.record(self.proc, "write", self.cp, n)
        if v is not None:
            if v[0] == "kill":
                w.kernel.kill_group(self.proc, "crash")
                raise K.SimKilled()
            if v[0] == "wkill":
                w.kernel.kill_process(self.proc, "worker killed")
                raise K.SimKilled()
            raise OSError(v[2], _os.strerror(v[2]), self.cp)
        return n

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        t = K.current_task()
        if t is not None:
            enter(self.w, t, "m", "truncate", self.cp)
        self.w.vfs.truncate(self.cp, self.node, size)
        return size

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        f = sys._getframe(1)
        mod = f.f_globals.get("__name__", "")
        if mod.startswith("PIL"):
            raise io.UnsupportedOperation("fileno")
        return self.get_fd()

    def get_fd(self):
        if self._fd is None:
            proc = self.proc
            fd = VFD_BASE + getattr(proc, "next_fd", 0)
            proc.next_fd = fd - VFD_BASE + 1
            proc.fds[fd] = self
            self._fd = fd
        return self._fd

    def isatty(self):
        return False

    def abandon(self):
        """The process died: the kernel closes the file."""
        self._dead = True
        self._close_node()

    def _close_node(self):
        if not self._open:
            return
        self._open = False
        self.proc.open_raws.pop(id(self), None)
        if self._fd is not None:
            self.proc.fds.pop(self._fd, None)
        self.w.vfs.close_node(self.node)
        if self.node.locks is not None:
            unlock(self.w, self.node, ("p", self.proc.pid))
            unlock(self.w, self.node, ("f", id(self)))
        if not self._dead and not self.w.kernel.stopping:
            if self._w:
                self.w.vfs.emit("close_write", self.cp)
                self.w.record(self.proc, "close_w", self.cp, self.node.ino)
            else:
                self.w.record(self.proc, "close_r", self.cp, self.node.ino)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._close_node()


def sim_open(w, task, path, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None, raw=None):
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError(f"invalid mode: {mode!r}")
    creating, reading, writing = "x" in modes, "r" in modes, "w" in modes
    appending, updating = "a" in modes, "+" in modes
    text, binary = "t" in modes, "b" in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if binary and newline is not None:
        raise ValueError("binary mode doesn't take a newline argument")
    if raw is None:
        if opener is not None:
            flags = {True: _os.O_RDWR}.get(updating, _os.O_RDONLY if reading else _os.O_WRONLY)
            if not reading:
                flags |= _os.O_CREAT
            if writing:
                flags |= _os.O_TRUNC
            if creating:
                flags |= _os.O_EXCL
            if appending:
                flags |= _os.O_APPEND
            fd = opener(path, flags | _os.O_CLOEXEC)
            raw = task.proc.fds[fd]
        else:
            raw = open_raw(
                w, task, path, vpath(path, task),
                readable=reading or updating,
                writable=writing or appending or creating or updating,
                create=writing or appending or creating, excl=creating,
                trunc=writing, append=appending, mode=mode)
    try:
        line_buffering = False
        if buffering == 1:
            buffering = -1
            line_buffering = True
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buf = io.BufferedRandom(raw, buffering)
        elif writing or appending or creating:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if binary:
            return buf
        txt = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        txt.mode = mode
        return txt
    except BaseException:
        raw.close()
        raise


def open_raw(w, task, name, vp, readable, writable, create, excl, trunc, append, mode,
             follow=True):
    if vp is None:
        raise K.HarnessError(f"open_raw on a real path {name}")
    proc = task.proc
    op = "open_w" if writable else "open_r"
    exists = False
    if writable:
        try:
            exists = w.vfs.resolve(vp)[1] is not None
        except OSError:
            pass
    # creating or truncating a file changes the disk; opening it does not
    enter(w, task, "m" if (writable and (trunc or not exists)) else "r", op, vp)
    cp, node, created = w.vfs.open_node(vp, create, excl, trunc, follow)
    raw = SimRaw(w, proc, cp, node, readable, writable, append,
                 name, mode)
    if append:
        raw.pos = len(node.data)
    w.record(proc, op, cp, (node.ino, created, trunc))
    return raw


# -- advisory locks ------------------------------------------------------------
def _raw_of(task, f):
    if hasattr(f, "fileno") and not isinstance(f, int):
        f = f.fileno()
    return task.proc.fds.get(f), f


def unlock(w, node, owner):
    lk = node.locks
    if not lk:
        return
    if owner in lk["owners"]:
        lk["owners"].pop(owner)
        for t in lk["waiters"]:
            w.kernel.wake(t, "flock")


def release_locks(w, proc):
    for raw in list(getattr(proc, "open_raws", {}).values()):
        if raw.node.locks:
            unlock(w, raw.node, ("p", proc.pid))
    for node in getattr(proc, "lock_nodes", ()):
        unlock(w, node, ("p", proc.pid))


def sim_flock(w, task, f, op, posix):
    raw, fd = _raw_of(task, f)
    if raw is None:
        raise OSError(errno.EBADF, "Bad file descriptor")
    enter(w, task, "r", "flock", raw.cp)
    node = raw.node
    owner = ("p", task.proc.pid) if posix else ("f", id(raw))
    if node.locks is None:
        node.locks = {"owners": {}, "waiters": []}
    lk = node.locks
    if op & _fcntl.LOCK_UN:
        unlock(w, node, owner)
        w.record(task.proc, "unlock", raw.cp)
        return
    want = "x" if op & _fcntl.LOCK_EX else "s"

    def free():
        for o, m in lk["owners"].items():
            if o != owner and (want == "x" or m == "x"):
                return False
        return True

    while not free():
        w.count("lock_contended")
        if op & _fcntl.LOCK_NB:
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        lk["waiters"].append(task)
        try:
            w.kernel.block(None, on=f"flock {raw.cp}")
        finally:
            lk["waiters"].remove(task)
    lk["owners"][owner] = want
    if not hasattr(task.proc, "lock_nodes"):
        task.proc.lock_nodes = []
    task.proc.lock_nodes.append(node)
    w.record(task.proc, "lock", raw.cp)


class SimDirEntry:
    __slots__ = ("name", "path", "_w", "_node", "_vp")

    def __init__(self, w, name, path, vp, node):
        self.name = name
        self.path = path
        self._w = w
        self._node = node
        self._vp = vp

    def inode(self):
        return self._node.ino

    def is_symlink(self):
        return self._node.kind == "l"

    def is_dir(self, *, follow_symlinks=True):
        if self._node.kind == "l" and follow_symlinks:
            try:
                n = self._w.vfs.resolve(self._vp)[1]
            except OSError:
                return False
            return n is not None and n.kind == "d"
        return self._node.kind == "d"

    def is_file(self, *, follow_symlinks=True):
        if self._node.kind == "l" and follow_symlinks:
            try:
                n = self._w.vfs.resolve(self._vp)[1]
            except OSError:
                return False
            return n is not None and n.kind == "f"
        return self._node.kind == "f"

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._w.vfs.stat(self._vp, follow_symlinks)

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return f"<DirEntry {self.name!r}>"


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        self._it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

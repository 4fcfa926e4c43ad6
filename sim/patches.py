"""Installs the seams: every source of nondeterminism of the process under test
goes through the simulator when, and only when, the caller is a simulated task.
Outside simulated tasks everything behaves as usual.

`install()` has to run before vanillaplusjs is imported."""
import asyncio
import builtins
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import concurrent.futures._base as _base
import copy
import errno
import fcntl
import gc
import io
import itertools
import linecache
import os
import queue
import random
import secrets
import shutil
import signal
import stat
import sys
import tempfile
import mmap
import threading
import time
import types

from . import kernel as K
from . import syscalls as S
from . import world as W

ORIG = types.SimpleNamespace()
_installed = False


def _ctx():
    t = getattr(K._tls, "task", None)
    if t is None:
        return None
    w = W._current
    if w is None or t.kernel is not w.kernel:
        return None
    return w, t


# --------------------------------------------------------------------- files
def _escape(w, t, op, path):
    w.escapes.append((op, str(path)))
    raise S.Escape(errno.EACCES, f"simulator: {op} outside of the sandbox", str(path))


def _dirfd_check(kw):
    for name in ("dir_fd", "src_dir_fd", "dst_dir_fd"):
        if kw.get(name) is not None:
            raise K.HarnessError("dir_fd is not supported by the simulator")


def _p(path):
    return os.fspath(path)


def p_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
           closefd=True, opener=None):
    c = _ctx()
    if c is None:
        return ORIG.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w, t = c
    if isinstance(file, int):
        if file >= S.VFD_BASE:
            raw = t.proc.fds.get(file)
            if raw is None:
                raise OSError(errno.EBADF, "Bad file descriptor")
            return S.sim_open(w, t, file, mode, buffering, encoding, errors, newline,
                              closefd, None, raw=raw)
        return ORIG.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = _p(file)
    vp = S.vpath(path, t)
    if vp is None:
        if path in ("", b""):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if any(ch in mode for ch in "wax+"):
            _escape(w, t, "open", path)
        return ORIG.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(path, bytes):
        path = path.decode("utf-8", "surrogateescape")
    return S.sim_open(w, t, path, mode, buffering, encoding, errors, newline, closefd, opener)


def p_os_open(path, flags, mode=0o777, *, dir_fd=None):
    c = _ctx()
    if c is None:
        return ORIG.os_open(path, flags, mode, dir_fd=dir_fd)
    w, t = c
    _dirfd_check({"dir_fd": dir_fd})
    path = _p(path)
    vp = S.vpath(path, t)
    acc = flags & 3
    writable = acc in (os.O_WRONLY, os.O_RDWR)
    if vp is None:
        if writable or flags & os.O_CREAT:
            _escape(w, t, "os.open", path)
        return ORIG.os_open(path, flags, mode)
    if flags & os.O_DIRECTORY or (not writable and w.vfs.exists(vp) and
                                  w.vfs.resolve(vp)[1].kind == "d"):
        S.enter(w, t, "r", "open_dir", vp)
        cp, node = w.vfs.resolve(vp)
        if node is None:
            raise S.err(errno.ENOENT, path)
        if node.kind != "d":
            raise S.err(errno.ENOTDIR, path)
        node.opens += 1
        raw = S.SimRaw(w, t.proc, cp, node, True, False, False, path, "r")
        return raw.get_fd()
    raw = S.open_raw(w, t, path, vp, acc in (os.O_RDONLY, os.O_RDWR), writable,
                     bool(flags & os.O_CREAT), bool(flags & os.O_EXCL),
                     bool(flags & os.O_TRUNC), bool(flags & os.O_APPEND), "rb+",
                     follow=not flags & getattr(os, "O_NOFOLLOW", 0))
    return raw.get_fd()


def _raw(t, fd):
    r = t.proc.fds.get(fd)
    if r is None:
        raise OSError(errno.EBADF, "Bad file descriptor")
    return r


def _fd_op(name, fn):
    orig = getattr(os, name)

    def f(fd, *a, **kw):
        c = _ctx()
        if c is None or not isinstance(fd, int) or fd < S.VFD_BASE:
            return orig(fd, *a, **kw)
        return fn(c[0], c[1], _raw(c[1], fd), *a, **kw)

    f.__name__ = name
    setattr(os, name, f)


def _fd_read(w, t, raw, n):
    b = bytearray(n)
    k = raw.readinto(b)
    return bytes(b[:k])


def _fd_pread(w, t, raw, n, offset):
    at = raw.seek(0, 1)
    try:
        raw.seek(offset)
        return _fd_read(w, t, raw, n)
    finally:
        raw.seek(at)


class SimMap(bytearray):
    """mmap.mmap of a file that is only read."""
    closed = False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def size(self):
        return len(self)


def p_mmap(fileno, length, *a, **kw):
    c = _ctx()
    if c is None or not isinstance(fileno, int) or fileno < S.VFD_BASE:
        return ORIG.mmap(fileno, length, *a, **kw)
    if kw.get("access", a[0] if a and a[0] in (mmap.ACCESS_READ,) else None) != mmap.ACCESS_READ and kw.get("prot") != mmap.PROT_READ:
        raise K.HarnessError("a writable mapping is not simulated")
    raw = _raw(c[1], fileno)
    data = _fd_pread(c[0], c[1], raw, _fd_fstat(c[0], c[1], raw).st_size, kw.get("offset", 0))
    if not data and not length:
        raise ValueError("cannot mmap an empty file")
    return SimMap(data[:length] if length else data)


def _fd_fsync(w, t, raw):
    S.enter(w, t, "r", "fsync", raw.cp)


def _fd_fstat(w, t, raw):
    return w.vfs.stat_result(raw.node)


def _path_op(name, cls, fn, ret_real="orig", write=True):
    """fn(w, t, vp, path, *args, **kw)"""
    orig = getattr(os, name)

    def f(path, *a, **kw):
        c = _ctx()
        if c is None:
            return orig(path, *a, **kw)
        w, t = c
        _dirfd_check(kw)
        kw.pop("dir_fd", None)
        if isinstance(path, int):
            if path >= S.VFD_BASE:
                raw = _raw(t, path)
                if name in ("stat",):
                    return w.vfs.stat_result(raw.node)
                if name in ("utime", "chmod"):
                    return None
                if name == "truncate":
                    return raw.truncate(*a)
                if name in ("listdir", "scandir"):
                    path = raw.cp
                else:
                    raise K.HarnessError(f"os.{name} on a virtual descriptor")
            else:
                return orig(path, *a, **kw)
        p = _p(path)
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        if p == "":
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        vp = S.vpath(p, t)
        if vp is None:
            if write:
                _escape(w, t, name, p)
            return orig(path, *a, **kw)
        return fn(w, t, vp, p, *a, **kw)

    f.__name__ = name
    setattr(os, name, f)
    return f


def o_stat(w, t, vp, path, *, follow_symlinks=True):
    S.enter(w, t, "r", "stat", vp)
    try:
        return w.vfs.stat(vp, follow_symlinks)
    except OSError as e:
        e.filename = path
        raise


def o_lstat(w, t, vp, path):
    return o_stat(w, t, vp, path, follow_symlinks=False)


def _mut(w, t, op, vp, path, fn, *extra):
    S.enter(w, t, "m", op, vp)
    cp = S.canon(w, vp)
    try:
        r = fn()
    except OSError as e:
        if e.filename is not None:
            e.filename = path
        raise
    w.record(t.proc, op, cp, *extra)
    return r


def o_mkdir(w, t, vp, path, mode=0o777):
    return _mut(w, t, "mkdir", vp, path, lambda: w.vfs.mkdir(vp))


def o_rmdir(w, t, vp, path):
    return _mut(w, t, "rmdir", vp, path, lambda: w.vfs.rmdir(vp))


def o_unlink(w, t, vp, path):
    return _mut(w, t, "unlink", vp, path, lambda: w.vfs.unlink(vp))


def o_readlink(w, t, vp, path):
    S.enter(w, t, "r", "readlink", vp)
    return w.vfs.readlink(vp)


def o_listdir(w, t, vp, path):
    S.enter(w, t, "r", "listdir", vp)
    cp, n = w.vfs.resolve(vp)
    if n is None:
        raise S.err(errno.ENOENT, path)
    if n.kind != "d":
        raise S.err(errno.ENOTDIR, path)
    return w.order(cp, n.entries)


def o_scandir(w, t, vp, path):
    S.enter(w, t, "r", "scandir", vp)
    cp, n = w.vfs.resolve(vp)
    if n is None:
        raise S.err(errno.ENOENT, path)
    if n.kind != "d":
        raise S.err(errno.ENOTDIR, path)
    return S.SimScandir([
        S.SimDirEntry(w, name, os.path.join(path, name), w.vfs._join(cp, name), n.entries[name])
        for name in w.order(cp, n.entries)])


def o_chmod(w, t, vp, path, mode, *, follow_symlinks=True):
    S.enter(w, t, "r", "chmod", vp)
    _, n = w.vfs.resolve(vp, follow_symlinks)
    if n is None:
        raise S.err(errno.ENOENT, path)
    n.mode = stat.S_IFMT(n.mode) | (mode & 0o7777)


def o_utime(w, t, vp, path, times=None, *, ns=None, follow_symlinks=True):
    if ns is not None:
        v = ns[1]
    elif times is not None:
        v = int(times[1] * 1e9)
    else:
        v = None
    return _mut(w, t, "utime", vp, path, lambda: w.vfs.utime(vp, v))


def o_truncate(w, t, vp, path, length):
    def fn():
        cp, n = w.vfs.resolve(vp)
        if n is None:
            raise S.err(errno.ENOENT, path)
        w.vfs.truncate(cp, n, length)
    return _mut(w, t, "truncate", vp, path, fn)


def o_access(w, t, vp, path, mode, *, effective_ids=False, follow_symlinks=True):
    S.enter(w, t, "r", "access", vp)
    try:
        return w.vfs.resolve(vp)[1] is not None
    except OSError:
        return False


def o_chdir(w, t, vp, path):
    S.enter(w, t, "r", "chdir", vp)
    cp, n = w.vfs.resolve(vp)
    if n is None:
        raise S.err(errno.ENOENT, path)
    if n.kind != "d":
        raise S.err(errno.ENOTDIR, path)
    t.proc.cwd = cp


def o_listxattr(w, t, vp, path, **kw):
    return []


def _two_path(name, op):
    orig = getattr(os, name)

    def f(src, dst, **kw):
        c = _ctx()
        if c is None:
            return orig(src, dst, **kw)
        w, t = c
        _dirfd_check(kw)
        s, d = _p(src), _p(dst)
        vs, vd = S.vpath(s, t), S.vpath(d, t)
        if vd is None or (vs is None and op != "symlink"):
            _escape(w, t, name, d)
        if op == "symlink":
            S.enter(w, t, "m", "symlink", vd)
            w.vfs.symlink(s, vd)
            w.record(t.proc, "symlink", S.canon(w, vd), s)
        elif op == "link":
            S.enter(w, t, "m", "link", vd)
            w.vfs.link(vs, vd)
            w.record(t.proc, "link", S.canon(w, vd), s)
        else:
            S.enter(w, t, "m", "rename", vd)
            cs, cd = S.canon(w, vs), S.canon(w, vd)
            w.vfs.rename(vs, vd)
            w.record(t.proc, "rename", cs, cd)

    def sym(src, dst, target_is_directory=False, *, dir_fd=None):
        return f(src, dst, dir_fd=dir_fd) if _ctx() else orig(
            src, dst, target_is_directory, dir_fd=dir_fd)

    g = sym if op == "symlink" else f
    g.__name__ = name
    setattr(os, name, g)


def p_getcwd():
    c = _ctx()
    if c is None:
        return ORIG.getcwd()
    return c[1].proc.cwd


def p_getpid():
    c = _ctx()
    return ORIG.getpid() if c is None else c[1].proc.pid


def p_cpu_count():
    c = _ctx()
    return ORIG.cpu_count() if c is None else c[0].cpus


def p_urandom(n):
    c = _ctx()
    if c is None:
        return ORIG.urandom(n)
    return c[0].entropy.randbytes(n)


def _unsupported(name):
    orig = getattr(os, name, None)
    if orig is None:
        return

    def f(*a, **kw):
        if _ctx() is not None:
            raise K.HarnessError(f"os.{name} is not simulated")
        return orig(*a, **kw)

    setattr(os, name, f)


# ---------------------------------------------------------------------- locks
def p_flock(posix, orig):
    def f(fd, op, *a):
        c = _ctx()
        if c is None:
            return orig(fd, op, *a)
        return S.sim_flock(c[0], c[1], fd, op, posix)
    return f


# ----------------------------------------------------------------------- time
def _time_fn(orig, conv):
    def f():
        c = _ctx()
        return orig() if c is None else conv(c[0].kernel)
    return f


def p_sleep(secs):
    c = _ctx()
    if c is None:
        return ORIG.sleep(secs)
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    return c[0].kernel.sleep(secs)


# -------------------------------------------------------------------- threads
def p_Lock():
    c = _ctx()
    return ORIG.Lock() if c is None else K.SimLock(c[0].kernel)


def p_RLock(*a, **kw):
    c = _ctx()
    return ORIG.RLock(*a, **kw) if c is None else K.SimRLock(c[0].kernel)


class SimThread(threading.Thread):
    """threading.Thread whose run() is a simulated task when it is started from
    one."""
    _sim_task = None

    def start(self):
        c = _ctx()
        if c is None:
            return super().start()
        w, t = c
        if self._sim_task is not None:
            raise RuntimeError("threads can only be started once")

        def body():
            try:
                self.run()
            except SystemExit:
                pass
            except Exception:
                import traceback
                w.log("thread-error", self.name, traceback.format_exc())

        self._sim_task = w.kernel.spawn(t.proc, body, f"{t.proc.name}/{self.name}")
        self._sim_kernel = w.kernel
        t.proc.threads.append(self)
        w.kernel.yield_point("thread-start")

    def is_alive(self):
        if self._sim_task is None:
            return super().is_alive()
        return self._sim_task.state != K.DONE

    def join(self, timeout=None):
        if self._sim_task is None:
            return super().join(timeout)
        self._sim_kernel.join(self._sim_task, timeout)

    @property
    def ident(self):
        return None if self._sim_task is None and not self._started.is_set() else (
            self._sim_task.tid if self._sim_task is not None else self._ident)


class SimTimer(SimThread):
    """threading.Timer, which is derived from the real Thread."""

    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval, self.function, self.finished = interval, function, threading.Event()
        self.args, self.kwargs = args or [], kwargs or {}

    def cancel(self):
        self.finished.set()

    run = threading.Timer.run


# -------------------------------------------------------------------- signals
def p_signal(sig, handler):
    c = _ctx()
    if c is None:
        return ORIG.signal(sig, handler)
    w, t = c
    if t is not t.proc.main:
        raise ValueError("signal only works in main thread of the main interpreter")
    old = p_getsignal(sig)
    if handler == signal.SIG_IGN:
        def handler(*a):
            return None
    t.proc.handlers[int(sig)] = handler if callable(handler) else None
    return old


def p_getsignal(sig):
    c = _ctx()
    if c is None:
        return ORIG.getsignal(sig)
    return c[1].proc.handlers.get(int(sig)) or (
        signal.default_int_handler if int(sig) == 2 else signal.SIG_DFL)


# --------------------------------------------------------------------- output
class StdDispatch:
    def __init__(self, real, name):
        self._real = real
        self._name = name

    def write(self, s):
        c = _ctx()
        if c is None:
            return self._real.write(s)
        c[1].proc.group.__dict__.setdefault("stdout", []).append(s)
        return len(s)

    def flush(self):
        if _ctx() is None:
            self._real.flush()

    def isatty(self):
        return False

    def __getattr__(self, n):
        return getattr(self._real, n)


class StdinDispatch:
    def __init__(self, real):
        self._real = real

    def readline(self, *a):
        c = _ctx()
        if c is None:
            return self._real.readline(*a)
        lines = getattr(c[1].proc.group, "stdin", None)
        return lines.pop(0) + "\n" if lines else ""

    def __getattr__(self, n):
        return getattr(self._real, n)


# ------------------------------------------------- module state of the program
_pristine = {}


def _snapshot_modules():
    for name, mod in list(sys.modules.items()):
        if not name.startswith("vanillaplusjs") or mod is None:
            continue
        d = {}
        for k, v in vars(mod).items():
            if k.startswith("__"):
                continue
            if type(v) in (dict, list, set, bytearray):
                try:
                    d[k] = (v, copy.deepcopy(v))
                except Exception:
                    continue
            elif v is None or type(v) in (int, float, str, bool, tuple):
                d[k] = (v, v)
        _pristine[name] = d


def fresh_interpreter():
    """Undo what an earlier program left behind in the modules, as if a new
    interpreter had been started."""
    for name, d in _pristine.items():
        mod = sys.modules.get(name)
        if mod is None:
            continue
        md = vars(mod)
        for k, (obj, val) in d.items():
            if type(obj) in (dict, list, set, bytearray):
                if obj != val:
                    c = copy.deepcopy(val)
                    if type(obj) is dict:
                        obj.clear()
                        obj.update(c)
                    elif type(obj) is set:
                        obj.clear()
                        obj.update(c)
                    else:
                        obj[:] = c
                if md.get(k) is not obj:
                    md[k] = obj
            elif md.get(k) is not obj:
                md[k] = obj
        for v in list(md.values()):
            if hasattr(v, "cache_clear"):
                try:
                    v.cache_clear()
                except Exception:
                    pass


# -------------------------------------------------------------------- install
def install():
    global _installed
    if _installed:
        return
    _installed = True
    from . import aio, pool

    ORIG.open = builtins.open
    ORIG.os_open = os.open
    ORIG.getcwd = os.getcwd
    ORIG.getpid = os.getpid
    ORIG.cpu_count = os.cpu_count
    linecache.updatecache = _uncounted(linecache.updatecache)
    linecache.checkcache = _uncounted(linecache.checkcache)
    _base.Future.__hash__ = K.numbered
    _base._AcquireFutures.__init__ = lambda self, futures: setattr(self, "futures", sorted(futures, key=hash))
    ORIG.urandom = os.urandom
    ORIG.sleep = time.sleep
    ORIG.monotonic = time.monotonic
    ORIG.time = time.time
    ORIG.perf_counter = time.perf_counter
    ORIG.Lock = threading.Lock
    ORIG.RLock = threading.RLock
    ORIG.signal = signal.signal
    ORIG.getsignal = signal.getsignal

    builtins.open = p_open
    io.open = p_open
    os.open = p_os_open
    _fd_op("close", lambda w, t, raw: raw.close())
    _fd_op("read", _fd_read)
    _fd_op("write", lambda w, t, raw, b: raw.write(b))
    _fd_op("pread", _fd_pread)
    _fd_op("fsync", _fd_fsync)
    ORIG.mmap, mmap.mmap = mmap.mmap, p_mmap
    _fd_op("fdatasync", _fd_fsync)
    _fd_op("fstat", _fd_fstat)
    _fd_op("lseek", lambda w, t, raw, pos, how: raw.seek(pos, how))
    _fd_op("ftruncate", lambda w, t, raw, n: raw.truncate(n))
    _fd_op("isatty", lambda w, t, raw: False)
    _fd_op("fchmod", lambda w, t, raw, m: None)
    _fd_op("set_inheritable", lambda w, t, raw, m: None)
    for n in ("sendfile", "copy_file_range", "dup", "dup2", "fork", "forkpty",
              "posix_spawn", "mkfifo", "mknod", "chroot", "fchdir",
              "pwrite", "readv", "writev", "statvfs", "system", "popen"):
        _unsupported(n)
    _path_op("stat", "r", o_stat, write=False)
    _path_op("lstat", "r", o_lstat, write=False)
    _path_op("mkdir", "m", o_mkdir)
    _path_op("rmdir", "m", o_rmdir)
    _path_op("unlink", "m", o_unlink)
    _path_op("remove", "m", o_unlink)
    _path_op("readlink", "r", o_readlink, write=False)
    _path_op("chmod", "m", o_chmod)
    _path_op("utime", "m", o_utime)
    _path_op("truncate", "m", o_truncate)
    _path_op("access", "r", o_access, write=False)
    _path_op("chdir", "r", o_chdir, write=False)
    _path_op("listxattr", "r", o_listxattr, write=False)
    _ls, _sc = os.listdir, os.scandir
    _path_op("listdir", "r", o_listdir, write=False)
    _path_op("scandir", "r", o_scandir, write=False)
    ls, sc = os.listdir, os.scandir
    os.listdir = lambda path=".": ls(path) if _ctx() else _ls(path)
    os.scandir = lambda path=".": sc(path) if _ctx() else _sc(path)
    _two_path("rename", "rename")
    _two_path("replace", "rename")
    _two_path("symlink", "symlink")
    _two_path("link", "link")
    os.getcwd = p_getcwd
    os.getpid = p_getpid
    os.cpu_count = p_cpu_count
    os.urandom = p_urandom
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = p_cpu_count
    if hasattr(os, "sched_getaffinity"):
        oa = os.sched_getaffinity
        os.sched_getaffinity = lambda pid: oa(pid) if _ctx() is None else set(
            range(_ctx()[0].cpus))
    random._urandom = p_urandom
    ob = secrets.token_bytes
    secrets.token_bytes = lambda n=None: ob(n) if _ctx() is None else p_urandom(n or 32)
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    fcntl.lockf = p_flock(True, fcntl.lockf)
    fcntl.flock = p_flock(False, fcntl.flock)

    time.time = _time_fn(time.time, lambda k: k.wall_ns() / 1e9)
    time.time_ns = _time_fn(time.time_ns, lambda k: k.wall_ns())
    for n in ("monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, n, _time_fn(getattr(time, n), lambda k: k.now_ns / 1e9))
        setattr(time, n + "_ns", _time_fn(getattr(time, n + "_ns"), lambda k: k.now_ns))
    time.sleep = p_sleep
    threading._time = time.monotonic
    queue.time = time.monotonic

    threading.Lock = p_Lock
    threading._allocate_lock = p_Lock
    threading.RLock = p_RLock
    threading.Thread = SimThread
    threading.Timer = SimTimer
    queue.SimpleQueue = queue._PySimpleQueue
    import contextlib
    concurrent.futures.thread._global_shutdown_lock = contextlib.nullcontext()
    signal.signal = p_signal
    signal.getsignal = p_getsignal

    concurrent.futures.process.ProcessPoolExecutor = pool.SimProcessPoolExecutor
    concurrent.futures.ProcessPoolExecutor = pool.SimProcessPoolExecutor
    asyncio.set_event_loop_policy(aio.SimPolicy())
    sys.stdout = StdDispatch(sys.stdout, "stdout")
    sys.stderr = StdDispatch(sys.stderr, "stderr")
    sys.stdin = StdinDispatch(sys.stdin)

    def excepthook(*a):
        return None
    sys.unraisablehook = excepthook
    tempfile.tempdir = "/tmp"


def _uncounted(f):
    """What Python caches for good, like source lines for tracebacks, is read
    outside of the simulation: else the first run would differ from the others."""
    def g(*a, **kw):
        t = K.current_task()
        K._tls.task = None
        try:
            return f(*a, **kw)
        finally:
            K._tls.task = t
    return g


def load_program(repo="/repo"):
    """Imports the program under test (after install()) and what it loads
    lazily."""
    install()
    from . import net, server, watch
    if repo not in sys.path:
        sys.path.insert(0, repo)
    from loguru import logger
    logger.remove()
    import requests  # noqa
    import watchdog.observers  # noqa
    net.install()
    watch.install()
    server.install()
    import PIL.Image
    import PIL.PngImagePlugin
    import PIL.JpegImagePlugin
    import PIL.WebPImagePlugin
    PIL.Image.preinit()
    PIL.Image.init()
    import html5lib  # noqa
    import importlib
    import pkgutil
    import vanillaplusjs
    got = [os.path.abspath(x) for x in vanillaplusjs.__path__]
    if got[0] != os.path.join(repo, "vanillaplusjs"):
        raise K.HarnessError(f"vanillaplusjs comes from {got}, not from {repo}")
    for m in pkgutil.walk_packages(vanillaplusjs.__path__, "vanillaplusjs."):
        if m.name.endswith("__main__"):
            continue
        importlib.import_module(m.name)
    # a first pass over the lazily imported parts of the dependencies
    html5lib.parse("<!DOCTYPE html><p>x", treebuilder="dom")
    _snapshot_modules()
    # finalizers of cyclic garbage close files: never in the middle of a run
    gc.collect()
    gc.freeze()
    gc.disable()


def begin(w):
    """Seeds the remaining global generators for one simulation."""
    gc.collect()
    threading._counter = itertools.count(1).__next__
    W.set_current(w)
    random.seed(f"global-{w.seed}")
    tempfile._name_sequence = None
    tempfile.tempdir = "/tmp"

    class Names:
        def __init__(self):
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            return "".join(w.entropy.choices("abcdefghijklmnop0123456789_", k=8))
    tempfile._name_sequence = Names()


def end(w):
    W.set_current(None)

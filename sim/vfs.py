"""An in-memory POSIX-like file system.  Pure data structure: no scheduling and
no faults here (see syscalls.py)."""
import errno
import os as _os
import stat as _stat


class Node:
    __slots__ = ("ino", "mode", "mtime_ns", "ctime_ns", "nlink", "kind", "data", "entries",
                 "target", "locks", "opens", "born")

    def __init__(self, ino, kind, now):
        self.ino = ino
        self.kind = kind  # "f", "d", "l"
        self.mtime_ns = now
        self.ctime_ns = now
        self.nlink = 1
        self.data = None
        self.entries = None
        self.target = None
        self.locks = None
        self.opens = 0
        self.born = None
        if kind == "f":
            self.data = bytearray()
            self.mode = _stat.S_IFREG | 0o644
        elif kind == "d":
            self.entries = {}
            self.mode = _stat.S_IFDIR | 0o755
        else:
            self.mode = _stat.S_IFLNK | 0o777

    @property
    def size(self):
        if self.kind == "f":
            return len(self.data)
        if self.kind == "l":
            return len(self.target)
        return 4096


def err(code, path, path2=None):
    if path2 is not None:
        return OSError(code, _os.strerror(code), path, None, path2)
    return OSError(code, _os.strerror(code), path)


class VFS:
    def __init__(self, now=lambda: 0, reuse_inodes=True, granularity_ns=1):
        self.now = now
        self.next_ino = 1000
        self.free_inos = []
        self.retired = set()
        self.reuse = reuse_inodes
        self.gran = granularity_ns
        self.root = Node(2, "d", 0)
        self.listeners = []  # fn(event, path, extra)

    # -- helpers -------------------------------------------------------------
    def _time(self):
        n = self.now()
        return n - n % self.gran

    def _new(self, kind):
        if self.reuse and self.free_inos:
            ino = self.free_inos.pop()
        else:
            ino = self.next_ino
            self.next_ino += 1
        return Node(ino, kind, self._time())

    def _drop(self, node):
        node.nlink -= 1
        if node.nlink <= 0 and node.opens <= 0:
            self._free(node.ino)

    def _free(self, ino):
        if ino not in self.retired:
            self.free_inos.append(ino)

    def retire_inode(self, ino):
        """Never hand out this number again."""
        self.retired.add(ino)
        self.free_inos = [i for i in self.free_inos if i != ino]

    def close_node(self, node):
        node.opens -= 1
        if node.nlink <= 0 and node.opens <= 0:
            self._free(node.ino)

    def emit(self, event, path, extra=None):
        for fn in self.listeners:
            fn(event, path, extra)

    @staticmethod
    def split(path):
        return [p for p in path.split("/") if p and p != "."]

    def resolve(self, path, follow=True, _depth=0, parent=False):
        """Returns (canonical_path, node).  node is None when the last component
        does not exist (its parent does).  With parent=True the last component
        is never followed."""
        parts = self.split(path)
        node = self.root
        canon = []
        stack = [self.root]
        i = 0
        while i < len(parts):
            name = parts[i]
            last = i == len(parts) - 1
            if node.kind != "d":
                raise err(errno.ENOTDIR, path)
            if name == "..":
                if len(stack) > 1:
                    stack.pop()
                    canon.pop()
                node = stack[-1]
                i += 1
                continue
            child = node.entries.get(name)
            if child is None:
                if last:
                    return "/" + "/".join(canon + [name]), None
                raise err(errno.ENOENT, path)
            if child.kind == "l" and (not last or follow):
                if _depth > 20:
                    raise err(errno.ELOOP, path)
                t = child.target
                base = t if t.startswith("/") else "/" + "/".join(canon) + "/" + t
                rest = "/".join(parts[i + 1:])
                new = base + ("/" + rest if rest else "")
                if path.endswith("/") and not rest:
                    new += "/"
                return self.resolve(new, follow, _depth + 1)
            canon.append(name)
            stack.append(child)
            node = child
            i += 1
        if path.endswith("/") and node.kind != "d" and parts:
            raise err(errno.ENOTDIR, path)
        return "/" + "/".join(canon), node

    def parent_of(self, path):
        """(canonical parent path, parent node, name) of the last component."""
        stripped = path.rstrip("/")
        head, _, name = stripped.rpartition("/")
        if name in ("", ".", ".."):
            raise err(errno.EINVAL, path)
        cp, node = self.resolve(head or "/")
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind != "d":
            raise err(errno.ENOTDIR, path)
        return cp, node, name

    @staticmethod
    def _join(cp, name):
        return cp + "/" + name if cp != "/" else "/" + name

    def _touch_dir(self, d):
        d.mtime_ns = self._time()

    def stat_result(self, node):
        m, c = node.mtime_ns, node.ctime_ns
        return _os.stat_result(
            (node.mode, node.ino, 99, max(node.nlink, 0), 0, 0, node.size,
             m // 10**9, m // 10**9, c // 10**9),
            {"st_atime": m / 1e9, "st_mtime": m / 1e9, "st_ctime": c / 1e9,
             "st_atime_ns": m, "st_mtime_ns": m, "st_ctime_ns": c,
             "st_blksize": 4096, "st_blocks": (node.size + 511) // 512, "st_rdev": 0},
        )

    # -- operations ----------------------------------------------------------
    def stat(self, path, follow=True):
        cp, node = self.resolve(path, follow)
        if node is None:
            raise err(errno.ENOENT, path)
        return self.stat_result(node)

    def mkdir(self, path):
        cp, d, name = self.parent_of(path)
        if name in d.entries:
            raise err(errno.EEXIST, path)
        n = self._new("d")
        d.entries[name] = n
        self._touch_dir(d)
        self.emit("mkdir", self._join(cp, name))

    def rmdir(self, path):
        cp, d, name = self.parent_of(path)
        n = d.entries.get(name)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != "d":
            raise err(errno.ENOTDIR, path)
        if n.entries:
            raise err(errno.ENOTEMPTY, path)
        del d.entries[name]
        self._touch_dir(d)
        self._drop(n)
        self.emit("rmdir", self._join(cp, name))

    def unlink(self, path):
        cp, d, name = self.parent_of(path)
        n = d.entries.get(name)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == "d":
            raise err(errno.EISDIR, path)
        del d.entries[name]
        self._touch_dir(d)
        self._drop(n)
        self.emit("unlink", self._join(cp, name))

    def symlink(self, target, path):
        cp, d, name = self.parent_of(path)
        if name in d.entries:
            raise err(errno.EEXIST, target, path)
        n = self._new("l")
        n.target = target
        d.entries[name] = n
        self._touch_dir(d)
        self.emit("symlink", self._join(cp, name), target)

    def link(self, src, path):
        _, n = self.resolve(src, False)
        if n is None:
            raise err(errno.ENOENT, src, path)
        if n.kind == "d":
            raise err(errno.EPERM, src, path)
        cp, d, name = self.parent_of(path)
        if name in d.entries:
            raise err(errno.EEXIST, src, path)
        d.entries[name] = n
        n.nlink += 1
        self._touch_dir(d)
        self.emit("create", self._join(cp, name))

    def readlink(self, path):
        _, n = self.resolve(path, False)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != "l":
            raise err(errno.EINVAL, path)
        return n.target

    def rename(self, src, dst):
        scp, sd, sname = self.parent_of(src)
        n = sd.entries.get(sname)
        if n is None:
            raise err(errno.ENOENT, src, dst)
        dcp, dd, dname = self.parent_of(dst)
        s_full, d_full = self._join(scp, sname), self._join(dcp, dname)
        if s_full == d_full:
            return
        if n.kind == "d" and (d_full + "/").startswith(s_full + "/"):
            raise err(errno.EINVAL, src, dst)
        old = dd.entries.get(dname)
        if old is not None:
            if old is n:
                return
            if n.kind == "d":
                if old.kind != "d":
                    raise err(errno.ENOTDIR, src, dst)
                if old.entries:
                    raise err(errno.ENOTEMPTY, src, dst)
            elif old.kind == "d":
                raise err(errno.EISDIR, src, dst)
            del dd.entries[dname]
            self._drop(old)
        del sd.entries[sname]
        dd.entries[dname] = n
        n.ctime_ns = self._time()
        self._touch_dir(sd)
        self._touch_dir(dd)
        self.emit("rename", s_full, d_full)

    def open_node(self, path, create, excl, trunc, follow=True, directory_ok=False):
        """Returns (canonical_path, node, created)."""
        cp, n = self.resolve(path, follow)
        if n is None:
            if not create:
                raise err(errno.ENOENT, path)
            if path.endswith("/"):
                raise err(errno.EISDIR, path)
            pcp, d, name = self.parent_of(cp)
            n = self._new("f")
            d.entries[name] = n
            self._touch_dir(d)
            n.opens += 1
            self.emit("create", cp)
            return cp, n, True
        if create and excl:
            raise err(errno.EEXIST, path)
        if n.kind == "d" and not directory_ok:
            raise err(errno.EISDIR, path)
        if n.kind == "l":
            raise err(errno.ELOOP, path)
        n.opens += 1
        if trunc and n.kind == "f":
            if n.data:
                n.data = bytearray()
            n.mtime_ns = self._time()
            n.ctime_ns = n.mtime_ns
            self.emit("modify", cp)
        return cp, n, False

    def write(self, cp, node, pos, b):
        data = node.data
        if pos > len(data):
            data.extend(b"\0" * (pos - len(data)))
        data[pos:pos + len(b)] = b
        node.mtime_ns = self._time()
        node.ctime_ns = node.mtime_ns
        self.emit("modify", cp)

    def truncate(self, cp, node, size):
        data = node.data
        if size < len(data):
            del data[size:]
        else:
            data.extend(b"\0" * (size - len(data)))
        node.mtime_ns = self._time()
        node.ctime_ns = node.mtime_ns
        self.emit("modify", cp)

    def utime(self, path, ns):
        _, n = self.resolve(path)
        if n is None:
            raise err(errno.ENOENT, path)
        n.mtime_ns = ns if ns is not None else self._time()
        self.emit("attrib", path)

    # -- harness helpers (no scheduling, no events unless asked) --------------
    def read_bytes(self, path):
        _, n = self.resolve(path)
        if n is None or n.kind != "f":
            return None
        return bytes(n.data)

    def exists(self, path):
        try:
            _, n = self.resolve(path)
        except OSError:
            return False
        return n is not None

    def isdir(self, path):
        try:
            return _stat.S_ISDIR(self.stat(path).st_mode)
        except OSError:
            return False

    def isfile(self, path):
        try:
            return _stat.S_ISREG(self.stat(path).st_mode)
        except OSError:
            return False

    def utime_ns(self, path, ns):
        self.utime(path, ns)

    def lexists(self, path):
        try:
            _, n = self.resolve(path, False)
        except OSError:
            return False
        return n is not None

    def makedirs(self, path):
        cur = ""
        for part in self.split(path):
            cur += "/" + part
            _, n = self.resolve(cur)
            if n is None:
                self.mkdir(cur)

    def write_file(self, path, data, in_place=True):
        """A user's write: truncates in place, or replaces by a fresh inode."""
        self.makedirs(path.rpartition("/")[0])
        if isinstance(data, str):
            data = data.encode("utf-8")
        if in_place:
            cp, n, _ = self.open_node(path, True, False, True)
            self.write(cp, n, 0, data)
            self.close_node(n)
            self.emit("close_write", cp)
        else:
            tmp = path + ".tmp~"
            cp, n, _ = self.open_node(tmp, True, False, True)
            self.write(cp, n, 0, data)
            self.close_node(n)
            self.rename(tmp, path)

    def walk(self, path):
        """Yields (relative path, node) of everything below path, sorted, not
        following links."""
        try:
            _, n = self.resolve(path, False)
        except OSError:
            return
        if n is None or n.kind != "d":
            return
        stack = [("", n)]
        out = []
        while stack:
            rel, d = stack.pop()
            for name, c in d.entries.items():
                r = rel + "/" + name if rel else name
                out.append((r, c))
                if c.kind == "d":
                    stack.append((r, c))
        out.sort(key=lambda x: x[0])
        yield from out

    def tree(self, path, links="content"):
        """Maps relative path -> content for the files below path.  A link maps
        to its content (("dangling", target) when it leads nowhere) or, with
        links="target", to ("link", target)."""
        res = {}
        base = path.rstrip("/")
        for rel, n in self.walk(path):
            if n.kind == "f":
                res[rel] = bytes(n.data)
            elif n.kind == "l":
                if links == "target":
                    res[rel] = ("link", n.target)
                else:
                    try:
                        _, m = self.resolve(base + "/" + rel)
                    except OSError:
                        m = None
                    if m is None:
                        res[rel] = ("dangling", n.target)
                    elif m.kind == "d":
                        res[rel] = ("dirlink", n.target)
                    else:
                        res[rel] = bytes(m.data)
        return res

    def remove_tree(self, path):
        for rel, n in sorted(self.walk(path), key=lambda x: x[0], reverse=True):
            (self.rmdir if n.kind == "d" else self.unlink)(path + "/" + rel)
        self.rmdir(path)

    def dirs(self, path):
        return {rel for rel, n in self.walk(path) if n.kind == "d"}

    def clone(self, now=None):
        v = VFS(now or self.now, self.reuse, self.gran)
        v.next_ino = self.next_ino
        v.free_inos = list(self.free_inos)
        v.retired = set(self.retired)
        memo = {}

        def cp(n):
            m = memo.get(id(n))
            if m is not None:
                return m
            m = Node(n.ino, n.kind, n.mtime_ns)
            memo[id(n)] = m
            m.ctime_ns, m.mode, m.nlink = n.ctime_ns, n.mode, n.nlink
            if n.kind == "f":
                m.data = bytearray(n.data)
            elif n.kind == "l":
                m.target = n.target
            else:
                m.entries = {k: cp(c) for k, c in n.entries.items()}
            return m

        v.root = cp(self.root)
        return v

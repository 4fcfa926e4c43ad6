"""Runs a scenario: a history of edits and commands on one simulated machine.

Everything a check judges is collected while the scenario runs (snapshots of the
project at each build) and judged afterwards, the from-scratch reference builds
included, so that judging never disturbs the run.
"""
import base64
import errno
import hashlib
import json
import os
import posixpath
import re
import sys
import urllib.parse

from . import kernel as K
from . import net as N
from . import patches
from . import project as P
from . import world as W

ROOT = "/simroot/p"
OTHER_CWD = "/simroot/elsewhere"


def mods():
    import vanillaplusjs.runners.build as b
    import vanillaplusjs.runners.clean as c
    import vanillaplusjs.runners.init as i
    return b, c, i


def crc(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def b64hash(data):
    return base64.urlsafe_b64encode(hashlib.sha256(data).digest()).decode()


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or {}
        self.session = None

    @property
    def key(self):
        """What makes two violations the same one, for minimisation."""
        return self.what.split(":")[0]


class BuildRecord:
    """What the oracles need to know about one command that was run."""

    def __init__(self):
        self.kind = None          # build | clean | init
        self.outcome = None
        self.dev = None
        self.step = None
        self.out = None           # tree of out/www after the command
        self.out_dirs = None
        self.art = None
        self.src = None           # user's sources the command was to see
        self.cfg = None
        self.ops = ()             # recorded operations of this run
        self.faults = {}
        self.run = None
        self.edited_during = False


class Session:
    """One simulated execution of scenario `sc`."""

    def __init__(self, sc, decisions=None):
        self.sc = sc
        d = dict(sc)
        d.pop("faults", None)
        if decisions is not None:
            d["decisions"] = decisions
        self.w = W.World(d)
        self.net = N.SimNet(self.w, P.EXTERNAL)
        self.w.net = self.net
        self.records = []
        self.user = {}      # src files of the user: rel -> bytes
        self.hidden = {}
        self.notes = []
        self.src_damage = []
        self.result = None

    # -- helpers used inside the driver ---------------------------------------
    @property
    def vfs(self):
        return self.w.vfs

    @property
    def folder_cwd(self):
        if self.sc.get("abs"):
            return ROOT, OTHER_CWD
        return ".", ROOT

    def cli(self, name, step):
        b, c, i = mods()
        folder, cwd = self.folder_cwd
        if name == "build":
            a = ["--folder", folder]
            if step.get("dev"):
                a.append("--dev")
            links = step.get("links", 0)
            if links == 1:
                a.append("--symlinks")
            elif links == 0:
                a.append("--no-symlinks")
            return (lambda: b.main(a)), cwd
        if name == "clean":
            a = ["--folder", folder]
            if step.get("ask") is None:
                a.append("--placeholders" if step.get("ph") else "--no-placeholders")
            return (lambda: c.main(a)), cwd
        if name == "init":
            a = ["--folder", folder]
            if step.get("host"):
                a += ["--host", step["host"]]
            return (lambda: i.main(a)), cwd
        if name in ("run", "dev"):
            import importlib
            m = importlib.import_module("vanillaplusjs.runners." + name)
            a = ["--folder", folder]
            if step.get("watch"):
                a += ["--watch", "--debounce", str(step.get("debounce", 100))]
            return (lambda: m.main(a)), cwd
        raise ValueError(name)

    def setup(self):
        v = self.vfs
        v.makedirs(ROOT)
        v.makedirs(OTHER_CWD)
        v.write_file("/simroot/outside/keep.txt", b"keep me")
        b, c, i = mods()
        o = self.w.run_program("init", lambda: i.main(["--folder", ROOT]), OTHER_CWD)
        if not o.ok:
            raise Violation("init failed in an empty folder", {"outcome": o.brief()})
        if not self.sc.get("keep_index"):
            v.unlink(ROOT + "/src/public/index.html")
        self.write_config(self.sc)
        self.user = self.src_tree()

    def write_config(self, sc):
        v = self.vfs
        cfg = P.config(sc)
        if v.exists(ROOT + "/vanillaplusjs.json"):
            cur = json.loads(v.read_bytes(ROOT + "/vanillaplusjs.json"))
            cfg["version"] = cur["version"]
        v.write_file(ROOT + "/vanillaplusjs.json", json.dumps(cfg))

    def src_tree(self):
        return {k: d for k, d in self.vfs.tree(ROOT + "/src", links="target").items()}

    def project_tree(self):
        """Everything outside src, out and artifacts."""
        t = self.vfs.tree("/simroot", links="target")
        skip = ("p/src/", "p/out/", "p/artifacts/")
        return {k: d for k, d in t.items() if not k.startswith(skip)}

    def edit(self, st):
        before = self.src_tree()
        self.w.kernel.sleep(st.get("gap", 2.0))
        did = P.apply_edit(self.vfs, ROOT, st, self.hidden, None)
        self.track(before)
        self.w.kernel.sleep(st.get("gap2", 0.1))
        return did

    def track(self, before):
        after = self.src_tree()
        for k in before.keys() | after.keys():
            if before.get(k) != after.get(k):
                if k in after:
                    self.user[k] = after[k]
                else:
                    self.user.pop(k, None)

    def user_src(self):
        return dict(self.user)

    def snapshot(self, rec):
        v = self.vfs
        rec.out = v.tree(ROOT + "/out/www")
        rec.out_dirs = v.dirs(ROOT + "/out/www")
        rec.art = v.tree(ROOT + "/artifacts")
        rec.cfg = v.read_bytes(ROOT + "/vanillaplusjs.json") if v.exists(ROOT + "/vanillaplusjs.json") else None
        rec.src = self.user_src()
        rec.src_after = self.src_tree()

    def command(self, kind, st, during=None, snap=True, max_steps=100_000, max_seconds=3600.0):
        """Runs one command to its end, with the step's faults; records it."""
        w = self.w
        rec = BuildRecord()
        rec.kind, rec.step, rec.dev = kind, st, bool(st.get("dev"))
        fn, cwd = self.cli(kind, st)
        w.faults = [W.Fault(f) for f in st.get("faults", ())]
        op0 = len(w.ops)
        stats0 = w.fired()
        t0 = w.kernel.now_ns
        rec.src_before = self.src_tree()
        rec.other_before = self.project_tree()
        rec.user_before = self.user_src()
        p = w.start(kind, fn, cwd, max_steps=max_steps, max_seconds=max_seconds)
        p.stdin = list(st.get("ask") or ())
        rec.run = p.run_index
        main = p.main
        rec.raced = 0
        todo = sorted(st.get("during", ()), key=lambda e: e["at"])
        for e in todo:
            def go(e=e):
                rec.raced += 1
                self.sneak(e)
            w.triggers.append((e["at"], go))
        if during is not None:
            during(p, rec)
        rec.outcome = w.finish(p, main)
        w.active_faults = []
        late, w.triggers = w.triggers, []
        w.log("run", p.run_index, kind, rec.outcome.brief())
        rec.secs = (w.kernel.now_ns - t0) / 1e9
        rec.ops = w.ops[op0:]
        rec.muts = p.group_mut
        rec.ios = p.group_io
        s1 = w.fired()
        rec.faults = {k: n - stats0.get(k, 0) for k, n in s1.items() if n != stats0.get(k, 0)}
        rec.other_after = self.project_tree()
        rec.leftover = []
        for d in ("out", "artifacts"):
            if self.vfs.lexists(ROOT + "/" + d):
                rec.leftover += [d] + sorted(d + "/" + k for k in self.vfs.tree(ROOT + "/" + d))
        if snap:
            self.snapshot(rec)
        self.records.append(rec)
        for at, go in late:  # what the run was too short for happens right after it
            n = rec.raced
            go()
            rec.raced = n
        return rec

    def sneak(self, e):
        """An edit by the user while a command runs; takes no scheduling step."""
        k = self.w.kernel
        k.now_ns += 15_000_000
        before = self.src_tree()
        P.apply_edit(self.vfs, ROOT, e, self.hidden, None)
        self.track(before)
        k.now_ns += 15_000_000

    def run(self, driver):
        """Runs driver(self) as the root task.  Returns self."""
        K.raised.clear()
        patches.begin(self.w)
        try:
            self.result = self.w.kernel.run(lambda: driver(self))
        except Violation as v:
            v.session = self
            raise
        finally:
            patches.end(self.w)
        if K.raised:
            raise K.raised[0]
        return self


def default_driver(s, on_build=None):
    """Plays sc["steps"]."""
    s.setup()
    for st in s.sc["steps"]:
        play(s, st)


def play(s, st):
    op = st["op"]
    if op == "build":
        return s.command("build", st)
    if op == "clean":
        return s.command("clean", st)
    if op == "sleep":
        s.w.kernel.sleep(st["secs"])
        return None
    if op == "rmout":  # what can be made again easily, as the user says
        if s.vfs.lexists(ROOT + "/out"):
            s.vfs.remove_tree(ROOT + "/out")
        return None
    if op == "config":
        s.w.kernel.sleep(2.0)
        s.sc.setdefault("config", {})
        cfg = dict(s.sc, config={**s.sc.get("config", {}), **st["config"]})
        s.write_config(cfg)
        return None
    return s.edit(st)


# ---------------------------------------------------------------------------
# reference: the same sources built from scratch, on a quiet machine

_ref_cache = {}


class Ref:
    def __init__(self, ok, canon, raw, why):
        self.ok, self.canon, self.raw, self.why = ok, canon, raw, why


def reference(src, cfg, dev):
    key = hashlib.sha1(repr((sorted(src.items()), cfg, bool(dev))).encode()).digest()
    r = _ref_cache.get(key)
    if r is not None:
        return r
    if len(_ref_cache) > 3000:
        _ref_cache.clear()
    w = W.World({"seed": 0, "sched": {"kind": "fifo"}, "env": {"cpus": 1, "shuffle": False}})
    w.record_ops = False
    w.net = N.SimNet(w, P.EXTERNAL)
    b, _, _ = mods()

    def drv():
        v = w.vfs
        for k, d in src.items():
            if isinstance(d, (bytes, bytearray)):
                v.write_file(ROOT + "/src/" + k, d)
        v.makedirs(ROOT + "/src/public")
        v.write_file(ROOT + "/vanillaplusjs.json", cfg)
        v.makedirs(OTHER_CWD)
        a = ["--folder", ROOT, "--no-symlinks"] + (["--dev"] if dev else [])
        return w.run_program("ref", lambda: b.main(a), OTHER_CWD)

    patches.begin(w)
    try:
        o = w.kernel.run(drv)
    finally:
        patches.end(w)
    raw = w.vfs.tree(ROOT + "/out/www")
    if o.ok:
        r = Ref(True, canonical(raw), raw, "ok")
    else:
        r = Ref(False, None, raw, o.brief())
    _ref_cache[key] = r
    return r


# ---------------------------------------------------------------------------
# canonical form of a served tree: image numbers replaced by a digest of what the
# numbered folder holds, version hashes replaced by the canonical hash of what
# they name (or marked stale)

_TARGET = re.compile(r"^(?P<dir>.+)/(?P<id>\d+)/(?P<file>\d+x\d+\.[a-z0-9]+)$")
_URL = re.compile(rb"""/(?P<path>[A-Za-z0-9_./~#-]*)\?(?P<q>(?:pv=[0-9.]+&(?:amp;)?)?v=(?P<v>[A-Za-z0-9_%=-]+)(?:&(?:amp;)?pv=(?P<pv>[0-9.]+))?)""")
_IMGREF = re.compile(rb"/(?P<dir>[A-Za-z0-9_./~-]+)/(?P<id>\d+)/(?P<file>\d+x\d+\.[a-z0-9]+)")
TEXT = (".html", ".css", ".js")


def image_dirs(tree):
    d = {}
    for k, v in tree.items():
        m = _TARGET.match(k)
        if m:
            d.setdefault((m["dir"], m["id"]), {})[m["file"]] = v
    return d


def canonical(tree):
    """Returns {canonical name: canonical digest}."""
    ids, names = {}, {}
    used = {}
    for key, files in sorted(image_dirs(tree).items()):
        h = hashlib.sha1(repr(sorted((f, c if isinstance(c, tuple) else hashlib.sha1(c).digest())
                                     for f, c in files.items())).encode()).hexdigest()[:10]
        n = used[(key[0], h)] = used.get((key[0], h), 0) + 1
        ids[key] = h
        names[key] = h if n == 1 else f"{h}~{n}"
    memo = {}

    def sub_img(data):
        def f(m):
            k = (m["dir"].decode(), m["id"].decode())
            i = ids.get(k)
            if i is None:
                return b"/" + m["dir"] + b"/MISSING/" + m["file"]
            return b"/" + m["dir"] + b"/#" + i.encode() + b"/" + m["file"]
        return _IMGREF.sub(f, data)

    def canon(path):
        if path in memo:
            return memo[path]
        memo[path] = "cycle"
        data = tree[path]
        if isinstance(data, tuple):
            r = repr(data)
        elif path.endswith(TEXT):
            def f(m):
                tgt = m["path"].decode()
                v = urllib.parse.unquote(m["v"].decode())
                td = tree.get(tgt)
                if isinstance(td, bytes) and b64hash(td) == v:
                    return b"/" + m["path"] + b"?v=" + canon(tgt).encode() + b"&pv=" + (m["pv"] or b"none")
                return b"/" + m["path"] + b"?STALE"
            r = hashlib.sha1(sub_img(_URL.sub(f, data))).hexdigest()
        elif path.endswith(".hash") and path[:-5] in tree:
            base = tree[path[:-5]]
            if isinstance(base, bytes) and data == b64hash(base).encode():
                r = "hash-of:" + canon(path[:-5])
            else:
                r = "WRONG HASH"
        else:
            r = hashlib.sha1(data).hexdigest()
        memo[path] = r
        return r

    out = {}
    for k in tree:
        m = _TARGET.match(k)
        name = f"{m['dir']}/#{names[(m['dir'], m['id'])]}/{m['file']}" if m else k
        out[name] = canon(k)
    return out


def diff(a, b, la="actual", lb="expected"):
    """Differences between two canonical trees, short."""
    out = []
    for k in sorted(a.keys() | b.keys()):
        if a.get(k) != b.get(k):
            if k not in b:
                out.append(f"unexpected {k}")
            elif k not in a:
                out.append(f"missing {k}")
            else:
                out.append(f"differs {k}")
    return out


def check_equal_to_reference(rec, where=""):
    """C01-style oracle: a build must succeed exactly if the from-scratch build
    does, and then leave the same tree."""
    ref = reference(rec.src, rec.cfg, rec.dev)
    o = rec.outcome
    if ref.ok and not o.ok:
        raise Violation("build failed although a build from scratch succeeds",
                        {"outcome": o.brief(), "trace": (o.text or "")[-1500:], "where": where})
    if o.ok and not ref.ok:
        raise Violation("build succeeded although a build from scratch fails",
                        {"reference": ref.why, "where": where})
    if not o.ok:
        return "both-fail"
    compare_trees(rec.out, ref, where)
    return "equal"


def compare_trees(out, ref, where=""):
    c = canonical(out)
    if c != ref.canon:
        d = diff(c, ref.canon)
        raise Violation("out/www differs from a build from scratch: " + d[0],
                        {"differences": d[:20], "where": where})


# ---------------------------------------------------------------------------
# C05: hashes

_ANYV = re.compile(rb"""(?P<path>[^\s"'()<>?]+)\?(?P<q>[^\s"'()<>]*)""")


def check_hashes(out):
    n = 0
    for k, data in out.items():
        if isinstance(data, tuple):
            raise Violation(f"served file {k} is a dangling link", {"link": repr(data)})
        if k.endswith(".hash"):
            base = out.get(k[:-5])
            if base is None:
                raise Violation(f"hash file without its file: {k}")
            if data != b64hash(base).encode():
                raise Violation(f"wrong hash file: {k}")
            n += 1
            continue
        if not k.endswith(TEXT):
            continue
        for m in _ANYV.finditer(data):
            q = m["q"].replace(b"&amp;", b"&").decode("utf-8", "replace")
            qs = urllib.parse.parse_qs(q)
            if "v" not in qs:
                continue
            tgt = m["path"].decode("utf-8", "replace").lstrip("/")
            if "://" in tgt:
                tgt = tgt.split("://", 1)[1].partition("/")[2]
            td = out.get(tgt)
            if td is None:
                raise Violation(f"{k} refers to {tgt}, which is not served", {"url": m[0].decode("utf-8", "replace")})
            if qs["v"][0] != b64hash(td):
                raise Violation(f"{k} names an old version of {tgt}", {"url": m[0].decode("utf-8", "replace")})
            n += 1
    return n

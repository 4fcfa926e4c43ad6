"""C06: concurrent workers never touch the same generated file unsafely."""
import json
import re

from .. import harness as H
from .. import project as P
from . import base as B

AREAS = (H.ROOT + "/out/www/", H.ROOT + "/artifacts/")
WWW = AREAS[0]
_EXPORT = re.compile(r"/\d+x\d+[^/]*$")  # exported images, as opposed to the counters beside them


class C06(B.Check):
    id = "C06"
    technique = "seeded schedules of concurrent workers; every open, write, link, rename and removal of a generated file judged, in the order they happened, against the files other processes had open"
    note = "Sampled projects and schedules; processes switch at every file operation."
    quick_cases = 70
    rule = ("one evaluation is one project with a history of edits built under one schedule of two to four "
            "workers; distinct and non-trivial when steps or schedule differ and at least two processes "
            "worked on generated files within one build")
    assumptions = ["a file that is locked by whoever opens it (flock) may be opened by several at once"]

    def case(self, r, run, tier):
        sc = B.base(r)
        feat = r.choice([
            {"dangling": 0.0, "cycle": 0.0, "images": 0.95, "glue": 0.8, "icons": 0.2, "shared": 0.6, "together": 0.4},
            {"dangling": 0.0, "cycle": 0.0, "images": 0.3, "icons": 0.6, "inline": 0.7, "together": 0.4},
            {"dangling": 0.0, "cycle": 0.0},
        ])
        g, sc["steps"] = B.history(r, r.choice([0, 1, 2]), feat, edits=(1, 2, 4, 6))
        for _ in range(4 if tier == "quick" else 12):
            s2 = json.loads(json.dumps(sc))
            s2["seed"] = r.randrange(1 << 40)
            s2["sched"] = B.schedule(r)
            s2["env"] = dict(B.environment(r), cpus=r.choice([2, 3, 4]))
            run(s2)

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts = {"builds": 0, "generated files opened": 0, "created": 0}
        busy = 0
        with B.judging(s):
            for rec in s.records:
                counts["builds"] += 1
                busy += self.judge(rec, counts) > 1
        return B.Result([s], counts, [sc["steps"], sc["seed"]] if busy else None)

    def judge(self, rec, counts):
        locked = {e[3 + 1] for e in rec.ops if e[3] == "lock"}
        writing = {}  # path -> {pid: n}
        creator = {}
        pids = set()

        def name(p):
            return p[len(H.ROOT) + 1:]

        def clash(p, pid, what):
            other = [q for q, n in writing.get(p, {}).items() if q != pid and n > 0]
            if other and p not in locked:
                raise H.Violation(f"a process {what} a generated file that another process is writing: {name(p)}",
                                  {"writer": other, "process": pid})

        def create(p, pid, update):
            counts["created"] += 1
            if creator.get(p, pid) != pid and p not in locked and (p.startswith(WWW) or not update or _EXPORT.search(p)):
                raise H.Violation(f"two processes created the same generated file in one build: {name(p)}",
                                  {"processes": [creator[p], pid]})
            creator.setdefault(p, pid)

        for seq, run, pid, op, path, extra in rec.ops:
            ps = [p for p in ((path, extra) if op in ("rename", "link", "symlink") else (path,))
                  if isinstance(p, str) and p.startswith(AREAS)]
            if not ps:
                continue
            if op in ("open_w", "write", "unlink", "rename", "link", "symlink"):
                pids.add(pid)
            if op in ("open_r", "open_w"):
                counts["generated files opened"] += 1
                clash(path, pid, "opens")
                if op == "open_w":
                    w = writing.setdefault(path, {})
                    w[pid] = w.get(pid, 0) + 1
                    ino, created, trunc = extra
                    if created or trunc:
                        create(path, pid, not created)
            elif op == "close_w":
                w = writing.get(path, {})
                if w.get(pid):
                    w[pid] -= 1
            elif op in ("unlink", "truncate"):
                clash(path, pid, "removes" if op == "unlink" else "truncates")
                if op == "unlink":
                    creator.pop(path, None)
            elif op == "rename":
                for p in ps:
                    clash(p, pid, "replaces")
                creator.pop(path, None)
                if extra in ps:
                    create(extra, pid, extra in creator)
            elif op in ("link", "symlink"):
                for p in ps:
                    clash(p, pid, "links")
                create(path, pid, False)
        return len(pids)


CHECK = C06()

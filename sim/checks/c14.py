"""C14: init is idempotent, never overwrites, and survives a kill."""
import json

from .. import harness as H
from .. import project as P
from . import base as B
from .c04 import ERRNOS

SRC = H.ROOT + "/src"
FOLDERS = ["src", "src/public", "src/public/img", "src/public/js", "src/partials"]
OWN = ["vanillaplusjs.json", "src/public/index.html"]
PAGE = b"<!DOCTYPE html>\n<html><body><p>my own page</p></body></html>\n"
_made = {}


def made(host):
    """What an undisturbed init makes in an empty folder."""
    if host not in _made:
        s = H.Session({"seed": 1, "sched": {"kind": "fifo"}, "env": {"cpus": 1}, "abs": True})

        def drv(s):
            s.vfs.makedirs(H.ROOT)
            s.vfs.makedirs(H.OTHER_CWD)
            rec = s.command("init", {"op": "init", "host": host}, snap=False)
            if not rec.outcome.ok:
                raise H.Violation("init fails in an empty folder", {"outcome": rec.outcome.brief()})
            t = s.vfs.tree(H.ROOT)
            for k in OWN:
                if k not in t:
                    raise H.Violation("init does not create " + k)
            json.loads(t[OWN[0]])
            return t
        s.run(drv)
        _made[host] = s.result
    return _made[host]


class C14(B.Check):
    id = "C14"
    level = "fault_enumeration"
    technique = "init killed at each of its file operations and hit by errors, in empty and partly filled projects, then run again and followed by a build; the files compared with those that were there and those an undisturbed init makes"
    note = "Kill points are all mutating operations of init for the sampled starting points; torn writes at sampled lengths."
    quick_cases = 45
    rule = ("one evaluation is a folder that is empty or has some of the project, init disturbed by one or two "
            "faults at given operations, init again and a build; distinct and non-trivial when the starting "
            "point or the faults differ and a fault fired or something existed before")
    assumptions = ["no other process creates the project at the same time"]

    def case(self, r, run, tier):
        sc = B.base(r)
        cfg = json.loads(made("https://example.com")[OWN[0]])
        have = {}
        if r.random() < 0.3:
            cfg["host"] = r.choice(["https://mine.example", None])
            have[OWN[0]] = json.dumps(cfg, indent=r.choice([None, 2]))
        if r.random() < 0.3:
            have[OWN[1]] = r.choice([PAGE.decode(), "", "<p>short"])
        for f in FOLDERS:
            if r.random() < 0.2:
                have[f + "/"] = None
        for f in ["src/public/js/a.js", "src/public/img/n.txt", "src/partials/x.html", "notes.txt", "vanillaplusjs.json.bak"]:
            if r.random() < 0.15:
                have[f] = "let mine = 1;\n"
        if r.random() < 0.08:
            x = r.choice(["src/public/js", "src/public/img"])
            have = {k: v for k, v in have.items() if not k.startswith(x)}
            have[x] = "in the way"
        sc["have"] = have
        hosts = [None, "https://example.com", "http://localhost:8080"]
        sc["hosts"] = [r.choice(hosts) for _ in range(3)]
        sc["faults"] = [[], []]
        dry = run(sc)
        muts = max(r.muts for r in dry.sessions[0].records[:1])
        pts = [(k, a) for a in range(muts) for k in ("kill", "torn", "oserr", "once", "sigint")]
        pts += [("r", a) for a in range(6)]
        r.shuffle(pts)
        for k, a in pts if tier != "quick" else pts[:22]:
            s2 = json.loads(json.dumps(sc))
            s2["seed"] = r.randrange(1 << 40)
            s2["faults"][0] = [self.fault(r, k, a)]
            if r.random() < 0.4:
                s2["faults"][1] = [self.fault(r, r.choice(["kill", "torn", "oserr", "r"]), r.randrange(muts + 1))]
            run(s2)

    def fault(self, r, k, a):
        if k in ("kill", "torn"):
            return {"kind": "kill", "at": a, "torn": r.random() if k == "torn" else 0}
        if k == "sigint":
            return {"kind": "sigint", "at": a}
        return {"kind": "oserr", "cls": "r" if k == "r" else "m", "at": a, "errno": r.choice(ERRNOS),
                "count": r.choice([1, 2]) if k in ("once", "r") else 1000, "partial": r.random() < 0.5}

    def execute(self, sc):
        have = sc["have"]
        expected = {None: made(None)}
        for h in sc["hosts"]:
            expected[h] = made(h)

        def driver(s):
            v = s.vfs
            v.makedirs(H.ROOT)
            v.makedirs(H.OTHER_CWD)
            for k in sorted(have):
                if have[k] is None:
                    v.makedirs(H.ROOT + "/" + k.rstrip("/"))
                else:
                    v.makedirs((H.ROOT + "/" + k).rsplit("/", 1)[0])
                    v.write_file(H.ROOT + "/" + k, have[k].encode())
            for i in range(3):
                f = sc["faults"][i] if i < 2 else []
                s.w.kernel.sleep(0.5)
                rec = s.command("init", {"op": "init", "host": sc["hosts"][i], "faults": f}, snap=False)
                rec.tree = v.tree(H.ROOT)
            s.w.kernel.sleep(0.5)
            rec = s.command("build", {"op": "build", "links": 0}, snap=False)
            rec.tree = v.tree(H.ROOT)
            rec.found = set(v.dirs(H.ROOT))
            rec.cfg = rec.tree.get(OWN[0])

        s = H.Session(sc, sc.get("decisions")).run(driver)
        counts = {}
        before = {k: d.encode() for k, d in have.items() if d is not None}
        blocked = any(d == "in the way" for d in have.values())
        complete = {k: before[k] for k in before}
        disturbed = False
        B.no_escapes(s)
        with B.judging(s):
            for i, rec in enumerate(s.records[:3]):
                o = rec.outcome
                hit = {k for k in rec.faults if not k.startswith("short_")}
                k = "init " + ("ok" if o.ok else o.kind) + (" with fault" if hit else "")
                counts[k] = counts.get(k, 0) + 1
                disturbed |= bool(hit)
                for p, d in complete.items():
                    if rec.tree.get(p) != d:
                        raise H.Violation("init changed a file that was already there: " + p, {"run": i})
                if not hit and not o.ok and not blocked:
                    raise H.Violation("init does not complete the project",
                                      {"run": i, "outcome": o.brief(), "trace": (o.text or "")[-800:]})
                if blocked and o.ok:
                    raise H.Violation("init reports success although a folder cannot be created")
                if o.kind in ("hung", "deadlock"):
                    raise H.Violation("init does not end: " + o.kind)
                for p in OWN:
                    if p in complete:
                        continue
                    d = rec.tree.get(p)
                    fine = [expected[sc["hosts"][j]][p] for j in range(i + 1)]
                    if d in fine:
                        complete[p] = d
                    elif o.ok:
                        raise H.Violation(("init reports success without having created " if d is None else
                                           "init left an incomplete file: ") + p, {"run": i})
                if o.ok and not hit and not blocked:
                    extra = set(rec.tree) - set(before) - set(OWN)
                    if extra:
                        raise H.Violation("init left files of its own: " + sorted(extra)[0])
                if i == 2 and s.records[1].outcome.ok and not blocked:
                    w = [e for e in rec.ops if e[3] in ("open_w", "write", "rename", "unlink", "mkdir")
                         and not (e[3] == "open_w" and not (e[5][1] or e[5][2]))]
                    if w:
                        raise H.Violation("init changes a project that is complete: " + w[0][4])
            b = s.records[3]
            if not blocked:
                for f in FOLDERS:
                    if f not in b.found:
                        raise H.Violation("init did not create the folder " + f)
                if not b.outcome.ok:
                    raise H.Violation("a build after init fails", {"outcome": b.outcome.brief(), "trace": (b.outcome.text or "")[-800:]})
                if "out/www/index.html" not in b.tree:
                    raise H.Violation("a build after init does not serve the initial page")
        return B.Result([s], counts, [sc["have"], sc["faults"], sc["hosts"]] if disturbed or have else None)

    def lists(self, sc):
        return []


CHECK = C14()

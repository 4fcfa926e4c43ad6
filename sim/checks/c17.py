"""C17: creating a folder survives racing creators and brief permission errors."""
import errno

from .. import harness as H
from . import base as B

BASE = "/simroot/p/out/www"
NAMES = ["a", "b", "c"]
BRIEF = 3


class C17(B.Check):
    id = "C17"
    technique = "several simulated processes create overlapping folders under seeded schedules while permission errors come and go; every return and every error judged against the folders that exist at that instant"
    note = "Sampled schedules, depths and error bursts; processes switch at every system call."
    quick_cases = 5000
    rule = ("one evaluation is two to five processes creating one to three overlapping folders, some with plain "
            "mkdir, some with bursts of permission errors or a file in the way; distinct and non-trivial when "
            "the plan differs and folders were contended for or an error was injected")
    assumptions = ["nobody removes the folders at the same time",
                   "a permission error that occurs at most three times in a row is brief"]

    def generate(self, r, tier):
        sc = B.base(r)
        depth = r.choice([1, 2, 3, 5])
        sc["exists"] = r.randrange(depth + 1)
        target = "/".join(r.choice(NAMES) for _ in range(depth))
        procs = []
        for i in range(r.choice([1, 2, 2, 3, 4, 5])):
            t = target if r.random() < 0.7 else "/".join((target.split("/") + [r.choice(NAMES)])[:r.randrange(1, depth + 2)])
            p = {"path": t, "plain": i > 0 and r.random() < 0.3, "rel": r.random() < 0.5, "slash": r.random() < 0.1,
                 "twice": r.random() < 0.2}
            x = r.random()
            if p["plain"]:
                pass
            elif x < 0.4:
                p["fault"] = {"kind": "oserr", "cls": r.choice(["mkdir", "stat", "mkdir", "*"]), "at": r.choice([0, 0, 1, 2]),
                              "errno": r.choice([errno.EACCES, errno.EPERM]), "count": r.choice([1, 1, 2, 3])}
                if r.random() < 0.2:
                    p["fault"]["count"] = r.choice([4, 5, 6, 8, 12])
            elif x < 0.5:
                p["fault"] = {"kind": "oserr", "cls": r.choice(["mkdir", "*"]), "at": r.choice([0, 0, 1]),
                              "errno": errno.EACCES, "count": 10 ** 6}
            procs.append(p)
        sc["procs"] = procs
        if r.random() < 0.12:
            parts = target.split("/")
            sc["obstacle"] = "/".join(parts[:r.randrange(1, depth + 1)])
        sc["target"] = target
        return sc

    def lists(self, sc):
        return [("procs",)]

    def execute(self, sc):
        judged = []

        def driver(s):
            v, w = s.vfs, s.w
            v.makedirs(BASE)
            v.makedirs(H.OTHER_CWD)
            parts = sc["target"].split("/")
            ob = sc.get("obstacle")
            have = parts[:sc["exists"]]
            if ob:
                have = have[:ob.count("/")]
            if have:
                v.makedirs(BASE + "/" + "/".join(have))
            if ob:
                v.makedirs((BASE + "/" + ob).rsplit("/", 1)[0])
                v.write_file(BASE + "/" + ob, b"in the way")
            started = []
            for i, p in enumerate(sc["procs"]):
                full = BASE + "/" + p["path"]
                arg = (p["path"] if p["rel"] else full) + ("/" if p["slash"] else "")

                def fn(p=p, full=full, arg=arg, i=i):
                    import os
                    from vanillaplusjs.build.ioutil import makedirs_safely
                    for _ in range(2 if p["twice"] else 1):
                        t0 = w.kernel.now_ns
                        try:
                            if p["plain"]:
                                os.makedirs(arg, exist_ok=True)
                            else:
                                makedirs_safely(arg)
                            e = None
                        except OSError as x:
                            e = x
                        judged.append((i, e, v.isdir(full), (w.kernel.now_ns - t0) / 1e9))
                run = w.run_index + 1
                started.append((run, w.start(f"creator{i}", fn, BASE, max_steps=3000, max_seconds=600)))
            ms = [(run, p, p.main) for run, p in started]
            from .. import world as W
            for (run, p), spec in zip(started, sc["procs"]):
                if spec.get("fault"):
                    w.faults.append(W.Fault(dict(spec["fault"], run=run)))
            w.active_faults = list(w.faults)
            s.outcomes = [w.finish(p, m) for run, p, m in ms]
            s.obstacle = v.read_bytes(BASE + "/" + ob) if ob else None
        s = H.Session(dict(sc, faults=[]), sc.get("decisions"))
        s.w.faults = []
        s.run(driver)
        counts = {"created or found": 0, "reported an error": 0, "brief errors": 0, "lasting errors": 0}
        B.no_escapes(s)
        with B.judging(s):
            for i, o in enumerate(s.outcomes):
                if not o.ok:
                    raise H.Violation("creating a folder does not end properly: " + o.kind,
                                      {"process": i, "outcome": o.brief(), "trace": (o.text or "")[-600:]})
            if sc.get("obstacle") and s.obstacle != b"in the way":
                raise H.Violation("a file in the way was altered")
            for i, e, there, secs in judged:
                p = sc["procs"][i]
                if p["plain"]:
                    continue
                f = p.get("fault")
                counts["reported an error" if e else "created or found"] += 1
                if f:
                    counts["brief errors" if f["count"] <= BRIEF else "lasting errors"] += 1
                if secs > 60:
                    raise H.Violation("creating a folder takes too long", {"seconds": secs})
                if e is None and not there:
                    raise H.Violation("creating a folder reports success, but there is no folder", {"path": p["path"]})
                if e is not None and there and not (f and f["count"] > BRIEF and f["cls"] != "mkdir"):
                    raise H.Violation("creating a folder reports an error although the folder exists",
                                      {"path": p["path"], "error": repr(e)})
                blocked = sc.get("obstacle") and (p["path"] + "/").startswith(sc["obstacle"] + "/")
                if e is not None and not blocked and not (f and f["count"] > BRIEF):
                    raise H.Violation("creating a folder fails although the permission errors are brief",
                                      {"path": p["path"], "error": repr(e), "fault": f})
        hit = any(p.get("fault") for p in sc["procs"]) or len(sc["procs"]) > 1
        return B.Result([s], counts, [sc["procs"], sc["exists"], sc.get("obstacle"), sc["seed"]] if hit else None)


CHECK = C17()

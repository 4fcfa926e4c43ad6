"""C04: a build hit by an I/O error fails loudly and heals once it is gone."""
import errno
import json

from .. import harness as H
from .. import project as P
from . import base as B

ERRNOS = [errno.ENOSPC, errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE]


def io_faults(r, muts, reads):
    x = r.random()
    if x < 0.15:
        return [{"kind": "wkill", "at": r.randrange(max(1, muts)), "torn": r.random() if r.random() < 0.4 else 0}]
    if x < 0.55:
        f = {"kind": "oserr", "cls": "m", "at": r.randrange(max(1, muts)), "errno": r.choice(ERRNOS)}
        if r.random() < 0.5:
            f["partial"] = True
    elif x < 0.75:
        f = {"kind": "oserr", "cls": r.choice(["open_w", "write", "unlink", "rename", "mkdir", "close_w"]),
             "at": int(r.expovariate(1 / 6.0)), "errno": r.choice(ERRNOS)}
    else:
        f = {"kind": "oserr", "cls": r.choice(["open_r", "read", "scandir", "listdir", "flock"]),
             "at": int(r.expovariate(1 / 20.0)), "errno": r.choice([errno.EIO, errno.EACCES, errno.EMFILE])}
    f["count"] = r.choice([1, 1, 2, 5, 10000])
    fs = [f]
    if r.random() < 0.15:
        fs += io_faults(r, muts, reads)
    return fs


class C04(B.Check):
    id = "C04"
    level = "fault_enumeration"
    technique = "file operations made to fail (full disk, I/O error, permission, descriptors; partial writes) and worker processes killed inside builds; success must mean exactly the right files, and the next build must heal"
    note = "The failing operation is drawn from all operations of the build; kinds, schedules and histories are sampled."
    quick_cases = 38
    rule = ("one evaluation is a history whose last build meets failing file operations or a dying worker, "
            "then one build without; distinct and non-trivial when history and fault differ and it fired")
    assumptions = ["failing operations are open, read, write, close, rename, unlink, mkdir and directory "
                   "listing; a stat that fails is not injected, because os.path.exists cannot report it",
                   "a failed operation has no effect, except that a failing write may have written a part"]

    def case(self, r, run, tier):
        sc = B.base(r)
        g, steps = B.history(r, r.choice([0, 1, 1, 2]), {"dangling": 0.0})
        sc["steps"] = steps
        dry = H.Session(sc).run(H.default_driver)
        muts = max(1, dry.records[-1].muts)
        for _ in range(8 if tier == "quick" else 24):
            s2 = json.loads(json.dumps(sc))
            s2["seed"] = r.randrange(1 << 40)
            s2["steps"][-1]["faults"] = io_faults(r, muts, 0)
            g2 = P.Gen(r)
            g2.files = json.loads(json.dumps(g.files))
            for _ in range(r.choice([0, 0, 0, 1, 1])):
                s2["steps"].append(g2.edit())
            s2["steps"].append(dict(B.build_step(r), dev=steps[-1]["dev"] if r.random() < 0.6 else r.random() < 0.5))
            run(s2)

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts, hit = {}, False
        with B.judging(s):
            for i, rec in enumerate(s.records):
                fired = {k: n for k, n in rec.faults.items() if not k.startswith("short_")}
                o = rec.outcome
                if not fired:
                    v = H.check_equal_to_reference(rec, f"build {i}")
                    if hit:
                        counts["healed: " + v] = counts.get("healed: " + v, 0) + 1
                    continue
                hit = True
                if o.ok:
                    ref = H.reference(rec.src, rec.cfg, rec.dev)
                    if not ref.ok:
                        raise H.Violation("build succeeded although a build from scratch fails", {"reference": ref.why})
                    H.compare_trees(rec.out, ref, f"build {i}, which met {fired} and reported success")
                    counts["succeeded in spite of the fault"] = counts.get("succeeded in spite of the fault", 0) + 1
                elif o.failed_loudly:
                    counts["failed loudly"] = counts.get("failed loudly", 0) + 1
                else:
                    raise H.Violation("a build hit by an error neither succeeded nor failed: " + o.kind,
                                      {"outcome": o.brief(), "faults": fired})
        B.no_escapes(s)
        return B.Result([s], counts, [sc["steps"], sc["seed"]] if hit else None)


CHECK = C04()

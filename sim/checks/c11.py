"""C11: an edit made while a build runs is never lost."""
import json

from .. import harness as H
from .. import project as P
from . import base as B


def sneaky(r, g, n, ios):
    """n edits at seeded points of a build which takes about `ios` file operations."""
    out = []
    swapped = set()
    for _ in range(n):
        e = g.edit()
        if e["op"] == "swap":
            if swapped & {e["a"], e["b"]}:
                continue  # might put a file back, time stamp and all, which leaves no trace
            swapped |= {e["a"], e["b"]}
        if e["op"] == "write" and e.get("how") == "keep_mtime":
            e["how"] = "inplace"
        at = r.randrange(ios + ios // 10 + 1)
        if e["op"] == "write" and r.random() < 0.25:
            out.append(dict(e, at=at, half=True, how="inplace"))
            at = min(ios + 50, at + r.choice([1, 5, 40, 200]))
        elif r.random() < 0.3 and e["op"] == "write":
            # there and back again
            out.append(dict(e, at=at, how=r.choice(["inplace", "recreate", "atomic"])))
            spec = dict(e["spec"], n=(e["spec"].get("n", 0) + 1) % 9)
            e = dict(e, spec=spec)
            at = min(ios + 50, at + r.choice([1, 5, 40, 200]))
        out.append(dict(e, at=at))
    # edits of one file happen in the order they were generated
    ats = sorted(e["at"] for e in out)
    return [dict(e, at=a) for e, a in zip(out, ats)]


class C11(B.Check):
    id = "C11"
    technique = "edits dropped into running builds at seeded file operations of the program and of its workers; the next undisturbed build compared with a build from scratch"
    note = "Edit points drawn uniformly from all file operations, stat and listing included; histories and schedules sampled."
    quick_cases = 60
    rule = ("one evaluation is a history of builds of which one or two have one to five edits happen at given "
            "file operations, then an undisturbed build; distinct and non-trivial when steps and points differ "
            "and at least one edit fell into a running build")
    assumptions = ["an edit changes the size, the time stamp or the inode of the file",
                   "while one build runs no file is replaced by another and then moved back with its old time stamp",
                   "single edits are atomic, apart from half-saved files which are modelled as two edits"]

    def case(self, r, run, tier):
        sc = B.base(r)
        feat = r.choice([{}, {}, {"images": 0.95, "glue": 0.6}, {"const": 1.0, "templates": 0.9}])
        feat = dict({"dangling": r.choice([0.0, 0.0, 0.03]), "cycle": 0.0}, **feat)
        g, sc["steps"] = B.history(r, r.choice([0, 0, 1]), feat)
        if r.random() < 0.5:
            for _ in range(r.choice([1, 2, 3])):
                sc["steps"].append(g.edit())
            sc["steps"].append(B.build_step(r))
        dry = run(sc)
        recs = dry.sessions[0].records
        builds = [i for i, st in enumerate(sc["steps"]) if st["op"] == "build"]
        ios = max(20, recs[-1].ios)
        for _ in range(4 if tier == "quick" else 12):
            s2 = json.loads(json.dumps(sc))
            s2["seed"] = r.randrange(1 << 40)
            if r.random() < 0.3:
                s2["sched"] = B.schedule(r)
            g2 = P.Gen(r, dict(feat, folders=0.0))
            g2.files = json.loads(json.dumps(g.files))
            s2["steps"][builds[-1]]["during"] = sneaky(r, g2, r.choice([1, 1, 2, 3]), ios)
            if r.random() < 0.3:
                st = B.build_step(r)
                if r.random() < 0.7:
                    st["during"] = sneaky(r, g2, r.choice([1, 2]), max(20, ios // 2))
                s2["steps"].append(st)
            s2["steps"].append(B.build_step(r))
            run(s2)

    def lists(self, sc):
        return [("steps",)] + [("steps", i, "during") for i, st in enumerate(sc["steps"]) if st.get("during")]

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts, raced, verdicts = {}, 0, {}
        B.no_escapes(s)
        with B.judging(s):
            for i, rec in enumerate(s.records):
                o = rec.outcome
                raced += rec.raced
                if not o.ok and not o.failed_loudly:
                    raise H.Violation("a build does not end: " + o.kind, {"build": i})
                if rec.step.get("during"):
                    k = "raced build " + ("ok" if o.ok else "failed")
                else:
                    k = ("build after a race: " if raced else "build: ") + H.check_equal_to_reference(
                        rec, f"build {i}" + (" after edits during a build" if raced else ""))
                counts[k] = counts.get(k, 0) + 1
        counts["edits during builds"] = raced
        return B.Result([s], counts, [sc["steps"], sc["seed"]] if raced else None)


CHECK = C11()

"""C03: killing a build at any instant is recovered by the next build."""
import json

from .. import harness as H
from .. import project as P
from . import base as B


class C03(B.Check):
    id = "C03"
    level = "fault_enumeration"
    technique = "builds killed before, between and inside file operations (torn writes included), then edited and built again and compared with a build from scratch"
    note = "Kill points are drawn uniformly from all mutating file operations of the killed build, with torn writes; histories and schedules are sampled."
    quick_cases = 38
    rule = ("one evaluation is a history in which one or more builds are killed with all their workers at a "
            "mutating file operation (a write may be torn), followed by optional edits and a build left to "
            "run; distinct and non-trivial when the history and kill point differ and the kill fired")
    assumptions = ["a kill loses what the killed processes had not written yet, nothing that was written "
                   "(process crash, not power loss)"]

    def case(self, r, run, tier):
        sc = B.base(r)
        g, steps = B.history(r, r.choice([0, 1, 1, 2]), {"dangling": r.choice([0.0, 0.0, 0.03])})
        sc["steps"] = steps
        dry = H.Session(sc).run(H.default_driver)
        muts = max(1, dry.records[-1].muts)
        for _ in range(8 if tier == "quick" else 24):
            s2 = json.loads(json.dumps(sc))
            s2["seed"] = r.randrange(1 << 40)
            kills = 1 if r.random() < 0.75 else 2
            f = {"kind": "kill", "at": r.randrange(muts), "torn": r.random() if r.random() < 0.5 else 0}
            s2["steps"][-1]["faults"] = [f]
            g2 = P.Gen(r)
            g2.files = json.loads(json.dumps(g.files))
            for k in range(kills):
                for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                    s2["steps"].append(g2.edit())
                st = B.build_step(r)
                if r.random() < 0.5:
                    st["dev"] = steps[-1]["dev"]
                if k < kills - 1:
                    st["faults"] = [{"kind": "kill", "at": int(r.expovariate(1 / 12.0)), "torn": r.random()}]
                s2["steps"].append(st)
            if r.random() < 0.2:
                s2["steps"].append(g2.edit())
                s2["steps"].append(B.build_step(r))
            run(s2)

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts, killed = {}, False
        with B.judging(s):
            for i, rec in enumerate(s.records):
                if rec.outcome.kind == "killed":
                    counts["killed"] = counts.get("killed", 0) + 1
                    killed = True
                    continue
                if not killed:
                    continue
                v = H.check_equal_to_reference(rec, f"build {i}")
                counts["after kill: " + v] = counts.get("after kill: " + v, 0) + 1
        B.no_escapes(s)
        return B.Result([s], counts, [sc["steps"], sc["seed"]] if killed else None)


CHECK = C03()

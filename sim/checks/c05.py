"""C05: every cache-busting hash names the bytes that are served."""
from .. import harness as H
from . import base as B


class C05(B.Check):
    id = "C05"
    technique = "version parameters and .hash files recomputed independently from the served bytes after every successful build, including after killed and failed ones"
    note = "Sampled histories; the hashes are recomputed without the program's code."
    quick_cases = 200
    rule = ("one evaluation is one seeded history of edits and builds, some of them killed or hit by an "
            "I/O error; distinct and non-trivial when its steps differ and a successful incremental "
            "build served at least one version parameter or .hash file")
    assumptions = ["hashes are recomputed from the served bytes independently of the program "
                   "(url-safe base64 of sha-256)"]

    def generate(self, r, tier):
        sc = B.base(r)
        g, sc["steps"] = B.history(r, r.choice([1, 2, 2, 3, 5]), {"dangling": 0.01, "deep": 1, "pairs": 0.3})
        if r.random() < 0.2:
            steps, edits = g.pair()
            sc["steps"] += steps + [B.build_step(r, 0.3)]
            for e in edits:
                sc["steps"] += [e, B.build_step(r, 0.3)]
        builds = [st for st in sc["steps"] if st["op"] == "build"]
        if len(builds) > 2 and r.random() < 0.3:
            st = r.choice(builds[:-1])
            if r.random() < 0.5:
                st["faults"] = [{"kind": "kill", "at": r.randrange(60), "torn": r.random()}]
            else:
                st["faults"] = [{"kind": "oserr", "cls": "m", "at": r.randrange(60), "errno": 28}]
        return sc

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts, n, last = {"builds": len(s.records)}, 0, 0
        with B.judging(s):
            for rec in s.records:
                if rec.outcome.ok:
                    last = H.check_hashes(rec.out)
                    n += last
        counts["hashes_checked"] = n
        return B.Result([s], counts, [sc["steps"]] if last and len(s.records) > 1 else None)


CHECK = C05()

"""C13: clean removes exactly what was generated, even when interrupted."""
import json

from .. import harness as H
from .. import project as P
from . import base as B
from .c04 import ERRNOS


class C13(B.Check):
    id = "C13"
    level = "fault_enumeration"
    technique = "clean run whole, killed at any file operation and hit by I/O errors after seeded build histories; what is left compared with the tree before, and the next build with a build from scratch"
    note = "Kill points drawn from all mutating operations of clean; histories and schedules sampled."
    quick_cases = 60
    rule = ("one evaluation is a history of builds, then clean (with or without placeholders; undisturbed, "
            "killed or failing), perhaps edits and a build, then clean again; distinct and non-trivial when "
            "history, fault and options differ and there was something to remove")
    assumptions = ["the placeholders of a build that did not finish may be left alone or removed",
                   "a kill loses nothing that was already written or removed"]

    def case(self, r, run, tier):
        sc = B.base(r)
        g, steps = B.history(r, r.choice([0, 0, 1, 2]), {"dangling": r.choice([0.0, 0.04]), "glue": 0.8, "images": 0.8})
        if r.random() < 0.25:
            steps.append({"op": "write", "path": r.choice(P.GLUE)[:-2], "spec": {"k": "js", "n": r.randrange(6)}})
            if r.random() < 0.5:
                steps.append(B.build_step(r))
        if r.random() < 0.2:
            steps[-1 if steps[-1]["op"] == "build" else -2]["faults"] = [{"kind": "kill", "at": r.randrange(60), "torn": r.random()}]
        clean = self.clean_step(r)
        sc["steps"] = steps + [clean]
        dry = run(sc)
        muts = max(1, dry.sessions[0].records[-1].muts)
        for _ in range(4 if tier == "quick" else 16):
            s2 = json.loads(json.dumps(sc))
            s2["seed"] = r.randrange(1 << 40)
            c = s2["steps"][-1]
            x = r.random()
            if x < 0.6:
                c["faults"] = [{"kind": "kill", "at": r.randrange(muts)}]
            elif x < 0.75:
                c["faults"] = [{"kind": "sigint", "at": r.randrange(muts)}]
            else:
                c["faults"] = [{"kind": "oserr", "cls": r.choice(["m", "m", "listdir", "scandir", "open_r"]),
                                "at": r.randrange(muts), "errno": r.choice(ERRNOS), "count": r.choice([1, 1, 1000])}]
            g2 = P.Gen(r)
            g2.files = json.loads(json.dumps(g.files))
            if r.random() < 0.75:
                for _ in range(r.choice([0, 0, 1])):
                    s2["steps"].append(g2.edit())
                s2["steps"].append(B.build_step(r))
            s2["steps"].append(self.clean_step(r))
            run(s2)

    def clean_step(self, r):
        """Told by an option whether placeholders go, or asked at the terminal
        (by someone who may answer nonsense first, or close it)."""
        st = {"op": "clean", "ph": r.random() < 0.5}
        if r.random() < 0.35:
            end = ["y" if st["ph"] else "n"]
            if r.random() < 0.15:
                st["ph"], end = False, []
            elif r.random() < 0.3:
                end = [end[0].upper()]
            st["ask"] = [r.choice(["", "maybe", "yn", "no", "yes"]) for _ in range(r.choice([0, 0, 0, 1, 2]))] + end
        return st

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts, some = {}, False
        settled, interrupted = True, False
        with B.judging(s):
            for i, rec in enumerate(s.records):
                o = rec.outcome
                if rec.kind == "build":
                    settled = o.ok
                    if not rec.faults.get("kill"):
                        v = H.check_equal_to_reference(rec, f"build {i}")
                        if interrupted:
                            counts["build after a broken clean: " + v] = counts.get("build after a broken clean: " + v, 0) + 1
                    interrupted = False
                    continue
                hit = {k: n for k, n in rec.faults.items() if not k.startswith("short_")}
                self.judge(rec, settled, hit)
                k = "clean " + ("ok" if o.ok else o.kind)
                counts[k] = counts.get(k, 0) + 1
                some |= bool(rec.src_before)
                interrupted = not o.ok
                settled = settled and o.ok
        B.no_escapes(s)
        return B.Result([s], counts, [sc["steps"], sc["seed"]] if some else None)

    def judge(self, rec, settled, hit):
        o = rec.outcome
        shut = rec.step.get("ask") is not None and (rec.step["ask"] or [""])[-1].lower() not in ("y", "n")
        if shut and not o.ok and o.failed_loudly and not rec.muts:
            return  # nobody answered
        if not hit and not o.ok:
            raise H.Violation("clean fails", {"outcome": o.brief(), "trace": (o.text or "")[-1200:]})
        if hit and not o.ok and not o.failed_loudly and o.kind != "killed":
            raise H.Violation("clean does not end: " + o.kind, {"faults": hit})
        if rec.other_before != rec.other_after:
            d = sorted(k for k in rec.other_before.keys() | rec.other_after.keys()
                       if rec.other_before.get(k) != rec.other_after.get(k))
            raise H.Violation("clean touched something that was not generated: " + d[0])
        user = rec.src
        for k, d in user.items():
            if rec.src_after.get(k) != d:
                raise H.Violation("clean touched a source file: " + k)
        made = {k for k in rec.src_before if k not in user}
        for k in rec.src_after:
            if k not in rec.src_before:
                raise H.Violation("clean created a source file: " + k)
        left = {k for k in made if k in rec.src_after}
        if not rec.step.get("ph"):
            if left != made:
                raise H.Violation("clean removed placeholders without being asked: " + sorted(made - left)[0])
        elif o.ok and settled:
            stay = {k for k in left if k + "on" in user}
            if stay:
                raise H.Violation("clean left a placeholder although it was to be removed: " + sorted(stay)[0])
        if o.ok:
            rest = rec.leftover
            if rest:
                raise H.Violation("clean reports success but left generated files: " + rest[0], {"left": rest[:10]})


CHECK = C13()

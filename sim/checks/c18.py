"""C18: every build terminates, and reports why when it cannot succeed."""
from .. import harness as H
from .. import project as P
from . import base as B


class C18(B.Check):
    id = "C18"
    technique = "builds of broken, circular, dangling and malformed sources bounded in steps and simulated time; an independent reading of the sources says which must fail; mended sources must then build"
    note = "Sampled sources and schedules. The model of which sources must fail covers dangling and circular references; for malformed text only termination and reporting are required."
    quick_cases = 130
    rule = ("one evaluation is a history of sources with dangling and circular references or malformed "
            "files, each built, and at the end mended and built; distinct and non-trivial when the steps "
            "differ and at least one build failed")
    assumptions = ["a build that takes 100 000 scheduling steps, an hour of simulated time or a minute of "
                   "processor time without any system call does not end"]

    def generate(self, r, tier):
        sc = B.base(r)
        kind = r.choice(["refs", "refs", "odd", "odd"])
        g = P.Gen(r, dict({"dangling": 0.12, "cycle": 0.25} if kind == "refs" else {"dangling": 0.02}, folders=0.0))
        steps = g.initial()
        if kind == "odd":
            for st in steps:
                if r.random() < 0.15:
                    st["spec"] = P.odd(r, st["path"])
        steps.append(B.build_step(r))
        for _ in range(r.choice([0, 1, 1, 2])):
            for _ in range(r.choice([1, 2, 3])):
                if kind == "odd" and r.random() < 0.6:
                    p = r.choice(P.ALL)
                    steps.append({"op": "write", "path": p, "spec": P.odd(r, p)})
                    g.files.pop(p, None)
                else:
                    steps.append(g.edit())
            if kind == "refs" and r.random() < 0.25:
                steps += g.ring()
            steps.append(B.build_step(r))
        # mended: everything is replaced by something sound
        sound = P.Gen(r, {"dangling": 0.0, "cycle": 0.0})
        new = sound.initial()
        keep = {st["path"] for st in new}
        if r.random() < 0.5:
            r.shuffle(new)
        steps += [{"op": "delete", "path": p, "gap": 0.0, "gap2": 0.0} for p in P.ALL if p not in keep]
        steps += [dict(st, how=r.choice(["inplace", "atomic"])) for st in new]
        steps.append(dict(B.build_step(r), mended=True))
        sc["steps"] = steps
        return sc

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts, failed = {}, 0
        with B.judging(s):
            for i, rec in enumerate(s.records):
                o = rec.outcome
                if not o.ok and not o.failed_loudly:
                    raise H.Violation("a build does not end: " + o.kind, {"outcome": o.brief(), "build": i})
                want = P.expect({**{p[len("src/"):]: P.EXTERNAL[p][1] for p in sc["config"].get("external", ())}, **rec.src})
                odd = any(st.get("spec", {}).get("k") == "raw" for st in sc["steps"]) and not rec.step.get("mended")
                if not odd:
                    if want == "ok" and not o.ok:
                        raise H.Violation("a build of sound sources failed",
                                          {"outcome": o.brief(), "build": i, "trace": (o.text or "")[-1500:]})
                    if want == "fail" and o.ok:
                        raise H.Violation("a build succeeded although something it needs is missing or circular",
                                          {"build": i})
                k = ("ended ok" if o.ok else "ended with an error") + ("" if odd else f", expected {want}")
                if rec.step.get("mended"):
                    k = "mended: " + k
                    if failed:
                        H.check_equal_to_reference(rec, "after failed builds")
                failed += not o.ok
                counts[k] = counts.get(k, 0) + 1
        return B.Result([s], counts, [sc["steps"]] if failed else None)


CHECK = C18()

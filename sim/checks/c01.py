"""C01: an incremental build equals a build from scratch."""
from .. import harness as H
from . import base as B


class C01(B.Check):
    id = "C01"
    technique = "incremental builds compared with from-scratch builds of the same sources after every build"
    note = "Sampled: thousands of seeded edit histories per quick run; both builds run the real code, so an error common to both is not seen here."
    quick_cases = 190
    rule = ("one evaluation is one seeded history: a generated project, a build, then 1-6 rounds of "
            "edits (write in place/atomically/with kept time stamp, delete, rename, swap, touch, hide and "
            "restore, file becomes folder) each followed by a build; distinct and non-trivial when its "
            "sources and steps differ and at least one incremental build succeeded with changed sources")
    assumptions = ["an edit changes size, modification time or inode of the file (time stamp granularity "
                   "down to 10 ms is simulated with edits further apart than that)",
                   "vanillaplusjs.json does not change between the builds, unless out is removed as well",
                   "the oracle is the same program building the same sources from scratch on a quiet "
                   "machine; what it gets wrong both ways is left to other properties"]

    def generate(self, r, tier):
        sc = B.base(r)
        g, sc["steps"] = B.history(r, r.choice([1, 1, 2, 2, 3, 4, 6]), {"dangling": r.choice([0.0, 0.02, 0.06])})
        return sc

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts, changed, prev = {}, 0, None
        with B.judging(s):
            for i, rec in enumerate(s.records):
                v = H.check_equal_to_reference(rec, f"build {i}")
                counts[v] = counts.get(v, 0) + 1
                if v == "equal" and prev is not None and prev != rec.src:
                    changed += 1
                prev = rec.src
        B.no_escapes(s)
        return B.Result([s], counts, [sc["steps"]] if changed else None)


CHECK = C01()

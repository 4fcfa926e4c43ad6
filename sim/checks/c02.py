"""C02: the result of a build does not depend on scheduling."""
import json
import os
import subprocess
import sys

from .. import harness as H
from .. import kernel as K
from . import base as B


def outcome_of(sc, variant):
    """[(ok, canonical tree)] of every build of the history under one variant."""
    d = {**{k: v for k, v in sc.items() if k not in ("variants", "decisions")}, **variant}
    s = H.Session(d, variant.get("decisions")).run(H.default_driver)
    return s, [[rec.outcome.ok, rec.outcome.brief() if not rec.outcome.ok else "", 
                H.canonical(rec.out) if rec.outcome.ok else None] for rec in s.records]


class Partner:
    """A second process with another hash seed, which builds the same sources."""

    def __init__(self):
        self.p = None
        self.hs = None

    def ask(self, hashseed, sc, variant):
        from .. import runner as R
        if self.p is None or self.hs != hashseed or self.p.poll() is not None:
            if self.p is not None:
                self.p.kill()
            env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
            self.hs = hashseed
            self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-B", "-m", "sim.checks.c02"],
                                      cwd=R.VERIF, env=env, stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, text=True)
        self.p.stdin.write(json.dumps([sc, variant]) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise K.HarnessError("the partner process died")
        r = json.loads(line)
        if isinstance(r, str):
            raise K.HarnessError(r)
        return r


class C02(B.Check):
    id = "C02"
    technique = "the same sources built under several schedules, directory orders, processor counts and interpreter hash seeds, outcomes compared"
    note = "Sampled schedules; hash seeds compared in pairs of real interpreter processes."
    quick_cases = 150
    freeze = False
    rule = ("one evaluation builds one generated project (half of them with an edit and a second build) "
            "under 4 variants of scheduler, directory order, processor count, inode reuse and one other "
            "interpreter hash seed, and compares success and canonical trees; distinct and non-trivial "
            "when the sources differ and at least two variants took different interleavings")
    assumptions = ["hash seeds are compared pairwise: every worker process against one partner process"]

    def __init__(self):
        self.partner = Partner()

    def generate(self, r, tier):
        sc = B.base(r)
        g, sc["steps"] = B.history(r, r.choice([0, 0, 1, 1, 2]), {"dangling": r.choice([0.0, 0.05])})
        sc["variants"] = []
        for i in range(3):
            e = B.environment(r)
            e["cpus"] = [1, 2, 4][i] if i != 1 else r.choice([2, 3, 4, 8])
            sc["variants"].append({"seed": r.randrange(1 << 40), "sched": B.schedule(r), "env": e})
        sc["partner"] = {"seed": r.randrange(1 << 40), "sched": B.schedule(r), "env": B.environment(r)}
        sc["partner_hashseed"] = 1 + 10 * (int(os.environ.get("PYTHONHASHSEED", "0")) % 1000)
        return sc

    def lists(self, sc):
        return [("steps",), ("variants",)]

    def execute(self, sc):
        first, sessions, traces = None, [], set()
        for i, v in enumerate(sc["variants"]):
            s, o = outcome_of(sc, v)
            sessions.append(s)
            traces.add(s.w.kernel.trace_crc)
            if first is None:
                first = o
            else:
                with B.judging(s):
                    self.compare(first, o, f"variant 0 and variant {i}")
        if sc.get("partner") and first is not None:
            o = self.partner.ask(sc["partner_hashseed"], {k: x for k, x in sc.items() if k != "variants"}, sc["partner"])
            with B.judging(sessions[0]):
                self.compare(first, o, f"variant 0 and hash seed {sc['partner_hashseed']}")
        counts = {}
        for ok, why, tree in first or ():
            counts["ok" if ok else "fail"] = counts.get("ok" if ok else "fail", 0) + 1
        return B.Result(sessions, counts, [sc["steps"]] if len(traces) > 1 else None)

    def compare(self, a, b, where):
        if len(a) != len(b):
            raise K.HarnessError("variants ran different numbers of builds")
        for i, (x, y) in enumerate(zip(a, b)):
            if x[0] != y[0]:
                raise H.Violation("the same sources build in one schedule and fail in another",
                                  {"where": where, "build": i, "outcomes": [x[1] or "ok", y[1] or "ok"]})
            if x[0] and x[2] != y[2]:
                d = H.diff(x[2], y[2])
                raise H.Violation("the same sources build to different files: " + d[0],
                                  {"where": where, "build": i, "differences": d[:20]})


CHECK = C02()


def partner_main():
    from .. import patches
    from .. import runner as R
    import logging
    logging.disable(logging.CRITICAL)
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    inp = os.fdopen(os.dup(0))
    patches.load_program(R.REPO)
    for line in inp:
        sc, variant = json.loads(line)
        try:
            r = outcome_of(sc, variant)[1]
        except BaseException as e:  # noqa
            r = f"partner: {e!r}"
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    partner_main()

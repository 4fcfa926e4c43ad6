"""What the checks of all properties share."""
import random

from .. import harness as H
from .. import project as P

REAL = [
    "the whole program: vanillaplusjs.runners.* with their argument parsing, builder, scanners, "
    "handlers, html/css/js tokenisers and manipulations, image exporter with Pillow, metadata, "
    "file signatures, external file manager, watcher and constants handling",
    "CPython asyncio event loop logic (BaseEventLoop), concurrent.futures semantics, json, "
    "shutil, tempfile, os.path on top of the simulated system calls",
]
STUBS = [
    "file system (in memory, with inodes, links, time stamps, descriptors, locks)",
    "processes of the worker pool (simulated processes in one address space, arguments and results pickled)",
    "thread scheduling, clocks, timers, random numbers, signals",
    "selector and sockets of asyncio, aiohttp/http requests, http server, watchdog observer",
]


class Result:
    def __init__(self, sessions=(), counts=None, nontrivial=None, sample=None):
        self.sessions = list(sessions)
        self.counts = counts or {}
        self.nontrivial = nontrivial
        self.sample = sample


class Check:
    id = None
    level = "exploration"
    rule = ""
    quick_cases = 100
    quick_secs = 240.0
    thorough_secs = 780.0
    freeze = True
    real = REAL
    stubs = STUBS
    assumptions = ()

    def case(self, rng, run, tier):
        run(self.generate(rng, tier))

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, sc):
        raise NotImplementedError

    def lists(self, sc):
        return [("steps",)]


def schedule(r):
    """A way of choosing among runnable tasks."""
    x = r.random()
    if x < 0.45:
        return {"kind": "random", "p": r.choice([0.05, 0.2, 0.5])}
    if x < 0.75:
        return {"kind": "pct", "depth": r.randrange(2, 8), "horizon": r.choice([500, 3000, 12000])}
    if x < 0.9:
        return {"kind": "last", "p": r.choice([0.1, 0.4])}
    return {"kind": "fifo"}


def environment(r):
    return {"cpus": r.choice([1, 2, 2, 3, 4]), "shuffle": r.random() < 0.85,
            "reuse_inodes": r.random() < 0.6,
            "granularity_ns": r.choice([1, 1, 1_000_000, 10_000_000]),
            "short_io": r.random() < 0.2}


def base(r):
    return {"seed": r.randrange(1 << 40), "sched": schedule(r), "env": environment(r),
            "abs": r.random() < 0.5, "config": P.gen_config(r)}


def build_step(r, dev=0.3):
    return {"op": "build", "links": r.choice([0, 1, 1, None]), "dev": r.random() < dev}


def history(r, rounds, feat=None, edits=(1, 1, 2, 3), dev=0.3):
    """A first project, a build, then rounds of edits each followed by a build."""
    g = P.Gen(r, feat)
    steps = g.initial()
    steps.append(build_step(r, dev))
    for _ in range(rounds):
        for _ in range(r.choice(edits)):
            steps.append(g.edit())
        if g.chance(g.feat.get("together", 0.12)):
            steps.extend(g.together())
        if g.chance(g.feat.get("removed", 0.05)):
            steps.append({"op": "rmout"})
            if r.random() < 0.6:
                c = P.gen_config(r, external=False)
                c.pop("placeholders", None)
                steps.append({"op": "config", "config": dict(P.USUAL, **c)})
        steps.append(build_step(r, dev))
    return g, steps


def raise_from(s, what, detail=None):
    v = H.Violation(what, detail)
    v.session = s
    raise v


class judging:
    """Attaches the session to a violation raised inside."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if isinstance(v, H.Violation) and getattr(v, "session", None) is None:
            v.session = self.s
        return False


def no_escapes(s):
    if s.w.escapes:
        raise_from(s, "something outside of the project was written", {"paths": s.w.escapes[:10]})

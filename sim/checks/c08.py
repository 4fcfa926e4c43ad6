"""C08: dev --watch serves the current sources soon after edits stop."""
import errno
import json
import re

from .. import harness as H
from .. import project as P
from .. import serving as S
from .. import world as W
from . import base as B
from .c04 import ERRNOS

SETTLE = 180.0
BAD = "/*! PREPROCESSOR: import * FROM /css/nowhere.css */\n"


class C08(B.Check):
    id = "C08"
    technique = "dev --watch left running on a simulated disk with a notification stream that is late, repeated and coalesced, edits dropped in at seeded times and file operations of the initial build and of rebuilds, transient I/O errors and dying workers; the served tree compared with a development build from scratch once things are quiet"
    note = "Histories, edit times, notification delays and schedules are sampled."
    quick_cases = 70
    rule = ("one evaluation is one dev --watch session with one to four rounds of edits at seeded times or file "
            "operations, each followed by a bounded wait and a comparison; distinct and non-trivial when scenario "
            "and seed differ and at least one comparison followed a rebuild")
    assumptions = ["every change under src is notified at some time, in order, within the configured delay",
                   "after a rebuild met an injected error there is another edit",
                   "vanillaplusjs.json is not edited while dev runs, it is not watched"]

    def generate(self, r, tier):
        sc = B.base(r)
        feat = r.choice([{}, {}, {"images": 0.9, "glue": 0.6}, {"const": 1.0, "templates": 0.9}, {"images": 0.0}])
        feat = dict({"dangling": r.choice([0.0, 0.0, 0.02, 0.06]), "cycle": r.choice([0.0, 0.0, 0.02])}, **feat)
        g = P.Gen(r, feat)
        sc["steps"] = g.initial()
        sc["env"].update(event_lag=r.choice([0.0, 0.0, 0.05, 0.5, 3.0]), event_dup=r.choice([0.0, 0.0, 0.3]),
                         server_start=r.choice([0.0, 0.05, 0.5]))
        if r.random() < 0.15:
            sc["steps"].append({"op": "build", "links": r.choice([0, 1]), "dev": r.random() < 0.5})
        rounds = []
        for i in range(r.choice([1, 2, 3, 4])):
            edits, t = [], 0.0
            unseen = sorted(p for p in g.files if p in P.ASSET + P.MISC + P.JS + P.CSS)
            first = i == 0
            for _ in range(r.choice([0, 1, 2] if first else [1, 1, 2, 3, 5])):
                e = g.edit()
                if r.random() < 0.12 and e["op"] == "write":
                    e = dict(e, half=True, how="inplace")
                    edits.append(self.when(r, e, first, t))
                    e = dict(e, half=False)
                    t = edits[-1].get("t", t) + r.choice([0.01, 0.2])
                x = r.random()
                if x < 0.1:
                    edits.append({"op": "folder", "path": "src/" + r.choice(["public/sub", "public/js/lib", "public/img", "partials", "public/css"]), "t": t})
                    edits[-1]["to"] = r.choice([edits[-1]["path"] + "-moved", "away/" + edits[-1]["path"].replace("/", "_")])
                elif x < 0.13 and not first:  # what cannot be built is taken away together with its folder
                    d = r.choice(P.FOLDERS[:3])
                    edits.append({"op": "write", "path": d + "/bad.css", "spec": {"k": "raw", "text": BAD}, "t": t})
                    t += r.choice([0.3, 2.0, 6.0])
                    edits.append({"op": "folder", "path": d, "to": "away/" + d.replace("/", "_"), "t": t})
                elif x < 0.2 and not first and unseen:
                    edits.append({"op": "unseen", "path": r.choice(unseen), "t": t})
                edits.append(self.when(r, e, first, t))
                t += r.choice([0.0, 0.0, 0.02, 0.08, 0.12, 0.3, 1.0])
            rounds.append(edits)
        sc["serve"] = {"cmd": "dev", "watch": True, "dev": True, "debounce": r.choice([0, 10, 100, 100, 100, 500]), "faults": []}
        if r.random() < 0.3:
            sc["serve"]["faults"] = [r.choice([
                {"kind": "oserr", "cls": r.choice(["m", "m", "read", "scandir", "rename", "write", "open_r"]), "at": r.randrange(r.choice([60, 500])),
                 "errno": r.choice(ERRNOS), "count": r.choice([1, 1, 3]), "partial": r.random() < 0.5},
                {"kind": "wkill", "at": r.randrange(r.choice([40, 200])), "torn": r.random()}])]
        sc["rounds"] = rounds
        return sc

    @staticmethod
    def when(r, e, first, t):
        if r.random() < (0.8 if first else 0.5):
            return dict(e, io=r.randrange(r.choice([30, 150, 600])))
        return dict(e, t=t + r.random() * r.choice([0.0, 0.1, 1.0]))

    def lists(self, sc):
        return [("rounds",)] + [("rounds", i) for i in range(len(sc["rounds"]))] + [("steps",)]

    def execute(self, sc):
        st, env = sc["serve"], sc["env"]
        sv, checks, facts = [], [], {"compared": 0}

        def apply(s, e):
            if e["op"] != "unseen":
                return s.sneak(e)
            # within what the file system's time stamps can tell apart
            v, f = s.vfs, H.ROOT + "/" + e["path"]
            if not v.isfile(f):
                return
            data, old, before = v.read_bytes(f), v.stat(f), s.src_tree()
            spot = [m.start() for m in re.finditer(rb"[0-9]", data)]
            if spot:
                i = spot[-1]
                v.write_file(f, data[:i] + (b"1" if data[i:i + 1] != b"1" else b"2") + data[i + 1:])
                v.utime_ns(f, old.st_mtime_ns)
            s.track(before)

        def settle(s, x):
            """Waits until nothing happens anymore.  False if that never is the case."""
            k = s.w.kernel
            gap = env.get("event_lag", 0.0) + st["debounce"] / 1000 + 3.0
            end = k.now_ns + int(SETTLE * 1e9)
            while True:
                n = x.p.group_mut
                k.sleep(gap)
                if x.ended or n == x.p.group_mut:
                    return True
                if k.now_ns > end:
                    return False

        def compare(s, x, where):
            facts["compared"] += 1
            rec = H.BuildRecord()
            rec.dev = True
            s.snapshot(rec)
            rec.outcome, rec.where = None, where
            rec.ino = s.vfs.stat(H.ROOT + "/out/www").st_ino if s.vfs.isdir(H.ROOT + "/out/www") else None
            rec.log = x.messages[-4:]
            checks.append(rec)

        def mend(s, good):
            """The user puts everything back to what it was when it could be built."""
            v, k = s.vfs, s.w.kernel
            now = s.user_src()
            k.sleep(0.5)
            before = s.src_tree()
            for f in sorted(now.keys() - good.keys()):
                v.unlink(H.ROOT + "/src/" + f)
            for f in sorted(good):
                if now.get(f) != good[f]:
                    P.make_room(v, H.ROOT, H.ROOT + "/src/" + f)
                    v.write_file(H.ROOT + "/src/" + f, good[f])
            s.track(before)

        def driver(s):
            k, w = s.w.kernel, s.w
            s.setup()
            for e in sc["steps"]:
                H.play(s, e)
            cfg = s.vfs.read_bytes(H.ROOT + "/vanillaplusjs.json")
            start = s.user_src()
            x = S.Serving(s, st)
            sv.append(x)
            w.faults = [W.Fault(f) for f in st["faults"]]
            x.start()
            fired0 = w.fired()

            def hits():
                return {f: n for f, n in w.fired().items() if n != fired0.get(f, 0) and f in FAULTS}

            def play_round(edits, now):
                base = x.p.group_io
                late = []
                for e in edits:
                    if "io" in e:
                        def go(e=e):
                            if e in late:
                                late.remove(e)
                                apply(s, e)
                        late.append(e)
                        w.triggers.append((base + e["io"], go))
                w.triggers.sort(key=lambda t: t[0])
                for e in sorted([e for e in edits if "t" in e], key=lambda e: e["t"]):
                    while k.now_ns < now + e["t"] * 1e9:
                        k.sleep(0.01)
                    apply(s, e)
                k.sleep(2.0)
                return late

            # the first round happens while the initial build runs
            rounds = sc["rounds"]
            late = play_round(rounds[0], k.now_ns) if rounds else []
            if not x.wait_announced():
                x.finish()
                facts["start"] = start, s.user_src(), cfg
                facts["raced"] = len(rounds[0]) if rounds else 0
                facts["faulty"] = hits()
                return
            facts["ino"] = s.vfs.stat(H.ROOT + "/out/www").st_ino
            good = start
            for i in range(max(1, len(rounds))):
                if i:
                    late = play_round(rounds[i], k.now_ns)
                w.triggers = []
                for e in late:
                    apply(s, e)
                quiet = settle(s, x)
                if hits() and not facts.get("healed"):
                    facts["healed"] = hits()
                    w.active_faults = []
                    s.edit({"op": "write", "path": "src/public/robots.txt", "spec": {"k": "raw", "text": f"again {i}"}})
                    quiet = settle(s, x)
                compare(s, x, f"after round {i}")
                if quiet and not x.ended and x.messages[-1][2]:  # the last rebuild failed
                    w.active_faults = []
                    mend(s, good)
                    quiet = settle(s, x)
                    compare(s, x, f"after round {i} and mending the project")
                else:
                    good = s.user_src()
                if not quiet:
                    facts["restless"] = x.messages[-8:]
                if x.ended or not quiet:
                    break
            a = s.vfs.tree(H.ROOT + "/out/www")
            if not x.ended:
                k.sleep(30.0)
                facts["moved"] = a != s.vfs.tree(H.ROOT + "/out/www")
            facts["ended"] = x.ended
            x.interrupt()
            facts["stopped"] = x.wait_end(60.0)
            x.finish()

        s = H.Session(sc, sc.get("decisions"))
        with S.listening(sv):
            s.run(driver)
        counts = {}
        B.no_escapes(s)
        with B.judging(s):
            x = sv[0]
            o = x.outcome
            d = {"outcome": o.brief(), "log": x.messages[-8:], "trace": (o.text or "")[-1500:]}
            if "start" in facts:
                src, end, cfg = facts["start"]
                k = "dev did not get to serve"
                if o.kind in ("hung", "deadlock", "killed"):
                    raise H.Violation("the initial build does not end", d)
                if not facts["faulty"] and facts["raced"] <= 1:
                    a = H.reference(src, cfg, True)
                    b = H.reference(end, cfg, True)
                    if a.ok and b.ok:
                        raise H.Violation("dev ends although the project can be built", d)
                    k += ": the project cannot be built"
                return B.Result([s], {k: 1}, None)
            same = 0
            for rec in checks:
                ref = H.reference(rec.src, rec.cfg, True)
                mended = "mending" in rec.where
                if ref.ok:
                    H.compare_trees(rec.out, ref, rec.where + "; " + json.dumps(rec.log)[-1500:])
                    same += 1
                if rec.ino != facts["ino"]:
                    raise H.Violation("the folder that is served was replaced", dict(d, where=rec.where))
                k = ("mended project" if mended else "project") + (" up to date" if ref.ok else " cannot be built")
                counts[k] = counts.get(k, 0) + 1
            if facts.get("restless"):
                raise H.Violation("the project is rebuilt without end", facts)
            if facts["ended"]:
                raise H.Violation("dev ended on its own", d)
            if facts["moved"]:
                raise H.Violation("out/www changes although nobody edits anything", d)
            if not facts["stopped"]:
                raise H.Violation("dev does not end", d)
            if facts.get("healed"):
                counts["rebuilds with injected errors"] = 1
        return B.Result([s], counts, [sc["steps"], sc["rounds"], sc["seed"]] if same else None)


FAULTS = {errno.errorcode[n] for n in ERRNOS} | {"worker_kill", "kill", "torn_write"}

CHECK = C08()

"""C15: run and dev stop promptly and restore the working directory."""
import posixpath

from .. import harness as H
from .. import kernel as K
from .. import project as P
from .. import serving as S
from . import base as B


class C15(B.Check):
    id = "C15"
    technique = "run and dev on a simulated web server, observer and terminal: interrupts at seeded points of seeded thread schedules from the announcement on, and servers that are slow, fail to start or die; termination in simulated time and the working directory judged"
    note = "Interrupt points, schedules and server behaviour are sampled; the web server is a stub that keeps uvicorn's start-up, failure and shutdown protocol."
    quick_cases = 260
    rule = ("one evaluation is one run or dev command on a small project with a server behaviour and either an "
            "interrupt at a seeded point after the announcement or a server failure; distinct and non-trivial "
            "when scenario and seed differ and the command announced that it serves")
    assumptions = ["uvicorn ends its thread when it cannot start (it logs and exits) or dies, and honours should_exit",
                   "an interrupt is delivered to the main thread between two byte codes, as CPython does"]

    def generate(self, r, tier):
        sc = B.base(r)
        g = P.Gen(r, {"dangling": 0.0, "cycle": 0.0, "images": r.choice([0.0, 0.0, 0.4]), "size": 4})
        steps = g.initial()
        steps.append({"op": "write", "path": "src/public/index.html", "spec": {"k": "raw", "text": "<p>x</p>"}})
        g.files["src/public/index.html"] = steps[-1]["spec"]
        cmd = r.choice(["run", "dev", "dev", "dev"])
        st = {"cmd": cmd, "watch": cmd == "dev" and r.random() < 0.7, "dev": cmd == "dev",
              "debounce": r.choice([0, 1, 100, 1000])}
        x = r.random()
        env = sc["env"]
        env["server_start"] = r.choice([0.0, 0.01, 0.05, 0.3, 2.0])
        env["server_stop"] = r.choice([0.0, 0.02, 0.5, 2.0])
        if x < 0.2:
            env["server_fail"] = r.choice(["bind", "bind", "crash"])
        elif x < 0.35:
            env["server_dies_after"] = r.choice([0.0, 0.3, 3.0, 10.0])
        if r.random() < 0.12:
            st["again"] = True
        if x < 0.35 and r.random() < 0.5:
            st["interrupt"] = False
        elif r.random() < 0.35:
            st["lines"] = r.choice([r.randrange(20), r.randrange(40), r.randrange(400)])
            st["deep"] = r.random() < 0.3
        elif r.random() < 0.6:
            st["yields"] = r.choice([0, 1, 2, 3, 5, 8, 13, 30, 100, r.randrange(400)])
        else:
            st["after"] = r.choice([0.001, 0.05, 0.1, 0.11, 0.2, 0.5, 1.0, 3.0, 8.0]) * (0.5 + r.random())
        st["group"] = r.random() < 0.35
        if st["watch"]:
            env["event_lag"] = r.choice([0.0, 0.0, 0.3, 2.0])
            st["edits"] = [dict(g.edit(), at=r.choice([0.0, 0.05, 0.3, 1.0, 2.0]) * r.random()) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        if r.random() < 0.06:
            st["missing"] = r.choice(["config", "index"])
        sc["steps"] = steps
        sc["serve"] = st
        return sc

    def lists(self, sc):
        return [("steps",)] + ([("serve", "edits")] if sc["serve"].get("edits") else [])

    def execute(self, sc):
        st, env = sc["serve"], sc["env"]
        sv, facts = [], {}

        def driver(s):
            s.setup()
            for e in sc["steps"]:
                H.play(s, e)
            if st["cmd"] == "run":
                if not s.command("build", {"dev": st["dev"], "links": 0}).outcome.ok:
                    return
            k, v = s.w.kernel, s.vfs
            if st.get("missing") == "config":
                v.unlink(H.ROOT + "/vanillaplusjs.json")
            elif st.get("missing") == "index":
                for f in ("/out/www/index.html", "/src/public/index.html"):
                    if v.exists(H.ROOT + f):
                        v.unlink(H.ROOT + f)
            x = S.Serving(s, st)
            sv.append(x)
            x.start()
            facts["announced"] = x.wait_announced()
            if not facts["announced"]:
                facts["ended"] = x.wait_end(600.0)
                x.finish()
                return
            fails = env.get("server_fail") or env.get("server_dies_after") is not None
            t0 = k.now_ns

            def edits():
                for e in sorted(st.get("edits", ()), key=lambda e: e["at"]):
                    while k.now_ns < t0 + e["at"] * 1e9:
                        k.sleep(0.02)
                    if not x.ended:
                        s.sneak(e)
            if st.get("edits"):
                k.spawn(K.current_task().proc, edits, "user")
            if st.get("interrupt") is not False:
                for _ in range(st.get("yields", 0)):
                    k.yield_point("user", preempt=True)
                if st.get("after"):
                    k.sleep(st["after"])
                if st.get("lines") is not None:
                    for _ in range(200):
                        if x.fired or x.ended:
                            break
                        k.sleep(0.05)
                took = (k.now_ns - t0) / 1e9
                sr = x.server()
                if not fails:
                    facts["quit"] = x.ended and not x.fired
                    slack = 20.0 if st["watch"] else 2.0
                    if not x.fired and took > env["server_start"] + slack and (sr is None or not sr.started or sr.stopped):
                        facts["not_serving"] = True
                    if sr is not None and sr.started and not x.ended and not x.fired:
                        facts["where"] = posixpath.normpath(posixpath.join(x.p.cwd, str(served(sr))))
                facts["ended_before"] = x.ended and not x.fired
                if not x.ended and not x.fired:
                    x.interrupt(st["group"])
                    if st.get("again"):
                        k.sleep(0.3)
                        x.interrupt(st["group"])
            t1 = k.now_ns
            bound = 5.0 + env["server_start"] + env["server_stop"] + (env.get("server_dies_after") or 0.0)
            if st["watch"] or st["cmd"] == "dev":
                bound += 25.0
            facts["ended"] = x.wait_end(bound)
            facts["took"] = (k.now_ns - t1) / 1e9
            facts["cwd"] = x.p.cwd_at_end
            x.finish()
        s = H.Session(sc, sc.get("decisions"))
        with S.listening(sv):
            s.run(driver)
        counts = {}
        with B.judging(s):
            if not sv:
                return B.Result([s], {"the project does not build": 1}, None)
            x = sv[0]
            o = x.outcome
            what = st["cmd"] + (" --watch" if st["watch"] else "")
            kind = "server " + ("cannot start" if env.get("server_fail") else "dies" if env.get("server_dies_after") is not None else "works")
            d = {"command": what, "server": kind, "facts": facts, "outcome": o.brief(), "log": x.messages[-6:], "trace": (o.text or "")[-1200:]}
            if not facts.get("ended"):
                raise H.Violation("the command does not end: " + what, d)
            if not facts["announced"]:
                counts[what + " not announced"] = 1
                if o.kind in ("hung", "deadlock", "ok"):
                    raise H.Violation("the command ended without serving: " + what, d)
                if x.p.cwd_at_end != x.cwd:
                    raise H.Violation("the working directory was not restored: " + what, d)
                return B.Result([s], counts, None)
            if facts.get("quit"):
                raise H.Violation("the command ended without having been interrupted: " + what, d)
            if facts.get("not_serving"):
                raise H.Violation("the command does not serve: " + what, d)
            if facts.get("where") not in (None, H.ROOT + "/out/www"):
                raise H.Violation("the command serves another folder: " + what, d)
            if facts["cwd"] != x.cwd:
                raise H.Violation("the working directory was not restored: " + what, d)
            if o.kind == "error":
                raise H.Violation("the command fails: " + what, d)
            k = f"{what}, {kind}, " + ("not interrupted" if st.get("interrupt") is False or facts.get("ended_before") else "interrupted")
            counts[k] = 1
        return B.Result([s], counts, [sc["steps"], st, sc["seed"]])


def served(server):
    for route in server.config.app.routes:
        d = getattr(getattr(route, "app", None), "directory", None)
        if d is not None:
            return d
    return "?"


CHECK = C15()

"""C09: external files are verified, recoverable and pruned."""
import base64
import hashlib
import json

from .. import harness as H
from .. import project as P
from . import base as B
from .c04 import ERRNOS

PATHS = ["src/public/js/ext.js", "src/public/css/ext.css", "src/public/lib/deep/a.txt", "src/public/vendor/b.txt",
         "src/partials/ext.html"]
NET = [None, "refused", "timeout", "500", "404", "503", "corrupt", "empty", "truncate", "reset", "stall"]


def body(path, n):
    k = P.kind_of(path)
    t = {"js": f"export const ext = {n};\n", "css": f".ext{n} {{ color: red; }}\n"}.get(k, f"external {n}\n")
    return (t + "/* " * (k in ("js", "css")) + "x" * (n * 700) + " */" * (k in ("js", "css")) + "\n").encode()


def url(path, n):
    return f"https://cdn.example/{n}/{path.rsplit('/', 1)[1]}"


def integrity(data, alg="sha384"):
    return alg + "-" + base64.b64encode(getattr(hashlib, alg)(data).digest()).decode()


class C09(B.Check):
    id = "C09"
    technique = "a simulated network that refuses, stalls, cuts off and corrupts downloads, with builds killed or failing in between; digests, requests, removed and left files judged after every build"
    note = "Sampled histories of configurations, network behaviour, tampering and faults."
    quick_cases = 520
    rule = ("one evaluation is a history of configurations of external files with builds under network faults, "
            "kills and I/O errors, tampering with the files in between; distinct and non-trivial when the "
            "history differs and something was requested from the network")
    assumptions = ["the out folder is not removed by hand, which forgets what was downloaded",
                   "tampering changes the size, the time stamp or the inode of the file"]

    def generate(self, r, tier):
        sc = B.base(r)
        r.external = []
        g = P.Gen(r, {"dangling": 0.0, "cycle": 0.0, "images": 0.1, "glue": 0.1})
        g.max_files = 3
        steps = [st for st in g.initial() if st["path"].startswith("src/public/") and st["spec"]["k"] != "glue"][:r.choice([0, 2])]
        steps = [{"op": "write", "path": "src/public/index.html", "spec": {"k": "raw", "text": "<p>x</p>"}}]
        have = {}
        for i in range(r.choice([2, 3, 4, 5])):
            for p in PATHS:
                x = r.random()
                if x < (0.5 if i == 0 else 0.15):
                    have[p] = [r.choice([1, 2, 3]), r.choice(["sha384", "sha256", "sha512"])]
                elif x < (0.5 if i == 0 else 0.35):
                    have.pop(p, None)
            if i and r.random() < 0.15:
                have = {}
            steps.append({"op": "external", "files": json.loads(json.dumps(have))})
            if r.random() < 0.35 and i:
                steps.append({"op": "tamper", "path": r.choice(PATHS), "how": r.choice(["delete", "corrupt", "empty", "append", "touch", "truncate"])})
            last = i and r.random() < 0.3
            if r.random() < 0.7:
                plan = {}
                for p in sorted(have):
                    if r.random() < 0.5:
                        plan[p] = [r.choice(NET), r.randrange(2600)]
                steps.append({"op": "net", "plan": plan})
            st = B.build_step(r)
            x = r.random()
            if x < 0.3:
                st["faults"] = [{"kind": "kill", "at": r.choice([r.randrange(12), r.randrange(12), r.randrange(60)]), "torn": r.random()}]
            elif x < 0.4:
                st["faults"] = [{"kind": "wkill", "at": r.randrange(12), "torn": r.random()}]
            elif x < 0.55:
                st["faults"] = [{"kind": "oserr", "cls": r.choice(["m", "m", "r", "rename", "write", "open_r"]), "at": r.randrange(14),
                                 "errno": r.choice(ERRNOS), "count": r.choice([1, 1, 1000]), "partial": r.random() < 0.5}]
            steps += [st]
            if r.random() < 0.5:
                steps += [{"op": "net", "plan": {}}, B.build_step(r)]
        steps += [{"op": "net", "plan": {}}, B.build_step(r)]
        sc["steps"] = steps
        return sc

    def execute(self, sc):
        def driver(s):
            s.setup()
            s.wanted, v = {}, s.vfs
            for p in PATHS:
                for n in (1, 2, 3):
                    s.net.serve(url(p, n), body(p, n))
            plan = {}
            for st in sc["steps"]:
                op = st["op"]
                if op == "external":
                    s.wanted = st["files"]
                    s.w.kernel.sleep(2.0)
                    s.write_config(dict(sc, config={"external": {
                        p: {"url": url(p, n), "integrity": integrity(body(p, n), alg)} for p, (n, alg) in st["files"].items()}}))
                elif op == "net":
                    plan = {url(p, n): st["plan"][p] for p, (n, alg) in s.wanted.items() if p in st["plan"]}
                elif op == "tamper":
                    s.w.kernel.sleep(2.0)
                    full = H.ROOT + "/" + st["path"]
                    if v.exists(full):
                        d = v.read_bytes(full)
                        h = st["how"]
                        if h == "delete":
                            v.unlink(full)
                        else:
                            v.write_file(full, {"corrupt": bytes([d[0] ^ 1]) + d[1:] if d else b"z", "empty": b"",
                                                "append": d + b"\n", "touch": d, "truncate": d[:len(d) // 2]}[h])
                elif op == "build":
                    s.w.kernel.sleep(1.0)
                    before = {p: v.read_bytes(H.ROOT + "/" + p) if v.exists(H.ROOT + "/" + p) else None for p in PATHS}
                    n0 = len(s.net.requests)
                    s.net.plan = {u: [None] * s.net.requests.count(u) + [f] * 9 for u, f in plan.items()}
                    rec = s.command("build", st)
                    rec.ext_before = before
                    rec.ext_after = {p: v.read_bytes(H.ROOT + "/" + p) if v.exists(H.ROOT + "/" + p) else None for p in PATHS}
                    rec.wanted = dict(s.wanted)
                    rec.requests = s.net.requests[n0:]
                    rec.bad_net = {u: f[0] for u, f in plan.items() if f[0]}
                else:
                    H.play(s, st)
        s = H.Session(sc, sc.get("decisions")).run(driver)
        counts, known, asked = {}, {}, False
        B.no_escapes(s)
        with B.judging(s):
            for i, rec in enumerate(s.records):
                o = rec.outcome
                good = {p: body(p, n) for p, (n, alg) in rec.wanted.items()}
                asked |= bool(rec.requests)
                faults = {k for k in rec.faults if not k.startswith(("short_", "net_"))}
                k = "build " + ("ok" if o.ok else o.kind) + (" with network faults" if rec.bad_net else "") + (" with other faults" if faults else "")
                counts[k] = counts.get(k, 0) + 1
                if o.kind in ("hung", "deadlock"):
                    raise H.Violation("a build does not end: " + o.kind, {"build": i, "network": rec.bad_net})
                for p in PATHS:
                    a, b = rec.ext_before[p], rec.ext_after[p]
                    if p in good:
                        if o.ok and b != good[p]:
                            raise H.Violation("a build succeeded although an external file does not have the configured digest: " + p,
                                              {"build": i, "there": b is not None})
                        if b is not None and b != a and b != good[p]:
                            raise H.Violation("unverified bytes were left at the path of an external file: " + p, {"build": i})
                        if a == good[p] and url(p, rec.wanted[p][0]) in rec.requests:
                            raise H.Violation("a file that was verified already was downloaded again: " + p, {"build": i})
                    elif b is not None and b != a:
                        raise H.Violation("a file that is not external was changed: " + p, {"build": i})
                    elif a is not None and o.ok and b is not None and p in known and a == known[p]:
                        raise H.Violation("a file that is no longer external was not deleted: " + p, {"build": i})
                    # what the user changed in the meantime may be released as the user's
                    if p not in good and p in known and a != known[p]:
                        known.pop(p)
                if any(rec.requests.count(u) > 1 for u in rec.requests):
                    raise H.Violation("a file was downloaded more than once in a build", {"requests": rec.requests})
                if not o.ok and not faults and not any(u in rec.bad_net for u in rec.requests):
                    raise H.Violation("a build fails although the network behaves",
                                      {"build": i, "outcome": o.brief(), "trace": (o.text or "")[-1200:]})
                if o.ok:
                    for p, d in good.items():
                        if p.startswith(P.PUB) and p[len(P.PUB):] not in rec.out:
                            raise H.Violation("an external file is not served: " + p)
                # what was downloaded for one version and never replaced is still an external file
                for p, d in good.items():
                    if rec.ext_after[p] == d and (o.ok or rec.ext_before[p] != d):
                        if p not in known or o.ok:
                            known[p] = d
                if o.ok:
                    known = {p: d for p, d in known.items() if p in good}
        return B.Result([s], counts, [sc["steps"]] if asked else None)


CHECK = C09()

"""C16: served constants always match the mode of the last successful build."""
import json
import re

from .. import harness as H
from .. import project as P
from . import base as B
from .c04 import ERRNOS
from .c11 import sneaky

SERVED = P.CONST[len(P.PUB):]
VALUES = ["", "x", "http://127.0.0.1:8080", "it's", 'say "hi"', "both ' and \"", "back\\slash", "a\nb", "tab\t", "\u00e9\u4e2d\u2028",
          "</script>", "${x}", "#$%^", 0, 1, -3, 2.5, 1e21, True, False, None, [], [1, "a'b"], {}, {"k": [None, {"x": "y"}]}]
NAMES = ["API_URL", "NAME", "N", "DBG", "_x", "$y", "LONG_NAME_1"]
_LINE = re.compile(r"export const ([A-Za-z_$][A-Za-z0-9_$]*) = (.*);\Z")
_ESC = {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f", "v": "\v", "0": "\0", "'": "'", '"': '"', "\\": "\\", "/": "/"}


def literal(t):
    """The value of a JavaScript literal."""
    if t[:1] != "'":
        return json.loads(t)
    out, i = [], 1
    while t[i] != "'":
        c = t[i]
        if c == "\\":
            i += 1
            c = t[i]
            if c == "x":
                out.append(chr(int(t[i + 1:i + 3], 16)))
                i += 2
            elif c == "u":
                out.append(chr(int(t[i + 1:i + 5], 16)))
                i += 4
            else:
                out.append(_ESC.get(c, c))
        elif c in "\n\r":
            raise ValueError("line break in a string")
        else:
            out.append(c)
        i += 1
    if i != len(t) - 1:
        raise ValueError("something after the string")
    return "".join(out)


def module(data):
    res = {}
    for line in data.decode().split("\n"):
        if not line.strip():
            continue
        m = _LINE.match(line)
        if not m or m[1] in res:
            raise ValueError("not a declaration: " + line[:80])
        res[m[1]] = literal(m[2])
    return res


class C16(B.Check):
    id = "C16"
    technique = "seeded histories of development and production builds that fail, are killed, lose workers or run while the constants module comes and goes; the served module parsed and compared with the configuration, versions and the rest of the tree with a build from scratch"
    note = "Histories, fault points and schedules are sampled."
    quick_cases = 130
    rule = ("one evaluation is a history of builds in seeded modes with edits that favour the constants module and its importers, "
            "some builds with faults or with edits while they run; distinct and non-trivial when steps and seed differ "
            "and a served constants module was judged after a change of mode")
    assumptions = ["the constants in vanillaplusjs.json do not change between builds, which only --clean looks at",
                   "an edit changes the size, the time stamp or the inode of the file"]

    def generate(self, r, tier):
        sc = B.base(r)
        c = {k: {n: r.choice(VALUES) for n in NAMES if r.random() < p} for k, p in
             [("shared", 0.4), ("dev", 0.4), ("prod", 0.4)]}
        sc["config"] = dict(sc["config"], js_constants=dict(c, relpath=P.CONST))
        feat = {"dangling": r.choice([0.0, 0.0, 0.03]), "cycle": 0.0, "images": r.choice([0.0, 0.0, 0.3]), "const": 1.0, "size": r.choice([3, 5, 8])}
        g = P.Gen(r, feat)
        steps = g.initial()
        for i in range(r.choice([2, 3, 4, 6])):
            if i:
                for _ in range(r.choice([0, 0, 1, 2])):
                    x = r.random()
                    if x < 0.25:
                        g.files.pop(P.CONST, None)
                        steps.append({"op": "delete", "path": P.CONST})
                    elif x < 0.5:
                        spec = g.spec(P.CONST)
                        g.files[P.CONST] = spec
                        steps.append({"op": "write", "path": P.CONST, "spec": spec, "how": r.choice(["inplace", "atomic", "recreate"])})
                    else:
                        steps.append(g.edit())
            elif r.random() < 0.7:
                spec = g.spec(P.CONST)
                g.files[P.CONST] = spec
                steps.append({"op": "write", "path": P.CONST, "spec": spec})
            st = B.build_step(r, dev=0.5)
            x = r.random()
            if x < 0.2:
                st["faults"] = [{"kind": "kill", "at": r.choice([r.randrange(20), r.randrange(120)]), "torn": r.random()}]
            elif x < 0.25:
                st["faults"] = [{"kind": "wkill", "at": r.randrange(30), "torn": r.random()}]
            elif x < 0.3:
                st["faults"] = [{"kind": "sigint", "at": r.randrange(80)}]
            elif x < 0.45:
                st["faults"] = [{"kind": "oserr", "cls": r.choice(["m", "m", "read", "scandir", "rename", "write", "open_r"]), "at": r.randrange(80),
                                 "errno": r.choice(ERRNOS), "count": r.choice([1, 1, 1000]), "partial": r.random() < 0.5}]
            if r.random() < 0.25:
                g2 = P.Gen(r, feat)
                g2.files = json.loads(json.dumps(g.files))
                d = sneaky(r, g2, r.choice([1, 2]), 150)
                if r.random() < 0.6:
                    at = r.randrange(150)
                    d.append({"op": "delete", "path": P.CONST, "at": at} if P.CONST in g2.files else
                             {"op": "write", "path": P.CONST, "spec": g2.spec(P.CONST), "how": "inplace", "at": at})
                    if r.random() < 0.4:
                        d.append({"op": "write", "path": P.CONST, "spec": g2.spec(P.CONST), "how": "inplace", "at": at + r.randrange(80)})
                st["during"] = sorted(d, key=lambda e: e["at"])
                g.files = g2.files
            steps.append(st)
            if r.random() < 0.1:
                steps.append({"op": "clean", "ph": False})
        for _ in range(r.choice([1, 2])):
            steps.append(B.build_step(r, dev=0.5))
        sc["steps"] = steps
        return sc

    def lists(self, sc):
        return [("steps",)] + [("steps", i, "during") for i, st in enumerate(sc["steps"]) if st.get("during")]

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts, mode, switched = {}, None, False
        c = sc["config"]["js_constants"]
        B.no_escapes(s)
        with B.judging(s):
            for i, rec in enumerate(s.records):
                o = rec.outcome
                if not o.ok and not o.failed_loudly and o.kind != "killed" and o.kind != "interrupted":
                    raise H.Violation("a command does not end: " + o.kind, {"command": i})
                if rec.kind != "build":
                    continue
                if not o.ok:
                    counts["build " + o.kind] = counts.get("build " + o.kind, 0) + 1
                    if not rec.faults.keys() - {k for k in rec.faults if k.startswith("short_")} and not rec.raced:
                        H.check_equal_to_reference(rec, f"command {i}")
                    continue
                want = {**c["shared"], **c["dev" if rec.dev else "prod"]}
                src = P.CONST[4:]
                had, has = src in rec.user_before, src in rec.src
                data = rec.out.get(SERVED)
                d = {"command": i, "dev": rec.dev, "served": repr(data)[:400], "wanted": want}
                if data is None:
                    if had and has and not rec.raced:
                        raise H.Violation("the constants module is not served", d)
                elif isinstance(data, tuple):
                    raise H.Violation("the constants module is a link", d)
                elif had or has:
                    try:
                        got = module(data)
                    except (ValueError, IndexError, UnicodeDecodeError) as e:
                        raise H.Violation("the served constants are not a module", dict(d, why=str(e)))
                    if got != want or any(type(got[n]) is not type(want[n]) for n in want):
                        other = {**c["shared"], **c["prod" if rec.dev else "dev"]}
                        raise H.Violation("the served constants are " + ("those of the other mode" if got == other else "wrong"),
                                          dict(d, got=got))
                    counts["constants judged"] = counts.get("constants judged", 0) + 1
                    if mode not in (None, rec.dev):
                        counts["after a change of mode"] = counts.get("after a change of mode", 0) + 1
                        switched = True
                    mode = rec.dev
                elif not rec.raced:
                    raise H.Violation("constants are served although the module is gone", d)
                if not rec.raced:
                    H.check_hashes(rec.out)
                    r = H.check_equal_to_reference(rec, f"command {i}")
                    counts["build " + r] = counts.get("build " + r, 0) + 1
                else:
                    counts["build with edits"] = counts.get("build with edits", 0) + 1
        return B.Result([s], counts, [sc["steps"], sc["seed"]] if switched else None)


CHECK = C16()

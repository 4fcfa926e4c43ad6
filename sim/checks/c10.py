"""C10: sources are never altered and nothing outside the project is touched."""
import json

from .. import harness as H
from .. import project as P
from . import base as B
from .c04 import ERRNOS

MUT = {"open_w", "write", "unlink", "rename", "link", "symlink", "truncate", "rmdir", "mkdir", "utime", "chmod"}
OUT = "/simroot/outside/"
PRECIOUS = {
    "/simroot/outside/keep.txt": b"keep me",
    "/simroot/outside/t.html": b"<p>a partial that is none of ours</p>",
    "/simroot/outside/style.css": b".a{color:red}",
    "/simroot/outside/lib.js": b"export const a = 1;",
    "/simroot/outside/p.images.json": b"{}",
    "/simroot/p/README.md": b"# mine",
    "/simroot/p/.git/HEAD": b"ref: refs/heads/main",
    "/simroot/p/node_modules/x/index.js": b"x",
    "/simroot/p/outline.txt": b"not an output",
    "/simroot/p/outtakes/a.txt": b"not an output either",
    "/simroot/p/artifacts.md": b"mine too",
    "/simroot/p/src/notes.txt": b"notes beside public",
    "/simroot/p/src/partials/readme.txt": b"how to",
    "/simroot/p/src/js_constants/readme.txt": b"constants",
}
EVIL = {
    "html": ['<!--[TEMPLATE: ["/../../../outside/t.html"]]-->', '<!--[TEMPLATE: ["../../../outside/t.html"]]-->',
             "<!--[IMAGE: /../../../outside/pic.png 12 10]-->", "<!--[IMAGE: ../../../../outside/pic.png 12 10]-->",
             '<link rel="stylesheet" href="/../../../outside/style.css">',
             '<script src="/../../../outside/lib.js"></script>',
             '<link rel="preload" as="script" href="/../../../../outside/lib.js">',
             '<script>import {a} from "/../../../outside/lib.js";</script>',
             '<style>a { background: url("/../../../outside/keep.txt"); }</style>'],
    "css": ['a { background: url("/../../../outside/keep.txt"); }', 'a { background: url("../../../../outside/keep.txt"); }',
            "/*! PREPROCESSOR: import primary FROM /../../../outside/style.css */",
            "/*! PREPROCESSOR: icon ../../../../../outside/keep */",
            "/*! PREPROCESSOR: icon /../../../outside/keep */"],
    "js": ["import {a} from '/../../../outside/lib.js';", "import {a} from '../../../../outside/lib.js';"],
    "glue": ['{"a": {"path": "/../../../outside/pic.png", "width": 12, "height": 10}}',
             '{"a": {"path": "../../../outside/pic.png", "width": 12, "height": 10}}'],
}
EVIL["partial"] = EVIL["html"]
# sources whose outputs have the names of generated files
COLLIDE = ["js/gen/index/1.js", "js/gen/a/1.js", "css/gen/index/1.css", "css/gen/a/1.css", "index.html.hash",
           "css/main.css.hash", "js/a.js.hash", "img/p.png.hash", "img/p/0/12x10.jpeg", "img/p/0/12x10.webp",
           "img/p/0/24x20.jpeg", "img/p/0.lock", "img/p/counter.txt", "img/icons/x/primary.svg",
           "img/icons/y/primary.svg", "js/constants.js", "js/g.images.js"]


class C10(B.Check):
    id = "C10"
    technique = "every file operation of init, build and clean under faults, kills and hostile references watched by the simulated file system; user files and everything outside the project compared with what was there before"
    note = "Operations outside the simulated tree are stopped before they happen and reported; histories, schedules and faults sampled."
    quick_cases = 420
    rule = ("one evaluation is a project among other files, with hostile references, links to files elsewhere "
            "or sources named like generated files, put through init, builds, cleans, faults and kills; "
            "distinct and non-trivial when steps and faults differ and a build wrote something")
    assumptions = ["the only file made in the working directory is the probe for symlink support"]

    def generate(self, r, tier):
        sc = B.base(r)
        sc["extra"] = sorted(PRECIOUS)
        feat = {"dangling": 0.02, "inline": 0.6, "icons": 0.6, "images": 0.6}
        g = P.Gen(r, feat)
        steps = g.initial()
        kind = r.choice(["plain", "evil", "collide", "links", "evil"])
        if kind == "evil":
            for _ in range(r.choice([1, 1, 2])):
                p = r.choice(P.ALL)
                if P.kind_of(p) in EVIL:
                    steps.append({"op": "write", "path": p, "spec": {"k": "raw", "text": "".join(
                        r.choice(EVIL[P.kind_of(p)]) + "\n" for _ in range(r.choice([1, 1, 2])))}})
        elif kind == "collide":
            for _ in range(r.choice([1, 2, 3])):
                steps.append({"op": "write", "path": P.PUB + r.choice(COLLIDE), "spec": {"k": "raw", "text": f"mine {r.randrange(9)}"}})
        elif kind == "links":
            sc["links"] = r.sample([["src/public/linked.txt", OUT + "keep.txt"], ["src/public/linkdir", OUT.rstrip("/")],
                                    ["src/public/css/linked.css", OUT + "style.css"],
                                    ["src/public/js/linked.js", OUT + "lib.js"],
                                    ["src/public/linked.html", OUT + "t.html"],
                                    ["src/partials/linked.html", OUT + "t.html"],
                                    ["src/public/js/linked.images.json", OUT + "p.images.json"]], r.choice([1, 2]))
        steps.append(self.command(r, "build"))
        for _ in range(r.choice([1, 2, 2, 3])):
            for _ in range(r.choice([0, 1, 2])):
                steps.append(g.edit())
            steps.append(self.command(r, r.choice(["build", "build", "build", "clean", "init"])))
        sc["steps"] = steps
        return sc

    def command(self, r, op):
        st = B.build_step(r) if op == "build" else {"op": op}
        if op == "clean":
            st["ph"] = r.random() < 0.5
            if r.random() < 0.3:
                st["ask"] = r.choice([["y"], ["n"], ["", "Y"], ["what", "N"], []])
        x = r.random()
        if x < 0.25:
            st["faults"] = [{"kind": "kill", "at": r.randrange(150 if op == "build" else 30), "torn": r.random()}]
        elif x < 0.5:
            st["faults"] = [{"kind": "oserr", "cls": r.choice(["m", "m", "r", "listdir", "rename", "unlink", "symlink"]),
                             "at": r.randrange(100), "errno": r.choice(ERRNOS), "count": r.choice([1, 2, 1000])}]
        return st

    def execute(self, sc):
        def driver(s):
            s.setup()
            v = s.vfs
            for p in sc["extra"]:
                v.makedirs(p.rsplit("/", 1)[0])
                v.write_file(p, PRECIOUS[p])
            v.write_file("/simroot/outside/pic.png", P.render("src/public/x.png", {"k": "png", "n": 1, "w": 40, "h": 24}))
            for a, b in sc.get("links", ()):
                v.makedirs((H.ROOT + "/" + a).rsplit("/", 1)[0])
                v.symlink(b, H.ROOT + "/" + a)
            s.user = s.src_tree()
            for st in sc["steps"]:
                if st["op"] == "init":
                    s.command("init", st)
                else:
                    H.play(s, st)
        s = H.Session(sc, sc.get("decisions")).run(driver)
        counts, wrote, debris = {}, False, set()
        B.no_escapes(s)
        with B.judging(s):
            for rec in s.records:
                k = rec.kind + " " + ("ok" if rec.outcome.ok else rec.outcome.kind)
                counts[k] = counts.get(k, 0) + 1
                self.judge(rec, debris, sc["config"].get("external", ()))
                wrote |= rec.kind == "build" and bool(rec.out)
        return B.Result([s], counts, [sc["steps"], sc.get("links")] if wrote else None)

    def judge(self, rec, debris, external):
        user = {H.ROOT + "/src/" + k for k in rec.user_before}
        cwd = H.OTHER_CWD
        created = set()
        for seq, run, pid, op, path, extra in rec.ops:
            if op not in MUT:
                continue
            if op == "open_w":
                ino, new, trunc = extra
                if not new and not trunc:
                    continue
                if new:
                    created.add(path)
            for p in ([path, extra] if op == "rename" else [path]):
                if p in created:
                    continue
                if p in user:
                    raise H.Violation(f"a source file was touched by {rec.kind}: {op} {p[len(H.ROOT) + 1:]}", {"op": op})
                if not p.startswith(H.ROOT + "/") and p != H.ROOT and not p.startswith(cwd + "/___symlink_test"):
                    raise H.Violation(f"{rec.kind} touched something outside of the project: {op} {p}", {"op": op})
        # and the state, whatever the operations were
        for k, d in rec.user_before.items():
            if rec.src_after.get(k) != d:
                raise H.Violation(f"a source file is not what it was before {rec.kind}: {k}")
        killed = rec.outcome.kind == "killed" or rec.faults.get("kill")
        # a run which cannot even remove its own leftovers is excused as well
        helpless = killed or any(f["kind"] == "oserr" and f.get("count", 1) > 1 for f in rec.step.get("faults", ()))
        for k in rec.other_before.keys() | rec.other_after.keys():
            if rec.other_before.get(k) == rec.other_after.get(k):
                continue
            if k.rsplit("/", 1)[-1].startswith("___symlink_test") and (
                    killed or rec.outcome.failed_loudly or k not in rec.other_after):
                continue
            if k in debris:
                continue
            if helpless and k.startswith("p/") and k not in rec.other_before:
                debris.add(k)
                continue
            if rec.kind == "init" and k == "p/vanillaplusjs.json" and k not in rec.other_before:
                continue
            raise H.Violation(f"{rec.kind} changed something that is not its own: {k}",
                              {"before": k in rec.other_before, "after": k in rec.other_after})
        for k in rec.src_after:
            if k in rec.src_before or k in rec.user_before:
                continue
            if k.endswith(".images.js") and k + "on" in rec.user_before and rec.kind == "build":
                continue
            if rec.kind == "init" and k == "public/index.html":
                continue
            if rec.kind == "build" and "src/" + k in external and rec.src_after[k] == P.EXTERNAL["src/" + k][1]:
                continue
            if helpless or "p/src/" + k in debris:
                debris.add("p/src/" + k)
                continue
            raise H.Violation(f"{rec.kind} left a new file among the sources: {k}")


CHECK = C10()

"""C07: a build only redoes what a change can affect."""
from .. import harness as H
from .. import project as P
from . import base as B

MUT = {"open_w", "write", "unlink", "rename", "mkdir", "rmdir", "symlink", "link", "truncate", "utime"}
MAIN = P.PUB + "css/main.css"


def edges(src):
    """{path: set of paths it may depend on}, generously."""
    out = {}
    for k, d in src.items():
        p = "src/" + k
        if not isinstance(d, (bytes, bytearray)):
            continue
        e = set()
        for kind, t in P.references(p, d):
            e.add(t)
            if kind == "icon":
                e.add(MAIN)
        if p.startswith("src/partials/"):
            for kind, t in P.references(P.PUB + "x.html", d):
                e.add(t)
        if b"PREPROCESSOR: import" in d:
            e.add(MAIN)
        if p.endswith(".images.js"):
            e.add(p + "on")
        out[p] = e
        if p.endswith(".images.json"):
            out.setdefault(P.glue_js(p), set()).add(p)
    return out


def affected(old, new, changed):
    g = {}
    for m in (edges(old), edges(new)):
        for p, ts in m.items():
            for t in ts:
                g.setdefault(t, set()).add(p)
    todo, seen = list(changed), set(changed)
    while todo:
        for q in g.get(todo.pop(), ()):
            if q not in seen:
                seen.add(q)
                todo.append(q)
    return seen


def signature(s, k):
    st = s.vfs.stat(H.ROOT + "/src/" + k)
    return st.st_mtime_ns, st.st_size, st.st_ino


class C07(B.Check):
    id = "C07"
    technique = "every file operation of incremental builds is recorded and compared with an independent reading of what the change can affect; builds without a change must not write at all"
    note = "Sampled histories. The outputs judged are the file served for each source and its .hash; the dependency model is read from the sources, independently of the program."
    quick_cases = 170
    rule = ("one evaluation is one seeded history of edits and builds with repeated builds in between; "
            "distinct and non-trivial when the steps differ and at least one no-op build or one unaffected "
            "output was judged")
    assumptions = ["a file whose time stamp or inode changed counts as changed", "switching between development and "
                   "production counts as a change of the constants module"]

    def generate(self, r, tier):
        sc = B.base(r)
        g = P.Gen(r, {"dangling": 0.0, "cycle": 0.0, "size": 12})
        steps = g.initial()
        dev = r.random() < 0.3
        links = r.choice([0, 1])
        steps.append({"op": "build", "links": links, "dev": dev})
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < 0.35:
                steps.append({"op": "build", "links": links, "dev": dev})
            for _ in range(r.choice([1, 1, 1, 2])):
                steps.append(g.edit())
            if r.random() < 0.1:
                dev = not dev
            steps.append({"op": "build", "links": links, "dev": dev})
            if r.random() < 0.3:
                steps.append({"op": "build", "links": links, "dev": dev})
        sc["steps"] = steps
        return sc

    def execute(self, sc):
        touched = []

        def drv(s):
            s.setup()
            marks = set()
            for st in s.sc["steps"]:
                if st["op"] == "build":
                    s.command("build", st)
                    touched.append(set(marks))
                    marks.clear()
                else:
                    before = {k: signature(s, k) for k in s.src_tree()}
                    s.edit(st)
                    after = {k: signature(s, k) for k in s.src_tree()}
                    marks |= {"src/" + k for k in before.keys() | after.keys() if before.get(k) != after.get(k)}
        s = H.Session(sc, sc.get("decisions")).run(drv)
        counts = {"noop": 0, "unaffected": 0, "incremental": 0}
        prev = None
        with B.judging(s):
            for i, rec in enumerate(s.records):
                if prev is not None and prev.outcome.ok and rec.outcome.ok:
                    self.judge(prev, rec, touched[i], i, counts)
                prev = rec
        return B.Result([s], counts, [sc["steps"]] if counts["noop"] + counts["unaffected"] else None)

    def judge(self, prev, rec, touched, i, counts):
        base = H.ROOT + "/"
        ops = [e for e in rec.ops if e[3] in MUT and e[4].startswith(base)]
        changed = {"src/" + k for k in prev.src.keys() | rec.src.keys() if prev.src.get(k) != rec.src.get(k)}
        changed |= touched
        if rec.dev != prev.dev:
            changed.add(P.CONST)
        if not changed:
            counts["noop"] += 1
            if ops:
                e = ops[0]
                raise H.Violation("a build with nothing changed writes: " + f"{e[3]} {e[4][len(base):]}",
                                  {"build": i, "operations": [f"{e[3]} {e[4]}" for e in ops[:10]]})
            return
        counts["incremental"] += 1
        hit = affected(prev.src, rec.src, changed)
        names = {}
        for k in prev.src.keys() & rec.src.keys():
            p = "src/" + k
            if k.startswith("public/") and p not in hit:
                names[base + "out/www/" + k[len("public/"):]] = p
                names[base + "out/www/" + k[len("public/"):] + ".hash"] = p
                counts["unaffected"] += 1
        for e in ops:
            p = names.get(e[4]) or (e[3] == "rename" and names.get(e[5] if isinstance(e[5], str) else None))
            if p:
                raise H.Violation("the output of an unaffected source is redone: " + f"{e[3]} {e[4][len(base):]}",
                                  {"build": i, "changed": sorted(changed)})


CHECK = C07()

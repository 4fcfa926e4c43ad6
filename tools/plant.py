"""Makes and verifies a planted bug from tools/plants/<id>.py (PROPERTY, NEEDS, BREAKS, EDITS, DEMO).

plant.py ID [--check]   writes /verif/seeded/<id>; with --check runs the property's quick check on it."""
import json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "82658c3"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def main(pid, check):
    spec = runpy.run_path(f"{V}/tools/plants/{pid}.py")
    assert not sh("git -C /repo status --short").stdout, "dirty /repo"
    d = f"{V}/seeded/{pid}"
    os.makedirs(d, exist_ok=True)
    prelude = open(f"{V}/tools/demo_prelude.py").read()
    open(d + "/demo.py", "w").write(prelude + "\n" + spec["DEMO"].strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\npy=/opt/venv/bin/python\n[ -x "$py" ] || py=python3\n'
                                    'exec timeout 280 "$py" -W ignore -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = sh(["bash", d + "/demo.sh"], cwd=REPO)
    print("demo on the unchanged tree:", r.returncode, (r.stdout + r.stderr)[-600:])
    ok &= r.returncode == 0
    try:
        mine = {}
        for f, old, new in spec["EDITS"]:
            p = f"{REPO}/vanillaplusjs/{f}"
            raw = open(p, "rb").read().decode()
            crlf = "\r\n" in raw
            t = raw.replace("\r\n", "\n")
            assert t.count(old) == 1, (f, t.count(old), old)
            t = t.replace(old, new)
            open(p, "wb").write((t.replace("\n", "\r\n") if crlf else t).encode())
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        # are the changed lines lines of the original repository?
        changed = orig = 0
        for f in {e[0] for e in spec["EDITS"]}:
            bl = sh(f"git -C /repo blame -s HEAD -- vanillaplusjs/{f}").stdout.split("\n")
            after = set(sh(f"git -C /repo rev-list --abbrev-commit {BASE}..HEAD").stdout.split())
            fd = subprocess.run(f"git -C /repo diff -U0 -- vanillaplusjs/{f}", shell=True, capture_output=True).stdout.decode()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", fd, re.M):
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for i in range(a, a + n):
                    changed += 1
                    if not any(bl[i - 1].lstrip("^").startswith(c[:7]) for c in after):
                        orig += 1
        print(f"changed lines {changed}, of the original repository {orig}")
        sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        o = json.load(open("/tmp/plant.json"))
        print("tests:", len(o["passed"]), "passed", o["failed"])
        ok &= not o["failed"]
        r = sh(["bash", d + "/demo.sh"], cwd=REPO)
        print("demo with the bug:", r.returncode, (r.stdout + r.stderr)[-600:])
        ok &= r.returncode != 0
        print("VALID" if ok else "INVALID")
        if check:
            for c in [spec["PROPERTY"]] + list(spec.get("ALSO", [])):
                r = sh([V + "/check", c, "quick"])
                print("\n".join((r.stdout + r.stderr).strip().split("\n")[-4:])[:700])
                print("CHECK", c, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, r.returncode))
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
        for f in os.listdir(V + "/replays") if os.path.isdir(V + "/replays") else []:
            os.unlink(V + "/replays/" + f)


main(sys.argv[1], "--check" in sys.argv)

"""Command line: runs the check of one property over many seeded executions,
minimises what fails, writes the replay file and the evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import queue
import random
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
WATCHDOG_S = 60.0
STOP_FLAG = "stop"


def load_check(pid):
    m = importlib.import_module("sim.checks." + pid.lower())
    return m.CHECK


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def hash_seed(seed, worker):
    return (seed * 1009 + worker * 7919 + 1) % 4294967296


# ---------------------------------------------------------------------------
# worker

class Watchdog:
    """A run of the program that burns processor time without ever reaching the
    simulator again cannot be stopped from inside; report it and end."""

    def __init__(self, emit, limit):
        self.emit, self.limit = emit, limit
        self.current = None
        self.since = None
        import _thread
        self._sleep = time.sleep
        self._now = time.monotonic
        _thread.start_new_thread(self._loop, ())

    def begin(self, sc):
        self.current, self.since = sc, self._now()

    def end(self):
        self.current = None

    def _loop(self):
        while True:
            self._sleep(1.0)
            c, s = self.current, self.since
            if c is not None and self._now() - s > self.limit:
                import faulthandler
                tb = "/tmp/vp-hang-%d.txt" % os.getpid()
                text = ""
                try:
                    with open(tb, "w") as f:
                        faulthandler.dump_traceback(f, all_threads=True)
                    text = open(tb).read()[-6000:]
                    os.unlink(tb)
                except OSError:
                    pass
                self.emit({"t": "hang", "sc": c, "text": text})
                os._exit(77)


class Runner:
    """Executes scenarios of one check and keeps the counters."""

    def __init__(self, check, watchdog=None):
        self.check = check
        self.watchdog = watchdog
        self.evals = 0
        self.nontrivial = set()
        self.traces = set()
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.sim_s = 0.0
        self.steps = 0
        self.samples = []
        self.runs = 0
        self.repeated = [0, 0]  # executions run twice, and those identical
        self.repeat_at = {2, 11, 29}

    def __call__(self, sc):
        from . import harness as H
        if self.watchdog:
            self.watchdog.begin(sc)
        try:
            res = self.check.execute(sc)
        except H.Violation as v:
            v.sc = sc
            raise
        finally:
            if self.watchdog:
                self.watchdog.end()
        self.account(sc, res)
        if self.evals in self.repeat_at:
            self.repeat(sc, res)
        return res

    def repeat(self, sc, res):
        """Runs a scenario once more: the same checksums over all system calls?"""
        if self.watchdog:
            self.watchdog.begin(sc)
        try:
            again = self.check.execute(sc)
        finally:
            if self.watchdog:
                self.watchdog.end()
        crcs = [[(s.w.kernel.trace_crc, s.w.kernel.steps) for s in x.sessions] for x in (res, again)]
        self.repeated[0] += 1
        self.repeated[1] += crcs[0] == crcs[1]

    def account(self, sc, res):
        self.evals += 1
        for s in res.sessions:
            k = s.w.kernel
            self.sim_s += k.now_ns / 1e9
            self.steps += k.steps
            self.traces.add(k.trace_crc)
            self.runs += len(s.w.runs)
            self.faults.update(s.w.fired())
        self.counts.update(res.counts)
        if res.nontrivial is not None:
            key = hashlib.sha1(repr(res.nontrivial).encode()).hexdigest()
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                if len(self.samples) < 2:
                    self.samples.append(res.sample or sc)


def worker_main(args):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    lock = threading.Lock()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)

    def emit(d):
        with lock:
            out.write(json.dumps(d, default=repr) + "\n")
            out.flush()

    from . import patches
    patches.load_program(REPO)
    from . import harness as H
    import logging
    logging.getLogger("asyncio").setLevel(100)
    logging.disable(logging.CRITICAL)
    check = load_check(args.property)
    wd = Watchdog(emit, WATCHDOG_S)
    run = Runner(check, wd)
    known = known_findings(args.property)
    known_seen = {}
    start = time.monotonic()
    stop = []

    def stdin_watch():
        sys.stdin.readline()
        stop.append(1)
    threading.Thread(target=stdin_watch, daemon=True).start()
    i = 0
    quota = args.cases
    late = 0
    while not stop and (quota is None or i < quota):
        if time.monotonic() - start > args.secs:
            late = 1
            break
        rng = random.Random(f"{args.property}-{args.seed}-{args.worker}-{i}")
        i += 1
        try:
            check.case(rng, run, args.tier)
        except H.Violation as v:
            k = next((f for f in known if matches(f, v)), None)
            if k is not None:
                known_seen[k["what"]] = 1
                continue
            emit({"t": "found", "what": v.what})
            sc, v2 = minimise(check, v.sc, v, wd, args.shrink_secs, stop)
            emit({"t": "violation", "what": v2.what, "detail": v2.detail, "sc": sc,
                  "original": v.sc})
            break
    emit({"t": "done", "cases": i, "evals": run.evals, "nontrivial": sorted(run.nontrivial),
          "traces": sorted(run.traces), "counts": run.counts, "faults": run.faults,
          "sim_s": run.sim_s, "steps": run.steps, "runs": run.runs, "samples": run.samples,
          "repeated": run.repeated,
          "known": sorted(known_seen), "late": late, "wall": time.monotonic() - start})
    out.flush()
    os._exit(0)


def matches(finding, v):
    m = finding.get("match", {})
    if m.get("what") and m["what"] != v.what:
        return False
    for k, val in m.get("detail", {}).items():
        if v.detail.get(k) != val:
            return False
    return bool(m)


# ---------------------------------------------------------------------------
# minimisation

def attempt(check, sc, key, wd):
    from . import harness as H
    if wd:
        wd.begin(None)
    try:
        check.execute(sc)
    except H.Violation as v:
        if v.key == key:
            v.sc = sc
            return v
    except Exception:
        return None
    return None


def minimise(check, sc, v, wd, secs, stop=()):
    end = time.monotonic() + secs
    key = v.key
    best = json.loads(json.dumps(sc, default=repr))

    def over():
        return time.monotonic() > end

    def try_(cand):
        nonlocal best, v
        r = attempt(check, cand, key, wd)
        if r is not None:
            best, v = cand, r
            return True
        return False

    def shrink_list(path):
        def get(c):
            for p in path:
                c = c[p]
            return c
        try:
            n = len(get(best))
        except (KeyError, IndexError, TypeError):
            return
        size = max(1, n // 2)
        while size >= 1 and not over():
            i = 0
            while i < len(get(best)) and not over():
                cand = json.loads(json.dumps(best))
                lst = get(cand)
                del lst[i:i + size]
                if not try_(cand):
                    i += size
            size //= 2

    def simplify(f):
        if over():
            return
        cand = json.loads(json.dumps(best))
        if f(cand) is not False and cand != best:
            try_(cand)

    for path in check.lists(best):
        shrink_list(path)
    for path in check.lists(best):
        if path == ("steps",):
            for i, st in enumerate(best["steps"]):
                if over():
                    break
                if st.get("faults"):
                    shrink_list(("steps", i, "faults"))
                if isinstance(st.get("spec"), dict):
                    for k in list(st["spec"]):
                        val = st["spec"][k]
                        if isinstance(val, list) and val:
                            shrink_list(("steps", i, "spec", k))
    simplify(lambda c: c.update(sched={"kind": "fifo"}) if c.get("sched", {}).get("kind") != "fifo" else False)
    simplify(lambda c: c["env"].update(shuffle=False) if "env" in c else False)
    simplify(lambda c: c["env"].pop("event_dup", None) if "env" in c else False)
    simplify(lambda c: c["env"].pop("short_io", None) if "env" in c else False)
    # freeze the schedule, then drop the decisions that do not matter
    if check.freeze and not over():
        r = attempt(check, best, key, wd)
        s = getattr(r, "session", None)
        if s is not None:
            cand = json.loads(json.dumps(best))
            cand["decisions"] = [[d, c] for d, c in sorted(s.w.policy.taken.items())]
            if try_(cand):
                shrink_list(("decisions",))
                for path in check.lists(best):
                    shrink_list(path)
    return best, v


# ---------------------------------------------------------------------------
# master

def launch(pid, tier, seed, worker, cases, secs, shrink):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hash_seed(seed, worker))
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent"
    cmd = [sys.executable, "-W", "ignore", "-B", "-m", "sim.runner", "worker", pid, "--tier", tier,
           "--seed", str(seed), "--worker", str(worker), "--secs", str(secs),
           "--shrink-secs", str(shrink)]
    if cases is not None:
        cmd += ["--cases", str(cases)]
    return subprocess.Popen(cmd, cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True)


def check_main(args):
    pid, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)
    check = load_check(pid)
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    n = args.workers
    if tier == "quick":
        cases, secs = check.quick_cases, check.quick_secs
    else:
        cases, secs = None, check.thorough_secs
    procs = [launch(pid, tier, seed, i, cases, secs, 60 if tier == "quick" else 120) for i in range(n)]
    q = queue.Queue()

    def reader(i, p):
        for line in p.stdout:
            try:
                q.put((i, json.loads(line)))
            except ValueError:
                q.put((i, {"t": "garbage", "line": line[:500]}))
        err = p.stderr.read()
        q.put((i, {"t": "exit", "rc": p.wait(), "err": err[-3000:]}))

    for i, p in enumerate(procs):
        threading.Thread(target=reader, args=(i, p), daemon=True).start()
    alive, dones, viol, hangs, errors = set(range(n)), {}, [], [], []
    found = {}
    hard = t0 + secs + 240
    while alive:
        try:
            i, m = q.get(timeout=max(0.1, hard - time.monotonic()))
        except queue.Empty:
            for i in alive:
                procs[i].kill()
            errors.append("workers did not finish in time")
            break
        t = m["t"]
        if t == "done":
            dones[i] = m
        elif t == "found":
            found[i] = m["what"]
            for j, p in enumerate(procs):
                if j != i:
                    stop(p)
        elif t == "violation":
            m["worker"] = i
            viol.append(m)
        elif t == "hang":
            m["worker"] = i
            hangs.append(m)
            for j, p in enumerate(procs):
                if j != i:
                    stop(p)
        elif t == "exit":
            alive.discard(i)
            if i not in dones and not any(h["worker"] == i for h in hangs):
                errors.append(f"worker {i} ended with {m['rc']}: {m['err']}")
        if viol and time.monotonic() - t0 > secs + 150:
            break
    for p in procs:
        if p.poll() is None and viol:
            p.kill()
    rc = 0
    lines = []
    for h in hangs:
        path = write_replay(pid, seed, h["worker"], h["sc"], "a run never ends: the program burns processor time",
                            {"threads": h["text"]}, hang=True)
        if confirm_hang(path):
            lines.append((path, "never ends"))
        else:
            errors.append("a run exceeded the watchdog but does end")
            os.unlink(path)
    for m in viol:
        path = write_replay(pid, seed, m["worker"], m["sc"], m["what"], m["detail"])
        r = subprocess.run([os.path.join(VERIF, "check"), "replay", path], capture_output=True, text=True, timeout=400)
        if r.returncode != 1:
            # the minimised one must reproduce in a fresh process, else keep the original
            path = write_replay(pid, seed, m["worker"], m["original"], m["what"], m["detail"])
            r = subprocess.run([os.path.join(VERIF, "check"), "replay", path], capture_output=True, text=True, timeout=400)
            if r.returncode != 1:
                errors.append(f"violation not reproducible in a fresh process: {m['what']} {path}")
                continue
        lines.append((path, m["what"]))
        print(f"{pid}: {m['what']}")
        print(json.dumps(m["detail"], indent=1, default=repr)[:3000])
    evidence(check, pid, tier, seed, dones, t0, lines, n)
    for d in known_findings(pid):
        if any(d["what"] in m.get("known", ()) for m in dones.values()):
            print(f"KNOWN-FINDING: property={pid} {d['what']}")
    if lines:
        for path, what in lines[:1]:
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors[:2]:
            print("HARNESS-ERROR", e[-1500:], file=sys.stderr)
        return 2
    if any(m["late"] for m in dones.values()) and tier == "quick":
        print(f"{pid}: budget cut short by the time limit", file=sys.stderr)
    ev = sum(m["evals"] for m in dones.values())
    print(f"{pid}: held on {ev} executions ({time.monotonic() - t0:.0f} s)")
    return rc


def stop(p):
    try:
        p.stdin.write("stop\n")
        p.stdin.flush()
    except (OSError, ValueError):
        pass


def write_replay(pid, seed, worker, sc, what, detail, hang=False):
    body = {"property": pid, "hashseed": hash_seed(seed, worker), "what": what, "detail": detail,
            "hang": hang, "scenario": sc}
    text = json.dumps(body, indent=1, default=repr)
    name = f"{pid}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json"
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def confirm_hang(path):
    try:
        r = subprocess.run([os.path.join(VERIF, "check"), "replay", path], capture_output=True, text=True, timeout=400)
        return r.returncode == 1
    except subprocess.TimeoutExpired:
        return True


def evidence(check, pid, tier, seed, dones, t0, lines, n):
    wall = time.monotonic() - t0
    nt, tr = set(), set()
    counts, faults = collections.Counter(), collections.Counter()
    ev = steps = runs = 0
    sim = 0.0
    samples = []
    rep = [0, 0]
    for m in dones.values():
        rep = [a + b for a, b in zip(rep, m["repeated"])]
        nt.update(m["nontrivial"])
        tr.update(m["traces"])
        counts.update(m["counts"])
        faults.update(m["faults"])
        ev += m["evals"]
        steps += m["steps"]
        runs += m["runs"]
        sim += m["sim_s"]
        samples += m["samples"]
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(nt),
        "rule": check.rule,
        "samples": samples[:2],
        "simulated_program_runs": runs,
        "executions_per_hour": round(ev / wall * 3600),
        "program_runs_per_hour": round(runs / wall * 3600),
        "simulated_seconds": round(sim, 1),
        "scheduler_steps": steps,
        "distinct_interleavings": len(tr),
        "interleaving_measure": "distinct checksums over the ordered sequence of file operations (process, operation, path) of one execution",
        "executions_repeated": rep[0],
        "repeated_identically": rep[1],
        "faults_injected": dict(faults),
        "outcomes": dict(counts),
        "worker_processes": n,
        "hash_seeds": [hash_seed(seed, i) for i in range(n)],
        "real_components": check.real,
        "stubbed_components": check.stubs,
    }
    d = {"property": pid, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
         "assumptions": check.assumptions, "wall_s": round(wall, 1),
         "violations": [{"what": w, "replay": p} for p, w in lines]}
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(d, f, indent=1, default=repr)


def replay_main(args):
    body = json.load(open(args.file))
    if os.environ.get("PYTHONHASHSEED") != str(body["hashseed"]):
        env = dict(os.environ, PYTHONHASHSEED=str(body["hashseed"]))
        os.chdir(VERIF)
        os.execve(sys.executable, [sys.executable, "-W", "ignore", "-B", "-m", "sim.runner",
                                   "replay", os.path.abspath(args.file)], env)
    from . import patches
    patches.load_program(REPO)
    from . import harness as H
    import logging
    logging.disable(logging.CRITICAL)
    check = load_check(body["property"])
    real_out = sys.stdout

    def emit(d):
        print("the run does not end", file=real_out)
        print(f"VIOLATION property={body['property']} replay={os.path.abspath(args.file)}", file=real_out)
        real_out.flush()
        os._exit(1)
    wd = Watchdog(emit, 100.0)
    wd.begin(body["scenario"])
    try:
        res = check.execute(body["scenario"])
    except H.Violation as v:
        s = getattr(v, "session", None)
        print(v.what)
        print(json.dumps(v.detail, indent=1, default=repr))
        if s is not None:
            print(f"trace {s.w.kernel.trace_crc:08x} steps {s.w.kernel.steps} switches {s.w.kernel.switches}")
            if args.trace:
                for e in s.w.ops:
                    print(*e)
        print(f"VIOLATION property={body['property']} replay={os.path.abspath(args.file)}")
        return 1
    print("the property holds on this execution")
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "worker":
        p = argparse.ArgumentParser()
        p.add_argument("property")
        p.add_argument("--tier")
        p.add_argument("--seed", type=int)
        p.add_argument("--worker", type=int)
        p.add_argument("--cases", type=int, default=None)
        p.add_argument("--secs", type=float)
        p.add_argument("--shrink-secs", type=float)
        worker_main(p.parse_args(a[1:]))
        return
    if a and a[0] == "replay":
        p = argparse.ArgumentParser()
        p.add_argument("file")
        p.add_argument("--trace", action="store_true")
        sys.exit(replay_main(p.parse_args(a[1:])))
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    sys.exit(check_main(p.parse_args(a)))


if __name__ == "__main__":
    main()

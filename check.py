#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  check.py ID                run the check (VERIF_SEED, VERIF_TIER)
  check.py --setup           build all harness packages once
  check.py --replay FILE     run the case saved in a replay file again

Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: the check itself could not give an answer.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from registry import PROPS  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
REPO_FRAME = re.compile(r"/repo/[\w./-]+\.go:\d+|redmaner/MaguroHTTP/(router|cache|guard|tuna|html|debug)")


class CheckError(Exception):
    pass


def go_env(scratch):
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    godir = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(godir):
        env["PATH"] = godir + ":" + env.get("PATH", "/usr/bin:/bin")
    for k in ("GOFLAGS", "GODEBUG", "GOEXPERIMENT", "GORACE", "GOMAXPROCS", "GOTRACEBACK"):
        env.pop(k, None)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GO111MODULE="on", GOWORK="off",
               GOFLAGS="-mod=readonly", CGO_ENABLED="1", TMPDIR=scratch)
    env.setdefault("GOPATH", "/root/go")
    for k in ("HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "http_proxy", "https_proxy", "no_proxy", "ALL_PROXY", "all_proxy"):
        env.pop(k, None)
    return env


def run_go(args, env, cwd):
    p = subprocess.run(["go"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def build(units, scratch, env):
    """Builds the test binaries (and the server binary) from the current tree."""
    want = {}
    for u in units:
        want[(u["pkg"], bool(u.get("race")))] = None
        if u.get("server"):
            want[("server", bool(u.get("server_race")))] = None
    bins = {}
    errors = []

    def one(key):
        pkg, race = key
        out = os.path.join(scratch, "bin", pkg + ("-race" if race else ""))
        if pkg == "server":
            rc, log = run_go(["build", "-mod=mod", "-modfile=" + os.path.join(scratch, "repo.mod")] + (["-race"] if race else []) + ["-o", out, "."], env, REPO)
        else:
            rc, log = run_go(["test", "-c", "-vet=off"] + (["-race"] if race else []) + ["-o", out, "./" + pkg], env, HARNESS)
        if rc != 0:
            errors.append("build of %s failed:\n%s" % (pkg, log[-4000:]))
        bins[key] = out

    os.makedirs(os.path.join(scratch, "bin"), exist_ok=True)
    for f in ("mod", "sum"):
        shutil.copy(os.path.join(REPO, "go." + f), os.path.join(scratch, "repo." + f))
    ts = [threading.Thread(target=one, args=(k,)) for k in want]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise CheckError("\n".join(errors))
    return bins


def classify(rc, out, timed_out):
    """-> (kind, summary) with kind ok | violation | error"""
    if timed_out:
        return "error", "the time limit of the check was reached"
    if "HARNESS-ERROR" in out or rc == 4:
        m = re.search(r"HARNESS-ERROR.*", out)
        return "error", m.group(0) if m else "harness error"
    if rc == 0:
        if re.search(r"testing: warning: no tests to run", out):
            return "error", "no tests ran"
        return "ok", ""
    if "VT-HANG" in out:
        if REPO_FRAME.search(out.split("VT-HANG", 1)[1]):
            return "violation", re.search(r"VT-HANG.*(\n.*)?", out).group(0)
        return "error", "a case hung outside the code under test"
    if "WARNING: DATA RACE" in out:
        for rep in re.findall(r"WARNING: DATA RACE.*?==================", out, re.S) or [out]:
            if REPO_FRAME.search(rep):
                return "violation", "data race in the code under test"
        return "error", "data race in the harness"
    if "--- FAIL" in out:
        if "[rapid] only generated" in out or "rapid: group did not use" in out:
            return "error", "generator failure"
        m = re.search(r"\[rapid\] (?:failed|panic|flaky)[^\n]*", out)
        n = re.search(r"^\s+\w+_test\.go:\d+: (?!\[rapid\])[^\n]*", out, re.M)
        return "violation", (n or m).group(0).strip() if (n or m) else "test failed"
    m = re.search(r"^(panic:|fatal error:)[^\n]*", out, re.M)
    if m:
        if "out of memory" in m.group(0) or "thread exhaustion" in m.group(0):
            return "error", m.group(0)
        if REPO_FRAME.search(out[m.start():]):
            return "violation", m.group(0)
        return "error", "harness crashed: " + m.group(0)
    if rc == 1:
        return "violation", "the code under test ended the process"
    return "error", "test process ended with code %s" % rc


class Runner:
    def __init__(self, scratch, env, bins, deadline):
        self.scratch, self.env, self.bins, self.deadline = scratch, env, bins, deadline
        self.results = []
        self.lock = threading.Lock()
        self.stop = False

    def shard(self, unit, idx, seed, extra=()):
        d = os.path.join(self.scratch, "run", "%s-%s%s-%d" % (unit["pkg"], unit["run"], "-race" if unit.get("race") else "", idx))
        os.makedirs(os.path.join(d, "out"))
        os.makedirs(os.path.join(d, "tmp"))
        env = dict(self.env, VT_OUT=os.path.join(d, "out"), VT_SEED=str(seed), VT_SHARD=str(idx), VT_FAILFILES="1",
                   TMPDIR=os.path.join(d, "tmp"), GORACE="halt_on_error=1 exitcode=66")
        env.update(unit.get("env", {}))
        if unit.get("server"):
            env["VT_SERVER"] = self.bins[("server", bool(unit.get("server_race")))]
        cmd = [self.bins[(unit["pkg"], bool(unit.get("race")))], "-test.run=^%s$" % unit["run"], "-test.timeout=0", "-test.v=false"] + list(extra)
        timed_out = False
        log = os.path.join(d, "log")
        with open(log, "wb") as f:
            p = subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            while True:
                try:
                    rc = p.wait(timeout=0.5)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() > self.deadline or self.stop:
                        timed_out = True
                        rc = None
                        break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            if rc is None:
                p.wait()
        with open(log, "rb") as f:
            out = f.read().decode("utf-8", "replace")
        kind, why = classify(rc, out, timed_out)
        if timed_out and self.stop:
            kind = "stopped"
        cov = {}
        try:
            with open(os.path.join(d, "out", "coverage.json")) as f:
                cov = json.load(f)
        except (OSError, ValueError):
            if kind == "ok":
                kind, why = "error", "no coverage was written"
        note = ""
        try:
            with open(os.path.join(d, "out", "current.txt")) as f:
                note = f.read()
        except OSError:
            pass
        fail = ""
        for root, _, files in os.walk(os.path.join(d, "testdata")):
            for n in files:
                if n.endswith(".fail"):
                    with open(os.path.join(root, n), errors="replace") as f:
                        fail = f.read()
        with self.lock:
            self.results.append(dict(unit=unit, idx=idx, seed=seed, rc=rc, kind=kind, why=why, out=out, cov=cov, note=note, fail=fail))
            if kind == "violation":
                self.stop = True
        shutil.rmtree(d, ignore_errors=True)


def save_replay(pid, tier, seed, r):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-seed%d-%s%s-%d.replay" % (pid, tier, seed, r["unit"]["run"], "-race" if r["unit"].get("race") else "", r["idx"]))
    head = dict(property=pid, tier=tier, unit=r["unit"], vt_seed=r["seed"], why=r["why"])
    out = r["out"]
    if len(out) > 60000:
        out = out[:40000] + "\n... cut ...\n" + out[-20000:]
    with open(path, "w") as f:
        f.write(json.dumps(head) + "\n")
        f.write("#### case being executed when the process ended\n%s\n" % r["note"])
        f.write("#### output (shrunk case and failure)\n%s\n" % out)
        f.write("#### rapid failfile\n%s" % r["fail"])
    return path


def summarise(out):
    lines = out.splitlines()
    keep = [l for l in lines if l.strip()]
    return "\n".join(keep[:45])


def known_findings(pid):
    res = []
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+)\s+(.*)", line)
                if m and m.group(1) == pid:
                    res.append(m.group(2).strip())
    except OSError:
        pass
    return res


def run_check(pid):
    spec = PROPS[pid]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    budget = float(os.environ.get("VT_BUDGET", 780 if tier == "quick" else 5400))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        os.chmod(scratch, 0o755)
        env = go_env(scratch)
        env["VERIF_TIER"] = tier
        units = spec["units"]
        bins = build(units, scratch, env)
        t1 = time.time()
        runner = Runner(scratch, env, bins, t0 + budget)
        jobs = []
        for u in units:
            n = u.get("shards", 8) if tier == "quick" else u.get("tshards", 8)
            for i in range(n):
                # a different seed for every shard, a function of VERIF_SEED only
                jobs.append((u, i, (abs(seed) * 1009 + i * 7919 + 1) % (1 << 62)))
        jobs.sort(key=lambda j: j[1])
        par = max(2, min(8, os.cpu_count() or 4))
        it = iter(jobs)
        itlock = threading.Lock()

        def worker():
            while True:
                with itlock:
                    j = next(it, None)
                if j is None or runner.stop:
                    return
                try:
                    runner.shard(*j)
                except Exception as e:  # noqa: BLE001
                    with runner.lock:
                        runner.results.append(dict(unit=j[0], idx=j[1], seed=j[2], rc=None, kind="error", why="driver: %r" % e, out="", cov={}, note="", fail=""))
        ts = [threading.Thread(target=worker) for _ in range(par)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        res = runner.results
        violations = [r for r in res if r["kind"] == "violation"]
        errors = [r for r in res if r["kind"] == "error"]

        evals, hashes, classes, counts, samples = 0, set(), {}, {}, []
        seen = {}
        for r in sorted(res, key=lambda r: (r["unit"]["run"], r["idx"])):
            c = r["cov"]
            evals += c.get("evals") or 0
            hashes.update(c.get("hashes") or [])
            for k, v in (c.get("classes") or {}).items():
                classes[k] = classes.get(k, 0) + v
            for k, v in (c.get("counts") or {}).items():
                counts[k] = counts.get(k, 0) + v
            for k, ss in (c.get("samples") or {}).items():
                for s in ss:
                    if seen.get(k, 0) < 5:
                        seen[k] = seen.get(k, 0) + 1
                        samples.append("%s: %s" % (k, s))
        if not violations and not errors and not hashes:
            errors.append(dict(unit=dict(run="-"), idx=0, why="no non-trivial case was generated", out=""))
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=spec["rule"], samples=samples,
                                classes=dict(sorted(classes.items())), counters=counts,
                                processes=len(res), units=[u["run"] + (" (race detector)" if u.get("race") else "") for u in units],
                                build_s=round(t1 - t0, 1)),
                  assumptions=spec.get("assumptions", []),
                  wall_s=round(time.time() - t0, 1), violations=len(violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))

        for k in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        if violations:
            r = violations[0]
            path = save_replay(pid, tier, seed, r)
            print("%s: %s" % (r["unit"]["run"], r["why"]))
            if r["note"]:
                print("case: " + r["note"][:3000])
            print(summarise(r["out"])[:6000])
            print("replay with: python3 %s --replay %s" % (os.path.join(VERIF, "check.py"), path))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            return 1
        if errors:
            for r in errors[:3]:
                print("CHECK-ERROR %s shard %s: %s\n%s" % (r["unit"]["run"], r["idx"], r["why"], summarise(r["out"])[:4000]))
            return 2
        print("%s held: %d cases, %d distinct non-trivial, %d processes, %.1f s" % (pid, evals, len(hashes), len(res), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    text = open(path, errors="replace").read()
    head = json.loads(text.split("\n", 1)[0])
    fail = text.split("#### rapid failfile\n", 1)[1]
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        env = go_env(scratch)
        env["VERIF_TIER"] = head["tier"]
        bins = build([head["unit"]], scratch, env)
        runner = Runner(scratch, env, bins, time.time() + 1800)
        extra = []
        if fail.strip():
            ff = os.path.join(scratch, "case.fail")
            open(ff, "w").write(fail)
            extra = ["-rapid.failfile=" + ff]
        runner.shard(head["unit"], 0, head["vt_seed"], extra)
        r = runner.results[0]
        print(r["out"][-8000:])
        print("replay: %s %s" % (r["kind"], r["why"]))
        return {"ok": 0, "violation": 1}.get(r["kind"], 2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        units = [u for p in PROPS.values() for u in p["units"]]
        build(units, scratch, go_env(scratch))
        print("harness builds")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    try:
        if sys.argv[1] == "--setup":
            return setup()
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return run_check(sys.argv[1])
    except CheckError as e:
        print("CHECK-ERROR " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working tree, runs the
monitored workloads, merges what the monitors observed, writes the evidence file.

  check.py C01              (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE    (re-run exactly the job that reported a violation)

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.  Anything else: no
verdict (build failure, harness error, nothing observed).
"""
import json, os, re, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never")
for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)

LEVEL = {"C13": "fault_enumeration"}
# Share of the jobs that the build with debug assertions and overflow checks repeats (with other
# random choices).
CHECKED_SCALE = {"C21": 1.0, "C07": 0.6, "C15": 0.6, "C16": 0.6, "C17": 1.0, "C19": 1.0}
QUICK_WALL = 60
THOROUGH_WALL = 1500


NO_EXTREMES = set()


class NoVerdict(Exception):
    pass


def build(profile, binname, features=None, target=TARGET, toolchain=None, extra=(), env=None):
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--profile", profile, "--bin", binname]
    if features is not None:
        cmd += ["--no-default-features", "--features", features]
    cmd += list(extra)
    e = dict(ENV, CARGO_TARGET_DIR=target)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 and "E0080" in p.stdout and features is None and not extra:
        # Constants are evaluated by the compiler.  Those that are at the very limits of their types
        # are left out then, to see what the rest does.
        exe = build(profile, binname, "full", target, toolchain, extra, env)
        NO_EXTREMES.add(p.stdout[p.stdout.find("E0080"):][:400].strip())
        return exe
    if p.returncode != 0:
        raise NoVerdict("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return os.path.join(target, profile, binname)


def in_parallel(fns):
    res, errs = [None] * len(fns), []

    def go(i, f):
        try:
            res[i] = f()
        except NoVerdict as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(fns)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return res


def run_bin(exe, tag, seed, tier, rem, scale, wall, only=None, threads=8):
    """Returns (report or None, crash text or None, crashing jobs)."""
    os.makedirs(os.path.join(TARGET, "out"), exist_ok=True)
    out = os.path.join(TARGET, "out", tag + ".json")
    status = os.path.join(TARGET, "out", tag + ".status")
    for f in (out, status):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--rem", str(rem), "--scale", str(scale), "--wall", str(wall),
           "--out", out, "--status", status, "--threads", str(threads)]
    if only is not None:
        cmd += ["--only", str(only)]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    try:
        _, err = p.communicate(timeout=wall + 400)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise NoVerdict("%s: timed out" % tag)
    if p.returncode in (0, 1) and os.path.exists(out):
        return json.load(open(out)), None, []
    if p.returncode < 0 and p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL):
        jobs = []
        if os.path.exists(status):
            for l in open(status, errors="replace").read().split("\n"):
                l = l.strip().strip("\0")
                if l.isdigit():
                    jobs.append(int(l))
        name = signal.Signals(-p.returncode).name
        last = [l for l in err.strip().split("\n") if l.strip()][-3:]
        return None, "the process ended by %s (%s)" % (name, " / ".join(last)), jobs
    raise NoVerdict("%s: exit %s\n%s" % (tag, p.returncode, err[-2000:]))


def write_replay(prop, n, d):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(prop, what):
    for k in known():
        if k.get("property") == prop and k.get("status") == "known" and re.search(k["match"], what):
            return k
    return None


def runs(prop, tier, seed):
    """The ordinary check: release and checked builds of the property's monitor."""
    name = prop.lower()
    wall = QUICK_WALL if tier == "quick" else THOROUGH_WALL
    exes = in_parallel([lambda: build("release", name), lambda: build("checked", name)])
    reps, vios = [], []
    if prop == "C16":
        for e in sorted(NO_EXTREMES):
            vios.append((dict(profile="release", rem=0, job=0), "a PRECHECK_LIMIT of 32767, whose derived constants are within their types, does not compile: " + e))
    for rem, (profile, exe) in enumerate(zip(("release", "checked"), exes)):
        scale = 1.0 if rem == 0 else CHECKED_SCALE.get(prop, 0.3)
        tag = "%s-%s" % (name, profile)
        rep, crash, jobs = run_bin(exe, tag, seed, tier, rem, scale, wall)
        if crash:
            hit = None
            for j in jobs:
                _, c2, _ = run_bin(exe, tag + "-re", seed, tier, rem, scale, wall, only=j, threads=1)
                if c2:
                    hit = (j, c2)
                    break
            if not hit:
                raise NoVerdict("%s: %s, not reproduced by any single job" % (tag, crash))
            vios.append((dict(profile=profile, rem=rem, job=hit[0]), hit[1]))
            continue
        rep["profile"] = profile
        reps.append(rep)
        for v in rep["violations"]:
            vios.append((dict(profile=profile, rem=rem, job=v["job"]), v["what"]))
        if any(match_known(prop, w) is None for _, w in vios):
            break
    return reps, vios


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        if d.get("special"):
            import special
            sys.exit(special.replay(d))
        exe = build(d["profile"], d["property"].lower())
        rep, crash, _ = run_bin(exe, "replay", d["seed"], d["tier"], d["rem"], 1.0, 600, only=d["job"], threads=1)
        if crash:
            print(crash)
            sys.exit(1)
        print(json.dumps(rep["violations"], indent=1))
        sys.exit(1 if rep["violations"] else 0)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        extra = {}
        sys.path.insert(0, HERE)
        import special
        f = getattr(special, "check_" + prop.lower(), None)
        if f:
            reps, vios, extra = f(tier, seed)
        else:
            reps, vios = runs(prop, tier, seed)
        evals = sum(r["evals"] for r in reps)
        if not vios and evals == 0:
            raise NoVerdict("nothing was observed")
    except NoVerdict as e:
        print("NO-VERDICT property=%s %s" % (prop, e))
        sys.exit(2)
    kn = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    new = [(where, what) for where, what in vios if match_known(prop, what) is None]
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    counters = {}
    for r in reps:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["maxes"].items():
            counters[k] = max(counters.get(k, 0), v)
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": sum(r["distinct"] for r in reps),
        "rule": "; ".join(sorted({r["rule"] for r in reps})),
        "samples": [s for r in reps for s in r["samples"]][:10] or ["(none)"],
        "observed": counters,
        "builds": [{k: r[k] for k in ("profile", "jobs", "jobs_planned", "evals", "distinct", "wall_s")} for r in reps],
    }
    cov.update(extra)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": cov,
        "assumptions": ["held on the executions observed; nothing is claimed of others",
                        "the harness' Node implementations keep the documented contract"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        for n, (where, what) in enumerate(new[:5]):
            path = write_replay(prop, n, dict(where, property=prop, seed=seed, tier=tier, what=what))
            print("  " + what[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    print("OK property=%s evaluations=%d distinct=%d" % (prop, evals, cov["distinct_nontrivial"]))
    sys.exit(0)


if __name__ == "__main__":
    main()

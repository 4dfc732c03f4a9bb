"""Checks that need other builds than the two ordinary ones."""
import os, re, subprocess, threading, time
import check
from check import ENV, HERE, TARGET, NoVerdict, in_parallel

# -- C22: one workload in every configuration -----------------------------------------------------

CFG = os.path.join(HERE, "cfg")
NOSTD = os.path.join(HERE, "cfg_nostd")
# name: (features, profile, toolchain)
FULL = "std+wyrng release"
CONFIGS = {
    FULL: ("std,wyrng", "release", None),
    "std+wyrng checked": ("std,wyrng", "checked", None),
    "std+wyrng unoptimised": ("std,wyrng", "dev", None),
    "std+wyrng size+lto+panic=abort": ("std,wyrng", "size", None),
    "std+oorandom release": ("std,oorandom", "release", None),
    "std+oorandom checked": ("std,oorandom", "checked", None),
    "std+fastrand release": ("std,fastrand", "release", None),
    "std+fastrand+oorandom checked": ("std,fastrand,oorandom", "checked", None),
    "std+all generators release": ("std,wyrng,oorandom,fastrand", "release", None),
    "alloc checked": ("alloc", "checked", None),
    "alloc+wyrng release": ("alloc,wyrng", "release", None),
    "alloc+oorandom unoptimised": ("alloc,oorandom", "dev", None),
    "core release": ("", "release", None),
    "core unoptimised": ("", "dev", None),
    "core+wyrng checked": ("wyrng", "checked", None),
    "core+oorandom release": ("oorandom", "release", None),
    "std+wyrng+anticipate nightly": ("std,wyrng,anticipate", "release", "nightly"),
    "std+wyrng+oorandom release": ("std,wyrng,oorandom", "release", None),
    "std+wyrng+fastrand checked": ("std,wyrng,fastrand", "checked", None),
    "alloc+wyrng+oorandom release": ("alloc,wyrng,oorandom", "release", None),
    "alloc+fastrand release": ("alloc,fastrand", "release", None),
    "core+fastrand unoptimised": ("fastrand", "dev", None),
    "core+wyrng+oorandom unoptimised": ("wyrng,oorandom", "dev", None),
}
MORE = {
    "std+oorandom size": ("std,oorandom", "size", None),
    "std+fastrand unoptimised": ("std,fastrand", "dev", None),
    "alloc release": ("alloc", "release", None),
    "core checked": ("", "checked", None),
    "core+anticipate nightly": ("anticipate", "dev", "nightly"),
    "alloc+oorandom+anticipate nightly": ("alloc,oorandom,anticipate", "checked", "nightly"),
    "std+wyrng nightly": ("std,wyrng", "release", "nightly"),
}
# Only compiled (together with the workload): the other combinations of features.  (std without any
# generator is none: its premade functions need one.)
COMPILED = ["wyrng,fastrand", "oorandom,fastrand", "wyrng,oorandom,fastrand",
            "alloc,wyrng,fastrand", "alloc,oorandom,fastrand", "alloc,wyrng,oorandom,fastrand"]
NOSTDS = {"no_std program, core": "", "no_std program, core+wyrng": "wyrng", "no_std program, alloc+oorandom": "alloc,oorandom"}
_sem = threading.Semaphore(8)


def cfg_build(crate, binname, name, features, profile, toolchain):
    """Returns (path of the program, None) or (None, the compiler's complaints)."""
    target = os.path.join(TARGET, "cfg", re.sub(r"[^a-z0-9]+", "_", name.lower()))
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + [
        "build", "--offline", "--profile", profile, "--features", features, "-j", "2"]
    with _sem:
        p = subprocess.run(cmd, cwd=crate, env=dict(ENV, CARGO_TARGET_DIR=target),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, "%s\n%s" % (" ".join(cmd), p.stdout[-3000:])
    return os.path.join(target, "debug" if profile == "dev" else profile, binname), None


def cfg_check(features):
    """None, or the compiler's complaints."""
    cmd = ["cargo", "check", "--offline", "--features", features, "-j", "2"]
    with _sem:
        p = subprocess.run(cmd, cwd=CFG, env=dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, "cfg", "check_" + features.replace(",", "_"))),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if p.returncode == 0 else "%s\n%s" % (" ".join(cmd), p.stdout[-3000:])


def cfg_run(exe, args, wall):
    with _sem:
        try:
            p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=wall)
        except subprocess.TimeoutExpired:
            raise NoVerdict("%s: timed out" % exe)
    return p.returncode, p.stdout, p.stderr


def check_c22(tier, seed):
    t0 = time.time()
    cases = 1500 if tier == "quick" else 20000
    wall = 200 if tier == "quick" else 2400
    configs = dict(CONFIGS, **(MORE if tier == "thorough" else {}))
    names = list(configs)
    built = in_parallel([lambda n=n: cfg_build(CFG, "vcfg", n, *configs[n]) for n in names]
                        + [lambda n=n: cfg_build(NOSTD, "vnostd", n, NOSTDS[n], "release", None) for n in NOSTDS]
                        + [lambda f=f: cfg_check(f) for f in COMPILED])
    exes, vios, notes = {}, [], []
    for f, err in zip(COMPILED, built[len(names) + len(NOSTDS):]):
        if err:
            vios.append((dict(special="c22", how="(cd %s && %s)" % (CFG, err.split("\n")[0])),
                         "the combination of features '%s' does not compile, '%s' does: %s" % (f, FULL, err[-900:])))
    for n, (exe, err) in zip(names + list(NOSTDS), built):
        if exe:
            exes[n] = exe
        elif n == FULL:
            raise NoVerdict("build failed: %s" % err)
        elif n in configs and configs[n][2]:
            notes.append("%s: not built (nightly)" % n)
        else:
            vios.append((dict(special="c22", how="(cd %s && %s)" % (CFG if n in configs else NOSTD, err.split("\n")[0])),
                         "the configuration '%s' does not compile, '%s' does: %s" % (n, FULL, err[-900:])))
    run = [n for n in names if n in exes]
    outs = dict(zip(run, in_parallel([lambda n=n: cfg_run(exes[n], [seed, cases], wall) for n in run])))
    per, evals, callbacks, lines = {}, 0, 0, {}
    for n, (rc, out, err) in outs.items():
        how = "%s %d %d" % (exes[n], seed, cases)
        if rc != 0:
            last = " / ".join([l for l in err.split("\n") if "panicked" in l or "out of budget" in l or "overflow" in l][:3] or err.split("\n")[:3])
            vios.append((dict(special="c22", how=how), "configuration '%s': the workload ended with %s (%s)" % (n, rc, last[:600])))
            continue
        for l in out.strip().split("\n"):
            f = l.split("\t")
            if f[0] == "BAD":
                vios.append((dict(special="c22", how=how), "configuration '%s': %s" % (n, f[1])))
                continue
            per.setdefault(f[0], {}).setdefault(f[1], []).append(n)
            evals += int(f[2])
            callbacks += int(f[3])
            lines[f[0]] = f[2]
    for slot, by in sorted(per.items()):
        if len(by) > 1:
            groups = sorted(by.values(), key=len, reverse=True)
            x, y = groups[0][0], groups[1][0]
            a = cfg_run(exes[x], [seed, cases, slot], wall)[1].strip().split("\n")
            b = cfg_run(exes[y], [seed, cases, slot], wall)[1].strip().split("\n")
            k = next(((i, j) for i, j in zip(a, b) if i != j), ("?", "?"))
            c = k[0].split("\t")[0]
            vios.append((dict(special="c22", how="%s %d %d '%s' against %s; the case: %s %d %d show %s" % (
                exes[x], seed, cases, slot, exes[y], exes[x], seed, cases, c)),
                "%s differs between configurations: %s and %s; case %s: '%s' and '%s'" % (
                    slot, groups[0], [n for g in groups[1:] for n in g], c, k[0], k[1])))
    for n in NOSTDS:
        if n in exes:
            rc, out, _ = cfg_run(exes[n], [], 100)
            m = re.search(r"comparisons (\d+)", out)
            if rc != 0 or not m:
                vios.append((dict(special="c22", how=exes[n]), "%s: exit %s, %s" % (n, rc, out.strip())))
            else:
                evals += int(m[1])
                lines[n] = m[1]
    multi = sum(1 for by in per.values() if sum(len(v) for v in by.values()) > 1)
    rep = dict(evals=evals, counters={"configurations built and run": len(exes), "further combinations of features compiled": len(COMPILED),
                                      "slots (function x node type)": len(per),
                                      "slots observed in several configurations": multi,
                                      "callbacks recorded": callbacks, "graph pairs per configuration": cases},
               maxes={}, distinct=sum(int(v) for v in lines.values()),
               rule="a distinct observation is one function on one node type and one generated pair of graphs (or one history of draws), however many configurations repeat it",
               samples=["%s: %s observations in %d configurations, digest %s" % (s, lines[s], sum(map(len, by.values())), "/".join(by))
                        for s, by in sorted(per.items())][::6],
               profile="all", jobs=len(exes), jobs_planned=len(configs) + len(NOSTDS), wall_s=round(time.time() - t0, 2))
    return [rep], vios, {"configurations": sorted(exes), "notes": notes}


# -- C23: Miri and the sanitizers -----------------------------------------------------------------

UB = os.path.join(HERE, "ub")
TRIPLE = "x86_64-unknown-linux-gnu"
MIRI_MODES = [
    "", "-Zmiri-tree-borrows", "-Zmiri-preemption-rate=0.3", "-Zmiri-strict-provenance -Zmiri-symbolic-alignment-check",
    "-Zmiri-tree-borrows -Zmiri-preemption-rate=0.1", "-Zmiri-compare-exchange-weak-failure-rate=0.9", "-Zmiri-tree-borrows", "",
]
SANS = {
    "AddressSanitizer+LeakSanitizer": ("address", False),
    "ThreadSanitizer": ("thread", True),
    "MemorySanitizer": ("memory", True),
}
MARK = re.compile(r"Undefined Behavior|memory leaked|Data race|ERROR: (?:Address|Leak)Sanitizer|SUMMARY: (?:Address|Leak|Thread|Memory)Sanitizer"
                  r"|WARNING: (?:Thread|Memory)Sanitizer")


def ub_report(text):
    """What a monitor complains about, if it does."""
    if "stack-overflow" in text and "AddressSanitizer" in text:
        return None
    m = MARK.search(text)
    if not m:
        return None
    lines = text[m.start():].split("\n")
    keep = [lines[0]] + [l for l in lines[1:60] if "/repo/" in l or "/verif/ub" in l or "help:" in l][:8]
    return " | ".join(l.strip() for l in keep)[:1200]


def check_c23(tier, seed):
    t0 = time.time()
    quick = tier == "quick"
    procs, miri_cases, miri_size = (8, 16, 8) if quick else (24, 120, 10)
    # seed of each run, cases, size
    san_runs = [(600, 12), (120, 300)] if quick else [(30000, 12), (4000, 60), (1500, 400), (60, 20000)]
    sans = [k for k in SANS if not quick or k != "MemorySanitizer"]
    wall = 400 if quick else 3000

    def miri_build():
        e = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, "miri"), MIRIFLAGS="-Zmiri-disable-isolation")
        p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--", "1", "0", "0", "4"], cwd=UB, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise NoVerdict("Miri does not run the workload: %s" % p.stdout[-2500:])

    def san_build(k):
        kind, std = SANS[k]
        target = os.path.join(TARGET, "san-" + kind)
        e = dict(ENV, CARGO_TARGET_DIR=target, RUSTFLAGS="-Awarnings -Zsanitizer=" + kind)
        cmd = ["cargo", "+nightly", "build", "--offline", "--release", "--target", TRIPLE] + (["-Zbuild-std"] if std else [])
        p = subprocess.run(cmd, cwd=UB, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise NoVerdict("%s build failed: %s" % (k, p.stdout[-2500:]))
        return os.path.join(target, TRIPLE, "release", "vub")

    def observe(name, how, cmd, env, cwd):
        with _sem:
            try:
                p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   errors="replace", timeout=wall)
                return name, how, p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                return name, how, None, "", ""

    def miri_run(k):
        flags = "-Zmiri-disable-isolation -Zmiri-seed=%d %s" % (seed * 1000 + k, MIRI_MODES[k % len(MIRI_MODES)])
        e = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, "miri"), MIRIFLAGS=flags)
        args = [str(x) for x in (seed, k * miri_cases, miri_cases, miri_size)]
        how = "cd %s && CARGO_TARGET_DIR=%s MIRIFLAGS='%s' cargo +nightly miri run --offline -- %s" % (
            UB, os.path.join(TARGET, "miri"), flags, " ".join(args))
        return observe("Miri" + (" " + MIRI_MODES[k % len(MIRI_MODES)]).rstrip(), how,
                       ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--"] + args, e, UB)

    def miri_all():
        miri_build()
        return in_parallel([lambda k=k: miri_run(k) for k in range(procs)])

    def san_all(k):
        exe = san_build(k)
        env = dict(ENV, ASAN_OPTIONS="detect_leaks=1:detect_stack_use_after_return=1", TSAN_OPTIONS="halt_on_error=1")
        return in_parallel([lambda c=c, s=s: observe(k, "ASAN_OPTIONS=detect_leaks=1 TSAN_OPTIONS=halt_on_error=1 %s %d 0 %d %d" % (exe, seed, c, s),
                                                     [exe] + [str(x) for x in (seed, 0, c, s)], env, UB) for c, s in san_runs])

    runs = [x for l in in_parallel([miri_all] + [lambda k=k: san_all(k) for k in sans]) for x in l]
    vios, notes, per, evals, distinct = [], [], {}, 0, 0
    for name, how, rc, out, err in runs:
        bad = ub_report(err)
        if bad:
            vios.append((dict(special="c23", how=how), "%s: %s" % (name, bad)))
            continue
        if "unsupported operation" in err:
            raise NoVerdict("%s: %s" % (name, err[-1500:]))
        m = re.search(r"comparisons (\d+) callbacks (\d+) by-kind (.*)", out)
        if rc != 0 or not m:
            notes.append("%s: ended with %s and without a report of the monitor (%s)" % (name, rc, err.strip()[-300:]))
            continue
        evals += int(m[1])
        d = per.setdefault(name, [0, 0, 0])
        d[0] += 1
        d[1] += int(m[1])
        d[2] += int(m[2])
        if name.startswith("Miri"):
            distinct += int(m[1])
    distinct = max([distinct] + [d[1] for k, d in per.items() if not k.startswith("Miri")])
    rep = dict(evals=evals, counters={"%s: comparisons" % k: d[1] for k, d in per.items()}, maxes={}, distinct=distinct,
               rule="a distinct observation is one comparison (function, pointer kind, graph, point of panic) of the largest monitored run",
               samples=["%s: %d runs, %d comparisons, %d callbacks" % (k, *d) for k, d in sorted(per.items())],
               profile="Miri and sanitizers", jobs=len(runs) - len(notes), jobs_planned=len(runs), wall_s=round(time.time() - t0, 2))
    for k, d in per.items():
        rep["counters"]["%s: callbacks" % k] = d[2]
    return [rep], vios, {"notes": notes}


def replay(d):
    print(d.get("what"))
    print("to see it again: " + d.get("how", ""))
    return 1

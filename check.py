#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's working tree by simulation.

Exit 0: held on every simulated run. Exit 1 and a VIOLATION line: broken, with a replay file.
Anything else: the check itself failed."""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("APSIM_REPO", "/repo")
sys.path.insert(0, HERE)
from propinfo import INFO, COMMON_ASSUMPTIONS, COMPONENTS  # noqa: E402


def say(*a):
    print(*a, flush=True)


def error(msg):
    say("ERROR: " + msg)
    sys.exit(3)


def files_under(root):
    out = []
    for d, _, fs in sorted(os.walk(root)):
        out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def digest():
    h = hashlib.sha256()
    for f in files_under(HERE + "/sim") + [HERE + "/build.sh"] + files_under(REPO + "/src") + files_under(REPO + "/include"):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as x:
            h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:16]


def build(variants):
    root = os.environ.get("APSIM_BUILD", HERE + "/build")
    os.makedirs(root, exist_ok=True)
    out = os.path.join(root, digest())
    os.makedirs(out, exist_ok=True)
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        need = [v for v in ["sim"] + variants if not os.path.exists(os.path.join(out, "ok-" + v))]
        if need:
            p = subprocess.run(["bash", HERE + "/build.sh", out, REPO] + need, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                say(p.stdout[-4000:])
                error("the build from " + REPO + " failed")
            for v in need:
                open(os.path.join(out, "ok-" + v), "w").close()
    # keep only recent builds
    olds = sorted((d for d in os.listdir(root) if re.fullmatch("[0-9a-f]{16}", d)), key=lambda d: os.path.getmtime(os.path.join(root, d)))
    for d in olds[:-3]:
        if os.path.join(root, d) != out:
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--no-corpus", action="store_true")
    a = ap.parse_args()
    if a.setup:
        say("built " + build(["def", "mpi", "jit", "kk"]))
        return 0
    if a.prop not in INFO:
        error("unknown property " + a.prop)
    info = INFO[a.prop]
    t0 = time.time()
    say("property %s tier %s seed %d" % (a.prop, a.tier, a.seed))
    out = build(info["variants"])
    built = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="apsim-")
    try:
        return decide(a, info, out, scratch, t0, built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def apsim(out, scratch, args, timeout):
    p = subprocess.run([out + "/apsim"] + args + ["--build", out, "--scratch", scratch], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout, p.stderr


def decide(a, info, out, scratch, t0, built):
    budget = a.budget or (info["quick_s"] if a.tier == "quick" else info["thorough_s"])
    outdir = HERE + "/out"
    os.makedirs(outdir, exist_ok=True)
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": info["level"], "violations": 0}

    # the failures found before, as regression runs
    corpus = []
    if not a.no_corpus and os.path.isdir(HERE + "/corpus/" + a.prop):
        corpus = sorted(os.path.join(HERE, "corpus", a.prop, f) for f in os.listdir(HERE + "/corpus/" + a.prop))
    hit = None
    replayed = 0
    for f in corpus:
        rc, o, e = apsim(out, scratch, ["replay", f], 120)
        replayed += 1
        m = re.search(r"^violation (.*)$", o, re.M)
        if rc == 1 and m:
            dst = "%s/%s-%s" % (outdir, a.prop, os.path.basename(f))
            shutil.copyfile(f, dst)
            hit = (dst, m.group(1), "corpus")
            break
        if rc not in (0, 1):
            say("note: regression run %s ended with %d" % (f, rc))

    # determinism: the same seeds in separate processes give the same execution
    det = {"seeds": 0, "runs": 0, "mismatches": 0}
    n = 12 if a.tier == "quick" else 200
    hs = []
    for w in (1, a.workers):
        rc, o, e = apsim(out, scratch, ["search", "--prop", a.prop, "--base", str(a.seed), "--runs", str(n), "--budget", "60", "--workers", str(w), "--hashes", "1", "--minbudget", "0"], 300)
        hs.append(dict(re.findall(r"^H (\d+) ([0-9a-f]+) ", e, re.M)))
        det["runs"] += len(hs[-1])
    det["seeds"] = len(hs[0])
    det["mismatches"] = sum(1 for k in hs[0] if k in hs[1] and hs[0][k] != hs[1][k])
    if det["mismatches"]:
        say("note: %d of %d seeds executed differently a second time" % (det["mismatches"], det["seeds"]))

    stats = None
    if not hit:
        first, left, tries = 0, budget, 0
        while left > 1 and tries < 4:
            tries += 1
            rep = "%s/search-%d.replay" % (scratch, tries)
            t1 = time.time()
            rc, o, e = apsim(out, scratch, ["search", "--prop", a.prop, "--base", str(a.seed), "--first", str(first), "--budget", "%.1f" % left, "--workers", str(a.workers), "--minbudget", "40" if a.tier == "quick" else "120", "--replay-out", rep], left + 400)
            try:
                s = json.loads([l for l in o.splitlines() if l.startswith("{")][-1])
            except (IndexError, ValueError):
                say(e[-2000:])
                error("the search failed (%d)" % rc)
            stats = s if stats is None else merge(stats, s)
            if rc == 0:
                break
            if rc == 1:
                # gate: the replay file must fail the same way in fresh processes
                rs = [apsim(out, scratch, ["replay", rep], 300) for _ in range(2)]
                ms = [re.search(r"^violation (.*)$", r[1], re.M) for r in rs]
                hh = [re.search(r"^hash (\w+)", r[1], re.M) for r in rs]
                if all(r[0] == 1 for r in rs) and all(ms):
                    if hh[0].group(1) != hh[1].group(1):
                        say("note: the two replays differ in detail (the code under test behaves differently from run to run)")
                    dst = "%s/%s-seed%d-run%d.replay" % (outdir, a.prop, a.seed, s["run"])
                    shutil.copyfile(rep, dst)
                    hit = (dst, ms[0].group(1), "search")
                    break
                say("note: run %d does not replay: %s" % (s["run"], s["violation"]))
                first = s["run"] + 1
                left -= time.time() - t1
                if left <= 1 or tries == 4:
                    error("violations were seen that do not replay")
                continue
            say(e[-2000:])
            error("the search failed (%d)" % rc)

    wall = time.time() - t0
    cov = {"rule": info["rule"], "regression_replays": replayed, "determinism": det, "components": COMPONENTS, "build_s": round(built, 1)}
    if stats:
        c = stats["counts"]
        h = max(stats["elapsed_s"], 1e-3) / 3600
        cov.update({
            "evaluations": stats["runs"], "distinct_nontrivial": stats["distinct_nontrivial"], "samples": [x[:1500] for x in stats["samples"][:3]] or ["(none)"],
            "nontrivial_runs": stats["nontrivial"], "inconclusive_runs": stats["skips"], "timed_out_runs": stats["timeouts"],
            "simulated_worlds": stats["worlds"], "seeds_per_hour": int(stats["runs"] / h), "runs_per_hour": int(stats["worlds"] / h),
            "simulated_seconds": round(stats["vtime_s"], 3), "seam_calls": stats["steps"], "process_switches": stats["switches"],
            "operations": stats["ops"], "executions": stats["executions"],
            "distinct_interleavings": {"count": stats["distinct_schedules"], "measure": "hash of the order in which the simulated processes ran, switch by switch"},
            "distinct_executions": {"count": stats["distinct_executions"], "measure": "hash of every seam call, fault, latency and result of the run"},
            "faults_injected": {k[6:]: v for k, v in c.items() if k.startswith("fault.")},
            "rare_conditions_reached": {k[6:]: v for k, v in c.items() if k.startswith("probe.")},
            "other_seams": {k[5:]: v for k, v in c.items() if k.startswith("seam.")},
            "process_ends": {k[5:]: v for k, v in c.items() if k.startswith("node.")},
            "search_s": round(stats["elapsed_s"], 1), "workers": a.workers,
        })
    else:
        cov.update({"evaluations": replayed, "distinct_nontrivial": replayed, "samples": [os.path.basename(hit[0])]})
    ev["coverage"] = cov
    ev["assumptions"] = COMMON_ASSUMPTIONS + info.get("assumptions", [])
    ev["wall_s"] = round(wall, 2)
    ev["violations"] = 1 if hit else 0
    if hit:
        cov["violation"] = hit[1]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = HERE + "/evidence/.%s.tmp" % a.prop
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, HERE + "/evidence/%s.json" % a.prop)
    if stats:
        say("%d runs (%d seeds/hour), %d non-trivial and distinct, %.1f simulated s, faults %s, %.0f s" % (stats["runs"], cov["seeds_per_hour"], stats["distinct_nontrivial"], stats["vtime_s"], json.dumps(cov["faults_injected"]), wall))
    if hit:
        say(hit[1])
        say("VIOLATION property=%s replay=%s" % (a.prop, hit[0]))
        return 1
    say("held on everything explored")
    return 0


def merge(x, y):
    z = dict(y)
    for k in ("runs", "worlds", "steps", "switches", "ops", "executions", "vtime_s", "nontrivial", "skipped", "timeouts", "distinct_schedules", "distinct_executions", "distinct_nontrivial", "elapsed_s"):
        z[k] = x[k] + y[k]
    for k in ("counts", "skips"):
        z[k] = dict(x[k])
        for n, v in y[k].items():
            z[k][n] = z[k].get(n, 0) + v
    z["samples"] = x["samples"] + y["samples"]
    return z


if __name__ == "__main__":
    sys.exit(main())

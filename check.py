#!/usr/bin/env python3
"""Driver of one check: build from /repo, simulate, write evidence/<id>.json."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
try:
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
except ValueError:
    seed = 1
jobs = max(1, min(16, os.cpu_count() or 1))

# (runs, wall seconds) per build profile
QUICK = {"C13": 150_000}
runs = QUICK.get(prop, 60_000)
wall = 85
plain_share, plain_wall = 0.2, 25
if tier == "thorough":
    runs, wall, plain_wall = runs * 40, 2400, 600

t0 = time.time()
b = subprocess.run(["bash", os.path.join(HERE, "build.sh")], cwd=HERE)
if b.returncode != 0:
    print("check error: the build failed")
    sys.exit(4)
build_s = time.time() - t0

ev = os.path.join(HERE, "evidence", prop + ".json")
os.makedirs(os.path.dirname(ev), exist_ok=True)
try:
    os.remove(ev)
except FileNotFoundError:
    pass
tmp = ev + ".plain"


def sim(profile, n, w, out, sd):
    exe = os.path.join(HERE, "sim", "target", "release" if profile == "checked" else "plain", "smtsim")
    cmd = [exe, "run", "--prop", prop, "--seed", str(sd), "--runs", str(n), "--jobs", str(jobs), "--wall", str(w),
           "--tier", tier, "--evidence", out, "--replays", os.path.join(HERE, "replays"), "--profile", profile]
    return subprocess.run(cmd, cwd=HERE).returncode


rc = sim("checked", runs, wall, ev, seed)
if rc == 0:
    # the same machinery on a build without overflow checks and debug assertions, other histories
    rc2 = sim("plain", int(runs * plain_share), plain_wall, tmp, seed ^ 0x5EED0000)
    try:
        a, p = json.load(open(ev)), json.load(open(tmp))
        ca, cp = a["coverage"], p["coverage"]
        ca["plain_build"] = {k: cp[k] for k in ("evaluations", "distinct_nontrivial", "runs_per_hour", "simulated_time",
                                                "faults_fired", "distinct_histories", "runs_cut_short")}
        a["violations"] += p["violations"]
        a["wall_s"] = round(time.time() - t0, 2)
        ca["build_s"] = round(build_s, 2)
        json.dump(a, open(ev, "w"), indent=1)
    except (OSError, ValueError, KeyError) as e:
        print("check error: evidence:", e)
        rc2 = rc2 or 3
    rc = rc2
try:
    os.remove(tmp)
except FileNotFoundError:
    pass

# defects of the unchanged tree that were repaired or recorded; fixed entries suppress nothing
try:
    for l in open(os.path.join(HERE, "known-findings.txt")):
        if l.startswith("finding: property=%s " % prop):
            print("KNOWN-FINDING: " + l[len("finding: "):].strip())
except FileNotFoundError:
    pass
sys.exit(rc)

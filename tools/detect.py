#!/usr/bin/env python3
"""detect.py [ids...]: apply each planted bug to /repo, run the check of its property, undo it."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
for i in ids:
    d = os.path.join(SEEDED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run(["bash", "check.sh", prop, "quick"], cwd=HERE, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    good = r.returncode == 1 and any("property=" + prop in l for l in viol)
    print("%-26s %s %-8s rc=%d %5.1fs %s" % (i, prop, "caught" if good else "MISSED", r.returncode, time.time() - t,
                                          "" if good else r.stdout[-300:]), flush=True)

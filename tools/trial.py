#!/usr/bin/env python3
"""trial.py [SEED...]: apply each planted bug to /repo, run the check of its property, undo it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    d = "%s/seeded/%s" % (V, s)
    p = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True).stdout.strip()
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run(["python3", "check.py", p], cwd=V, capture_output=True, text=True, timeout=900)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(s, "exit", r.returncode, "%.0fs" % (time.time() - t), "CAUGHT" if r.returncode == 1 and v else "MISSED", v[:1], flush=True)
        if r.returncode not in (0, 1) or (r.returncode == 1 and not v):
            print(r.stdout[-800:], r.stderr[-1500:])
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)

#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a copy of /repo with the bug (development aid)."""
import json, os, subprocess, sys, glob
W = "/tmp/seedwork/try"
for d in sorted(glob.glob("/verif/seeded/*")):
    id = os.path.basename(d)
    if sys.argv[1:] and id not in sys.argv[1:]:
        continue
    p = json.load(open(d + "/meta.json"))["property"]
    os.makedirs("/tmp/seedwork", exist_ok=True)
    subprocess.run(["rm", "-rf", "/tmp/seedwork/try"]); subprocess.run(["cp", "-a", "/repo", W])
    r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W, capture_output=True, text=True)
    if r.returncode:
        print(id, "PATCH DOES NOT APPLY"); continue
    r = subprocess.run(["/verif/check.sh", p, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    i = [l.strip() for l in r.stdout.splitlines() if "FAILING INPUT" in l]
    print("%-34s %s %s | %s | %s" % (id, p, "MISSED rc=%d" % r.returncode if not v else "NFIF" if "no-failing" in v[0] else "caught", r.stdout.splitlines()[0][-70:] if r.stdout else r.stderr[-200:], i[0][:150] if i else ""), flush=True)
subprocess.run(["rm", "-rf", "/tmp/seedwork/try"])

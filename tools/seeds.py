#!/usr/bin/env python3
"""Apply each planted bug to /repo in turn, run the check of its property, undo it.
usage: seeds.py [ID...]   (for development only; no check uses this)"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for s in ids:
    d = f"{V}/seeded/{s}"
    prop = json.load(open(d + "/meta.json"))["property"]
    if subprocess.call(["git", "-C", "/repo", "apply", d + "/patch.diff"]):
        print(s, "DOES NOT APPLY"); continue
    t = time.time()
    try:
        r = subprocess.run(["python3", V + "/check", prop], capture_output=True, text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
    print(f"{s:40} {'caught' if r.returncode == 1 and v else 'MISSED'} rc={r.returncode} {time.time()-t:.0f}s", flush=True)
    # remember which scenarios caught it, for DESIGN.md
    hit = sorted(set(re.findall(r"^ *\[(\w+)\] ", r.stdout, re.M)))
    p = V + "/tools/caught.json"
    c = json.load(open(p)) if os.path.exists(p) else {}
    c[s] = prop + ": " + ", ".join(hit) if v else "not caught"
    json.dump(c, open(p, "w"), indent=1, sort_keys=True)

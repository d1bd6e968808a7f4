#!/usr/bin/env python3
"""sweep.py [bug ids]: apply every planted bug to /repo in turn, run the check of
its property (quick) and undo it.  Prints one line per bug.  Development tool."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(S))
subprocess.run(["git", "-C", "/repo", "diff", "--quiet"], check=True)
for b in ids:
    prop = json.load(open(f"{S}/{b}/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", f"{S}/{b}/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run([f"{V}/bin/check", prop, "quick"], capture_output=True, text=True,
                           env={**os.environ, "VERIF_SEED": "1"})
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    ok = r.returncode == 1 and any(f"property={prop} " in l for l in v)
    print(f"{b:28} {prop} {'CAUGHT' if ok else 'MISSED'} rc={r.returncode} {time.time()-t:.0f}s", flush=True)
    if not ok:
        print(r.stdout[-600:], r.stderr[-600:], flush=True)

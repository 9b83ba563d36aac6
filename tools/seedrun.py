#!/usr/bin/env python3
"""seedrun.py [ID...]: the quick check of each planted bug's property, run against a copy with the bug."""
import json, os, subprocess, sys, time
SW = "/tmp/sw"
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for i in sys.argv[1:] or sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    sh(f"git -C {SW} checkout -- . && git -C {SW} fetch -q /repo HEAD && git -C {SW} reset -q --hard FETCH_HEAD")
    r = sh(f"git -C {SW} apply /verif/seeded/{i}/patch.diff")
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
    t = time.time()
    r = sh(f"VERIF_REPO={SW} python3 /verif/check.py {m['property']} quick")
    v = [l for l in r.stdout.splitlines() if not l.startswith("VIOL")]
    print(i, m["property"], "CAUGHT" if r.returncode == 1 and f"VIOLATION property={m['property']}" in r.stdout else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", v[0][:140] if v else "", flush=True)
    sh(f"git -C {SW} checkout -- .")

#!/usr/bin/env python3
"""mkseed.py FILE.py: FILE defines id, prop, needs, breaks, edits=[(path,old,new)...], demo (C++ text).
Builds the change in /tmp/sw, runs the stable tests and the demonstration with and without it, and keeps it
under seeded/<id> when all holds."""
import json, os, shutil, subprocess, sys
SW = "/tmp/sw"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset(): sh(f"git -C {SW} checkout -- . && git -C {SW} fetch -q /repo HEAD && git -C {SW} reset -q --hard FETCH_HEAD")
def main(f):
    g = {}
    exec(open(f).read(), g)
    kit = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedkit")
    d = f"/verif/seeded/{g['id']}"
    if g.get("replace") or not os.path.exists(d): pass
    else: sys.exit("exists")
    t = f"/tmp/seedtmp/{g['id']}"
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    shutil.copy(kit + "/demo.sh", t); shutil.copy(kit + "/io.hpp", t)
    open(t + "/demo.cpp", "w").write(g["demo"])
    reset()
    r = sh("bash /tmp/sw_build.sh");  assert r.returncode == 0, r.stdout[-2000:]
    r = sh(f"bash {t}/demo.sh", cwd=SW); print("clean demo", r.returncode, r.stdout[-600:])
    if r.returncode: sys.exit(1)
    for p, o, n in g["edits"]:
        s = open(f"{SW}/{p}").read(); assert s.count(o) == 1, (p, o, s.count(o))
        open(f"{SW}/{p}", "w").write(s.replace(o, n))
    open(t + "/patch.diff", "w").write(sh(f"git -C {SW} diff").stdout)
    r = sh("bash /tmp/sw_build.sh"); assert r.returncode == 0, r.stdout[-3000:]
    r = sh(f"bash {t}/demo.sh", cwd=SW); print("bug demo", r.returncode, r.stdout[-600:])
    ok = r.returncode not in (0, 3)
    r = sh(f"bash /tmp/sw_test.sh /tmp/swt.json"); want = json.load(open("/opt/vp/BASELINE.json"))
    got = set(json.load(open("/tmp/swt.json"))["passed"])
    base = set(want.get("passed") or want.get("stable") or want)
    miss = [x for x in base if isinstance(x, str) and x not in got]
    print("tests passed", len(got), "missing", miss)
    if not ok or len(got) < 17: reset(); sys.exit("NOT KEPT")
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(t + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(t, d); shutil.rmtree(t)
    r = sh(f"VERIF_REPO={SW} VERIF_EVID=/tmp/seed-evid VERIF_TIER=quick python3 /verif/check.py {g['prop']} quick")
    print("CHECK", r.returncode, r.stdout[-900:])
    reset()
for f in sys.argv[1:]: print("==", f); main(f)

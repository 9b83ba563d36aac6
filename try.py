import sys, json, vlib, specs
prop, names = sys.argv[1], sys.argv[2:]
tier = "quick"
if names and names[-1] == "-t": tier = "thorough"; names.pop()
vlib.build_engine()
t = vlib.Tree(); t.compile_all()
for sp in specs.PROPS[prop]["harnesses"]:
    n = sp["name"]
    if names and n not in names: continue
    h = vlib.Harness(t, n, sp, tier)
    h.build_bc(); r = h.explore()
    print(n, "wall %.1f" % h.wall, {k: r[k] for k in ("paths","completed","assumed_out","err_paths","exits","instructions","asserts","assert_queries","queries","solver_s","max_query_s","left","max_path_instructions")}, r["labels"], r["incomplete"], h.tus)
    miss = set(sp.get("reach", [])) - set(r["labels"])
    if miss: print("  MISSING LABELS", miss)
    if r["errors"] or r["samples"]:
        h.build_native()
    for s in r["samples"][:4]:
        rc, out = h.run_native(s["input"], h.work + "/in")
        obs = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
        if rc != 0 or obs != s["obs"].split("\n")[:-1]: print("  SAMPLE MISMATCH", rc, out[-600:], s)
    for e in r["errors"]:
        rc, out = h.run_native(e["input"], h.work + "/in")
        print("  ERR", e["kind"], e["msg"], e["where"], "| native rc", rc, [l for l in out.splitlines() if "REPLAY" in l or "ERROR:" in l or "Assertion" in l][:3])
        print("    in:", e["input"].replace("\n", "; ")[:600])
        if "-v" in sys.argv: print(e["trace"]); print(out[-3000:])
    h.cleanup()

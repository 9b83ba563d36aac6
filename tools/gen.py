#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props, specs
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 /verif/tools/setup.py", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in sorted(props.NOT_APPLICABLE.items())],
         notes="Solver-based: /verif/engine executes the LLVM IR of /repo's current sources symbolically and decides every assertion and memory access with Z3; counterexamples are replayed on a native AddressSanitizer build of the same sources.")
for p in props.P:
    if p["id"] in props.NOT_APPLICABLE: continue
    assert p["id"] in specs.PROPS, p["id"]
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 /verif/check.py %s" % p["id"], thorough_cmd="python3 /verif/check.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the real code's LLVM IR, assertions decided by Z3, native replay of counterexamples",
        level="model_checking", level_note="bounded: " + p["note"]))
for k in specs.PROPS: assert any(p["id"] == k for p in props.P), k
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")

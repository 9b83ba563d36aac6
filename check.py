#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's current tree.
Exit 0: held on everything explored; 1: VIOLATION (replayed on the real code); 2: no answer."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import sys
import threading
import time

import specs
import vlib
from vlib import Inconclusive

REPLAYS = os.path.join(vlib.VERIF, "replays")


def known_findings(prop):
    r = []
    p = os.path.join(vlib.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                d = dict(re.findall(r'(\w+)="([^"]*)"', l))
                if d.get("property") == prop:
                    r.append(d)
    return r


def native_failed(rc, out):
    if rc == "timeout":
        return "the run does not terminate"
    if rc == 0:
        return None
    if rc == 65 or rc == 66:
        return None
    m = re.search(r"REPLAY-ASSERT-FAILED (.*)", out)
    if m:
        return "assertion: " + m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: (.*)", out)
    if m:
        return "AddressSanitizer: " + m.group(1)
    m = re.search(r".*Assertion `.*", out)
    if m:
        return m.group(0)
    if "REPLAY-EXIT" in out:
        return "the process exits"
    return "abnormal end, status %s" % rc


class Slots:
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER_OVERRIDE", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = specs.PROPS[prop]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", assumptions=list(specs.COMMON_ASSUMPTIONS) + P.get("assumptions", []))
    violations, known, problems = [], [], []
    hs, cov = [], []
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(vlib.build_engine)
            tree = vlib.Tree()
            b = ex.submit(tree.compile_all)
            a.result()
            b.result()
        # drop build output of other trees
        for d in os.listdir(vlib.BUILD):
            if d.startswith("tree-") and d != "tree-" + tree.hash and os.path.getmtime(os.path.join(vlib.BUILD, d)) < time.time() - 3600:
                shutil.rmtree(os.path.join(vlib.BUILD, d), ignore_errors=True)
        kf = known_findings(prop)
        slots = Slots(vlib.NCPU)
        natlock = threading.Lock()

        def run(spec):
            h = vlib.Harness(tree, prop + "-" + spec["name"], spec, tier)
            k = min(spec.get("workers", 1), vlib.NCPU)
            slots.take(k)
            try:
                h.build_bc()
                res = h.explore()
            finally:
                slots.give(k)
            r = dict(h=h, spec=spec, res=res, viol=[], known=[], prob=[], validated=0)
            for x in res["incomplete"]:
                r["prob"].append("%s: %s" % (spec["name"], x))
            if res["left"]:
                r["prob"].append("%s: %d paths left unexplored" % (spec["name"], res["left"]))
            if not res["errors"]:
                for l in spec["reach"]:
                    if l not in res["labels"]:
                        r["prob"].append("%s: vacuous, never reached '%s'" % (spec["name"], l))
            if res["errors"] or res["samples"]:
                with natlock:
                    h.build_native()
            os.makedirs(REPLAYS, exist_ok=True)
            for i, e in enumerate(res["errors"]):
                path = os.path.join(REPLAYS, "%s-%s-%d.input" % (prop, spec["name"], i))
                rc, out = h.run_native(e["input"], path)
                why = native_failed(rc, out)
                with open(path + ".txt", "w") as f:
                    f.write("property %s harness %s (%s) tree %s\nsolver: %s: %s at %s\n%s\ninput:\n%s\nnative replay: %s (status %s)\n%s\n"
                            % (prop, spec["name"], spec["file"], tree.hash, e["kind"], e["msg"], e["where"], e["trace"], e["input"], why, rc, out[-6000:]))
                if not why:
                    if e["kind"] == "unsupported":
                        continue  # listed as incomplete above
                    r["prob"].append("%s: counterexample not confirmed by the native run: %s %s at %s" % (spec["name"], e["kind"], e["msg"], e["where"]))
                    continue
                hit = None
                for d in kf:
                    if d.get("harness") == spec["name"] and d.get("kind") == e["kind"] and d.get("msg", "") in e["msg"] and d.get("site", "") in e["trace"]:
                        hit = d
                (r["known"] if hit else r["viol"]).append((e, path + ".txt", why, hit))
            for i, s in enumerate(res["samples"]):
                if i >= 24:
                    break
                rc, out = h.run_native(s["input"], os.path.join(h.work, "sample"))
                why = native_failed(rc, out)
                obs = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
                if why:
                    path = os.path.join(REPLAYS, "%s-%s-s%d.input" % (prop, spec["name"], i))
                    open(path, "w").write(s["input"])
                    r["viol"].append((dict(kind="native", msg=why, where="?", trace=""), path, why, None))
                elif rc != 0 or obs != s["obs"].split("\n")[:-1]:
                    if not res["errors"]:
                        r["prob"].append("%s: native run of a path sample disagrees with the encoding (status %s)" % (spec["name"], rc))
                else:
                    r["validated"] += 1
            return r

        with cf.ThreadPoolExecutor(12) as ex:
            futs = [ex.submit(run, s) for s in P["harnesses"] if tier in s.get("tiers", ("quick", "thorough"))]
            for f in futs:
                try:
                    r = f.result()
                    hs.append(r)
                    violations += r["viol"]
                    known += r["known"]
                    problems += r["prob"]
                except Inconclusive as e:
                    problems.append(str(e))
    except Inconclusive as e:
        problems.append(str(e))

    funcs = set()
    tot = dict(states=0, transitions=0, queries=0, sat=0, unsat=0, solver_s=0.0, asserts=0, mem=0, val=0)
    for r in hs:
        s = r["res"]
        funcs.update(s["functions"])
        tot["states"] += s["paths"]
        tot["transitions"] += s["instructions"]
        tot["queries"] += s["queries"]
        tot["sat"] += s["sat"]
        tot["unsat"] += s["unsat"]
        tot["solver_s"] += s["solver_s"]
        tot["asserts"] += s["asserts"]
        tot["mem"] += s["mem_checks"]
        tot["val"] += r["validated"]
        cov.append(dict(harness=r["spec"]["name"], file="harness/" + r["spec"]["file"], bounds=r["h"].defines, what=r["spec"].get("what", ""),
                        translation_units=r["h"].tus, paths=s["paths"], completed=s["completed"], assumed_out=s["assumed_out"], failing_paths=s["err_paths"],
                        instructions=s["instructions"], longest_path=s["max_path_instructions"], assertions_checked=s["asserts"],
                        assertions_by_text=s["assert_sites"], memory_accesses_checked=s["mem_checks"], queries=s["queries"], sat=s["sat"], unsat=s["unsat"],
                        unknown=s["unknown"], cached=s["cache_hits"] + s["model_hits"], solver_s=round(s["solver_s"], 3), longest_query_s=round(s["max_query_s"], 3),
                        reached=s["labels"], left_unexplored=s["left"], incomplete=s["incomplete"], samples_replayed=r["validated"], wall_s=round(r["h"].wall, 2)))
    ev["coverage"] = dict(
        states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["val"],
        states_meaning="symbolic paths explored to their end", transitions_meaning="LLVM instructions executed symbolically",
        samples=[dict(harness=r["spec"]["name"], input=r["res"]["samples"][0]["input"][:400]) for r in hs if r["res"]["samples"]][:5],
        functions_encoded=sorted(funcs), harnesses=cov,
        queries=dict(total=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], solver_s=round(tot["solver_s"], 3)),
        assertions_checked=tot["asserts"], memory_accesses_checked=tot["mem"], outside_bounds=P.get("outside", ""), problems=problems,
        known_findings=[k[3].get("what", "") for k in known])
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(violations)
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in hs:
        r["h"].cleanup()
    seen = set()
    for e, path, why, hit in known:
        w = hit.get("what", e["msg"])
        if w not in seen:
            seen.add(w)
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for e, path, why, _ in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s at %s (native: %s)" % (e["kind"], e["msg"], e["where"], why))
    for p in problems:
        print("PROBLEM %s" % p)
    print("%s %s: %d paths, %d assertions, %d queries (%.1fs solver), %d violations, %.1fs" % (prop, tier, tot["states"], tot["asserts"], tot["queries"], tot["solver_s"], len(violations), time.time() - t0))
    if violations:
        return 1
    return 2 if problems else 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current tree."""
import json, os, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
from props import PROPS, ASSUMPTIONS


def known_findings(pid):
    out = []
    p = vp.V + "/known-findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    log = lambda *a: print("[%6.1f]" % (time.time() - t0), *a, flush=True)
    budget = P.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    work = "%s/%s" % (vp.B, pid)
    feats = sorted(set(e["crate"] for e in P["entries"]))
    with ThreadPoolExecutor(3) as ex:
        fe = ex.submit(vp.engine)
        fm = ex.submit(vp.module, feats, [e["name"] for e in P["entries"]], work)
        fn = ex.submit(vp.native, feats)
        eng, ll, exe = fe.result(), fm.result(), fn.result()
    log("built engine, IR (%d KB) and native replay" % (os.path.getsize(ll) // 1024))
    results, bad, open_, viol, known_hit = [], [], [], [], []
    kf = known_findings(pid)
    validated = 0
    for e in P["entries"]:
        params = dict(e.get("params", {}).get("quick", {}))
        if tier == "thorough":
            params.update(e.get("params", {}).get("thorough", {}))
        if tier == "quick" and e.get("thorough_only"):
            continue
        left = max(60, budget - (time.time() - t0))
        r = vp.symex(eng, ll, e["name"], work, params, int(left), query_ms=e.get("query_ms", 4000), hard_ms=e.get("hard_ms", 60000))
        r["entry"], r["params"] = e["name"], params
        results.append(r)
        log("%s: %d paths, %d panics, %d queries (%d sat, %d unsat, %d unknown), solver %.1fs, wall %.1fs" % (
            e["name"], r["paths"], r["panics"], r["queries"], r["sat"], r["unsat"], r["unknown"], r["solver_time"], r["wall"]))
        und = sum(r["inconclusive"].values())
        for k, n in r["inconclusive"].items():
            open_.append("%s: %s (x%d)" % (e["name"], k, n))
        if und > max(4, 0.05 * r["paths"]):
            bad.append("%s: %d of %d paths undecided" % (e["name"], und, r["paths"] + und))
        for c in e.get("covers", []):
            if not r["covers"].get(c):
                bad.append("%s: vacuity guard '%s' never reached" % (e["name"], c))
        # replay counterexamples against the real build
        labels = {}
        for v in r["violations"]:
            labels.setdefault(v["label"], []).append(v)
        for label, vs in labels.items():
            vs = vs[:6]
            out = vp.replay(exe, e["name"], [vp.case_text(v["inputs"], params) for v in vs], work + "/replay.txt")
            ok = None
            for v, (kind, failed, _) in zip(vs, out):
                if kind == "violation" and (label in failed or (label.startswith("panic:") and any(f.startswith("panic:") for f in failed))):
                    ok = v
                    break
            if ok is None:
                bad.append("%s: counterexample for '%s' does not reproduce natively: %s" % (e["name"], label, out[:2]))
                continue
            validated += 1
            k = next((k for k in kf if k["entry"] == e["name"] and k["label"] == label), None)
            if k:
                known_hit.append(k)
                continue
            d = vp.B + "/replays"
            os.makedirs(d, exist_ok=True)
            path = "%s/%s_%s_%d.txt" % (d, pid, e["name"], len(viol))
            with open(path, "w") as f:
                f.write(vp.case_text(ok["inputs"], params))
                f.write("# property %s, harness %s, failed check: %s\n" % (pid, e["name"], label))
                f.write("# replay: %s %s <this file> -v\n" % (exe, e["name"]))
                for n, x in ok["notes"]:
                    f.write("# note %s = %s\n" % (n, x))
                f.write("# at: %s\n" % " < ".join(ok["trace"]))
            viol.append((label, path, ok, e["name"]))
        # validate sampled path witnesses against the real build
        ss = r.pop("samples")
        if ss:
            out = vp.replay(exe, e["name"], [vp.case_text(s[1], params) for s in ss], work + "/samples.txt")
            for s, (kind, failed, cov) in zip(ss, out):
                if kind == s[0] and (cov == s[2] or kind == "panic"):
                    validated += 1
                elif kind == "violation" and failed and failed[0] in labels:
                    validated += 1
                else:
                    bad.append("%s: engine and native build disagree on a path: engine %s %s, native %s %s %s, inputs %s" % (
                        e["name"], s[0], s[2][-3:], kind, failed, cov[-3:], s[1]))
        r["sample_inputs"] = [dict(outcome=s[0], inputs=s[1]) for s in ss[:2]]
    fns = sorted(set(f for r in results for f in r["functions"]))
    own = [f for f in fns if any(k in f for k in P["code"])]
    tot = lambda k: sum(r[k] for r in results)
    level = "model_checking"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "states": tot("paths") + tot("panics"),
            "transitions": tot("instrs"),
            "traces_validated_against_impl": validated,
            "samples": [dict(entry=r["entry"], witness=s) for r in results for s in r["sample_inputs"]][:8],
            "rule": "states = completed symbolic paths (each stands for every input value satisfying its path condition); transitions = LLVM IR instructions interpreted; every path's assertions were discharged by the SMT solver",
            "method": "symbolic execution of the contracts' LLVM IR (rustc 1.77.2, opt-level 1, whole program with core/alloc/std), regenerated from /repo on this run; SMT solver z3-new (z3, cvc5 as fall-back) decides every branch and assertion",
            "bounds": P["bounds"] if isinstance(P["bounds"], list) else [P["bounds"]],
            "entries": [
                dict(entry=r["entry"], params=r["params"], paths=r["paths"], aborted_transactions=r["panics"], infeasible=r["infeasible"],
                     forks=r["forks"], ir_instructions=r["instrs"], queries=r["queries"], sat=r["sat"], unsat=r["unsat"],
                     unknown=r["unknown"], cache_hits=r["cached"], fallback=r["fallback"], nonlinear=r["nonlinear"],
                     solver_time_s=round(r["solver_time"], 2), longest_query_s=r["max_query"], checks=r["checks"], covers=r["covers"],
                     panic_sites=r["panic_sites"]) for r in results],
            "queries_discharged": tot("queries"),
            "solver_time_s": round(tot("solver_time"), 2),
            "functions_encoded": len(fns),
            "functions_encoded_in_scope": own[:400],
            "exhaustive": not bad and not open_,
        },
        "assumptions": ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if bad or open_:
        ev["coverage"]["undecided"] = (bad + open_)[:50]
    os.makedirs(vp.V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (vp.V, pid), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for label, path, v, en in viol:
        print("violated: %s (harness %s)" % (label, en))
        print("  inputs: " + ", ".join("%s=%s" % tuple(x) for x in v["inputs"]))
        if v["notes"]:
            print("  values: " + ", ".join("%s=%s" % tuple(x) for x in v["notes"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if viol:
        sys.exit(1)
    for b in open_[:20]:
        print("not decided (outside what was explored): " + b[:1500])
    if bad:
        print("INCONCLUSIVE property=%s" % pid)
        for b in bad[:20]:
            print("  " + b[:1500])
        sys.exit(2)
    print("property %s held on everything explored (%d paths, %d queries, %.1fs)" % (pid, tot("paths"), tot("queries"), time.time() - t0))


if __name__ == "__main__":
    try:
        main()
    except vp.Error as e:
        print("ERROR: %s" % e)
        sys.exit(2)

#!/usr/bin/env python3
"""Development aid: dev.py CRATE ENTRY[,ENTRY] [k=v ...] [timeout=N] -- runs entries and prints what was found."""
import json, os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
crate, names = sys.argv[1], sys.argv[2].split(",")
kv = dict(a.split("=") for a in sys.argv[3:])
to = int(kv.pop("timeout", 300)); jobs = int(kv.pop("jobs", 8)); qms = int(kv.pop("qms", 4000)); hms = int(kv.pop("hms", 60000))
params = {k: int(v) for k, v in kv.items()}
subprocess.check_call([sys.executable, vp.V + "/tools/gen.py"])
eng = vp.engine()
work = vp.B + "/dev_" + crate
ll = vp.module([crate], names, work)
exe = vp.native([crate])
for n in names:
    r = vp.symex(eng, ll, n, work, params, to, jobs=jobs, query_ms=qms, hard_ms=hms)
    print("%s: paths %d panics %d queries %d (sat %d unsat %d unk %d) solver %.1fs wall %.1fs" % (n, r["paths"], r["panics"], r["queries"], r["sat"], r["unsat"], r["unknown"], r["solver_time"], r["wall"]))
    print("  checks", r["checks"]); print("  covers", r["covers"]); print("  inconclusive", r["inconclusive"])
    seen = {}
    for v in r["violations"]:
        seen.setdefault(v["label"], []).append(v)
    for l, vs in seen.items():
        print("  VIOL %s x%d" % (l, len(vs)))
        v = vs[0]
        out = vp.replay(exe, n, [vp.case_text(v["inputs"], params)], work + "/case")
        print("    inputs", [(i["name"], i["value"]) if isinstance(i, dict) else i for i in v["inputs"]], "notes", v.get("notes"))
        print("    replay", out)
        if os.environ.get("TR"): print("    trace", v.get("trace"))
    if r.get("panic_sites"): print("  panics", r["panic_sites"])

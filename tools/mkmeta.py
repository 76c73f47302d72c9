#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(props, "NOT_APPLICABLE", [])
with open(V + "/properties.jsonl", "w") as f:
    for i, p in sorted(list(props.PROPS.items()) + [(n["id"], n) for n in NA]):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        d = dict(id=i, title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why_tests_cant"], anchors=p["anchors"])
        for x in d["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(d) + "\n")
NOTE = ("Exhaustive within the stated bounds: every path of the real contract code, compiled from the current tree, is executed symbolically and every branch and assertion is decided by an SMT solver; counterexamples are replayed on the native build before they are reported. "
        "Trusted: the symbolic executor (cross-checked against native runs of sampled paths on every run), z3/cvc5, rustc's IR, the harness's chain model and stand-in contracts.")
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA],
         notes="Solver-based checking of the contracts' LLVM IR; see DESIGN.md. No hooks in /repo.")
for i, p in sorted(props.PROPS.items()):
    m["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                            technique="symbolic execution of the contracts' LLVM IR with SMT (z3/cvc5), bounded", level="model_checking",
                            level_note=p["level_note"] or NOTE))
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

def design():
    """The per-property part of DESIGN.md."""
    out = ["## 7. Per property", "",
           "Oracle: every harness computes what the property demands from its own inputs (sums, shares, expected messages, expected state) independently of the contracts and asserts it on every path. "
           "`q`/`t`: parameters of the quick/thorough tier. Cost as measured for the quick tier in the sandbox (8 cores), build included.", ""]
    for i, p in sorted(props.PROPS.items()):
        out.append("### %s %s" % (i, p["title"]))
        out.append("*Explored:* " + p["quantifier"]["text"] + ".")
        ens = []
        for e in p["entries"]:
            s = "`%s/%s`" % (e["crate"], e["name"])
            for t in ("quick", "thorough"):
                if e["params"][t]:
                    s += " %s:%s" % (t[0], ",".join("%s=%s" % kv for kv in e["params"][t].items()))
            ens.append(s)
        out.append("*Harness entries:* " + "; ".join(ens) + ".")
        b = p["bounds"] if isinstance(p["bounds"], list) else [p["bounds"]]
        out.append("*Bounds:* " + "; ".join(b) + ".")
        if p["assumptions"]:
            out.append("*Assumes:* " + "; ".join(p["assumptions"]) + ".")
        c = COST.get(i)
        if c:
            out.append("*Cost:* " + c + ".")
        out.append("")
    d = V + "/DESIGN.md"
    s = open(d).read()
    k = s.find("## 7. Per property")
    with open(d, "w") as f:
        f.write((s[:k] if k >= 0 else s.rstrip() + "\n\n") + "\n".join(out))


try:
    COST = json.load(open(V + "/tools/cost.json"))
except OSError:
    COST = {}
design()

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props, checks as src
cfg = {"workspaces": src.WS, "checks": src.CHECKS}
with open(os.path.join(ROOT, "checks.json"), "w") as f:
    json.dump(cfg, f, indent=1)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + "\n")
checks = []
for p in props.PROPS:
    c = cfg["checks"].get(p["id"])
    if not c:
        continue
    kani = c.get("kind") == "kani"
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
        "technique": "Kani bounded model checking (CBMC/SAT) of the real functions" if kani else
                     "symbolic execution of the real code, SMT (z3 QF_NRA) on each path's assertions",
        "level": "model_checking",
        "level_note": c.get("note") or ("Bounded: %s. Assumes: %s." % (
            c["bounds"]["quick"], "; ".join(c.get("assumptions", []) + cfg["workspaces"][c["ws"]].get("assumptions", [])))),
    })
have = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": props.NA.get(p["id"], "not built")} for p in props.PROPS if p["id"] not in have]
m = {"version": 1, "setup_cmd": "python3 bin/check.py --build", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cargo feature `verif` of libzmix/bulletproofs_amcl: read access to the constraints, commitments and wires a prover or verifier has collected",
               "enable": "the harness crates' dependency on bulletproofs_amcl asks for the feature",
               "source_commits": ["48267dc"]},
     "notes": "See DESIGN.md. known-findings.txt lists repaired and recorded defects."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(props.PROPS), "properties,", len(checks), "checks,", [n["property"] for n in na])

# section 4 of DESIGN.md
out = []
for p in props.PROPS:
    c = cfg["checks"].get(p["id"])
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    if not c:
        out.append("Not applicable: %s\n" % props.NA.get(p["id"], "not built"))
        continue
    b = c["bounds"]
    out.append("* Decides: %s" % p["statement"])
    out.append("* Encoded: " + "; ".join("`%s`" % f for f in c["functions"]))
    out.append("* Symbolic: %s. Quick bound: %s. Thorough bound: %s." % (p["quantifier"]["text"].rstrip("."), b["quick"].rstrip("."), b["thorough"].rstrip(".")))
    if c.get("outside"):
        out.append("* Outside: %s" % c["outside"])
    if c.get("assumptions"):
        out.append("* Assumes (besides section 2): %s" % "; ".join(c["assumptions"]))
    out.append("* Beyond tests: %s\n" % p["why_tests_cant"])
dp = os.path.join(ROOT, "DESIGN.md")
d = open(dp).read()
a, rest = d.split("<!-- BEGIN -->", 1)
_, z = rest.split("<!-- END -->", 1)
open(dp, "w").write(a + "<!-- BEGIN -->\n" + "\n".join(out) + "<!-- END -->" + z)

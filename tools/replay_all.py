#!/usr/bin/env python3
"""dev: replay_all.py PROP NATIVE_BIN [tier] [substr]: replay the witness of every path on the native build."""
import json, subprocess, sys, os, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
import check
prop, binr = sys.argv[1:3]
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
sub = sys.argv[4] if len(sys.argv) > 4 else ""
ps = []
for l in open("/tmp/w/%s.jsonl" % prop):
    d = json.loads(l)
    if "path" in d and sub in d["case"]:
        d["path"]["case"] = d["case"]; ps.append(d["path"])
def go(a):
    i, p = a
    wf = "/tmp/w/ra-%s-%d.txt" % (prop, i)
    check.write_witness(wf, prop, p["case"], p, "")
    return p["status"], p["case"], check.native(binr, prop, tier, p["case"], wf)
with cf.ThreadPoolExecutor(8) as ex:
    for s, c, (rc, tail) in ex.map(go, enumerate(ps)):
        print(s, rc, c, "" if rc == 0 else tail[-200:])

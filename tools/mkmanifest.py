#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "online reference-model monitor on every residual pixel and chi-square",
 "C02": "online reference-model monitor on every derivative",
 "C03": "ASan+UBSan instrumented kernel, heap-fill perturbation, input-hash monitors",
}
DEF = "runtime monitor: independent oracle over randomised executions and histories of the real code"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
        continue
    ns = {}
    src = open(os.path.join(V, "checks", i.lower() + ".py")).read()
    tech = TECH.get(i, DEF)
    for line in src.splitlines():
        if line.startswith("TECHNIQUE ="):
            tech = eval(line.split("=", 1)[1])
    checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python checks/run.py %s --tier quick" % i,
                       thorough_cmd="/opt/venv/bin/python checks/run.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level="exploration",
                       level_note="Holds on every execution the monitors observed (counts in the evidence file); inputs are sampled, not enumerated. Trusts numpy/scipy/astropy/h5py and the independent oracle in fpv/ and checks/%s.py." % i.lower()))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="Checks compile the kernel from /repo's working tree into a scratch directory and import forcepho from /repo; no hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

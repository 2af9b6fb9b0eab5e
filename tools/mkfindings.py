#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects, from the fix: commits of /repo and this table of properties."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = {  # subject (without 'fix: ') prefix -> property
 "local WCS scale": "C06", "refuse more than MAXSOURCES": "C03", "DirectPatch finds": "C04", "StorePatch loads": "C04",
 "MetaStore.find_exposures": "C05", "use every exposure": "C04", "PixelStore.add_exposure": "C05", "empty catalogs of fixed": "C07",
 "Patch.render returns": "C01", "design matrix": "C08", "optimize_one_band": "C08", "sources in use": "C10",
 "sources of checked out": "C10", "adjust_bounds": "C13", "flux bounds": "C13", "convert_pa": "C22", "searching empty sky": "C11",
 "seed weights": "C10", "ln-determinant": "C13", "posteriors accept": "C14", "posterior cache": "C14", "SlowPosterior": "C14",
 "superscene log": "C12", "bounds catalogs carry": "C13", "draw another seed": "C10",
}
EXTRA = os.path.join(V, "tools", "fixprops.json")
if os.path.exists(EXTRA):
    PROP.update(json.load(open(EXTRA)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in PROP.items() if s.startswith(k)]
    assert len(p) == 1, (s, p)
    fixed.append("fixed: property=%s %s %s" % (p[0], h, s))
json.dump(dict(findings=[], fixed=fixed), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(fixed))

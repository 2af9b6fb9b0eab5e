#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.tmpl.md, the sections below, known_findings.json and seeded/."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S = {}
S["C01"] = """Monitored: every residual pixel, per-band chi-square and log-likelihood returned by the proposer, the posterior, and `Patch.render`.
Oracle: float64 model of `fpv/refmodel.py` evaluated per pixel, with a rounding-error bound per pixel. Workload: 200 random worlds (6000 thorough): 1–30 bands in arbitrary order, up to 5 exposures per band, 1–30 sources, mixed PSF sizes, calibration factors, bad pixels; each evaluated at the catalog and at perturbed vectors. ~25 s."""
S["C02"] = """Monitored: every derivative element from the proposer and every gradient of the posterior (identity and bounded transform, with/without prior and Jacobian term). Oracle: float64 directional derivatives of the reference chi-square by high-order differences, with rounding bounds. ~20 s."""
S["C03"] = """Kernel rebuilt with ASan+UBSan (`-fsanitize=address,undefined`, `-fno-sanitize-recover`) and driven in child processes (`fpv/san_child.py`) over scenes up to and beyond every compiled limit; normal build driven with malloc perturbation and interleaved foreign evaluations, results compared bit by bit; SHA of all arrays before and after. Limits: MSan not usable under CPython. ~65 s."""
S["C04"] = """Monitored: packed pixel lists, weights, index arrays of FITS, DirectPatch and StorePatch patches, for any flux unit, image and pixel dtype. Oracle: brute-force per-pixel containment on the sky and the images themselves. ~8 s."""
S["C05"] = """Monitored: contents of pixel/metadata/PSF stores via API after arbitrary ingestion histories with masks, bit masks, backgrounds, units; oracle: the ingested arrays processed per the documentation with numpy. ~10 s."""
S["C06"] = """Monitored: packed astrometry, positions of rendered centroids, coordinates returned. Oracle: astropy WCS plus finite differences in extended precision. ~15 s."""
S["C07"] = """Monitored: working data and likelihood after `prepare_model` with all partitions into active/fixed/big around the block size, and rebuild histories. Oracle: reference model subtraction. ~17 s."""
S["C08"] = """Monitored: design matrices, fluxes, precisions. Oracle: reference unit-flux models and a float64 least-squares solve; residual orthogonality. ~15 s."""
S["C09"] = """Monitored: containment masks, bounding boxes, superpixel selection. Oracle: spherical trigonometry and even-odd/half-plane tests, tolerance band around the edge. ~10 s."""
S["C10"] = """Monitored: flags, counters, logs, seed weights after *every* operation of random histories (check-out with/without seed, check-in, undo, reset; many outstanding patches, isolated sources, unseeded draws). Oracle: shadow bookkeeping (`fpv/scenes.Shadow`). ~14 s."""
S["C11"] = """Monitored: each check-out (active, fixed, region), group catalogs, circle overlaps. Oracle: all-pairs overlap graph; ties within 1e-6 arcsec not judged. ~12 s."""
S["C12"] = """Monitored: whole catalog, covariances, bounds, logs after check-ins with permuted rows/columns, and files read back with astropy/json, then a scene resumed from them. ~17 s."""
S["C13"] = """Monitored: bounds catalogs and vectors, `check_bounds` verdicts, `adjust_bounds`, transform/inverse/Jacobian/log-determinant. Oracle: closed forms in extended precision. ~12 s."""
exec(open(os.path.join(V, "tools", "design_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "design_more.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = ["## Properties and how each is decided\n"]
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in na:
        out.append("Not claimed: %s\n" % na[i])
        continue
    out.append(S[i] + "\n")
t = open(os.path.join(V, "tools", "design.tmpl.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out))
t = t.replace("@@FIXES@@", "\n".join("* " + f[7:] for f in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]))
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    sid = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (sid, m["property"], m["needs"], caught.get(sid, m["property"])))
t = t.replace("@@SEEDED@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)

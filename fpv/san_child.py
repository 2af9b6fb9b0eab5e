"""Workload run inside a sanitizer-instrumented or allocation-perturbed process.

argv: SO SEED MODE NCASES BUDGET_S
Prints one line per event; the last line is 'RESULT <json>' with counters and a digest of every output."""
import hashlib
import json
import os
import sys
import tempfile
import time
import warnings

warnings.simplefilter("ignore")
so, seed, mode, ncases, budget = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), float(sys.argv[5])

import numpy as np  # noqa: E402

from fpv import kernel  # noqa: E402
from fpv.world import World, cpu_patch, make_catalog, write_spline  # noqa: E402

kernel.inject(so)
from forcepho.kernel_limits import MAXBANDS, MAXRADII, MAXSOURCES  # noqa: E402

print("CHILD-READY", flush=True)
sys_stdout = sys.stdout


def quiet(fn, *a, **k):
    sys.stdout = open(os.devnull, "w")
    try:
        return fn(*a, **k)
    finally:
        sys.stdout = sys_stdout


count = dict(evaluations=0, worlds=0, max_sources=0, max_bands=0, max_radii=0, max_gauss=0, swaps=0, refused=0, pixels=0)
dig = hashlib.sha256()
sigs = set()


def note(chi2, der, res=None):
    dig.update(np.ascontiguousarray(chi2).tobytes())
    dig.update(np.ascontiguousarray(der).tobytes())
    if res is not None:
        for r in res:
            dig.update(np.ascontiguousarray(r).tobytes())
    count["evaluations"] += 1


def one(rng, k, tmp):
    kind = k % 7
    spl = write_spline(os.path.join(tmp, "s.h5"), rng, [None, 2, 10, None, 1, 9, None][kind] or int(rng.integers(2, 11)))
    kw = dict(spline=spl, size=int(rng.integers(5, 12)))
    if kind == 0:
        kw.update(n_src=MAXSOURCES, n_bands=1, n_exp=1, psf_ng=1)
    elif kind == 1:
        kw.update(n_bands=MAXBANDS, n_src=1, n_exp=1, psf_ng=1)
    elif kind == 2:
        kw.update(n_src=int(rng.integers(1, 5)), psf_ng=5)
    elif kind == 3:
        kw.update(n_bands=3, n_exp=4, psf_ng=3, half=8.0)     # most sources off the images
    elif kind == 4:
        kw.update(n_bands=2, n_src=3)
    elif kind == 5:
        kw.update(n_src=MAXSOURCES - 1, n_bands=2, psf_ng=2, n_exp=2)
    w = World(rng, tmp, **kw)
    w.write(rng)
    count["worlds"] += 1
    count["max_sources"] = max(count["max_sources"], len(w.cat))
    count["max_bands"] = max(count["max_bands"], len(w.bands))
    count["max_radii"] = max(count["max_radii"], w.n_radii)
    count["max_gauss"] = max([count["max_gauss"]] + [len(p) for p in w.psfs.values()])
    sigs.add("%d/%d/%d/%d" % (len(w.bands), len(w.exps), len(w.cat), w.n_radii))
    patch = cpu_patch(w, sourcecat=None)
    count["pixels"] += patch.npix
    # evaluate with and without residuals, several proposals, metadata replaced in between
    scene = patch.set_scene(w.cat)
    patch.pack_meta(scene)
    patch.return_residual = True
    patch.send_to_device()
    prop = patch.get_proposer()
    c, d, r = prop.evaluate_proposal(scene.get_proposal(), patch=patch)
    note(c, d, r)
    q = scene.get_all_source_params()
    for t in range(2):
        scene.set_all_source_params(q * (1 + 0.01 * rng.normal(size=len(q))))
        c, d, r = prop.evaluate_proposal(scene.get_proposal(), patch=patch)
        note(c, d, r)
    if len(w.cat) > 1:
        sub = patch.set_scene(w.cat[:1 + len(w.cat) // 2])
        patch.pack_meta(sub)
        patch.swap_on_device()
        count["swaps"] += 1
        c, d, r = prop.evaluate_proposal(sub.get_proposal(), patch=patch)
        note(c, d, r)
    # a full preparation with fixed sources in blocks, then the posterior and the linear fit
    patch2 = cpu_patch(w, sourcecat=None)
    nf = int(rng.integers(1, 8))
    fixed = make_catalog(rng, nf, w.center, w.half * 1.5, w.bands, w.sr, w.rr)
    model, q = quiet(patch2.prepare_model, active=w.cat, fixed=fixed, maxactive=int(rng.integers(1, 5)))
    lnp, g = model.lnprob_and_grad(q)
    note(np.array([lnp]), g)
    res = model.residuals(q)
    note(np.array([lnp]), g, res)
    X, y = patch2.design_matrix(active=w.cat[:3])
    note(np.concatenate(y), np.concatenate([x.reshape(-1) for x in X]))


def beyond(rng, tmp, what):
    """One more than a compiled limit: has to be refused by an exception."""
    spl = write_spline(os.path.join(tmp, "b.h5"), rng, MAXRADII + 1 if what == "radii" else 3)
    kw = dict(spline=spl, size=6, n_exp=1, psf_ng=1, n_bands=1, n_src=2)
    if what == "sources":
        kw["n_src"] = MAXSOURCES + 1 + int(rng.integers(0, 40))
    if what == "bands":
        kw["n_bands"] = MAXBANDS + 1
    w = World(rng, tmp, **kw)
    w.write(rng)
    try:
        patch = cpu_patch(w, sourcecat=None)
        model, q = quiet(patch.prepare_model, active=w.cat)
        lnp = model.lnprob(q)
    except Exception as e:
        count["refused"] += 1
        sigs.add("refused " + what)
        return
    print("BEYOND-ACCEPTED %s lnp=%r" % (what, float(lnp)), flush=True)


t0 = time.time()
for k in range(ncases):
    if time.time() - t0 > budget:
        break
    rng = np.random.default_rng([seed, k])
    with tempfile.TemporaryDirectory() as tmp:
        print("CASE %d" % k, flush=True)
        if mode == "beyond":
            beyond(rng, tmp, ["sources", "bands", "radii"][k % 3])
        else:
            one(rng, k, tmp)
print("RESULT " + json.dumps(dict(count=count, digest=dig.hexdigest(), sigs=sorted(sigs))), flush=True)

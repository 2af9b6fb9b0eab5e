"""C07: fixed and big sources are subtracted exactly once."""
import os

import numpy as np

from fpv import refmodel
from fpv.refmodel import EPS
from fpv.world import World, cpu_patch, make_catalog, write_spline
from checks.c01 import fits_pixels, as_vector

PROPERTY = "C07"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: working data after every preparation compared pixel by pixel with data minus the independent float64 model of all fixed and big sources"
RULE = "distinct (n_fixed vs block, n_big vs block, n_active, repeated, order permuted) with a non-trivial fixed model"
ASSUMPTIONS = ["float32 tolerance model of fpv/refmodel.py", "preparing a CPU patch twice without rebuilding it is cumulative by design and not judged"]
CASES = {"quick": 120, "thorough": 3000}
MIN = {"pixels_compared": 20000, "preparations": 200, "oversize_catalogs": 4}


class Sub:
    """Reference for data minus several catalogs."""

    def __init__(self, w):
        self.w = w
        self.bypath = {e["path"]: e for e in w.exps}

    def data(self, patch, groups, nblocks):
        """groups: list of (catalog, Ref).  Returns data, tolerance, weight in patch order, padding excluded by mask."""
        xs, ys = patch.split_pix("xpix"), patch.split_pix("ypix")
        D, T, W, U, M = [], [], [], [], []
        for k, ep in enumerate(patch.epaths):
            e = self.bypath[str(ep)]
            use = (xs[k] >= 0) & (ys[k] >= 0)
            xi, yi = np.where(use, xs[k], 0).astype(int), np.where(use, ys[k], 0).astype(int)
            d, ie = fits_pixels(e, xi, yi)
            model, tol, mag = np.zeros(len(d)), np.zeros(len(d)), np.zeros(len(d))
            for cat, ref in groups:
                for row in cat:
                    m, t = ref.image(e, np.array([row]), xi, yi)
                    model += m
                    tol += 40 * t
                    mag += np.abs(m)
            D.append(d - model)
            M.append(model)
            T.append(tol + EPS * (12 + 2 * nblocks + sum(len(c) for c, _ in groups)) * (np.abs(d) + mag) + 1e-12)
            W.append(np.where(use, ie, 0))
            U.append(use)
        return [np.concatenate(a) for a in (D, T, W, U, M)]


def setup(ctx, n_active=None, **kw):
    rng = ctx.rng
    w = World(rng, ctx.tmp, n_src=n_active or int(rng.integers(1, 5)), n_bands=kw.pop("n_bands", int(rng.integers(1, 4))), size=int(rng.integers(12, 20)),
              n_exp=int(rng.integers(1, 3)), negative=kw.pop("negative", 0.1), **kw)
    if rng.random() < 0.5:
        w.add_model()
    w.write(rng)
    return w


def case(ctx, i):
    rng = ctx.rng
    w = setup(ctx)
    block = int(rng.choice([1, 2, 3, 5, 15, 30]))
    sizes = [0, 1, block - 1, block, block + 1, 2 * block, 2 * block + 1]
    nf, nb = [min(int(rng.choice(sizes)), 14) for _ in range(2)]
    if i % 12 == 5:
        # more than the kernel takes at once, full blocks and one over; many small blocks
        block = [30, 1, 30, 7][(i // 12) % 4]
        many = [31, 61] if block == 30 else [67, 71] if block == 1 else [36, 71]
        nf, nb = [int(v) for v in rng.permutation([int(rng.choice(many)), int(rng.choice([0, 1, 3]))])]
        ctx.count("oversize_catalogs")
    mk = lambda n, s: make_catalog(rng, n, w.center, w.half * 1.3, w.bands, w.sr, w.rr, start_id=s)
    fixed, big = mk(nf, 100), mk(nb, 200)
    bkw = {}
    ref = refmodel.Ref(w)
    bref = ref
    if rng.random() < 0.4:
        # big sources may use their own table (same number of radii)
        import copy
        spl = write_spline(os.path.join(ctx.tmp, "big.h5"), rng, w.n_radii)
        w2 = copy.copy(w)
        w2.spline = spl
        bref = refmodel.Ref(w2)
        (s0, s1), (r0, r1), _ = [(0.9, 5.9), (0.03, 0.39), 0]
        big["sersic"], big["rhalf"] = rng.uniform(1.0, 5.8, nb), rng.uniform(0.03, 0.38, nb)
        bkw = dict(splinedata=spl)
    none_f = nf == 0 and rng.random() < 0.5
    none_b = nb == 0 and rng.random() < 0.5
    args = dict(fixed=None if none_f else fixed, big=None if none_b else big, maxactive=block, big_scene_kwargs=bkw)
    keep = [c.tobytes() for c in (fixed, big, w.cat)]
    ctx.desc = dict(w=w.describe(), nf=nf, nb=nb, block=block)
    nblocks = -(-nf // block) + -(-nb // block)
    sub = Sub(w)
    patch = cpu_patch(w, sourcecat=None)
    orig = patch.data.copy()
    if rng.random() < 0.4:
        # the patch object served another, smaller region (and other sources) before
        from forcepho.region import CircularRegion
        patch = cpu_patch(w, build=False)
        patch.build_patch(region=CircularRegion(w.center[0], w.center[1], rng.uniform(2, 5) * w.scale / 3600), allbands=w.allbands)
        m0, q0 = patch.prepare_model(active=mk(len(w.cat), 300), fixed=mk(int(rng.integers(1, 4)), 400), maxactive=block)
        m0.lnprob(q0)
        m0.residuals(q0)
        ctx.count("smaller_before")
        patch.build_patch(region=None, sourcecat=None, allbands=w.allbands)
        ctx.equal(patch.data, orig, "the data of a patch depend on the region before")
    want, tol, ie, use, model = sub.data(patch, [(fixed, ref), (big, bref)], nblocks)

    def compare(patch, label):
        d = patch.retrieve_array("data").astype(float)
        ctx.close(d[use & (ie > 0)], want[use & (ie > 0)], tol[use & (ie > 0)], "working data are not the data minus all fixed and big sources (%s)" % label, name="data",
                  n_fixed=nf, n_big=nb, block=block)
        ctx.count("pixels_compared", (use & (ie > 0)).sum())
        ctx.count("preparations")
        ctx.equal([c.tobytes() for c in (fixed, big, w.cat)], keep, "preparing the patch changed a catalog")

    m, q = patch.prepare_model(active=w.cat, **args)
    compare(patch, "first")
    d1 = patch.retrieve_array("data")
    # likelihood refers to those data: active scene on top of them
    aw, at, _, _, am = sub.data(patch, [(fixed, ref), (big, bref), (w.cat, ref)], nblocks + 1)
    ctx.close(q, as_vector(w.cat, patch.bandlist, patch.patch_reference_coordinates), 1e-9, "parameter vector after the preparation is not the active catalog")
    lnl = m.lnprob(q)
    sel = use & (ie > 0)
    wantl = -0.5 * np.sum((aw[sel] ** 2 - want[sel] ** 2) * ie[sel] ** 2)
    tl = np.sum(ie[sel] ** 2 * ((np.abs(aw) + at) * at + (np.abs(want) + tol) * tol + 6 * EPS * (aw ** 2 + want ** 2))[sel])
    ctx.close(lnl, wantl, tl + 1e-9, "likelihood does not refer to the subtracted data", name="lnlike")
    ctx.equal(patch.retrieve_array("data"), d1, "evaluating changed the working data")
    res = np.concatenate(m.residuals(q))
    ctx.close(res[sel], aw[sel], at[sel], "residual after preparation is not data minus all sources", name="residual")
    ctx.equal(patch.retrieve_array("data"), d1, "asking for residuals changed the working data")
    l2 = m.lnprob(q + 0)
    # design matrix leaves the data alone
    if rng.random() < 0.5:
        act = w.cat.copy()
        rr = patch.return_residual = bool(rng.integers(2))
        patch.design_matrix(act)
        ctx.equal(bool(patch.return_residual), rr, "computing the design matrix changes what evaluations return")
        patch.return_residual = False
        m.lnprob(q + 1e-9)
        ctx.equal(m.lnprob(q), lnl, "the likelihood after computing the design matrix is not that of the prepared patch")
        ctx.equal(patch.retrieve_array("data"), d1, "computing the design matrix changed the working data")
        ctx.equal(act, w.cat, "computing the design matrix changed the catalog")
    # --- rebuild and prepare again, sources in another order
    rebuild = str(rng.choice(["same", "permute", "swap", "block"]))
    patch.build_patch(region=None, sourcecat=None, allbands=w.allbands)
    ctx.equal(patch.data, orig, "rebuilding does not restore the data")
    a2 = dict(args)
    if rebuild == "permute":
        a2["fixed"] = None if none_f else fixed[rng.permutation(nf)]
        a2["big"] = None if none_b else big[rng.permutation(nb)]
    elif rebuild == "swap" and not bkw:
        a2["fixed"], a2["big"] = a2["big"], a2["fixed"]
    elif rebuild == "block":
        a2["maxactive"] = int(rng.choice([1, 4, 7, 30]))
    m2, q2 = patch.prepare_model(active=w.cat, **a2)
    compare(patch, "again, " + rebuild)
    ctx.close(m2.lnprob(q2), wantl, tl + 1e-9, "likelihood after preparing again", name="lnlike")
    if rebuild == "same":
        ctx.equal(patch.retrieve_array("data"), d1, "preparing a rebuilt patch again gives other data")
        ctx.equal(m2.lnprob(q2), lnl, "preparing a rebuilt patch again gives another likelihood")
    # --- subtraction alone (no active sources)
    if nf + nb > 0 and rng.random() < 0.5:
        patch.build_patch(region=None, sourcecat=None, allbands=w.allbands)
        patch.subtract_fixed(args["fixed"], active=None, big=args["big"], maxactive=block, swap_local=True, big_scene_kwargs=bkw)
        compare(patch, "no active sources")
    if nf + nb and np.any(np.abs(model[sel]) > 10 * tol[sel]):
        ctx.sig(min(nf, 9), min(nb, 9), block, len(w.cat), rebuild, bool(bkw), len(w.bands))
    ctx.sample(n_fixed=nf, n_big=nb, block=block, rebuild=rebuild, pixels=int(sel.sum()), lnl=float(lnl))

"""C01: the compiled likelihood equals the chi-square of data minus an independently computed model."""
import numpy as np

from fpv import refmodel
from fpv.refmodel import EPS
from fpv.world import World, cpu_patch

PROPERTY = "C01"
NEEDS_KERNEL = True
CASES = {"quick": 200, "thorough": 6000}
RULE = ("Random worlds (1-30 bands, 1-4 exposures/band of different shapes, rotated/flipped/rectangular/SIP WCS, per-band PSF mixtures of "
        "different size, 1-30 sources with random or extreme shapes, bad pixels, optional per-exposure calibration factors). Each is evaluated through "
        "the patch/proposer and through the posterior at the catalog and at perturbed parameter vectors; every residual pixel and every band "
        "chi-square is compared with a float64 model. A signature = (bands, exposures per band, PSF sizes differ, WCS kinds, sources, radii, perturbed) is distinct and non-trivial "
        "when some weighted pixel has a model value above its tolerance.")
ASSUMPTIONS = ["float32 tolerance model of fpv/refmodel.py", "spline interpolation by scipy RectBivariateSpline is trusted",
               "astropy WCS is trusted for world_to_pixel", "the C++ kernel runs here; the CUDA kernel is C26's"]
MIN = {"pixels_compared": 10000, "bands_compared": 100}


def world_for(ctx, i, large=False):
    rng = ctx.rng
    kind = i % 8
    kw = {}
    if kind == 1:
        kw = dict(n_bands=1, n_exp=1, n_src=int(rng.integers(20, 31)), size=18)
    elif kind == 2:
        kw = dict(n_bands=int(rng.integers(12, 31)), n_exp=1, n_src=2, size=12, psf_ng=1, n_radii=3)
        from fpv.world import write_spline
        import os
        kw["spline"] = write_spline(os.path.join(ctx.tmp, "s3.h5"), rng, 3)
    elif kind == 3:
        kw = dict(n_bands=2, n_exp=int(rng.integers(3, 6)), n_src=3, size=14)
        if rng.random() < 0.3:
            kw = dict(n_bands=int(rng.integers(1, 3)), n_exp=int(rng.integers(7, 20)), n_src=2, size=8, psf_ng=1)
    elif large and kind == 7 and rng.random() < 0.2:
        # more pixels than fit in 16 bits
        kw = dict(n_bands=1, n_exp=int(rng.integers(1, 3)), n_src=2, size=int(rng.integers(258, 290)), psf_ng=1, masked=False)
    elif kind == 4:
        kw = dict(extreme=True, kinds=["sip", "rect", "rot"])
    elif kind == 5:
        # sources off the edges of the images
        kw = dict(half=30 * 0.06, n_src=6, size=16)
    elif kind == 6 and rng.random() < 0.5:
        kw = dict(n_bands=int(rng.integers(1, 3)), n_exp=1, n_src=2, size=12)
    w = World(rng, ctx.tmp, **kw)
    if kind == 6 and kw:
        w.widen(rng)
        ctx.count("wide_images", len(w.exps))
    w.var = rng.choice(["", "narrow", "units", "blank"], p=[0.6, 0.12, 0.14, 0.14])
    if w.var == "narrow":
        w.narrow(10 ** rng.uniform(-1.6, -0.4))
    elif w.var == "units":
        w.units(10 ** rng.uniform(-6, 6))
    return w


def observe(ctx, w, p_model, lo, hi):
    """Put the sources (or not) into the images and write them."""
    rng = ctx.rng
    if rng.random() < p_model:
        w.add_model(factor=rng.uniform(lo, hi))
    if w.var == "blank":
        w.blank(rng)
    w.write(rng)
    ctx.desc = dict(w.describe(), var=str(w.var))
    ctx.count("var_" + (w.var or "plain"))


def fits_pixels(e, x, y):
    """What the image says about each pixel: flux, weight (0 for bad pixels)."""
    d = e["data"][y, x].astype(float)
    with np.errstate(all="ignore"):
        ie = 1.0 / e["err"][y, x].astype(float)
    bad = ~np.isfinite(d) | ~np.isfinite(ie) | (ie < 0)
    return np.where(bad, 0, d), np.where(bad, 0, ie)


def compare(ctx, w, ref, patch, cat, anchors, chi2, residuals, G, label):
    """Check residual images and per band chi2 against the reference."""
    expected = {b: 0.0 for b in w.bands}
    etol = {b: 1e-30 for b in w.bands}
    own, otol = {b: 0.0 for b in w.bands}, {b: 1e-30 for b in w.bands}
    bypath = {e["path"]: e for e in w.exps}
    xs, ys, data = patch.split_pix("xpix"), patch.split_pix("ypix"), patch.split_pix("data")
    want = sum(e["band"] in patch.bandlist for e in w.exps)
    ctx.check(len(residuals) == want, "one residual image per exposure", got=len(residuals), want=want)
    nontrivial = False
    for k, path in enumerate(patch.epaths):
        e = bypath[str(path)]
        x, y = xs[k], ys[k]
        ctx.check(len(residuals[k]) == len(x), "residual length differs from the pixels of its exposure")
        use = (x >= 0) & (y >= 0)
        xi, yi = x[use].astype(int), y[use].astype(int)
        d, ie = fits_pixels(e, xi, yi)
        g = 1.0 if G is None else float(G[k])
        model, tol = ref.image(e, cat, xi, yi, anchors=anchors, G=g)
        r = d - model
        rt = 40 * tol + EPS * (16 + 2 * len(cat)) * (np.abs(d) + np.abs(model)) + 1e-12
        res = np.asarray(residuals[k], float)[use]
        good = ie > 0
        ctx.close(res[good], r[good], rt[good], "residual is not data minus model (%s)" % label, name="residual",
                  exposure=str(path), band=e["band"])
        ctx.count("pixels_compared", good.sum())
        # pixels without weight have a residual too
        packed = np.asarray(data[k], float)[use]
        rt0 = 40 * tol + EPS * (16 + 2 * len(cat)) * (np.abs(packed) + np.abs(model)) + 1e-12
        ctx.close(res[~good], (packed - model)[~good], rt0[~good], "residual of a pixel without weight (%s)" % label, name="residual0", exposure=str(path))
        ctx.count("masked_pixels", (~good).sum())
        nontrivial |= bool(np.any(np.abs(model[good]) > rt[good]))
        b = e["band"]
        own[b] += np.sum((res[good] ** 2 - d[good] ** 2) * ie[good] ** 2)
        otol[b] += 8 * EPS * np.sum((res[good] ** 2 + d[good] ** 2) * ie[good] ** 2)
        expected[b] += np.sum((r ** 2 - d ** 2) * ie ** 2)
        etol[b] += np.sum(ie ** 2 * (2 * np.abs(r) * rt + rt ** 2 + 6 * EPS * np.abs(r ** 2 - d ** 2) + 4 * EPS * (r ** 2 + d ** 2)))
    want = np.array([expected[b] for b in patch.bandlist])
    tol = np.array([etol[b] for b in patch.bandlist])
    ctx.close(chi2, want, tol, "chi-square of a band differs (%s)" % label, name="chi2", bands=patch.bandlist)
    ctx.close(chi2, [own[b] for b in patch.bandlist], [otol[b] for b in patch.bandlist], "chi-square of a band is not that of its residual images (%s)" % label, name="chi2_own", bands=patch.bandlist)
    ctx.count("bands_compared", len(want))
    compare.resolution = np.array([otol[b] for b in patch.bandlist])
    if nontrivial:
        ne = tuple(sum(e["band"] == b for e in w.exps) for b in w.bands)
        ctx.sig(len(w.bands), ne[:6], len(set(len(w.psfs[b]) for b in w.bands)), "".join(sorted(set(e["kind"][0] for e in w.exps))), len(cat), w.n_radii, label)
    return want, tol


def accumulate(ctx):
    """Very many faint pixels after bright ones: none of them is lost from the sum."""
    rng = ctx.rng
    w = World(rng, ctx.tmp, n_bands=1, n_exp=2, n_src=1, size=14, masked=False, nonsquare=False, psf_ng=2, extreme=False)
    big = World(rng, ctx.tmp, n_bands=1, n_exp=1, n_src=1, size=150, masked=False, nonsquare=False, center=tuple(w.center), spline=w.spline, name="big")
    b = w.bands[0]
    k = int(rng.integers(1, 4))
    w.psfs[b] = [(abs(p[0]) + 0.1, p[1], p[2], p[3] * 200 * k, p[4] * 200 * k, p[5] * 200 * k, p[6]) for p in w.psfs[b]]
    w.psfs[b] = [tuple(float(np.float32(v)) for v in p[:6]) + (p[6],) for p in w.psfs[b]]
    from fpv.world import write_psfstore
    write_psfstore(w.psfstore, w.psfs)
    w.cat[b] = 3e4
    last = big.exps[0]
    last.update(band=b, path=last["path"].replace(big.bands[0], b))
    last["hdr"]["FILTER"] = b
    w.exps = w.exps[:1] + [last]
    ref = refmodel.Ref(w)
    first = w.exps[0]
    yy, xx = np.mgrid[0:first["ny"], 0:first["nx"]]
    m = ref.image(first, w.cat, xx.reshape(-1), yy.reshape(-1))[0].reshape(yy.shape)
    first["data"] = np.zeros_like(first["data"])
    first["err"] = (0.01 * np.abs(m).max() * np.ones_like(m)).astype(np.float32)
    B = np.sum((m / first["err"]) ** 2)
    yy, xx = np.mgrid[0:last["ny"], 0:last["nx"]]
    m = ref.image(last, w.cat, xx.reshape(-1), yy.reshape(-1))[0].reshape(yy.shape)
    last["data"] = np.zeros_like(last["data"])
    t = 2.0 ** np.floor(np.log2(B)) * 2.0 ** -24 * 0.5
    last["err"] = np.where(np.abs(m) > 1e-8 * np.abs(m).max(), np.abs(m) / np.sqrt(t), 1e20).astype(np.float32)
    w.write()
    patch = cpu_patch(w)
    ctx.desc = w.describe()
    patch.return_residual = True
    patch.send_to_device()
    chi2, _, res = patch.get_proposer().evaluate_proposal(patch.scene_used.get_proposal(), patch=patch, unpack=True)
    want, tol = compare(ctx, w, ref, patch, w.cat, w.cat.copy(), chi2, res, None, "accumulate")
    ctx.maximum("accumulate_resolution", float(compare.resolution[0] / (want[0] - B)))
    ctx.count("accumulations")


def reuse(ctx, w, patch):
    """The same patch object for other bands and sources, and drawing of a catalog."""
    from fpv.world import make_catalog
    rng = ctx.rng
    for k in range(2):
        ref = refmodel.Ref(w)      # it remembers the astrometry at the sources
        nb = 1 if rng.random() < 0.6 else int(rng.integers(1, len(w.bands) + 1))
        bands = [w.bands[j] for j in rng.permutation(len(w.bands))[:nb]]
        patch.build_patch(region=None, allbands=bands)
        ctx.check(list(patch.bandlist) == bands, "bands of the patch after building it again", got=list(patch.bandlist), want=bands)
        n = len(w.cat) if rng.random() < 0.5 else int(rng.integers(1, 5))
        cat = make_catalog(rng, n, w.center, w.half, w.bands, w.sr, w.rr)
        if rng.random() < 0.5:
            model, q = patch.prepare_model(active=cat)
            res = model.residuals(q)
            patch.return_residual = True
            chi2, _, _ = model.proposer.evaluate_proposal(model.scene.get_proposal(), patch=patch)
            patch.return_residual = False
            compare(ctx, w, ref, patch, cat, cat, chi2, res, None, "rebuilt")
        else:
            data = patch.data.copy()
            keep = patch.return_residual = bool(rng.random() < 0.5)
            raw = cat.tobytes()
            images = patch.render(cat)
            ctx.equal(patch.data, data, "drawing a catalog changed the data")
            ctx.check(bool(patch.return_residual) == keep, "drawing a catalog changed what evaluations return")
            ctx.check(cat.tobytes() == raw, "drawing a catalog changed it")
            res = [d - m for d, m in zip(patch.split_pix("data"), images)]
            patch.return_residual = True
            chi2, _, direct = patch.get_proposer().evaluate_proposal(patch.scene.get_proposal(), patch=patch, unpack=True)
            compare(ctx, w, ref, patch, cat, cat, chi2, direct, None, "after drawing")
            for a, b, d in zip(res, direct, patch.split_pix("data")):
                ctx.close(a, b, 4 * EPS * (np.abs(d) + np.abs(b)) + 1e-30, "drawn image is not the model", name="render")
            ctx.count("catalogs_drawn")
        ctx.count("patches_reused")


def perturb(rng, w, cat):
    c = cat.copy()
    n = len(c)
    cosd = np.cos(np.deg2rad(w.center[1]))
    c["ra"] += rng.normal(0, 0.4, n) * w.scale / 3600 / cosd
    c["dec"] += rng.normal(0, 0.4, n) * w.scale / 3600
    c["q"] = np.clip(c["q"] + rng.normal(0, 0.1, n), 0.3, 1.0)
    c["pa"] = c["pa"] + rng.normal(0, 0.5, n)
    c["sersic"] = rng.uniform(*w.sr, n)
    c["rhalf"] = rng.uniform(*w.rr, n)
    for b in w.bands:
        c[b] = c[b] * rng.uniform(-0.5, 2, n)
        c[b][rng.random(n) < 0.05] = 0.0
    return c


def as_vector(cat, bandlist, zero):
    rows = []
    for r in cat:
        rows.append([r[b] for b in bandlist] + [r["ra"] - zero[0], r["dec"] - zero[1], r["q"], r["pa"], r["sersic"], r["rhalf"]])
    return np.array(rows, float).reshape(-1)


def case(ctx, i):
    rng = ctx.rng
    if i % 40 == 15:
        return accumulate(ctx)
    w = world_for(ctx, i, large=True)
    observe(ctx, w, 0.7, 0.5, 1.5)
    ref = refmodel.Ref(w)
    patch = cpu_patch(w)
    G = None
    if rng.random() < 0.3:
        G = rng.uniform(0.5, 2.0, patch.n_exp).astype(np.float32)
        patch.G[:] = G
    ctx.check(list(patch.bandlist) == w.bands, "bands of the patch", got=list(patch.bandlist), want=w.bands)
    patch.return_residual = True
    patch.send_to_device()
    prop = patch.get_proposer()
    chi2, derivs, res = prop.evaluate_proposal(patch.scene_used.get_proposal(), patch=patch, unpack=True)
    anchors = w.cat.copy()
    compare(ctx, w, ref, patch, w.cat, anchors, chi2, res, G, "catalog")
    # flat residuals carry the same values
    _, _, flat = prop.evaluate_proposal(patch.scene_used.get_proposal(), patch=patch, unpack=False)
    ctx.equal(np.concatenate(res), flat, "flat and split residuals differ")

    # --- through the posterior, at other parameter vectors
    patch = cpu_patch(w, sourcecat=None)
    model, q0 = patch.prepare_model(active=w.cat)
    zero = patch.patch_reference_coordinates
    for t in range(2):
        c = perturb(rng, w, w.cat) if t else w.cat
        q = as_vector(c, patch.bandlist, zero)
        if t == 0:
            ctx.close(q0, q, 1e-9, "initial parameter vector is not the catalog relative to the patch reference", name="q0")
        lnp = model.lnprob(q)
        res = model.residuals(q)
        patch.return_residual = True
        chi2, _, _ = model.proposer.evaluate_proposal(model.scene.get_proposal(), patch=patch)
        patch.return_residual = False
        want, tol = compare(ctx, w, ref, patch, c, anchors, chi2, res, None, "posterior%d" % t)
        ctx.close(lnp, -0.5 * want.sum(), 0.5 * tol.sum() + 1e-12 * np.abs(want).sum(), "log-likelihood of the posterior", name="lnp")
    if rng.random() < 0.5:
        reuse(ctx, w, patch)
    ctx.sample(world=w.describe(), lnp=float(lnp), expected=float(-0.5 * want.sum()))

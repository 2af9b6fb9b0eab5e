"""C13: bounds are consistent with catalogs and parameter vectors; the bounding transform is a bijection."""
from argparse import Namespace

import numpy as np

from fpv.scenes import BANDS, random_catalog, random_scene
from fpv.world import SHAPES, World, cpu_patch

PROPERTY = "C13"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: closed-form bounds and quad-precision logistic oracle over random catalogs, options, bounds and coordinates"
RULE = "distinct (function, option combination, kind of flux / coordinate) situations"
ASSUMPTIONS = ["the transform is used for |z| < 700 (the logistic derivative underflows beyond)"]
CASES = {"quick": 800, "thorough": 20000}
MIN = {"bounds_catalogs": 300, "check_bounds": 300, "transforms": 200, "patch_bounds": 30, "adjusted": 100}
L = np.longdouble


def odd_fluxes(rng, cat, bands):
    for b in bands:
        k = rng.random(len(cat)) < 0.3
        cat[b][k] = rng.choice([0.0, 1e-12, -1e-12, 1e8, -1e4, 0.5, 6.25, -6.25], k.sum())


def flux_truth(f, u):
    f = np.asarray(f, float)
    fmin = (u / 2.0) ** 2
    w = u * np.sqrt(np.abs(f))
    lo, hi = f - w, f + w
    lo = np.where(f <= fmin, np.minimum(lo, -fmin), lo)
    return lo, np.maximum(hi, fmin)


def case_make(ctx):
    from forcepho.superscene import bounds_vectors, check_bounds, flux_bounds, make_bounds
    rng = ctx.rng
    nb = int(rng.integers(1, 5))
    bands = [BANDS[k] for k in rng.permutation(len(BANDS))[:nb]]
    n = int(rng.choice([1, 2, 3, 9]))
    cat, cen = random_catalog(rng, n, bands)
    cat["source_index"] = rng.permutation(50)[:n]
    odd_fluxes(rng, cat, bands)
    kw = {}
    dpos = np.ones(2) * 2 * 0.03
    how = str(rng.choice(["default", "pix", "dpos", "dpos_each"]))
    if how == "pix":
        kw["n_pix"], kw["pixscale"] = float(rng.uniform(0.5, 5)), float(rng.choice([0.02, 0.06]))
        dpos = np.ones(2) * kw["n_pix"] * kw["pixscale"]
    elif how == "dpos":
        dpos = kw["dpos"] = rng.uniform(0.01, 0.3, 2)
    elif how == "dpos_each":
        dpos = kw["dpos"] = rng.uniform(0.01, 0.3, (2, n))
    ranges = dict(q=(0.4, 1.0), pa=(-0.6 * np.pi, 0.6 * np.pi), rhalf=(0.03, 0.3), sersic=(1.0, 5.0))
    for c, k in (("q", "sqrtq_range"), ("pa", "pa_range"), ("rhalf", "rhalf_range"), ("sersic", "sersic_range")):
        if rng.random() < 0.4:
            a, b = np.sort(rng.uniform(0.01, 6, 2))
            ranges[c] = kw[k] = (a, b + 0.1)
    nsig = 5.0
    if rng.random() < 0.5:
        nsig = kw["n_sig_flux"] = float(rng.uniform(0.5, 10))
    unc = None
    if rng.random() < 0.4:
        unc = kw["unccat"] = cat.copy()
        for b in bands:
            unc[b] = 10 ** rng.uniform(-2, 1, n)
    before = cat.copy()
    bcat = make_bounds(cat, list(bands), **kw)
    ctx.equal(cat, before, "make_bounds changes the catalog")
    ctx.check(len(bcat) == n, "one row of bounds per source")
    ctx.equal(bcat["source_index"], cat["source_index"], "index of the bounded source")
    for c in SHAPES + list(bands):
        ctx.check(bcat[c].shape == (n, 2), "lower and upper bound of each source", column=c)
        ctx.check(np.all(np.isfinite(bcat[c])), "bounds are not finite", column=c, got=bcat[c], values=cat[c])
    cosd = np.cos(np.deg2rad(cat["dec"]))
    for k, s in ((0, -1), (1, 1)):
        ctx.close(bcat["ra"][:, k], cat["ra"] + s * dpos[0] / 3600 / cosd, 1e-12 * 360, "bounds of ra", how=how)
        ctx.close(bcat["dec"][:, k], cat["dec"] + s * dpos[1] / 3600, 1e-12 * 360, "bounds of dec", how=how)
        for c in ranges:
            ctx.equal(bcat[c][:, k], np.full(n, ranges[c][k], float), "bounds of %s are not the configured range" % c)
    for b in bands:
        f = cat[b]
        if unc is None:
            lo, hi = flux_truth(f, nsig)
        else:
            s = nsig * np.maximum(unc[b], 0.05 * np.abs(f))
            lo, hi = f - s, f + s
        tol = 1e-9 * (1 + np.abs(f))
        ctx.close(bcat[b][:, 0], lo, tol, "lower bound of a flux", unc=unc is not None, flux=f)
        ctx.close(bcat[b][:, 1], hi, tol, "upper bound of a flux", unc=unc is not None, flux=f)
    for c in ["ra", "dec"] + list(bands):
        ctx.check(np.all(bcat[c][:, 0] < cat[c]) and np.all(cat[c] < bcat[c][:, 1]), "starting value is not inside its bounds", column=c, values=cat[c], bounds=bcat[c])
    ctx.count("bounds_catalogs")
    ctx.sig("make", how, unc is not None, sorted(kw), n == 1)
    # ---- check_bounds accepts exactly catalogs strictly inside
    cols = SHAPES + list(bands)
    inside = cat.copy()
    for c in cols:
        b = bcat[c]
        inside[c] = b[:, 0] + (b[:, 1] - b[:, 0]) * rng.uniform(0.02, 0.98, n)
    check_bounds(inside, bcat)
    for _ in range(4):
        bad = inside.copy()
        c, j, side = str(rng.choice(cols)), int(rng.integers(n)), int(rng.integers(2))
        w = bcat[c][j, 1] - bcat[c][j, 0]
        step = float(rng.choice([0.0, 1e-3, 10.0])) * w
        bad[c][j] = bcat[c][j, side] + (2 * side - 1) * step
        ctx.raises(lambda: check_bounds(bad, bcat), "a value on or outside its bound is accepted", column=c, row=j, side=side, step=step)
        ctx.count("check_bounds")
        ctx.sig("check", c if c in SHAPES else "flux", side, step == 0)
    # ---- vectors
    ref = [float(cen[0] + rng.normal(0, 0.01)), float(cen[1] + rng.normal(0, 0.01))] if rng.random() < 0.7 else [0.0, 0.0]
    sub = [bands[k] for k in rng.permutation(nb)[:int(rng.integers(1, nb + 1))]]
    b0 = bcat.copy()
    shapes = list(SHAPES)
    if rng.random() < 0.4:
        # kinds of sources with fewer shape parameters
        shapes = [SHAPES[k] for k in rng.permutation(len(SHAPES))[:int(rng.integers(1, len(SHAPES) + 1))]]
        lo, hi = bounds_vectors(bcat, list(sub), shapenames=list(shapes), reference_coordinates=ref)
    else:
        lo, hi = bounds_vectors(bcat, list(sub), reference_coordinates=ref)
    ctx.check(bcat.tobytes() == b0.tobytes(), "bounds_vectors changes the catalog of bounds")
    want = [[], []]
    for j in range(n):
        for k in (0, 1):
            for c in sub + shapes:
                v = bcat[c][j, k]
                want[k].append(v - ref[0] if c == "ra" else v - ref[1] if c == "dec" else v)
    ctx.equal(lo, np.array(want[0]), "vector of lower bounds")
    ctx.equal(hi, np.array(want[1]), "vector of upper bounds")
    # ---- flux bounds from precisions
    m = int(rng.integers(1, 5)) if rng.random() < 0.7 else int(rng.integers(5, 31))
    A = rng.normal(0, 1, (m, m + 3)) * 10 ** rng.uniform(-1, 1)
    P = A @ A.T
    f = rng.normal(0, 3, m) * rng.choice([0, 1, 1, 10], m)
    u = float(rng.uniform(0.5, 8))
    smax = float(rng.choice([5, 10, 100]))
    lo, hi = flux_bounds(f, u, snr_max=smax, precisions=P)
    s = np.maximum(np.sqrt(np.diag(np.linalg.inv(P))), np.abs(f) / smax)
    tol = 1e-6 * (np.abs(f) + u * s)
    ctx.close(lo, f - u * s, tol, "lower flux bound from the precision matrix", flux=f)
    ctx.close(hi, np.maximum(f + u * s, u * s), tol, "upper flux bound from the precision matrix", flux=f)
    ctx.sample(n=n, bands=bands, how=how, options=sorted(kw))


def case_adjust(ctx):
    from forcepho.superscene import adjust_bounds, make_bounds
    rng = ctx.rng
    eps = float(rng.choice([0.001, 0.01]))
    minflux = [None, 0.0, -1.0, -50.0][int(rng.integers(4))]
    fac = [0, 0.0, 2.0, 10.0][int(rng.integers(4))]
    viaconf = rng.random() < 0.5
    kw = dict(config=Namespace(minflux=minflux, maxfluxfactor=fac)) if viaconf else dict(maxfluxfactor=fac, minflux=minflux)
    if minflux is None and not viaconf:
        kw["config"] = Namespace(minflux=None, maxfluxfactor=77)
    kw["eps"] = eps
    scene, opts, _, _ = random_scene(rng, bool(rng.integers(2)), n=int(rng.integers(1, 8)), bounds_kwargs=dict(rhalf_range=(0.01, 1), sqrtq_range=(0.3, 1.0)))
    bands = list(opts["bands"])
    b0, c0 = scene.bounds_catalog.copy(), scene.sourcecat.copy()

    def truth(b, flux):
        lo, hi = b0[b].T
        if minflux is not None:
            lo = np.minimum(lo, minflux)
        if fac > 0:
            hi = np.maximum(hi, flux * fac)
        return lo, hi
    if rng.random() < 0.5:
        out = adjust_bounds(scene, bands, **kw)
        ctx.check(out is scene, "adjust_bounds returns the scene")
        bc, act = scene.bounds_catalog, scene.sourcecat
        ctx.equal(act, c0, "adjust_bounds changes the catalog of the scene")
        scene.check_bounds()
        kind = "scene"
    else:
        act = c0.copy()
        far = rng.random(len(act)) < 0.4
        bc = b0.copy()
        for b in bands:
            act[b] = np.where(far, act[b] + rng.choice([-1, 1], len(act)) * 1e3, act[b])
        a0 = act.copy()
        adjust_bounds(bc, bands, active=act, **kw)
        kind = "array"
        for b in bands:
            lo, hi = truth(b, a0[b])
            wide = hi - lo > 2.5 * eps
            ctx.close(act[b][wide], np.clip(a0[b], lo + eps, hi - eps)[wide], 1e-9, "flux is not moved to the nearest value inside the bounds", before=a0[b], lo=lo, hi=hi)
        for c in act.dtype.names:
            if c not in bands:
                ctx.equal(act[c], a0[c], "adjust_bounds changes column %s" % c)
        c0 = a0
    for b in bands:
        lo, hi = truth(b, c0[b])
        ctx.close(bc[b][:, 0], lo, 1e-9, "adjusted lower flux bound", minflux=minflux)
        ctx.close(bc[b][:, 1], hi, 1e-9 * (1 + np.abs(hi)), "adjusted upper flux bound", factor=fac)
    for c in SHAPES:
        ctx.equal(bc[c], b0[c], "adjust_bounds changes the bounds of %s" % c)
    ctx.count("adjusted")
    ctx.sig("adjust", kind, minflux, fac, viaconf)


def case_transform(ctx):
    from forcepho.model import BoundedTransform, Transform
    rng = ctx.rng
    n = int(rng.choice([1, 2, 7, 40, 200]))
    width = 10 ** rng.uniform(-6, 4, n)
    lower = rng.normal(0, 1, n) * 10 ** rng.uniform(-3, 3, n)
    if rng.random() < 0.2:
        lower[:] = 0
    upper = lower + width
    width = upper - lower
    T = BoundedTransform(lower.copy(), upper.copy())
    scale = float(rng.choice([1.0, 5.0, 30.0, 300.0]))
    z = np.clip(rng.normal(0, scale, n), -690, 690)
    z[rng.random(n) < 0.1] = 0
    z0 = z.copy()
    q = np.asarray(T.transform(z))
    zl = z.astype(L)
    y = np.where(zl > 0, 1 / (1 + np.exp(-np.abs(zl))), np.exp(-np.abs(zl)) / (1 + np.exp(-np.abs(zl))))
    ulp = 4 * np.spacing(np.maximum(np.abs(lower), np.abs(upper)))
    ctx.check(q.shape == (n,) and np.all(q >= lower - ulp) and np.all(q <= upper + ulp), "the transform leaves the bounds", z=z)
    ctx.close(q, (lower + y * width).astype(float), ulp + 1e-14 * width, "transform to the bounded space", name="transform")
    j = np.asarray(T.jacobian(z))
    jw = width * y * np.where(zl > 0, np.exp(-np.abs(zl)) / (1 + np.exp(-np.abs(zl))), 1 / (1 + np.exp(-np.abs(zl))))
    ctx.close(j / jw.astype(float), 1, 1e-10, "Jacobian is not the derivative of the transform", name="jacobian")
    ld = float(T.lndetjac(z))
    ctx.close(ld, float(np.sum(np.log(jw))), 1e-9 * n * (1 + np.abs(np.log(jw)).max().astype(float)), "log-determinant", n=n)
    ctx.close(T.lndetjac_grad(z), (1 - 2 * y).astype(float), 1e-13, "gradient of the log-determinant")
    # inverse, wherever q resolves z
    y64 = y.astype(float)
    ok = (np.minimum(y64, 1 - y64) * width > 1e3 * ulp) & (np.abs(z) < 25)
    if ok.any():
        back = np.asarray(T.inverse_transform(q))
        tol = 10 * (ulp / width + 2e-16) / np.minimum(y64, 1 - y64) + 1e-12
        ctx.close(back[ok], z[ok], tol[ok], "inverse of the transform", name="inverse")
    p = lower + width * rng.uniform(0.001, 0.999, n)
    ctx.close(T.transform(T.inverse_transform(p)), p, 10 * ulp + 1e-13 * width, "transform of the inverse")
    # monotonic
    z2 = z + np.abs(rng.normal(0, 1, n)) + 0.01
    ctx.check(np.all(T.transform(z2) >= q), "the transform is not increasing")
    # chains: one position per row
    zz = np.array([z, z2, z[::-1]])
    Q = np.asarray(T.transform(zz))
    ctx.check(Q.shape == zz.shape, "shape of a transformed chain")
    for r in range(3):
        ctx.close(Q[r], T.transform(zz[r]), ulp, "a chain is transformed row by row")
    ctx.equal(z, z0, "the transform changes its input")
    I = Transform(n)
    ctx.equal(np.asarray(I.transform(z)), z, "identity transform")
    ctx.equal(np.asarray(I.inverse_transform(z)), z, "inverse identity transform")
    ctx.check(np.all(np.asarray(I.jacobian(z)) == 1) and float(I.lndetjac(z)) == 0 and np.all(np.asarray(I.lndetjac_grad(z)) == 0), "Jacobian of the identity")
    ctx.count("transforms")
    ctx.sig("transform", n, scale, bool(np.all(lower == 0)))


def case_patch(ctx):
    """Bounds seen by the model of a patch are in the order and frame of its parameter vector."""
    from forcepho.superscene import make_bounds
    rng = ctx.rng
    w = World(rng, ctx.tmp, size=12, n_exp=1)
    w.write(rng)
    cat = w.cat
    patch = cpu_patch(w, sourcecat=None)
    allb = list(w.bands)
    rng.shuffle(allb)
    kw = dict(dpos=rng.uniform(0.01, 0.2, 2), sqrtq_range=(0.2, 1.0001), pa_range=(-3.2, 3.2), rhalf_range=(0.0, 10), sersic_range=(0.0, 9))
    bounds = make_bounds(cat, allb, **kw)
    b0 = bounds.copy()
    model, q = patch.prepare_model(active=cat, bounds=bounds)
    ref = np.asarray(patch.patch_reference_coordinates)
    lo, hi = np.asarray(model.transform.lower), np.asarray(model.transform.upper)
    ctx.check(lo.shape == q.shape == hi.shape, "one bound per parameter")
    k = 0
    for j in range(len(cat)):
        for c in list(patch.bandlist) + SHAPES:
            r = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
            for got, side in ((lo, 0), (hi, 1)):
                ctx.close(got[k], bounds[c][j, side] - r, 1e-9, "bound of parameter %d is not that of source %d, %s" % (k, j, c))
            ctx.check(lo[k] < q[k] < hi[k], "starting position is outside the bounds", column=c, source=j)
            k += 1
    ctx.check(bounds.tobytes() == b0.tobytes(), "the catalog of bounds is changed")
    z = model.transform.inverse_transform(q)
    ctx.close(model.transform.transform(z), q, 1e-9 * np.maximum(np.abs(q), hi - lo), "start is not recovered")
    ctx.count("patch_bounds")
    ctx.sig("patch", len(w.bands), len(cat))


def case(ctx, i):
    (case_make, case_transform, case_make, case_adjust, case_make, case_transform, case_make, case_patch)[i % 8](ctx)

"""Random superscenes, an independent sky-offset projection, and shadow bookkeeping for histories."""
import numpy as np

CENTERS = [(53.1625, -27.79), (187.7, 62.2), (150.1, 0.0), (12.0, -75.0), (0.0, 30.0), (359.5, -30.0)]
BANDS = ["CLEAR", "F090W", "HST_F814W", "F200W"]


def offsets(ra, dec, ra0, dec0):
    """(lon, lat) in arcsec in the frame centred on ra0, dec0: plain spherical trigonometry."""
    a, d = np.deg2rad(np.asarray(ra, float) - ra0), np.deg2rad(np.asarray(dec, float))
    d0 = np.deg2rad(dec0)
    x = np.cos(d) * np.cos(a)
    y = np.cos(d) * np.sin(a)
    z = np.sin(d)
    xp = x * np.cos(d0) + z * np.sin(d0)
    zp = -x * np.sin(d0) + z * np.cos(d0)
    return np.rad2deg(np.arctan2(y, xp)) * 3600, np.rad2deg(np.arctan2(zp, np.hypot(xp, y))) * 3600


def random_catalog(rng, n, bands, half=None, clumps=None):
    from forcepho.superscene import sourcecat_dtype
    cen = CENTERS[int(rng.integers(len(CENTERS)))]
    cosd = np.cos(np.deg2rad(cen[1]))
    half = half if half is not None else float(10 ** rng.uniform(0.3, 1.7))
    xy = rng.uniform(-half, half, (n, 2))
    if clumps if clumps is not None else rng.random() < 0.5:
        k = rng.integers(1, 5)
        c = rng.uniform(-half, half, (k, 2))
        xy = c[rng.integers(0, k, n)] + rng.normal(0, half * 10 ** rng.uniform(-1.5, -0.3), (n, 2))
    cat = np.zeros(n, dtype=sourcecat_dtype(bands=bands))
    cat["id"] = rng.permutation(10 * n)[:n]
    cat["ra"] = cen[0] + xy[:, 0] / 3600 / cosd
    cat["dec"] = cen[1] + xy[:, 1] / 3600
    cat["rhalf"] = 10 ** rng.uniform(-1.3, -0.3, n)
    cat["q"] = rng.uniform(0.45, 0.99, n)
    cat["pa"] = rng.uniform(-1.5, 1.5, n)
    cat["sersic"] = rng.uniform(1.1, 4.5, n)
    cat["roi"] = cat["rhalf"] * 2
    for b in bands:
        cat[b] = 10 ** rng.uniform(-1, 2, n) * rng.choice([1, 1, 1, -1], n)
    return cat, cen


def stars(rng, cat, cen, boundary):
    """Move the sources of a catalog to rings of up to five around one inside the boundary radius, the others being outside."""
    cosd = np.cos(np.deg2rad(cen[1]))
    k = 0
    while k < len(cat):
        m = int(rng.integers(4, 7))
        c, r, t0 = rng.uniform(-30, 30, 2), boundary * rng.uniform(0.87, 0.98), rng.uniform(0, 6.28)
        for j in range(min(m, len(cat) - k)):
            t = t0 + 2 * np.pi * j / (m - 1)
            xy = c + (0 if j == 0 else r) * np.array([np.cos(t), np.sin(t)])
            cat["ra"][k], cat["dec"][k] = cen[0] + xy[0] / 3600 / cosd, cen[1] + xy[1] / 3600
            cat["rhalf"][k] = 0.5 if j == 0 else 0.06
            cat["roi"][k] = 2 * cat["rhalf"][k]
            k += 1


def random_scene(rng, linked, n=None, ring=False, **kw):
    from forcepho.superscene import LinkedSuperScene, SuperScene
    nb = int(rng.integers(1, 4))
    bands = [BANDS[k] for k in rng.permutation(len(BANDS))[:nb]]
    n = n or int(rng.choice([1, 2, 5, 12, 30, 60, 120]))
    cat, cen = random_catalog(rng, n, bands)
    if ring:
        kw.setdefault("boundary_radius", 3.0)
        stars(rng, cat, cen, kw["boundary_radius"])
        kw.setdefault("maxactive_per_patch", int(rng.choice([1, 1, 2])))
    if rng.random() < 0.3:
        cat["n_iter"] = rng.integers(0, 400, n)
        cat["n_patch"] = rng.integers(0, 4, n)
    if rng.random() < 0.3:
        cat["id"] = rng.integers(-2 ** 60, 2 ** 60, n)
        if not linked:
            cat["roi"] = 10 ** rng.uniform(-3, 4, n)
    # stale flags in an input catalog must not matter
    if rng.random() < 0.3:
        cat["is_active"] = rng.integers(0, 2, n)
        cat["is_valid"] = rng.integers(0, 2, n)
    opts = dict(bands=bands, target_niter=int(rng.choice([1, 50, 200])), maxactive_fraction=float(rng.choice([0.05, 0.3, 1.0])),
                maxactive_per_patch=int(rng.choice([1, 2, 5, 20])), nscale=float(rng.choice([1, 3])),
                boundary_radius=float(rng.choice([3.0, 8.0, 15.0])), maxradius=float(rng.choice([2.5, 6.0])), minradius=float(rng.choice([0.2, 1.0, 2.0])))
    opts.update(kw)
    roi = None
    if linked:
        opts["strict"] = bool(rng.integers(2))
        opts["buffer"] = float(rng.choice([0.0, 0.3, 1.0]))
        if rng.random() < 0.7:
            roi = 10 ** rng.uniform(-1.3, rng.choice([-0.3, 0.3]), n)
            if rng.random() < 0.6:
                # near the percolation threshold: many groups of intermediate size
                x = np.array(offsets(cat["ra"], cat["dec"], np.median(cat["ra"]), np.median(cat["dec"]))).T
                d = np.hypot(*(x[:, None] - x[None, :]).transpose(2, 0, 1)) + 1e9 * np.eye(n)
                nn = np.minimum(d.min(axis=1), 2.0)
                roi = np.clip(nn * rng.uniform(0.3, 0.9) * 10 ** rng.normal(0, 0.1, n), 0.01, 2.5)
            opts["roi"] = roi
        sc = LinkedSuperScene(cat, **opts)
    else:
        sc = SuperScene(cat, **opts)
    if roi is not None:
        roi = roi.copy()
    return sc, opts, roi, cen


def fitted(rng, active, bands, shapes, only=None):
    """A result catalog: the active rows with new parameters."""
    new = active.copy()
    for c in list(bands) + list(shapes):
        if c in ("ra", "dec"):
            new[c] = new[c] + rng.normal(0, 0.02 / 3600, len(new))
        elif c == "rhalf":
            new[c] = np.clip(new[c] * 10 ** rng.normal(0, 0.1, len(new)), 0.03, 0.6)
        else:
            new[c] = new[c] + rng.normal(0, 0.1, len(new))
    return new


class Shadow:
    """Independent bookkeeping of one superscene over a history."""

    def __init__(self, scene):
        self.n = len(scene.sourcecat)
        self.cat = scene.sourcecat.copy()
        self.bounds = scene.bounds_catalog.copy()
        self.covs = scene.covariance_matrices.copy()
        self.out = []                      # outstanding: (active, fixed)
        self.slog, self.plog = {}, []

    def held(self):
        a = np.zeros(self.n, int)
        f = np.zeros(self.n, int)
        for act, fix in self.out:
            np.add.at(a, act["source_index"], 1)
            if fix is not None:
                np.add.at(f, fix["source_index"], 1)
        return a, f

    def verify(self, ctx, scene, what):
        a, f = self.held()
        ctx.check(a.max(initial=0) <= 1, "a source is active in two outstanding patches", after=what)
        ctx.check(not np.any((a > 0) & (f > 0)), "a source is active in one outstanding patch and fixed in another", after=what)
        cat = scene.sourcecat
        ctx.equal(np.asarray(cat["is_active"]) != 0, a > 0, "active flags", after=what)
        ctx.equal(np.asarray(cat["is_valid"]) != 0, (a + f) == 0, "valid flags", after=what)
        ctx.equal(scene.n_active, int(a.sum()), "number of active sources", after=what)
        ctx.equal(scene.n_fixed, int(f.sum()), "number of fixed sources", after=what)
        for c in cat.dtype.names:
            if c not in ("is_active", "is_valid"):
                ctx.equal(cat[c], self.cat[c], "column '%s' of the catalog" % c, after=what)
        for c in scene.bounds_catalog.dtype.names:
            ctx.equal(scene.bounds_catalog[c], self.bounds[c], "bounds of '%s'" % c, after=what)
        ctx.equal(scene.covariance_matrices, self.covs, "covariance matrices", after=what)
        ctx.check(bool(scene.undone) == bool(np.any(np.abs(self.cat["n_iter"]) < scene.target_niter)), "the scene's report of being finished", after=what)
        if abs(a.sum() / self.n - scene.maxactive_fraction) > 1e-9:
            ctx.check(bool(scene.sparse) == bool(a.sum() / self.n < scene.maxactive_fraction), "the scene's report of being sparse", after=what, n=int(a.sum()))
        ctx.check({int(k): list(v) for k, v in scene.sourcelog.items()} == self.slog, "log of sources", after=what, got=scene.sourcelog, want=self.slog)
        ctx.check(list(scene.patchlog) == self.plog, "log of patches", after=what, got=scene.patchlog, want=self.plog)
        w = np.asarray(scene.seed_weight())
        ctx.check(w.shape == (self.n,) and np.all(np.isfinite(w)) and np.all(w >= 0) and abs(w.sum() - 1) < 1e-9, "seed weights are not probabilities", after=what)
        free = (a + f) == 0
        if free.any():
            ctx.check(np.all(w[~free] == 0), "a source in use could seed a patch", after=what)
            lo = np.abs(self.cat["n_iter"]) == np.abs(self.cat["n_iter"][free]).min()
            ctx.check(np.all(w[free & lo] > 0), "the least iterated free source could never seed a patch", after=what)

    def checkin(self, result, fixed, niter, covs=None, bounds=None, taskID=None, params=()):
        k = result["source_index"]
        for c in params:
            self.cat[c][k] = result[c]
        self.cat["n_iter"][k] += niter
        self.cat["n_patch"][k] += int(niter > 0)
        if covs is not None:
            self.covs[k] = covs
        if bounds is not None:
            self.bounds[k] = bounds
        if taskID is not None:
            for s in k:
                self.slog.setdefault(int(s), []).append(str(taskID))
            self.plog.append(str(taskID))

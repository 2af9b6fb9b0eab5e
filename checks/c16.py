"""C16: Sersic mixtures, shapes and profile utilities follow their definitions."""
import os

import h5py
import numpy as np
from scipy import integrate, special

from fpv import refmodel
from fpv.world import DEMO_SPLINE, spline_range, write_spline

PROPERTY = "C16"
TECHNIQUE = "runtime monitor: amplitudes, derivatives, covariances and profile radii checked against the table, finite differences and numerical quadrature"
RULE = "distinct (part of the model, table, location in the table, spline or source type) situations in which values were compared"
ASSUMPTIONS = ["tables are listed on a full grid with the index varying slowest, as forcepho's generator writes them", "scipy's bivariate spline is trusted away from the nodes"]
CASES = {"quick": 500, "thorough": 20000}
MIN = {"amplitudes": 1000, "nodes": 300, "derivatives": 1000, "covariances": 100, "profiles": 300, "shears": 300}


def table(path):
    with h5py.File(path, "r") as f:
        return f["nsersic"][:], f["rh"][:], f["amplitudes"][:], f["radii"][:]


def case(ctx, i):
    [splines, shapes, profiles, shear, sbprofile][i % 5](ctx, ctx.rng)


def pick_table(ctx, rng):
    return DEMO_SPLINE if rng.random() < 0.3 else write_spline(os.path.join(ctx.tmp, "s.h5"), rng)


def make(K, path, **kw):
    return K(filternames=["b"], splinedata=path, **kw)


def splines(ctx, rng):
    from forcepho.sources import ConformalShearGalaxy, Galaxy
    path = pick_table(ctx, rng)
    n, r, A, radii = table(path)
    K = Galaxy if rng.random() < 0.7 else ConformalShearGalaxy
    smooth = bool(rng.random() < 0.2)
    if smooth:
        return smoothed(ctx, rng, K, path)
    g = make(K, path)
    ref, _ = refmodel.load_spline(path) if path == DEMO_SPLINE else fresh(path)
    ctx.equal(g.radii, radii, "radii of the mixture")
    ctx.equal(g.n_gauss, len(radii), "number of Gaussians")
    ctx.close(g.sersic_range, (n.min(), n.max()), 0, "range of the index")
    ctx.close(g.rh_range, (r.min(), r.max()), 0, "range of the radius")
    ctx.equal(np.asarray(g.covariances), radii[:, None, None] ** 2 * np.eye(2), "circular covariances")
    what = "demo" if path == DEMO_SPLINE else "synthetic"
    sn, sr = np.ptp(n), np.ptp(r)
    for k in range(16):
        where = str(rng.choice(["node", "edge", "inside", "inside"]))
        if where == "node":
            j = int(rng.integers(len(n)))
            g.sersic, g.rhalf = n[j], r[j]
            ctx.count("nodes")
            # interpolation reproduces the table
            ctx.close(g.amplitudes, A[j], 1e-7 * (1 + np.abs(A).max()), "amplitudes at a tabulated point", name="node_tol", n=n[j], r=r[j])
        elif where == "edge":
            g.sersic = float(rng.choice([n.min(), n.max(), rng.uniform(n.min(), n.max())]))
            g.rhalf = float(rng.choice([r.min(), r.max()]))
        else:
            g.sersic, g.rhalf = float(rng.uniform(n.min(), n.max())), float(rng.uniform(r.min(), r.max()))
        n0, r0 = float(g.sersic), float(g.rhalf)
        want = np.array([s(n0, r0)[0, 0] for s in ref])
        scale = np.abs(A).max()
        ctx.close(g.amplitudes, want, 1e-9 * scale, "amplitudes", name="amp_tol", n=n0, r=r0)
        ctx.equal(np.shape(g.amplitudes), (len(radii),), "shape of the amplitudes")
        ctx.count("amplitudes")
        dn = np.array([s(n0, r0, dx=1)[0, 0] for s in ref])
        dr = np.array([s(n0, r0, dy=1)[0, 0] for s in ref])
        ctx.close(g.damplitude_dsersic, dn, 1e-8 * scale / sn * 10, "derivative of the amplitudes with the index", n=n0, r=r0)
        ctx.close(g.damplitude_drh, dr, 1e-8 * scale / sr * 10, "derivative of the amplitudes with the radius", n=n0, r=r0)
        ctx.count("derivatives")
        # and they are the derivatives of the reported amplitudes
        if where == "inside":
            h = 1e-4
            if n.min() + 2 * h * sn < n0 < n.max() - 2 * h * sn and r.min() + 2 * h * sr < r0 < r.max() - 2 * h * sr:
                def f(a, b):
                    g.sersic, g.rhalf = a, b
                    return np.array(g.amplitudes)
                for (da, db, got, s) in ((h * sn, 0, g.damplitude_dsersic, h * sn), (0, h * sr, g.damplitude_drh, h * sr)):
                    got = np.array(got)
                    fd = (f(n0 + da, r0 + db) - f(n0 - da, r0 - db)) / (2 * s)
                    f2 = np.abs(f(n0 + da, r0 + db) - 2 * f(n0, r0) + f(n0 - da, r0 - db)) / s
                    ctx.close(got, fd, 1e-3 * np.abs(fd) + f2 + 1e-6 * scale / s * h, "amplitude derivative against finite differences", n=n0, r=r0)
                g.sersic, g.rhalf = n0, r0
    # outside the table all light is in one Gaussian, whatever its derivatives would be
    low = rng.random() < 0.5
    g.sersic = float(n.min() - rng.uniform(1e-6, 1)) if low else float(rng.uniform(n.min(), n.max()))
    g.rhalf = float(rng.uniform(0.5 * radii.min(), 1.2 * radii.max())) if low else -float(rng.uniform(1e-9, 1))
    want = np.zeros(len(radii))
    gap = np.abs(g.rhalf - radii)
    want[np.argmin(gap) if low else 0] = 1.0
    if not low or np.sum(gap < gap.min() * 1.001 + 1e-9) == 1:
        ctx.equal(np.asarray(g.amplitudes), want, "amplitudes below the table", n=g.sersic, r=g.rhalf)
    ctx.equal(np.asarray(g.damplitude_dsersic), np.zeros(len(radii)), "derivative with the index below the table", n=g.sersic, r=g.rhalf)
    ctx.equal(np.asarray(g.damplitude_drh), np.zeros(len(radii)), "derivative with the radius below the table", n=g.sersic, r=g.rhalf)
    g.sersic, g.rhalf = n0, r0
    ctx.sig("spline", what, K.__name__, len(radii), len(np.unique(n)), len(np.unique(r)))
    ctx.sample(table=what, n=n0, r=r0, amplitudes=g.amplitudes)


def smoothed(ctx, rng, K, path):
    """Splines smoothed as asked for."""
    import warnings
    from scipy.interpolate import RectBivariateSpline, SmoothBivariateSpline
    n, r, A, radii = table(path)
    s = float(10 ** rng.uniform(-4, -1)) * len(n) * float(np.var(A))
    nn, nr = np.unique(n), np.unique(r)
    kind = str(rng.choice(["rect", "smooth"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = make(K, path, spline_type=kind, spline_smoothing=s)
        if kind == "rect":
            ref = [RectBivariateSpline(nn, nr, A[:, i].reshape(len(nn), len(nr)), s=s) for i in range(A.shape[1])]
        else:
            ref = [SmoothBivariateSpline(n, r, A[:, i], s=s) for i in range(A.shape[1])]
    scale = np.abs(A).max()
    for _ in range(6):
        g.sersic, g.rhalf = float(rng.uniform(n.min(), n.max())), float(rng.uniform(r.min(), r.max()))
        for got, kw, u in ((g.amplitudes, {}, 1), (g.damplitude_dsersic, dict(dx=1), np.ptp(n)), (g.damplitude_drh, dict(dy=1), np.ptp(r))):
            want = np.array([f(g.sersic, g.rhalf, **kw)[0, 0] for f in ref])
            ctx.close(got, want, 1e-7 * (scale / u + np.abs(want)), "smoothed amplitudes", kind=kind, **kw)
        ctx.count("amplitudes")
    ctx.close(g.sersic_range, (n.min(), n.max()), 0, "range of the index")
    ctx.close(g.rh_range, (r.min(), r.max()), 0, "range of the radius")
    ctx.sig("smoothed", kind, K.__name__)
    if kind == "rect":
        # the sources of a patch use the smoothing the patch was given
        from forcepho import patches
        from forcepho.superscene import sourcecat_dtype
        from forcepho.sources import Galaxy, Scene
        P = getattr(patches, str(rng.choice(["FITSPatch", "DirectPatch"])))
        patch = P(splinedata=path, spline_smoothing=s)
        patch.bandlist = ["F090W", "F200W"]
        cat = np.zeros(3, sourcecat_dtype(bands=patch.bandlist))
        cat["sersic"], cat["rhalf"] = rng.uniform(n.min(), n.max(), 3), rng.uniform(r.min(), r.max(), 3)
        cat["q"] = 0.8
        how = bool(rng.integers(2))
        scene = patch.set_scene(cat) if how else Scene(catalog=cat, source_type=Galaxy, filternames=patch.bandlist, splinedata=path, spline_smoothing=s)
        for k, src in enumerate(scene.sources):
            want = np.array([f(cat["sersic"][k], cat["rhalf"][k])[0, 0] for f in ref])
            ctx.close(src.amplitudes, want, 1e-6 * (scale + np.abs(want)), "smoothed amplitudes of the sources of a scene", patch=how)
        ctx.sig("smoothed", P.__name__, how)


def fresh(path):
    refmodel._cache.pop(path, None)
    out = refmodel.load_spline(path)
    refmodel._cache.pop(path, None)
    return out


class Stamp:
    """A unit-scale stamp with one (optional) PSF Gaussian."""

    def __init__(self, D, var):
        from forcepho.slow.psf import PointSpreadFunction
        self.scale, self.dpix_dsky = D, D * 3600
        self.psf = PointSpreadFunction()
        self.psf.covariances = np.array([np.eye(2) * var])
        self.psf.means = np.zeros([1, 2])
        self.psf.amplitudes = np.ones(1)
        self.crpix, self.crval, self.photocounts, self.id, self.filtername = np.zeros(2), np.zeros(2), 1.0, 0, "b"


def shapes(ctx, rng):
    """Axis ratio, position angle and area of every Gaussian on the sky."""
    from forcepho.slow.gaussmodel import convert_to_gaussians
    from forcepho.sources import ConformalShearGalaxy, Galaxy, SimpleGalaxy
    K = [Galaxy, ConformalShearGalaxy, SimpleGalaxy][int(rng.integers(3))]
    path = pick_table(ctx, rng)
    if K is SimpleGalaxy:
        g = K(["b"], radii=np.sort(10 ** rng.uniform(-2, 0, int(rng.integers(1, 6)))))
    else:
        g = make(K, path)
        (s0, s1), (r0, r1), _ = spline_range(path)
        g.sersic, g.rhalf = rng.uniform(s0, s1), rng.uniform(r0, r1)
    q, pa = float(rng.uniform(0.3, 0.98)), float(rng.uniform(-np.pi / 2, np.pi / 2))
    if K is ConformalShearGalaxy:
        g.ep, g.ec = g.etas_from_qphi(q, pa)
    else:
        g.q, g.pa = q, pa
    g.flux = np.array([float(rng.normal() * 100)])
    var = 1e-4
    gig = convert_to_gaussians(g, Stamp(np.eye(2), var))
    gs = np.atleast_1d(np.array(gig.gaussians, dtype=object)).reshape(-1)
    ctx.equal(len(gs), g.n_gauss, "number of Gaussians")
    u = np.array([np.cos(pa), np.sin(pa)])
    v = np.array([-np.sin(pa), np.cos(pa)])
    tot = 0.0
    for k, im in enumerate(gs):
        C = np.linalg.inv([[im.fxx, im.fxy], [im.fxy, im.fyy]]) - var * np.eye(2)
        r2 = g.radii[k] ** 2
        tol = 1e-9 * (r2 / q ** 2 + var)
        ctx.close(u @ C @ u, r2 / q ** 2, tol, "major axis", q=q, pa=pa, radius=g.radii[k])
        ctx.close(v @ C @ v, r2 * q ** 2, tol, "minor axis", q=q, pa=pa, radius=g.radii[k])
        ctx.close(u @ C @ v, 0, tol, "position angle", q=q, pa=pa, radius=g.radii[k])
        ctx.close(np.linalg.det(C), r2 ** 2, tol * (r2 / q ** 2 + r2), "area", q=q, pa=pa)
        # integral of this Gaussian over the sky
        det = np.linalg.det(C + var * np.eye(2))
        w = g.flux[0] * g.amplitudes[k]
        ctx.close(im.amp * 2 * np.pi * np.sqrt(det), w, 1e-9 * abs(w) + 1e-12, "flux in one Gaussian")
        tot += w
    ctx.close(tot, g.flux[0] * np.sum(g.amplitudes), 1e-9 * abs(g.flux[0]), "total flux")
    ctx.count("covariances")
    ctx.sig("shape", K.__name__, round(q, 1), round(pa, 1))


def shear(ctx, rng):
    from forcepho import sources
    from forcepho.slow import gaussmodel
    g = make(sources.ConformalShearGalaxy, DEMO_SPLINE)
    for _ in range(20):
        q, phi = float(rng.uniform(0.2, 0.995)), float(rng.uniform(-np.pi / 2 + 1e-3, np.pi / 2 - 1e-3))
        g.ep, g.ec = g.etas_from_qphi(q, phi)
        eta = -2 * np.log(q)
        ctx.close([g.ep, g.ec], [eta * np.cos(2 * phi), eta * np.sin(2 * phi)], 1e-12 * (1 + eta), "shear of a shape")
        ctx.close(g.q, q, 1e-12, "axis ratio of a shear")
        ctx.close(g.pa, phi, 1e-10 / (1 - q), "position angle of a shear")
        J = np.array(g.ds_deta)
        p0 = (float(g.ep), float(g.ec))
        h = 1e-6
        for k in range(2):
            d = []
            for s in (h, -h):
                e = list(p0)
                e[k] += s
                g.ep, g.ec = e
                d.append(np.array([g.q, g.pa]))
            fd = (d[0] - d[1])
            fd[1] = (fd[1] + np.pi / 2) % np.pi - np.pi / 2
            fd = fd / (2 * h)
            ctx.close(J[k], fd, 1e-4 * (1 + np.abs(fd).max()) + 1e-4 / eta, "Jacobian of the shear", q=q, phi=phi, row=k)
        g.ep, g.ec = p0
        ctx.count("shears")
        # rotations and stretches, wherever they are defined
        c, s = np.cos(phi), np.sin(phi)
        for m in (sources, gaussmodel):
            for name, arg, want in (("rotation_matrix", phi, [[c, -s], [s, c]]), ("scale_matrix", q, np.diag([1 / q, q])),
                                    ("rotation_matrix_deriv", phi, [[-s, -c], [c, -s]]), ("scale_matrix_deriv", q, np.diag([-1 / q ** 2, 1]))):
                if hasattr(m, name):
                    ctx.close(getattr(m, name)(arg), want, 1e-9, name)
    ctx.sig("shear")


def sersic(r, n, re):
    """Surface brightness for unit total flux, from the definition."""
    b = special.gammaincinv(2 * n, 0.5)
    I0 = b ** (2 * n) / (2 * np.pi * re ** 2 * n * special.gamma(2 * n))
    return I0 * np.exp(-b * (r / re) ** (1 / n))


def moment(p, n, re, R=None):
    """Integral of r^p times the profile over the disc of radius R."""
    # t = (r/re)^(1/n)
    f = lambda t: 2 * np.pi * (re * t ** n) ** (p + 1) * sersic(re * t ** n, n, re) * re * n * t ** (n - 1)
    tmax = (R / re) ** (1 / n) if R is not None else 60.0 / special.gammaincinv(2 * n, 0.5) + 30
    pts = tmax * np.linspace(0, 1, 60) ** 4         # the integrand is not smooth at the centre
    x, w = np.polynomial.legendre.leggauss(12)
    tot = 0.0
    for a, b in zip(pts[:-1], pts[1:]):
        tt = 0.5 * (b - a) * x + 0.5 * (a + b)
        tot += 0.5 * (b - a) * np.sum(w * f(tt))
    return tot


def profiles(ctx, rng):
    from forcepho.utils import profile
    for _ in range(6):
        n, re = float(rng.uniform(0.35, 6.5)), float(10 ** rng.uniform(-2, 1))
        R = re * float(10 ** rng.uniform(-1, min(2.2, n * np.log10(25))))
        ctx.close(moment(0, n, re), 1.0, 1e-5, "the reference profile is not normalised")
        ctx.close(profile.frac_sersic(R, rhalf=re, sersic=n), moment(0, n, re, R), 1e-5, "enclosed fraction", n=n, r=R / re)
        ctx.close(profile.frac_sersic(re, rhalf=re, sersic=n), 0.5, 1e-9, "half of the light is inside the half light radius", n=n)
        ctx.close(profile.kron_radius(re, n), moment(1, n, re), 1e-4 * moment(1, n, re), "Kron radius", n=n)
        w = moment(1, n, re, R) / moment(0, n, re, R)
        ctx.close(profile.kron_radius(re, n, rmax=R), w, 1e-4 * w, "Kron radius in an aperture", n=n, r=R / re)
        fl = float(10 ** rng.uniform(-2, 4))
        ctx.close(profile.I_eff(fl, re, sersic=n), fl * sersic(re, n, re), 1e-7 * fl * sersic(re, n, re), "surface brightness at the half light radius")
        tot = fl / moment(0, n, re, R)
        ie = profile.I_eff(fl, re, flux_radius=R, sersic=n)
        ctx.close(ie, tot * sersic(re, n, re), 1e-4 * ie, "surface brightness for an aperture flux")
        iso = fl * sersic(R, n, re)
        if iso > 0 and np.isfinite(np.log(iso)):
            ctx.close(profile.isophotal_radius(iso, fl, re, sersic=n), R, 1e-6 * R * (1 + n), "isophotal radius", n=n, r=R / re)
            ctx.close(profile.isophotal_radius(tot * sersic(R, n, re), fl, re, flux_radius=R, sersic=n), R, 1e-3 * R, "isophotal radius for an aperture flux", n=n, r=R / re)
        # arrays are handled element by element
        rr = re * 10 ** rng.uniform(-1, 1, 5)
        nn = rng.uniform(0.35, 6.5, 5)
        for f in (lambda a, b: profile.frac_sersic(a, rhalf=re, sersic=b), lambda a, b: profile.kron_radius(a, b),
                  lambda a, b: profile.kron_radius(re, b, rmax=a), lambda a, b: profile.I_eff(fl, a, sersic=b)):
            one = [f(float(a), float(b)) for a, b in zip(rr, nn)]
            ctx.close(f(rr, nn), one, 1e-10 * np.abs(one), "profile utility on arrays")
        ctx.count("profiles")
        ctx.sig("profile", round(n, 1), round(np.log10(R / re), 1))


def sbprofile(ctx, rng):
    """Galaxy.profile: the circularised surface brightness of the mixture."""
    from forcepho.sources import Galaxy
    path = pick_table(ctx, rng)
    g = Galaxy(filternames=["a", "b"], splinedata=path)
    (s0, s1), (r0, r1), _ = spline_range(path)
    for _ in range(5):
        g.sersic, g.rhalf = rng.uniform(s0, s1), rng.uniform(r0, r1)
        g.flux = rng.normal(0, 10, 2)
        eps = float(10 ** rng.uniform(-3, -1))
        r = np.concatenate([[0.0], 10 ** rng.uniform(-3, 0.5, 8)])
        s2 = np.asarray(g.radii) ** 2 + eps ** 2
        unit = (np.array(g.amplitudes) / (2 * np.pi * s2) * np.exp(-0.5 * r[:, None] ** 2 / s2)).sum(axis=1)
        tol = 1e-9 * (np.abs(g.amplitudes) / (2 * np.pi * s2)).sum()
        ctx.close(g.profile(r, epsilon=eps), unit, tol, "profile of unit flux")
        for j, b in enumerate("ab"):
            ctx.close(g.profile(r, band=b, epsilon=eps), g.flux[j] * unit, tol * abs(g.flux[j]), "profile in one band", band=b)
        ctx.count("profiles")
    ctx.sig("sb", path == DEMO_SPLINE, g.n_gauss)

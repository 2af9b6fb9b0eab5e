"""C17: the reference (slow) renderer and likelihood agree with the model definition and with the compiled evaluator."""
import os

import numpy as np
from scipy.special import erf

from fpv import refmodel
from fpv.world import DEMO_SPLINE, World, cpu_patch, make_header, make_psf, spline_range, write_psfstore, write_spline

PROPERTY = "C17"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: every pixel, gradient and log-likelihood of the slow code against an independent float64 model, finite differences, exact pixel integrals and the compiled evaluator"
RULE = "distinct (part, source type, PSF units and size, bands, stamps, fixed/off-stamp sources, plan type) situations in which values were compared"
ASSUMPTIONS = ["the spline table itself is trusted (C16)", "WorkPlan is used with the pixel values the stamp had when the plan was made"]
CASES = {"quick": 420, "thorough": 12000}
MIN = {"images": 200, "gradients": 200, "likelihoods": 100, "fast_path": 20, "fixed": 30, "gaussians": 300, "psf": 100, "fits": 30}


# ------------------------------------------------------------------ independent model
class Model:
    """Gaussian mixture image of one source on one stamp, in float64."""

    def __init__(self, spline):
        self.splines, self.radii = load(spline)

    def image(self, kind, flux, p, st, psf, second=True):
        """p: ra, dec, q, pa, sersic, rhalf.  psf: list of (amp, x, y, cxx, cyy, cxy) in pixels."""
        ra, dec, q, pa, n, r = p
        if kind == "Star":
            amps, radii = np.ones(1), np.zeros(1)
        elif kind == "SimpleGalaxy":
            radii = st["radii"]
            amps = np.ones(len(radii)) / len(radii)
        else:
            amps = np.array([s(n, r)[0, 0] for s in self.splines])
            radii = self.radii
        c, s = np.cos(pa), np.sin(pa)
        T = st["D"] @ np.array([[c, -s], [s, c]]) @ np.diag([1 / q, q])
        x0, y0 = st["CW"] @ (np.array([ra, dec]) - st["crval"]) + st["crpix"]
        im = np.zeros(st["x"].shape)
        for a, rad in zip(amps, radii):
            for (al, px, py, cxx, cyy, cxy) in psf:
                S = rad ** 2 * T @ T.T + np.array([[cxx, cxy], [cxy, cyy]])
                F = np.linalg.inv(S)
                d = np.array([st["x"] - x0 - px, st["y"] - y0 - py])
                v = np.tensordot(F, d, 1)
                g = np.exp(-0.5 * (d * v).sum(axis=0)) / (2 * np.pi * np.sqrt(np.linalg.det(S)))
                if second:
                    g = g * (1 + ((v * v).sum(axis=0) - np.trace(F)) / 24)
                im += st["G"] * flux * a * al * g
        return im


_tab = {}


def load(path):
    if path == DEMO_SPLINE:
        return refmodel.load_spline(path)
    refmodel._cache.pop(path, None)
    out = refmodel.load_spline(path)
    refmodel._cache.pop(path, None)
    return out


COLS = dict(Galaxy=["ra", "dec", "q", "pa", "sersic", "rhalf"], Fixed=["ra", "dec", "q", "pa"], SimpleGalaxy=["ra", "dec", "q", "pa"],
            Star=["ra", "dec"], ConformalShearGalaxy=["ra", "dec", "ep", "ec", "sersic", "rhalf"])


def make_stamp(rng, band, center, scale, nx=None, ny=None):
    from forcepho.slow.psf import PointSpreadFunction
    from forcepho.slow.stamp import PostageStamp
    nx, ny = nx or int(rng.integers(4, 18)), ny or int(rng.integers(4, 18))
    s = PostageStamp(nx, ny, filtername=band) if rng.random() < 0.7 else PostageStamp(nx=nx, ny=ny)
    s.filtername = band
    th = rng.uniform(-np.pi, np.pi)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    D = R @ np.diag([rng.choice([-1, 1]) / scale, rng.uniform(0.7, 1.4) / scale])
    cosd = np.cos(np.deg2rad(center[1]))
    CW = D @ np.diag([cosd, 1]) * 3600
    crval = np.array(center) + rng.normal(0, 0.5 * scale / 3600, 2)
    crpix = np.array([nx / 2, ny / 2]) + rng.uniform(-2, 2, 2)
    s.scale, s.dpix_dsky, s.crval, s.crpix = D, CW, crval, crpix
    s.photocounts = float(rng.choice([1.0, 1.0, 10 ** rng.uniform(-2, 2)]))
    ng = int(rng.integers(1, 4))
    rows = []
    for _ in range(ng):
        sx, sy = 10 ** rng.uniform(-0.1, 0.5, 2)
        rows.append((float(rng.uniform(0.2, 1) * rng.choice([1, 1, 1, -0.3])), rng.normal(0, .5), rng.normal(0, .5), sx ** 2, sy ** 2, rng.uniform(-.6, .6) * sx * sy))
    if rng.random() < 0.1:
        # much narrower than a pixel
        f = 10 ** rng.uniform(-1.3, -0.3)
        rows = [r[:3] + tuple(v * f for v in r[3:]) for r in rows]
    units = "arcsec" if rng.random() < 0.35 else "pixels"
    pix = rows
    if units == "arcsec":
        rows = [(a, x * scale, y * scale, cxx * scale ** 2, cyy * scale ** 2, cxy * scale ** 2) for (a, x, y, cxx, cyy, cxy) in rows]
        pix = []
        for (a, x, y, cxx, cyy, cxy) in rows:
            m = D @ np.array([x, y])
            C = D @ np.array([[cxx, cxy], [cxy, cyy]]) @ D.T
            pix.append((a, m[0], m[1], C[0, 0], C[1, 1], C[0, 1]))
    names = ["amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy"] if rng.random() < 0.5 else ["amp", "xcr", "ycr", "Cxx", "Cyy", "Cxy"]
    par = np.array([tuple(r) for r in rows], dtype=[(c, "f8") for c in names])
    s.psf = PointSpreadFunction(par, units=units)
    x, y = np.mgrid[0:nx, 0:ny]
    st = dict(D=D, CW=CW, crval=crval, crpix=crpix, G=s.photocounts, x=x.reshape(-1).astype(float), y=y.reshape(-1).astype(float), units=units, band=band, psf=pix)
    return s, st


def random_source(rng, kind, bands, center, half, spline):
    from forcepho import sources
    cosd = np.cos(np.deg2rad(center[1]))
    if kind in ("Galaxy", "Fixed", "ConformalShearGalaxy"):
        K = sources.ConformalShearGalaxy if kind == "ConformalShearGalaxy" else sources.Galaxy
        s = K(filternames=list(bands), splinedata=spline, free_sersic=kind != "Fixed")
        (s0, s1), (r0, r1), _ = spline_range(spline)
        s.sersic, s.rhalf = s0 + (s1 - s0) * rng.uniform(.05, .95), r0 + (r1 - r0) * rng.uniform(.05, .95)
    elif kind == "Star":
        s = sources.Star(list(bands))
    else:
        s = sources.SimpleGalaxy(list(bands), radii=np.sort(10 ** rng.uniform(-2, -0.6, int(rng.integers(1, 4)))))
    s.ra = center[0] + rng.uniform(-1, 1) * half / 3600 / cosd
    s.dec = center[1] + rng.uniform(-1, 1) * half / 3600
    q, pa = rng.uniform(0.4, 0.97), rng.uniform(-1.5, 1.5)
    if kind == "ConformalShearGalaxy":
        s.ep, s.ec = s.etas_from_qphi(q, pa)
    elif kind != "Star":
        s.q, s.pa = q, pa
    s.flux = 10 ** rng.uniform(-1, 2, len(bands)) * rng.choice([1, 1, 1, -1], len(bands))
    if rng.random() < 0.15:
        s.flux[int(rng.integers(len(bands)))] = 0.0
    return s


def params(kind, v, src):
    """Native shape parameters from the source vector (without fluxes)."""
    p = dict(ra=0, dec=0, q=1.0, pa=0.0, sersic=getattr(src, "sersic", 0.0), rhalf=getattr(src, "rhalf", 0.0))
    for c, x in zip(COLS[kind], v):
        p[c] = x
    if kind == "ConformalShearGalaxy":
        eta = np.hypot(p["ep"], p["ec"])
        p["q"], p["pa"] = np.exp(-eta / 2), 0.5 * np.arctan2(p["ec"], p["ep"])
    return [p[c] for c in ("ra", "dec", "q", "pa", "sersic", "rhalf")]


def ref_image(m, kind, src, vec, band_i, nb, st, second=True):
    st = dict(st, radii=getattr(src, "radii", None))
    return m.image(kind, vec[band_i], params(kind, vec[nb:], src), st, st["psf"], second)


def steps(kind, st):
    s = 1.0 / np.abs(st["CW"]).max()
    h = {"ra": 2e-3 * s, "dec": 2e-3 * s}
    return [1e-3] + [h.get(c, 1e-4) for c in COLS[kind]]


def ref_grad(m, kind, src, vec, band_i, nb, st, second=True):
    out = []
    idx = [band_i] + list(range(nb, len(vec)))
    for j, h in zip(idx, steps(kind, st)):
        v = []
        for k in (2, 1, -1, -2):
            w = np.array(vec, float)
            w[j] += k * h
            v.append(ref_image(m, kind, src, w, band_i, nb, st, second))
        out.append((-v[0] + 8 * v[1] - 8 * v[2] + v[3]) / (12 * h))
    return np.array(out)


def scene_parts(ctx, rng, kinds=None):
    spline = DEMO_SPLINE if rng.random() < 0.3 else write_spline(os.path.join(ctx.tmp, "s.h5"), rng, n_radii=int(rng.integers(2, 6)))
    center = [(53.16, -27.79), (10.0, 62.0), (359.99, 0.0)][int(rng.integers(3))]
    nb = int(rng.integers(1, 4))
    bands = ["F%d" % k for k in rng.permutation(9)[:nb]]
    scale = float(rng.choice([0.03, 0.06]))
    kinds = kinds or ["Galaxy", "Galaxy", "Fixed", "SimpleGalaxy", "Star", "ConformalShearGalaxy"]
    return spline, center, bands, scale, kinds


def case(ctx, i):
    [render, render, likelihood, likelihood, gaussians, psf_and_stamp, fast_path if i % 14 == 6 or ctx.rng.random() < 0.5 else static_path][i % 7](ctx, ctx.rng)


# ------------------------------------------------------------------ images and gradients of one source
def render(ctx, rng):
    spline, center, bands, scale, kinds = scene_parts(ctx, rng)
    kind = str(rng.choice(kinds))
    src = random_source(rng, kind, bands, center, 4 * scale, spline)
    m = Model(spline)
    nb = len(bands)
    for _ in range(2):
        b = int(rng.integers(nb))
        stamp, st = make_stamp(rng, bands[b], center, scale)
        vec = np.array(src.get_param_vector(), float)
        second = bool(rng.random() < 0.75)
        kw = {} if second and rng.random() < 0.5 else dict(second_order=second)
        want = ref_image(m, kind, src, vec, b, nb, st, second)
        amp = abs(st["G"]) * max(abs(vec[b]), 1e-3) * sum(abs(g[0]) / np.sqrt(max(g[3] * g[4] - g[5] ** 2, 1e-9)) for g in st["psf"])
        tol = 1e-9 * (amp + np.abs(want).max()) * 10
        flux0 = src.flux.copy()
        im, gr = stamp.render(src, compute_deriv=True, **kw)
        ctx.close(np.asarray(im).reshape(-1), want, tol, "image of a source", name="image", kind=kind, units=st["units"], second=second)
        im2, none = src.render(stamp, compute_deriv=False, **kw)
        ctx.equal(np.asarray(im2), np.asarray(im), "image with and without gradients")
        ctx.equal(src.flux, flux0, "rendering changed the fluxes")
        ctx.equal(np.asarray(src.get_param_vector(), float), vec, "rendering changed the source")
        wg = ref_grad(m, kind, src, vec, b, nb, st, second)
        ctx.equal(np.shape(gr), wg.shape, "shape of the gradients", kind=kind)
        ctx.close(np.asarray(gr)[0] * vec[b], np.asarray(im).reshape(-1), 1e-11 * amp, "gradient with respect to the flux, times the flux, is the image", name="fluxgrad", kind=kind)
        big = np.abs(wg).max(axis=1, keepdims=True)
        ctx.close(gr, wg, 1e-5 * big + 1e-7 * amp * np.array([1e-2] + [1 / h for h in steps(kind, st)[1:]])[:, None] * 1e-3 + 1e-12, "gradient of the image", name="grad", kind=kind, units=st["units"], second=second)
        ctx.count("images")
        ctx.count("gradients")
        ctx.sig("render", kind, st["units"], second, len(st["psf"]), nb, src.flux[b] == 0)
    # total flux and centroid on a stamp that holds all of it
    if kind == "Star":
        stamp, st = make_stamp(rng, bands[b], center, scale, nx=60, ny=64)
        stamp.crpix = st["crpix"] = np.array([30.0, 32.0]) + rng.uniform(-1, 1, 2)
        src.ra, src.dec = st["crval"]
        if all(0.9 < g[3] - abs(g[5]) and g[3] < 16 and 0.9 < g[4] - abs(g[5]) and g[4] < 16 for g in st["psf"]):
            im = np.asarray(src.render(stamp, compute_deriv=False)[0])
            f = st["G"] * src.flux[b]
            tot = f * sum(g[0] for g in st["psf"])
            ctx.close(im.sum(), tot, 1e-3 * abs(f) + 1e-9, "total flux of a point source")
            for ax, k in (("x", 0), ("y", 1)):
                mom = f * sum(g[0] * (stamp.crpix[k] + g[1 + k]) for g in st["psf"])
                ctx.close((im * st[ax]).sum(), mom, 1e-3 * abs(f) * 32 + 1e-9, "first moment of a point source", axis=ax)
            ctx.count("flux")
    ctx.sample(kind=kind, bands=bands, theta=vec, pixel=float(want[0]))


# ------------------------------------------------------------------ likelihood of scenes over stamps
def ref_like(m, ks, srcs, meta, th, start, nb, alts=None):
    """Log-likelihood, gradient, their error scales, and the model of each stamp; alts: per source metadata of each stamp."""
    lnp, grad, gtol = 0.0, np.zeros(len(th)), np.zeros(len(th))
    ltol = 0.0
    models = []
    for t, st in enumerate(meta):
        mod = np.zeros(len(st["x"]))
        gs = {}
        for k, s in enumerate(srcs):
            if st["cov"][k] == 0:
                continue
            vec = th[start[k]:start[k] + nb + len(COLS[ks[k]])] if k in start else np.array(s.get_param_vector(), float)
            here = st if alts is None else alts[k][t]
            mod += ref_image(m, ks[k], s, vec, st["b"], nb, here)
            if k in start and st["cov"][k] == 2:
                gs[k] = ref_grad(m, ks[k], s, vec, st["b"], nb, here)
        models.append(mod)
        chi = (st["data"] - mod) * st["ierr"]
        lnp += -0.5 * np.sum(chi ** 2)
        ltol += np.sum(chi ** 2)
        for k, g in gs.items():
            ind = [start[k] + st["b"]] + list(range(start[k] + nb, start[k] + nb + len(COLS[ks[k]])))
            grad[ind] += g @ (chi * st["ierr"])
            gtol[ind] += 1e-5 * np.abs(g) @ np.abs(chi * st["ierr"]) + 1e-5 * np.abs(g).max(axis=1) * np.abs(chi * st["ierr"]).sum()
    return lnp, grad, ltol, gtol, models


def likelihood(ctx, rng):
    from forcepho.model import SlowPosterior
    from forcepho.slow import likelihood as L
    from forcepho.sources import Scene
    spline, center, bands, scale, kinds = scene_parts(ctx, rng)
    nb = len(bands)
    ns = int(rng.integers(1, 4))
    ks = [str(rng.choice(kinds)) for _ in range(ns)]
    srcs = [random_source(rng, k, bands, center, 4 * scale, spline) for k in ks]
    for s in srcs:
        s.fixed = bool(rng.random() < 0.25)
    if all(s.fixed for s in srcs):
        srcs[int(rng.integers(ns))].fixed = False
    # the units of flux are the user's choice
    uf = 1.0 if rng.random() < 0.8 else float(10 ** rng.uniform(-6, 6))
    for s in srcs:
        s.flux = s.flux * uf
    sc = Scene(srcs)
    m = Model(spline)
    stamps, meta = [], []
    cov = {}
    for k in range(int(rng.integers(1, 4))):
        b = int(rng.integers(nb))
        s, st = make_stamp(rng, bands[b], center, scale)
        st["b"] = b
        # which sources are off this stamp (0), on it but not fitted (1), or fitted (2)
        st["cov"] = [int(rng.choice([2, 2, 2, 2, 1, 0])) for _ in srcs]
        s.coverage = (lambda source, c=st["cov"]: c[source.id])
        s.pixel_values = rng.normal(0, 1, (s.nx, s.ny)) * uf
        ie = 10 ** rng.uniform(-1, 1, s.nx * s.ny) / uf * (rng.random(s.nx * s.ny) > 0.1)
        s.ierr = ie if rng.random() < 0.5 else ie.reshape(s.nx, s.ny)
        st["data"], st["ierr"] = s.pixel_values.reshape(-1).copy(), ie
        stamps.append(s)
        meta.append(st)
    cls = [L.WorkPlan, L.FastWorkPlan][int(rng.integers(2))]
    plans = [cls(s) for s in stamps]
    act = [k for k in range(ns) if not srcs[k].fixed]
    theta = np.array(sc.get_all_source_params(), float)
    start = {}
    o = 0
    for k in act:
        start[k] = o
        o += len(srcs[k].get_param_vector())
    for rep in range(3):
        th = theta.copy()
        if rep:
            for k in act:
                n = nb + len(COLS[ks[k]])
                th[start[k]:start[k] + nb] *= rng.uniform(0.5, 1.5, nb)
                th[start[k] + nb:start[k] + nb + 2] += rng.normal(0, 0.3 * scale / 3600, 2)
        lnp, grad, ltol, gtol, models = ref_like(m, ks, srcs, meta, th, start, nb)
        arg = th.copy()
        got, gg = L.lnlike_multi(arg, sc, plans)
        ctx.close(got, lnp, 1e-7 * (1 + ltol), "log-likelihood of a scene", name="lnlike", plan=cls.__name__, kinds=ks, cov=[st["cov"] for st in meta], fixed=[s.fixed for s in srcs])
        ctx.close(gg, grad, gtol + 1e-9 * np.abs(grad).max() + 1e-12 / uf, "gradient of the log-likelihood", name="lnlike_grad", plan=cls.__name__, kinds=ks, cov=[st["cov"] for st in meta], fixed=[s.fixed for s in srcs])
        ctx.equal(arg, th, "the parameter vector was changed")
        n, ng = L.negative_lnlike_multi(th, scene=sc, plans=plans)
        ctx.check(n == -got and np.array_equal(ng, -np.asarray(gg)), "negative log-likelihood")
        ctx.check(L.lnlike_multi(th, sc, plans, grad=False) == got, "log-likelihood without gradient")
        ctx.check(L.negative_lnlike_multi(th, scene=sc, plans=plans, grad=False) == -got, "negative log-likelihood without gradient")
        # sources handed to a plan replace those it has
        for P in (L.WorkPlan, L.FastWorkPlan):
            full, _, _ = L.plan_sources(P(stamps[0]), sc)
            l0, g0 = full.lnlike()
            empty = P(stamps[0])
            l1, g1 = empty.lnlike(active=full.active, fixed=full.fixed)
            ctx.check(l0 == l1 and np.array_equal(g0, g1), "log-likelihood of the sources handed over", plan=P.__name__)
        ctx.count("likelihoods")
        for st, s in zip(meta, stamps):
            ctx.equal(s.pixel_values.reshape(-1), st["data"], "the data of a stamp was changed")
        # the metadata may be kept with the sources instead, and differ from source to source
        own = rep == 1
        alts = []
        for src in srcs:
            alt = [make_stamp(rng, bands[st["b"]], center, scale, nx=t.nx, ny=t.ny) if own else (t, st) for t, st in zip(stamps, meta)]
            alts.append([a[1] for a in alt])
            alt = [a[0] for a in alt]
            src.stamp_scales, src.stamp_cds = [t.scale for t in alt], [t.dpix_dsky for t in alt]
            src.stamp_psfs, src.stamp_zps = [[t.psf] for t in alt], [t.photocounts for t in alt]
            src.stamp_crpixs, src.stamp_crvals = [t.crpix for t in alt], [t.crval for t in alt]
            src.stamp_filterindex = [st["b"] for st in meta]
        l1, g1, lt1, gt1, _ = ref_like(m, ks, srcs, meta, th, start, nb, alts) if own else (lnp, grad, ltol, gtol, models)
        m1, m2 = L.lnlike_multi(th, sc, plans, source_meta=True)
        ctx.close(m1, l1, 1e-7 * (1 + lt1), "log-likelihood with metadata of the sources", name="meta", own=own)
        ctx.close(m2, g1, gt1 + 1e-9 * np.abs(g1).max() + 1e-12 / uf, "gradient with metadata of the sources", name="meta_grad", own=own)
        # the two kinds of plan agree, whatever was evaluated before
        other = L.WorkPlan if cls is L.FastWorkPlan else L.FastWorkPlan
        o1, o2 = L.lnlike_multi(th, sc, [other(s) for s in stamps])
        ctx.close(o1, got, 1e-9 * (1 + ltol), "log-likelihood of the two kinds of plan")
        ctx.close(o2, gg, 1e-9 * (1 + np.abs(gg).max()) + gtol * 1e-2, "gradient of the two kinds of plan")
        rendered(ctx, rng, L, sc, m, srcs, ks, stamps[0], meta[0], th, start, nb, models[0], uf)
        sp = SlowPosterior(scene=sc, plans=plans, lnprior=None)
        ctx.close(sp.lnprob(th), got, 1e-9 * (1 + ltol), "log-probability of the slow posterior")
        for r, mod, st, s in zip(sp.residuals(th), models, meta, stamps):
            ctx.close(np.asarray(r).reshape(-1), st["data"] - mod, 1e-8 * (uf + np.abs(mod).max()), "residuals of the slow posterior")
    if any(s.fixed for s in srcs) or any(1 in st["cov"] for st in meta):
        ctx.count("fixed")
    ctx.sig("like", cls.__name__, tuple(sorted(ks)), nb, len(stamps), any(s.fixed for s in srcs), any(1 in st["cov"] for st in meta), any(0 in st["cov"] for st in meta))


def rendered(ctx, rng, L, sc, m, srcs, ks, stamp, st, th, start, nb, model, uf):
    """The image of a scene, and of some of its sources, with gradients."""
    shape = (stamp.nx, stamp.ny)
    im, gr = L.make_image(sc, stamp, Theta=th)
    ctx.close(np.asarray(im), model.reshape(shape), 1e-8 * (uf + np.abs(model).max()), "image of a scene")
    plan, _, _ = L.plan_sources(L.WorkPlan(stamp), sc)
    ctx.close(np.asarray(plan.make_image()), model.reshape(shape), 1e-8 * (uf + np.abs(model).max()), "image of a plan")
    # sources on this stamp, those that are fitted first
    fit = [k for k in range(len(srcs)) if st["cov"][k] == 2 and k in start]
    other = [k for k in range(len(srcs)) if st["cov"][k] > 0 and k not in fit]
    order = fit + other
    parts = []
    for k in order:
        vec = th[start[k]:start[k] + nb + len(COLS[ks[k]])] if k in start else np.array(srcs[k].get_param_vector(), float)
        parts.append((ref_image(m, ks[k], srcs[k], vec, st["b"], nb, st), ref_grad(m, ks[k], srcs[k], vec, st["b"], nb, st) if k in fit else None))
    for use in (slice(None), [j for j in range(len(order)) if rng.random() < 0.5], slice(0, 1)):
        im, gr = L.make_image(sc, stamp, Theta=th, use_sources=use)
        sel = np.zeros(len(order))
        sel[use] = 1
        want = sum([p[0] * s for p, s in zip(parts, sel)], np.zeros(len(st["x"])))
        ctx.close(np.asarray(im), want.reshape(shape), 1e-8 * (uf + np.abs(model).max()), "image of some sources of a scene", use=str(use), kinds=ks, cov=st["cov"])
        wg = [p[1] * s for p, s in zip(parts, sel) if p[1] is not None]
        wg = np.concatenate(wg) if wg else np.zeros((0, len(st["x"])))
        ctx.equal(np.shape(gr), wg.shape, "shape of the gradients of a rendered scene", use=str(use), kinds=ks, cov=st["cov"])
        big = np.concatenate([np.abs(p[1]).max(axis=1) for p in parts if p[1] is not None] + [np.zeros(0)])[:, None]
        ctx.close(gr, wg, 1e-5 * big + 1e-12 * uf, "gradients of a rendered scene", name="scene_grad", use=str(use), kinds=ks, cov=st["cov"])
    ctx.count("rendered")


# ------------------------------------------------------------------ single Gaussians
def gaussians(ctx, rng):
    from forcepho.slow.gaussmodel import ImageGaussian, compute_gaussian
    for _ in range(8):
        g = ImageGaussian()
        sx, sy = 10 ** rng.uniform(*((-0.05, 0.8) if rng.random() < 0.7 else (-0.8, 0.3)), 2)
        rho = rng.uniform(-.8, .8)
        unit = min(1.0, sx, sy)
        S = np.array([[sx ** 2, rho * sx * sy], [rho * sx * sy, sy ** 2]])
        F = np.linalg.inv(S)
        n = int(rng.integers(1, 40))
        x, y = rng.uniform(-8, 8, (2, n)) * (unit if rng.random() < 0.5 else 1.0)
        amp = float(rng.choice([0.0, rng.normal(), rng.normal() * 100]))
        p0 = np.array([amp, rng.normal() * unit, rng.normal() * unit, F[0, 0], F[1, 1], F[0, 1]])
        second, det = bool(rng.integers(2)), bool(rng.integers(2))

        def put(p):
            g.amp, g.xcen, g.ycen, g.fxx, g.fyy, g.fxy = p

        def f(p):
            a, cx, cy, fxx, fyy, fxy = p
            dx, dy = x - cx, y - cy
            vx, vy = fxx * dx + fxy * dy, fxy * dx + fyy * dy
            c = a * np.exp(-0.5 * (dx * vx + dy * vy))
            if second:
                c = c * (1 + (vx ** 2 + vy ** 2 - fxx - fyy) / 24)
            return c * np.sqrt(fxx * fyy - fxy ** 2) if det else c
        put(p0)
        C, dC = compute_gaussian(g, x, y, second_order=second, use_det=det, compute_deriv=True)
        ctx.close(C, f(p0), 1e-10 * (abs(amp) + 1e-12), "counts of a Gaussian", second=second, det=det)
        ctx.equal(np.asarray(compute_gaussian(g, x, y, second_order=second, use_det=det, compute_deriv=False)), np.asarray(C), "counts with and without derivatives")
        for j in range(6):
            h = 1e-3 if j < 1 else 1e-3 * unit * np.sqrt(1 - rho ** 2) if j < 3 else 1e-3 * min(F[0, 0], F[1, 1]) * (1 - rho ** 2)
            e = np.zeros(6)
            e[j] = h
            fd = (-f(p0 + 2 * e) + 8 * f(p0 + e) - 8 * f(p0 - e) + f(p0 - 2 * e)) / (12 * h)
            sc = np.abs(fd).max() + 1e-6 * (abs(amp) + (j == 0)) / h * 1e-3
            ctx.close(dC[j], fd, 1e-6 * sc + 1e-13, "derivative of the counts of a Gaussian", which=j, second=second, det=det, amp=amp)
        ctx.count("gaussians")
        ctx.sig("gauss", second, det, amp == 0)
        # the second order term makes it the integral over the pixel
        s1, s2 = rng.uniform(1.0, 3.0, 2)
        a, cx, cy = rng.normal(), rng.normal(), rng.normal()
        put((a / (2 * np.pi * s1 * s2), cx, cy, s1 ** -2, s2 ** -2, 0.0))
        xi = lambda t, c, s: 0.5 * (erf((t + 0.5 - c) / s / np.sqrt(2)) - erf((t - 0.5 - c) / s / np.sqrt(2)))
        want = a * xi(x, cx, s1) * xi(y, cy, s2)
        sm = min(s1, s2)
        bound = abs(a) / (2 * np.pi * s1 * s2) * 0.02 / sm ** 4
        ctx.close(compute_gaussian(g, x, y, compute_deriv=False), want, bound, "counts against the integral over the pixel", name="pixint", s=(s1, s2))


# ------------------------------------------------------------------ PSFs and stamps
def psf_and_stamp(ctx, rng):
    from astropy.wcs import WCS
    from forcepho.slow.psf import PointSpreadFunction, get_psf
    import h5py
    import pickle
    for _ in range(3):
        fwhm = float(10 ** rng.uniform(-0.5, 1))
        p = get_psf(fwhm=fwhm)
        C = np.asarray(p.covariances)
        ctx.equal(C.shape, (1, 2, 2), "a Gaussian PSF")
        ctx.close(C[0], np.eye(2) * (fwhm / np.sqrt(8 * np.log(2))) ** 2, 2e-3 * fwhm ** 2, "width of a Gaussian PSF", fwhm=fwhm)
        ctx.close(np.sum(p.amplitudes), 1, 0, "a Gaussian PSF has unit flux")
        # files of mixtures
        nr, ng = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        par = np.zeros((nr, ng), dtype=[(c, "f8") for c in ("amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy")])
        for c in par.dtype.names:
            par[c] = rng.uniform(0.1, 2, par.shape)
        fn = os.path.join(ctx.tmp, "psf.h5")
        with h5py.File(fn, "w") as h:
            h["parameters"] = par
        k = int(rng.integers(nr))
        p = get_psf(fn, psf_realization=k)
        ctx.equal(p.n_gauss, ng, "number of Gaussians of a PSF file")
        t = np.array(p.as_tuplelist(), float)
        ctx.equal(t, np.array([[r[c] for c in ("amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy")] for r in par[k]]), "PSF read from a file")
        ctx.equal(p.units, "pixels", "units of a PSF file")
        # old-style files: oversampled images with x and y exchanged
        o, cen = float(rng.choice([1, 4, 8])), float(rng.uniform(50, 110))
        fp = rng.uniform(1, 3, (ng, 6))
        fp[:, 5] = rng.uniform(-.9, .9, ng)
        fn = os.path.join(ctx.tmp, "psf.p")
        with open(fn, "wb") as f:
            pickle.dump({ng: [dict(fitted_params=fp.reshape(-1))]}, f)
        p = get_psf(fn, n_gauss=ng if rng.random() < 0.5 else None, oversample=o, center=cen)
        t = np.array(p.as_tuplelist(), float)
        w = np.array([fp[:, 0], (fp[:, 2] - cen) / o, (fp[:, 1] - cen) / o, (fp[:, 4] / o) ** 2, (fp[:, 3] / o) ** 2, fp[:, 5] * fp[:, 3] * fp[:, 4] / o ** 2]).T
        ctx.close(t, w, 1e-10 * (1 + np.abs(w)), "PSF read from an old-style file")
        ctx.count("psf")
    # stamps
    center = [(53.16, -27.79), (0.0003, 42.0), (359.9999, 0.0)][int(rng.integers(3))]
    scale = float(rng.choice([0.03, 0.06]))
    s, st = make_stamp(rng, "b", center, scale)
    ctx.equal(s.npix, s.nx * s.ny, "number of pixels")
    ctx.equal(tuple(s.shape), (s.nx, s.ny), "shape")
    ctx.equal(np.asarray(s.xpix).reshape(-1), st["x"], "x coordinates")
    ctx.equal(np.asarray(s.ypix).reshape(-1), st["y"], "y coordinates")
    for _ in range(5):
        pix = rng.uniform(-5, 25, 2)
        sky = s.pix_to_sky(pix)
        ctx.close(sky, st["crval"] + np.linalg.solve(st["CW"], pix - st["crpix"]), 1e-10, "sky of a pixel")
        ctx.close(s.sky_to_pix(sky), pix, 1e-6, "pixel of the sky of a pixel")
    s.pixel_values = rng.normal(size=(s.nx, s.ny)).astype(rng.choice(["f8", "f4"]))
    ie = 10 ** rng.uniform(-1, 1, s.nx * s.ny)
    hasunc = rng.random() < 0.8
    if hasunc:
        s.ierr = ie
    pv = s.pixel_values.copy()
    fn = os.path.join(ctx.tmp, "stamp.fits") if rng.random() < 0.5 else ""
    hdul, wcs = s.to_fits(fn, overwrite=True)
    if fn:
        from astropy.io import fits
        with fits.open(fn) as f:
            data = [np.array(h.data) for h in f]
            wcs2 = WCS(f[0].header)
    else:
        data = [np.array(h.data) for h in hdul]
        wcs2 = WCS(hdul[0].header)
    ctx.equal(len(data), 1 + hasunc, "extensions of the FITS file")
    ctx.equal(data[0], pv.T, "image written to FITS")
    if hasunc:
        ctx.close(data[1], 1 / ie.reshape(s.nx, s.ny).T, 1e-6 / ie.reshape(s.nx, s.ny).T, "uncertainty written to FITS")
    for w in (wcs, wcs2):
        for _ in range(4):
            pix = np.array([rng.uniform(0, s.nx), rng.uniform(0, s.ny)])
            a = np.array(w.all_pix2world(pix[0], pix[1], 0))
            b = st["crval"] + np.linalg.solve(st["CW"], pix - st["crpix"])
            d = (a - b)
            d[0] = (d[0] + 180) % 360 - 180
            # the linear coordinates and the projection agree to second order in the size of the stamp
            off = np.hypot(*(np.linalg.solve(st["D"], pix - st["crpix"])))
            tol = (1e-5 * scale + off * (off / 206265) * 3 / np.cos(np.deg2rad(center[1])) ** 2) / 3600
            ctx.close(d * [np.cos(np.deg2rad(center[1])), 1], 0, tol, "WCS of the stamp", name="wcs", center=center, pix=pix)
    ctx.close(s.dpix_dsky, st["CW"], 1e-6 * np.abs(st["CW"]).max(), "scale of the stamp after writing")
    # linear terms of a distorted or plain WCS at a position, for any step
    from checks.c06 import derivative
    from forcepho.slow.stamp import scale_at_sky
    hdr, kind = make_header(rng, center, 40, 40, scale=scale)
    w = WCS(hdr)
    cosd = np.cos(np.deg2rad(center[1]))
    sky = (float(center[0]) + rng.normal(0, 0.1) / 3600 / cosd, center[1] + rng.normal(0, 0.1) / 3600)
    A = np.diag([1 / cosd, 1.0])
    T = derivative(w, *sky, 0.5 * scale / 3600) @ A
    for dpix in (1.0, float(rng.choice([0.2, 2.0, 4.0]))):
        CW, D = scale_at_sky(sky, w, dpix=dpix, origin=int(rng.integers(2)), make_approx=bool(rng.integers(2)))
        tol = (1e-3 + (1.5e-3 * dpix if kind == "sip" else 0)) * np.abs(T).max()
        ctx.close(CW @ A, T, tol, "derivatives of the WCS at a position", name="scale_at_sky", kind=kind, dpix=dpix, center=center)
        ctx.close(D * 3600, T, tol, "scale of the WCS at a position", name="scale_at_sky", kind=kind, dpix=dpix, center=center)
    ctx.count("fits")
    ctx.sig("stamp", st["units"], hasunc, bool(fn), scale, center[0])


# ------------------------------------------------------------------ against the compiled evaluator
def fast_path(ctx, rng):
    from forcepho.postprocess import forcepho_slow_model
    from forcepho.slow.psf import PointSpreadFunction
    from forcepho.slow.stamp import PostageStamp, scale_at_sky
    w = World(rng, ctx.tmp, n_src=int(rng.integers(1, 3)), size=int(rng.integers(10, 18)), masked=False)
    # the slow code has one PSF for all radii
    for b in w.bands:
        one = make_psf(rng, 1)
        w.psfs[b] = [r[:6] + (s,) for s in range(w.n_radii) for r in one]
    write_psfstore(w.psfstore, w.psfs)
    w.write(rng)
    patch = cpu_patch(w)
    patch.return_residual = True
    patch.send_to_device()
    chi2, der, res = patch.get_proposer().evaluate_proposal(patch.scene_used.get_proposal(), patch=patch, unpack=True)
    ref = refmodel.Ref(w)
    bypath = {e["path"]: e for e in w.exps}
    xs, ys, ds = patch.split_pix("xpix"), patch.split_pix("ypix"), patch.split_pix("data")
    k = 0
    for j, path in enumerate(patch.epaths):
        e, r = bypath[str(path)], res[j]
        x, y, data = xs[j], ys[j], ds[j]
        good = (x >= 0) & (y >= 0)
        model = np.zeros(good.sum())
        for row in w.cat:
            st = PostageStamp(e["nx"], e["ny"], filtername=e["band"])
            CW, D = scale_at_sky((row["ra"], row["dec"]), e["wcs"])
            st.scale, st.dpix_dsky, st.crval = D, CW, np.array([row["ra"], row["dec"]])
            st.crpix = np.array(e["wcs"].all_world2pix(row["ra"], row["dec"], 0), float)
            st.psf = PointSpreadFunction(np.array([p[:6] for p in w.psfs[e["band"]] if p[6] == 0], dtype=[(c, "f8") for c in ("amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy")]))
            im, sc = forcepho_slow_model(np.array([row]), st, e["band"], psf=st.psf, splinedata=w.spline)
            ctx.equal(np.shape(im), (e["nx"], e["ny"]), "shape of the slow model")
            model += im[x[good].astype(int), y[good].astype(int)]
        want, tol = ref.image(e, w.cat, x[good], y[good])
        ctx.close(model, want, 1e-7 * (1e-3 + np.abs(want).max()), "slow model against the reference", kind=e["kind"])
        got = data[good].astype(float) - np.asarray(r).reshape(-1)[:len(good)][good]
        tol = 40 * tol + refmodel.EPS * 16 * (np.abs(data[good]) + np.abs(want)) + 1e-12
        ctx.close(got, model, tol, "slow and compiled model images", name="fast", kind=e["kind"])
        k += 1
    ctx.check(k == len(w.exps), "exposures in the patch", got=k)
    ctx.count("fast_path")
    ctx.sig("fast", len(w.bands), tuple(sorted({e["kind"] for e in w.exps})))


def static_path(ctx, rng):
    """Patches made of postage stamps, evaluated by the compiled code."""
    from forcepho.patches import CPUPatchMixin
    from forcepho.patches.static_patch import StaticPatch
    from forcepho.sources import Galaxy, Scene

    class Patcher(StaticPatch, CPUPatchMixin):
        pass
    spline = DEMO_SPLINE if rng.random() < 0.3 else write_spline(os.path.join(ctx.tmp, "s.h5"), rng, n_radii=int(rng.integers(2, 6)))
    nb, scale = int(rng.integers(1, 4)), float(rng.choice([0.03, 0.06]))
    bands = ["F%d" % k for k in range(nb)]
    # positions relative to a reference position: they are single precision numbers in the patch
    srcs = [random_source(rng, "Galaxy", bands, (0.0, 0.0), 4 * scale, spline) for _ in range(int(rng.integers(1, 4)))]
    m = Model(spline)
    stamps, meta, ids = [], [], np.sort(rng.permutation(20)[:nb])
    for b in range(nb):
        ng = None
        for _ in range(int(rng.integers(1, 4))):
            stamp, st = make_stamp(rng, bands[b], (0.0, 0.0), scale)
            while st["units"] != "pixels" or (ng is not None and len(st["psf"]) != ng):
                stamp, st = make_stamp(rng, bands[b], (0.0, 0.0), scale)
            ng = len(st["psf"])
            stamp.band, st["b"] = int(ids[b]), b
            sh = (stamp.nx, stamp.ny)
            st["data"], st["ierr"] = rng.normal(0, 1, sh).astype(np.float32), rng.uniform(0.2, 3, sh).astype(np.float32)
            stamp.pixel_values, stamp.ierr = st["data"].copy(), st["ierr"].copy()
            stamps.append(stamp)
            meta.append(st)
    scene = Scene(srcs)
    scene.npsf_per_source = np.array([len(srcs[0].radii) * [t for t in meta if t["b"] == b][0]["psf"].__len__() for b in range(nb)])
    for s in srcs:
        s.stamp_psfs = [[t.psf] * len(s.radii) for t in stamps]
        s.stamp_crpixs, s.stamp_crvals, s.stamp_zps = [t.crpix for t in stamps], [t.crval for t in stamps], [t.photocounts for t in stamps]
        s.stamp_scales, s.stamp_cds = [t.scale for t in stamps], [t.dpix_dsky for t in stamps]
    patch = Patcher(stamps, scene, return_residual=True)
    if rng.random() < 0.3:
        patch.build_patch(stamps, scene)
    n = len(stamps)
    ctx.check(patch.n_exp == n and patch.n_bands == nb and patch.n_sources == len(srcs), "numbers of exposures, bands and sources", got=(patch.n_exp, patch.n_bands, patch.n_sources))
    npb = [sum(t["b"] == b for t in meta) for b in range(nb)]
    ctx.equal(np.asarray(patch.band_N), np.array(npb), "exposures in each band")
    ctx.equal(np.asarray(patch.band_start), np.concatenate([[0], np.cumsum(npb)[:-1]]).astype(int), "first exposure of each band")
    patch.send_to_device()
    prop = scene.get_proposal()
    chi2, der, res = patch.get_proposer().evaluate_proposal(prop, patch=patch, unpack=False)
    res = np.asarray(res).reshape(-1)
    ctx.check(len(res) == len(patch.data), "size of the residual")
    want_chi2, tol_chi2, end = np.zeros(nb), np.zeros(nb), 0
    for j, (t, st) in enumerate(zip(stamps, meta)):
        a, N, npx = int(patch.exposure_start[j]), int(patch.exposure_N[j]), t.nx * t.ny
        ctx.check(a == end and N >= npx, "place of an exposure in the pixel arrays", exposure=j)
        end = a + N
        for name, v in (("xpix", st["x"]), ("ypix", st["y"]), ("data", st["data"].reshape(-1)), ("ierr", st["ierr"].reshape(-1))):
            ctx.equal(np.asarray(getattr(patch, name)[a:a + npx], float), np.asarray(v, float), "pixels of a stamp in the patch", array=name)
        ctx.check(not np.any(patch.ierr[a + npx:end]) and np.all(np.isfinite(patch.data[a + npx:end])), "padding has weight")
        mod, amp = np.zeros(npx), 0.0
        for s in srcs:
            vec = np.array(s.get_param_vector(), float)
            mod += ref_image(m, "Galaxy", s, vec, st["b"], nb, st)
            amp += abs(st["G"] * vec[st["b"]])
        amp *= sum(abs(g[0]) / np.sqrt(max(g[3] * g[4] - g[5] ** 2, 1e-9)) * (1 + 1 / np.sqrt(min(g[3], g[4]))) for g in st["psf"])
        tol = 2e-5 * amp + 1e-5 * np.abs(st["data"]).max()
        ctx.close(st["data"].reshape(-1) - res[a:a + npx].astype(float), mod, tol, "compiled image of a stamp", name="static", exposure=j, band=st["b"])
        d, e = st["data"].reshape(-1).astype(float), st["ierr"].reshape(-1).astype(float)
        want_chi2[st["b"]] += np.sum(((d - mod) ** 2 - d ** 2) * e ** 2)
        tol_chi2[st["b"]] += np.sum(2 * np.abs(d - mod) * tol * e ** 2) + 1e-5 * np.sum((np.abs(d) + np.abs(mod)) * np.abs(mod) * e ** 2)
    ctx.check(end == len(patch.data), "pixels beyond the exposures")
    ctx.close(np.asarray(chi2, float).reshape(-1), want_chi2, tol_chi2 + 1e-3, "chi-square of the stamps", name="static_chi2")
    ctx.count("static")
    ctx.sig("static", nb, n, len(srcs))

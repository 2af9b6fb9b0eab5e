"""C24: mixtures fitted to PSF images and to profiles."""
import contextlib
import io
import os
import pickle
import warnings

import numpy as np
from scipy.integrate import quad
from scipy.special import gammainc, gammaincinv, i0e

from fpv import fakejax

PROPERTY = "C24"
NEEDS_KERNEL = False
TECHNIQUE = "runtime monitor: every answer of the mixture fits judged against the image or profile it was given (moments, stationarity, independent reconstruction), with recorded sites of the sampled models"
RULE = "distinct (kind of fit, number of Gaussians, image shape class, cutout, oversampling, options) combinations judged"
ASSUMPTIONS = ["jax and numpyro are not installed: the HMC models run with numpy in place of jax.numpy and with a recorder in place of numpyro.sample; the NUTS sampler itself is not exercised",
               "which local optimum an EM fit reaches is not judged, only that it is one",
               "plots are judged by the ellipses and images drawn, not by their looks"]
CASES = {"quick": 192, "thorough": 1500}
MIN = {"em": 15, "em_stationary": 8, "ls": 20, "psf_mixture": 8, "model": 200, "prediction": 100, "infer": 15, "profile": 100, "profile_fit": 12, "grid": 6, "ellipse": 60, "nan": 30, "noconv": 1, "chosen": 6}


def mods():
    import sys
    if "numpyro" not in sys.modules:
        fakejax.install()
    import matplotlib
    matplotlib.use("Agg")
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import forcepho.mixtures
    return forcepho.mixtures


# ------------------------------------------------------------------ reference
def gauss2d(x, y, a, mx, my, cxx, cyy, cxy):
    """Sum of Gaussians at the points x, y."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    out = np.zeros(np.broadcast(x, y).shape)
    for a_, mx_, my_, xx, yy, xy in zip(*np.broadcast_arrays(*np.atleast_1d(a, mx, my, cxx, cyy, cxy))):
        d = xx * yy - xy * xy
        dx, dy = x - mx_, y - my_
        out = out + a_ / (2 * np.pi * np.sqrt(d)) * np.exp(-0.5 * (yy * dx * dx + xx * dy * dy - 2 * xy * dx * dy) / d)
    return out


def em_mixture(p, shape):
    """Image of fitted_params: (amp, row, column, sigma_row, sigma_column, rho)."""
    p = np.asarray(p, float).reshape(-1, 6)
    r, c = np.indices(shape)
    return gauss2d(r, c, p[:, 0], p[:, 1], p[:, 2], p[:, 3] ** 2, p[:, 4] ** 2, p[:, 5] * p[:, 3] * p[:, 4])


def moments(w, r, c):
    w = w / w.sum()
    m = np.array([np.sum(w * r), np.sum(w * c)])
    return m, np.array([[np.sum(w * (r - m[0]) ** 2), np.sum(w * (r - m[0]) * (c - m[1]))],
                        [np.sum(w * (r - m[0]) * (c - m[1])), np.sum(w * (c - m[1]) ** 2)]])


def mix_moments(a, m, C):
    a = a / a.sum()
    mu = a @ m
    return mu, np.einsum("k,kij->ij", a, C) + np.einsum("k,ki,kj->ij", a, m - mu, m - mu)


def em_step(img, p):
    p = np.asarray(p, float).reshape(-1, 6)
    r, c = np.indices(img.shape)
    w = np.array([em_mixture(q, img.shape) for q in p])
    w = w / w.sum(0)
    out = np.zeros_like(p)
    for k in range(len(p)):
        f = img * w[k]
        m, C = moments(f, r, c)
        s = np.sqrt(np.diag(C))
        out[k] = f.sum(), m[0], m[1], s[0], s[1], C[0, 1] / s[0] / s[1]
    out[:, 0] /= out[:, 0].sum()
    return out


def lnlike(img, model):
    with np.errstate(all="ignore"):
        return np.sum(img * np.log(model))


def image(rng, small=False):
    """A PSF-like image: mixture plus a pedestal, square or not."""
    n = rng.integers(9, 14 if small else 22, 2)
    if rng.random() < 0.4:
        n[1] = n[0]
    r, c = np.indices(n)
    k = int(rng.integers(1, 4))
    s = rng.uniform(1.0, n.min() / 4, (k, 2))
    cen = (n - 1) / 2 + rng.uniform(-1.5, 1.5, (k, 2))
    rho = rng.uniform(-.6, .6, k)
    a = rng.dirichlet(np.ones(k) * 2)
    img = gauss2d(r, c, a, cen[:, 0], cen[:, 1], s[:, 0] ** 2, s[:, 1] ** 2, rho * s[:, 0] * s[:, 1])
    img = img + rng.uniform(0, 0.02) * img.max() * rng.random(img.shape)
    return img


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def judge_answer(ctx, ans, img, nmix, em, tag):
    p = np.array(ans["fitted_params"], float)
    ctx.equal(p.shape, (6 * nmix,), "number of fitted parameters", tag=tag)
    P = p.reshape(-1, 6)
    ctx.equal(ans["original_image"], img, "original image of an answer", tag=tag)
    want = em_mixture(P, img.shape)
    scale = np.max(np.abs(want))
    ctx.close(ans["recon_image"], want, 1e-9 * scale + 1e-300, "reconstructed image of an answer is that of its parameters", tag=tag, p=p)
    ctx.close(ans["error_original"], np.sqrt(np.sum(img.astype(float) ** 2)), 1e-5 * np.sqrt(np.sum(img.astype(float) ** 2)), "norm of the image", tag=tag)
    e = np.sqrt(np.sum((img - want) ** 2))
    ctx.close(ans["error_residual"], e, 1e-6 * (e + scale), "residual of an answer", tag=tag)
    if em:
        L = lnlike(img, want)
        if np.isfinite(L):
            ctx.close(ans["final_log_likelihood"], L, 1e-9 * (1 + abs(L)), "likelihood of an answer is that of its parameters", tag=tag)
    return P


# ------------------------------------------------------------------ EM and least squares
def em_fits(ctx, rng):
    mods()
    from forcepho.mixtures.psf_mix_em import fit_mvn_mix
    img = image(rng)
    if rng.random() < 0.6:
        img = img / img.sum()
    if rng.random() < 0.3:
        img = img.astype(np.float32)
    keep = img.copy()
    nmix, rep = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    init = str(rng.choice(["random", "random", "greedy"]))
    thr = float(10 ** rng.uniform(-9, -6))
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    with silent():
        res = fit_mvn_mix(img, nmix, method_opt="em", method_init=init, repeat=rep, returnfull=True, dlnlike_thresh=thr, printint=bool(rng.random() < .5), printfinal=bool(rng.random() < .5))
    ctx.equal(img, keep, "the fitted image is left alone")
    ctx.equal(len(res), rep, "one answer per repeat", init=init, nmix=nmix)
    r, c = np.indices(img.shape)
    f = img.astype(float)
    m0, C0 = moments(f, r, c)
    for ans in res:
        P = judge_answer(ctx, ans, keep, nmix, True, init)
        ctx.count("em")
        ctx.sig("em", nmix, init, img.shape[0] == img.shape[1], str(img.dtype), rep)
        lc = int(ans["loop_count"])
        if lc < 1 or lc >= 20000 or not np.isfinite(ans["final_log_likelihood"]):
            continue
        with np.errstate(all="ignore"):
            nxt = em_step(f, P)
        if not np.all(np.isfinite(nxt)) or min(P[:, 3:5].min(), nxt[:, 3:5].min()) < 0.2:
            continue        # a Gaussian collapsed onto a row of pixels: the fit stops without converging
        ctx.check(np.all(P[:, 0] >= 0) and np.all(P[:, 3:5] > 0) and np.all(np.abs(P[:, 5]) <= 1 + 1e-9), "amplitudes, widths and correlations are those of a mixture", P=P)
        ctx.close(P[:, 0].sum(), 1, 1e-8, "amplitudes sum to one")
        C = np.array([[[q[3] ** 2, q[5] * q[3] * q[4]], [q[5] * q[3] * q[4], q[4] ** 2]] for q in P])
        m, V = mix_moments(P[:, 0], P[:, 1:3], C)
        tol = 1e-4 if img.dtype == np.float32 else 1e-7
        ctx.close(m, m0, tol * img.shape[0], "centroid of the mixture is that of the image", name="centroid")
        ctx.close(V, C0, tol * np.trace(C0), "second moments of the mixture are those of the image", name="second")
        L0, L1 = lnlike(f, em_mixture(P, f.shape)), lnlike(f, em_mixture(nxt, f.shape))
        # the last increase was below the threshold
        ctx.check(L1 - L0 < 10 * thr + 1e-12 * abs(L0) * f.size ** .5, "another step of EM still improves a converged answer", gain=L1 - L0, thresh=thr, loops=lc)
        ctx.check(L1 - L0 > -1e-9 * abs(L0), "EM step lowers the likelihood: the answer is not a mixture of the image", drop=L1 - L0)
        ctx.count("em_stationary")
        ctx.sample(kind="em", shape=img.shape, nmix=nmix, loops=lc, gain_of_another_step=float(L1 - L0), thresh=thr)
    # the best one
    np.random.seed(seed)
    with silent():
        best = fit_mvn_mix(img, nmix, method_opt="em", method_init=init, repeat=rep, returnfull=False, dlnlike_thresh=thr)
    judge_answer(ctx, best, keep, nmix, True, "chosen")
    e = [a["error_residual"] for a in res]
    ctx.close(best["error_residual"], np.min(e), 1e-9 * np.min(e), "the answer returned is the one with the smallest residual", residuals=e)
    ctx.count("chosen")


def awkward(ctx, rng):
    """Fits that do not converge, or whose likelihood is not finite."""
    mods()
    from forcepho.mixtures.psf_mix_em import fit_mvn_mix
    n = rng.integers(5, 9, 2)
    img = np.zeros(n)
    kind = str(rng.choice(["one", "two", "zeros"]))
    if kind == "zeros":     # compact source in an empty image: the model underflows
        n = rng.integers(30, 40, 2)
        r, c = np.indices(n)
        img = np.exp(-0.5 * ((r - 14) ** 2 + (c - 14) ** 2) / .3 ** 2)
        img[img < 1e-5] = 0
        img /= img.sum()
    else:
        for _ in range(1 if kind == "one" else 2):
            img[rng.integers(n[0]), rng.integers(n[1])] += 0.5
    rep, nmix = int(rng.integers(2, 4)), int(rng.integers(1, 3))
    with silent():
        res = fit_mvn_mix(img, nmix, method_opt="em", method_init="random", repeat=rep)
    ctx.equal(len(res), rep, "one answer per repeat", kind=kind)
    for a in res:
        if np.all(np.isfinite(a["fitted_params"])):
            with np.errstate(all="ignore"):
                judge_answer(ctx, a, img, nmix, True, kind)
        ctx.count("nan")
    ctx.check(len(res) == len({id(a["fitted_params"]) for a in res}), "answers share their parameters", kind=kind)
    ctx.sig("awkward", kind, nmix)
    if ctx.case % 48 == 1 and ctx.desc != "noconv":
        ctx.desc = "noconv"
        img = image(rng, small=True)[:9, :9]
        img = img / img.sum()
        with silent():
            res = fit_mvn_mix(img, 2, method_opt="em", method_init="random", repeat=1, dlnlike_thresh=0.0, printint=False)
        ctx.equal(len(res), 1, "a fit that does not converge gives an answer")
        judge_answer(ctx, res[0], img, 2, True, "not converged")
        ctx.count("noconv")


def ls_fits(ctx, rng):
    mods()
    from forcepho.mixtures.psf_mix_em import fit_mvn_mix
    img = image(rng, small=True)
    nmix, rep = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    if nmix == 1 and rng.random() < 0.5:
        img = em_mixture([rng.uniform(.5, 3), *((np.array(img.shape) - 1) / 2 + rng.uniform(-1, 1, 2)), *rng.uniform(1.2, 3, 2), rng.uniform(-.6, .6)], img.shape)
    keep = img.copy()
    init = str(rng.choice(["random", "greedy"]))
    with silent():
        res = fit_mvn_mix(img, nmix, method_opt="scipy_ls", method_init=init, repeat=rep)
    ctx.equal(img, keep, "the fitted image is left alone")
    ctx.equal(len(res), rep, "one answer per repeat")
    for a in res:
        P = judge_answer(ctx, a, keep, nmix, False, "ls")
        ctx.check(np.all(P[:, 1] >= 0) and np.all(P[:, 2] >= 0) and np.all(P[:, 1] <= img.shape[0] - 1) and np.all(P[:, 2] <= img.shape[1] - 1)
                  and np.all(P[:, 3:5] >= 0) and np.all(np.abs(P[:, 5]) <= 1), "least squares parameters are within bounds", P=P)
        # no better amplitude for any component: the amplitudes solve the linear problem
        e = float(a["error_residual"])
        g = np.array([em_mixture(np.r_[1.0, q[1:]], img.shape).ravel() for q in P]).T
        if np.all(np.isfinite(g)) and np.linalg.cond(g) < 1e3:
            sol = np.linalg.lstsq(g, img.ravel(), rcond=None)[0]
            e1 = np.sqrt(np.sum((img.ravel() - g @ sol) ** 2))
            ctx.check(e1 >= e - 0.01 * e - 1e-3 * a["error_original"], "amplitudes of a least squares fit are optimal", e=e, best=e1)
        ctx.count("ls")
        ctx.sig("ls", nmix, init)


# ------------------------------------------------------------------ whole PSF images
def psf_images(ctx, rng):
    mods()
    from astropy.io import fits
    import h5py
    from forcepho.mixtures.utils_em import psf_mixture
    from forcepho.slow.psf import get_psf
    img = image(rng)
    dt = str(rng.choice(["f4", "f8", "i4"]))
    data = (img / img.max() * 30000).astype(int).astype(dt) if dt == "i4" else (img * rng.uniform(.1, 100)).astype(dt)
    hdr = fits.Header()
    scale, cd = float(rng.uniform(.02, .2)), rng.random() < 0.7
    if cd:
        t = rng.uniform(0, 2 * np.pi) if rng.random() < .5 else 0.
        M = scale / 3600 * np.array([[-1, 0], [0, 1]]) @ np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        hdr.update(CTYPE1="RA---TAN", CTYPE2="DEC--TAN", CRVAL1=10., CRVAL2=2., CRPIX1=1., CRPIX2=1.)
        for i in range(2):
            for j in range(2):
                hdr["CD%d_%d" % (i + 1, j + 1)] = M[i, j]
    fn = os.path.join(ctx.tmp, "psf.fits")
    fits.PrimaryHDU(data, header=hdr).writeto(fn, overwrite=True)
    nmix, rep = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    over = [1, 1, 2, 4, 8][int(rng.integers(5))]
    width = None if rng.random() < 0.5 else int(rng.integers(4, 9))
    new = rng.random() < 0.75
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    cwd = os.getcwd()
    os.chdir(ctx.tmp)
    try:
        with silent():
            out = psf_mixture(fn, "band", nmix, nrepeat=rep, newstyle=new, width=width, oversample=over)
    finally:
        os.chdir(cwd)
    size = np.array(data.shape)
    cen = (size - 1) / 2
    d = data.astype(float)
    root = os.path.join(ctx.tmp, "gmpsf_band_ng%d" % nmix)
    ctx.check(os.path.exists(root + ".pdf"), "plots of a PSF mixture")
    ctx.count("psf_mixture")
    ctx.sig("psf", nmix, dt, over, width is None, new, bool(size[0] == size[1]))
    if not new:
        ctx.equal(list(out), [nmix], "old-style results are keyed by the number of Gaussians")
        res = out[nmix]
        ctx.equal(len(res), rep, "one answer per repeat")
        with open(root + ".p", "wb") as f:
            pickle.dump(out, f)
        k = int(rng.integers(rep))
        o = res[k]["original_image"]
        c0 = float(rng.uniform(3, 20))
        psf = get_psf(root + ".p", n_gauss=nmix, psf_realization=k, oversample=over, center=c0)
        t = np.array(psf.as_tuplelist(), float)
        r, c = np.indices(o.shape)
        model = gauss2d((c - c0) / over, (r - c0) / over, t[:, 0], t[:, 1], t[:, 2], t[:, 3], t[:, 4], t[:, 5]) / over ** 2
        judge_answer(ctx, res[k], o, nmix, True, "old style")
        ctx.close(model, res[k]["recon_image"], 1e-8 * model.max(), "PSF of an old-style file reproduces the fitted image", over=over)
        ctx.close(np.sum(o), 1, 1e-5, "the fitted image is normalised")
        return
    start, stop = np.array(out["start"], int), np.array(out["stop"], int)
    if width is None:
        ctx.check(np.all(start == 0) and np.all(stop == size), "without a width the whole image is fitted", start=start, stop=stop)
    else:
        ctx.check(np.all(start >= 0) and np.all(stop <= size) and np.all(np.abs(start - np.maximum(cen - width, 0)) <= 1) and np.all(np.abs(stop - np.minimum(cen + width, size)) <= 1), "cutout of the given width about the center", start=start, stop=stop, width=width, size=size)
    cut = d[start[0]:stop[0], start[1]:stop[1]]
    with h5py.File(root + ".h5", "r") as h:
        f = {k: h[k][:] for k in ("psf_image", "models", "parameters", "lnlike")}
        at = dict(h.attrs)
        pat, iat = dict(h["parameters"].attrs), dict(h["psf_image"].attrs)
    for k, k2 in (("psf_image", "data"), ("models", "models"), ("parameters", "parameters"), ("lnlike", "lnlike")):
        ctx.equal(np.asarray(out[k2]), f[k], "returned and stored %s" % k)
    for k, v in dict(nmix=nmix, nrepeat=rep, image_path=fn, band="band", oversample=over).items():
        ctx.equal(at[k], v, "attribute %s of a PSF mixture" % k)
    for k, v in dict(start=start, stop=stop, center=cen).items():
        ctx.equal(np.asarray(at[k], float), np.asarray(v, float), "attribute %s of a PSF mixture" % k)
    ff = cut.sum() / d.sum()
    ctx.close(at["flux_fraction"], ff, 1e-5, "fraction of the flux in the cutout")
    ctx.close(out["flux_fraction"], ff, 1e-5, "fraction of the flux in the cutout")
    ctx.close(f["psf_image"], cut.T / cut.sum(), 1e-5 * cut.max() / cut.sum(), "stored PSF image is the normalised cutout, x first")
    if cd:
        ctx.close(iat["arcsec_per_pixel"], scale, 1e-6 * scale, "pixel scale of the PSF image")
        ctx.close(pat["arcsec_per_pixel"], scale * over, 1e-6 * scale * over, "pixel scale of the parameters")
    P = f["parameters"]
    ctx.equal(P.shape, (rep, nmix), "one mixture per repeat")
    ctx.equal(f["models"].shape, (rep,) + cut.T.shape, "one model per repeat")
    ctx.equal(len(f["lnlike"]), rep, "one likelihood per repeat")
    r, c = np.indices(cut.shape)
    X, Y = (c + start[1] - cen[1]) / over, (r + start[0] - cen[0]) / over
    for k in range(rep):
        q = {n: P[k][n].astype(float) for n in P.dtype.names}
        if not (np.isfinite(f["lnlike"][k]) and np.all(np.isfinite(q["x"])) and np.all(q["vxx"] * q["vyy"] - q["vxy"] ** 2 > 1e-4 * q["vxx"] * q["vyy"])):
            continue
        # single precision of the parameters: derivative of the model with respect to them
        model = gauss2d(X, Y, q["amp"], q["x"], q["y"], q["vxx"], q["vyy"], q["vxy"]) / over ** 2
        smin = np.sqrt(min(q["vxx"].min(), q["vyy"].min()))
        tol = 1e-6 * (1 + np.abs(q["x"]).max() / smin + np.abs(q["y"]).max() / smin) * np.max(1 / (1 - q["vxy"] ** 2 / q["vxx"] / q["vyy"])) ** 2
        ctx.close(f["models"][k].T, model, tol * 3 * model.max(), "stored parameters reproduce the stored model, relative to the center of the image and in detector pixels", name="psfmodel", over=over, start=start, size=size)
        cut1 = f["psf_image"].T.astype(float)
        L = lnlike(cut1, f["models"][k].T)
        ctx.close(f["lnlike"][k], L, 1e-5 * (1 + abs(L)), "stored likelihood is that of the stored model", k=k)
        ctx.close(q["amp"].sum(), 1, 1e-5, "amplitudes sum to one")
        C = np.array([[[a, b], [b, e]] for a, b, e in zip(q["vxx"], q["vxy"], q["vyy"])])
        m, V = mix_moments(q["amp"], np.array([q["x"], q["y"]]).T, C)
        m0, C0 = moments(cut1, X, Y)
        ctx.close(m, m0, 1e-4 * (1 + np.sqrt(np.trace(C0))), "centroid of a PSF mixture is that of the image", over=over)
        ctx.close(V, C0, 1e-4 * np.trace(C0), "second moments of a PSF mixture are those of the image", over=over)


# ------------------------------------------------------------------ sampled models
def hmc_models(ctx, rng):
    mods()
    from forcepho.mixtures import psf_mix_hmc, sersic_mix_twod
    nx, ny = rng.integers(5, 12, 2)
    x0, y0 = rng.integers(-5, 30, 2)
    ypix, xpix = np.meshgrid(np.arange(ny) + y0, np.arange(nx) + x0)
    xpix, ypix = xpix.ravel().astype(float), ypix.ravel().astype(float)
    xc, yc = (xpix.max() + xpix.min()) / 2, (ypix.max() + ypix.min()) / 2
    # predictions
    for _ in range(3):
        n = int(rng.integers(1, 5))
        kw = dict(x=xc + rng.normal(0, 1, n), y=yc + rng.normal(0, 1, n), a=float(rng.uniform(.3, 9)), weight=rng.dirichlet(np.ones(n)), sx=rng.uniform(.7, 4, n), q=rng.uniform(.5, 2, n), rho=rng.uniform(-.8, .8, n), bg=float(rng.normal()))
        for k in list(kw):
            if rng.random() < 0.2 and k not in ("a", "bg"):
                kw[k] = float(np.atleast_1d(kw[k])[0])
            elif rng.random() < 0.1 and k in ("bg", "a", "weight", "rho"):
                del kw[k]
        g = dict(dict(x=0, y=0, a=1, weight=1, sx=3, q=3, rho=0, bg=0), **kw)
        if all(np.ndim(v) == 0 for v in g.values()):
            g["x"] = kw["x"] = np.array([g["x"]])
        sx, sy = np.asarray(g["sx"]), np.asarray(g["sx"]) * g["q"]
        want = gauss2d(xpix, ypix, g["a"] * np.asarray(g["weight"]), g["x"], g["y"], sx ** 2, sy ** 2, g["rho"] * sx * sy) + g["bg"]
        ctx.close(psf_mix_hmc.psf_prediction(xpix, ypix, **kw), want, 1e-9 * (1 + np.abs(want).max()), "predicted PSF is the sum of its Gaussians", kw=sorted(kw))
        rad = np.sort(rng.uniform(.7, 5, n))
        w = rng.uniform(.1, 1, n)
        kk = dict(lnW=np.log(w)) if rng.random() < .5 else dict(weight=w)
        cx, cy, a, bg = xc + rng.normal(), yc + rng.normal(), float(rng.uniform(.3, 9)), float(rng.normal())
        got = sersic_mix_twod.sersic_prediction(xpix, ypix, x=cx, y=cy, a=a, bg=bg, radii=list(rad), **kk)
        want = gauss2d(xpix, ypix, a * w, cx, cy, rad ** 2, rad ** 2, 0) + bg
        ctx.close(got, want, 1e-9 * (1 + np.abs(want).max()), "predicted profile is the sum of its Gaussians")
        sep = sersic_mix_twod.sersic_prediction(xpix, ypix, x=cx, y=cy, a=a, radii=list(rad), separate=True, **kk)
        for j in range(n):
            want = gauss2d(xpix, ypix, a * w[j], cx, cy, rad[j] ** 2, rad[j] ** 2, 0)
            ctx.close(np.asarray(sep)[:, j], want, 1e-9 * (1 + np.abs(want).max()), "separate Gaussians of a profile")
        ctx.count("prediction")
    # PSF model
    for mode in ("lo", "hi", None):
        n, nn = int(rng.integers(1, 5)), int(rng.choice([0, 0, 1, 2]))
        img, unc = rng.normal(size=len(xpix)), float(rng.uniform(.1, 3))
        kw = dict(ngauss=n, ngauss_neg=nn, smin=float(rng.uniform(.3, 1)), smax=rng.uniform(2, 9, n), rho_max=rng.uniform(.1, .8, n), dcen=float(rng.uniform(.2, 3)))
        afix = float(rng.uniform(.5, 5)) if rng.random() < .4 else None
        amin, amax = float(rng.uniform(.1, 1)), float(rng.uniform(1.5, 4))
        kw.update(dict(afix=afix) if afix else dict(amin=amin, amax=amax))
        maxbg = float(rng.uniform(.1, 2)) if rng.random() < .5 else 0
        if maxbg or rng.random() < .5:
            kw["maxbg"] = maxbg
        sneg = 10.
        if nn and rng.random() < .5:
            kw["smax_neg"] = sneg = float(rng.uniform(5, 20))
        t = fakejax.run_model(psf_mix_hmc.psf_model, rng, mode, image=img, xpix=xpix, ypix=ypix, unc=unc, **kw)
        v = {k: x[1] for k, x in t.items()}
        obs = [k for k in t if t[k][2]]
        ctx.equal(len(obs), 1, "one observed site of the model", sites=sorted(t))
        ctx.equal(t[obs[0]][1], img, "the observed image is the data")
        ctx.close(t[obs[0]][0].scale, unc, 0, "uncertainty of the data")
        a = v.get("a", afix)
        ctx.check(("a" in v) != bool(afix), "the amplitude is sampled unless fixed", afix=afix)
        ctx.check(("bg" in v) == (maxbg > 0), "a background is sampled when asked for", maxbg=maxbg)
        sx, sy = v["sx"], v["sx"] * v["q"]
        w = v.get("weight", np.ones(1))
        want = gauss2d(xpix, ypix, a * w, v["x"], v["y"], sx ** 2, sy ** 2, v["rho"] * sx * sy) + v.get("bg", 0)
        scale = np.abs(want).max()
        if nn:
            sxm, sym = v["sx_m"], v["sx_m"] * v["q_m"]
            neg = gauss2d(xpix, ypix, v["weight_m"], v["x_m"], v["y_m"], sxm ** 2, sym ** 2, v["rho_m"] * sxm * sym)
            want, scale = want - neg, scale + np.abs(neg).max()
            ctx.check(np.all(v["weight_m"] >= 0), "negative Gaussians subtract")
            ctx.equal(v["x_m"].shape, (nn,), "number of negative Gaussians")
        ctx.close(t[obs[0]][0].loc, want, 1e-9 * (1 + scale), "image of the model is that of the sampled parameters", sites=sorted(t), mode=mode)
        ctx.equal((v["x"].shape, v["y"].shape, v["sx"].shape, v["rho"].shape), ((n,),) * 4, "number of Gaussians of the model")
        eps = 1e-9
        ctx.check(np.all(v["sx"] >= kw["smin"] - eps) and np.all(v["sx"] <= kw["smax"] + eps), "widths within their limits", sx=v["sx"], mode=mode)
        ctx.check(np.all(np.abs(v["rho"]) <= kw["rho_max"] + eps), "correlations within their limits", rho=v["rho"])
        if "a" in v:
            ctx.check(amin - eps <= v["a"] <= amax + eps, "amplitude within its limits", a=v["a"])
        if "bg" in v:
            ctx.check(abs(v["bg"]) <= maxbg + eps, "background within its limits", bg=v["bg"])
        if mode is not None:      # the limits themselves are reached
            s = {"lo": -1, "hi": 1}[mode]
            ctx.close(v["sx"], kw["smin"] + 0 * v["sx"] if s < 0 else kw["smax"], 1e-9 * 10, "limits of the widths", mode=mode)
            ctx.close(v["rho"], s * kw["rho_max"], 1e-9, "limits of the correlation", mode=mode)
            ctx.close(v["x"], xc + s * kw["dcen"] + 0 * v["x"], 1e-9 * (1 + abs(xc)), "centers about the middle of the image", mode=mode)
            ctx.close(v["y"], yc + s * kw["dcen"] + 0 * v["y"], 1e-9 * (1 + abs(yc)), "centers about the middle of the image", mode=mode)
            if "a" in v:
                ctx.close(v["a"], amin if s < 0 else amax, 1e-9, "limits of the amplitude", mode=mode)
            if "bg" in v:
                ctx.close(v["bg"], s * maxbg, 1e-9, "limits of the background", mode=mode)
            if nn and s > 0:
                ctx.close(v["sx_m"], sneg + 0 * v["sx_m"], 1e-9, "largest width of the negative Gaussians")
        ctx.count("model")
        ctx.sig("psf_model", n, nn, bool(afix), maxbg > 0, mode)
    # profile model
    for mode in ("lo", "hi", None):
        n = int(rng.integers(2, 6))
        rad = np.sort(rng.uniform(.5, 6, n))
        img, unc = rng.normal(size=len(xpix)), float(rng.uniform(.1, 3))
        prior = str(rng.choice(["dirichlet", "exp-squared", "triangular", "finite-difference"]))
        kw = dict(prior=prior, xcen=xc, ycen=yc, kernel_scale=float(rng.uniform(.2, .9)))
        free = rng.random() < .4
        amax = float(rng.uniform(1, 4))
        afix = None if free else float(rng.uniform(.5, 3))
        kw.update(afix=afix, amax=amax)
        dcen = kw["dcen"] = float(rng.choice([0, rng.uniform(.1, 2)]))
        maxbg = kw["maxbg"] = float(rng.choice([0, rng.uniform(.1, 2)]))
        gm = kw["gmax"] = float(rng.choice([0, 0, .3]))
        t = fakejax.run_model(sersic_mix_twod.sersic_model, rng, mode, data=img, xpix=xpix, ypix=ypix, unc=unc, radii=list(rad), **kw)
        v = {k: x[1] for k, x in t.items()}
        obs = [k for k in t if t[k][2]]
        ctx.equal(len(obs), 1, "one observed site of the model")
        ctx.equal(t[obs[0]][1], img, "the observed image is the data")
        ctx.close(t[obs[0]][0].scale, unc, 0, "uncertainty of the data")
        w = v["weight"] if prior == "dirichlet" else np.exp(v["lnW"])
        want = gauss2d(xpix, ypix, v.get("a", afix) * w, v.get("x", xc), v.get("y", yc), rad ** 2, rad ** 2, 0) + v.get("bg", 0)
        ctx.close(t[obs[0]][0].loc, want, 1e-9 * (1 + np.abs(want).max()), "image of the profile model is that of the sampled parameters", prior=prior)
        ctx.equal(("a" in v, "bg" in v, "x" in v, "y" in v), (free, maxbg > 0, dcen > 0, dcen > 0), "parameters that are sampled")
        if gm:
            ctx.check(abs(v["g1"]) <= gm + 1e-9 and abs(v["g2"]) <= gm + 1e-9, "shear within its limits")
        if mode and "bg" in v:
            ctx.close(v["bg"], {"lo": -1, "hi": 1}[mode] * maxbg, 1e-9, "limits of the background")
        if mode and "x" in v:
            ctx.close((v["x"], v["y"]), np.array([xc, yc]) + {"lo": -1, "hi": 1}[mode] * dcen, 1e-9 * (1 + abs(xc) + abs(yc)), "centers about the given one")
        K = sersic_mix_twod.get_kernel(n, prior, scale=kw["kernel_scale"]) if prior != "dirichlet" else np.eye(n)
        ctx.close(np.diag(K), np.ones(n), 1e-9, "kernels have unit variance", prior=prior)
        ctx.close(K, K.T, 1e-9, "kernels are symmetric", prior=prior)
        ctx.check(np.linalg.eigvalsh(K).min() > -1e-8, "kernels are covariances", prior=prior, K=K)
        if prior == "exp-squared":
            i = np.arange(n)
            ctx.close(K, np.exp(-.5 * ((i[:, None] - i) / kw["kernel_scale"]) ** 2), 1e-9, "correlation of neighbouring amplitudes")
        ctx.count("model")
        ctx.sig("sersic_model", n, prior, free, dcen > 0, maxbg > 0, mode)


def hmc_tools(ctx, rng):
    mods()
    import matplotlib.pyplot as pl
    from forcepho.mixtures import psf_mix_hmc, utils_em, utils_hmc
    nx, ny = (int(v) for v in rng.integers(6, 14, 2))
    ypix, xpix = np.meshgrid(np.arange(ny), np.arange(nx))
    xpix, ypix = xpix.ravel(), ypix.ravel()
    truth = gauss2d(xpix, ypix, 1., (nx - 1) / 2, (ny - 1) / 2, 2., 3., .4)
    im = utils_hmc.Image(xpix, ypix, truth, .01, nx, ny, (nx - 1) / 2, (ny - 1) / 2)
    n, ns = int(rng.integers(2, 4)), int(rng.integers(2, 12))
    fakejax.State.rng, fakejax.State.mode = rng, None
    args = dict(image=im.data, xpix=im.xpix, ypix=im.ypix, ngauss=n, unc=im.unc, smax=np.full(n, 4.), rho_max=np.full(n, .4))
    best, samples, mcmc = utils_hmc.infer(psf_mix_hmc.psf_model, num_warmup=1, num_samples=ns, **args)
    k = int(np.argmin(mcmc.energy))
    ctx.equal(sorted(best), sorted(mcmc.samples), "parameters of the best sample")
    for p in best:
        ctx.equal(np.asarray(best[p]), mcmc.samples[p][k], "the best sample is the one of highest probability", p=p)
        ctx.equal(np.asarray(samples[p]), mcmc.samples[p], "samples are those of the chain")
    ctx.equal(len(mcmc.energy), ns, "number of samples")
    ctx.count("infer")
    # images
    sel = rng.random(len(xpix)) < .8
    sel[rng.integers(len(sel), size=3)] = True
    off = rng.integers(-3, 20, 2)
    v = rng.normal(size=sel.sum())
    xs, ys = xpix[sel] + off[0], ypix[sel] + off[1]
    fig, ax = pl.subplots()
    try:
        use = ax if rng.random() < .7 else None
        out, _ = utils_hmc.show_exp(xs, ys, v, ax=use)
        want = np.full((np.ptp(xs) + 1, np.ptp(ys) + 1), np.nan)
        want[xs - xs.min(), ys - ys.min()] = v
        ctx.equal(out, want, "image of pixel values")
        if use is not None:
            shown = ax.get_images()[0]
            ctx.equal(np.asarray(shown.get_array().filled(np.nan)), want.T, "displayed image")
            ctx.close(shown.get_extent(), [xs.min() - .5, xs.max() + .5, ys.min() - .5, ys.max() + .5], 1e-9, "extent of the displayed image")
        # ellipses
        b = {p: np.asarray(x) for p, x in best.items()}
        if rng.random() < .5:
            b["sy"] = rng.uniform(1, 4, n)
            b.pop("q")
        fp = np.array([rng.dirichlet(np.ones(n)), rng.uniform(2, 9, n), rng.uniform(2, 9, n), rng.uniform(1, 4, n), rng.uniform(1, 4, n), rng.uniform(-.8, .8, n)]).T
        for which in ("hmc", "em"):
            fig2, ax2 = pl.subplots()
            if which == "hmc":
                utils_hmc.draw_ellipses(b, ax2)
                sy = b["sy"] if "sy" in b else b["sx"] * b["q"]
                M = np.array([b["x"], b["y"]]).T
                C = np.array([[[s * s, r * s * t], [r * s * t, t * t]] for s, t, r in zip(b["sx"], sy, b["rho"])])
            else:
                got = utils_em.draw_ellipses(dict(fitted_params=fp.ravel().copy()), ax2)
                ctx.equal(np.asarray(got[1]), fp[:, 0], "amplitudes of the drawn ellipses")
                M = fp[:, [2, 1]]
                C = np.array([[[t * t, r * s * t], [r * s * t, s * s]] for s, t, r in fp[:, 3:]])
            es = [a for a in ax2.get_children() if type(a).__name__ == "Ellipse"]
            ctx.equal(len(es), n, "one ellipse per Gaussian")
            for j, e in enumerate(es):
                t = np.radians(e.angle)
                R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
                got = R @ np.diag([(e.width / 2) ** 2, (e.height / 2) ** 2]) @ R.T
                ctx.close(e.center, M[j], 1e-8, "center of an ellipse", which=which)
                ctx.close(got, C[j], 1e-7 * np.trace(C[j]), "an ellipse is the one-sigma contour of its Gaussian", which=which)
                ctx.count("ellipse")
            pl.close(fig2)
        model = truth * rng.uniform(.5, 1.5)
        f3, axes, (rr, eed, eem, dt) = utils_hmc.ee_plot(im, model, n=20)
        rad = np.hypot(xpix - im.cx, ypix - im.cy)
        ctx.close(eed, [truth[rad < r - 1e-9].sum() if i < 18 else truth[rad <= r + 1e-12].sum() for i, r in enumerate(rr[1:])], 1.0001 * truth.max() * 8, "enclosed flux grows with radius")
        ctx.close(np.asarray(eem), np.asarray(eed) * (model[0] / truth[0]), 1e-9, "enclosed flux of the model")
        ctx.close(dt, truth[rad < nx / 2].sum(), 1e-9, "flux within the image")
    finally:
        pl.close("all")
    ctx.sig("tools", n, nx == ny)


# ------------------------------------------------------------------ profiles
def smoothed(x, n, rh, s):
    al = gammaincinv(2 * n, .5)

    def f(r):
        return np.exp(-al * ((r / rh) ** (1 / n) - 1)) * r / s ** 2 * np.exp(-(r - x) ** 2 / 2 / s ** 2) * i0e(r * x / s ** 2)
    lo, hi = max(0, x - 10 * s), x + 10 * s
    e = np.unique(np.clip([lo, 1e-4 * s, 1e-2 * s, .1 * s, x - 2 * s, x, x + 2 * s, hi], lo, hi))
    return sum(quad(f, a, b, limit=200, epsabs=0, epsrel=1e-9)[0] for a, b in zip(e[:-1], e[1:]))


def profiles(ctx, rng):
    mods()
    from forcepho.mixtures import sersic_mix_oned as so
    for _ in range(3):
        n, rh = float(rng.uniform(.8, 5)), float(rng.uniform(.3, 5))
        al = gammaincinv(2 * n, .5)
        x = np.geomspace(.02, 4, 9) * rh
        I = np.exp(-al * ((x / rh) ** (1 / n) - 1))
        ctx.close(so.sersic_profile(x, n=n, rh=rh), I, 1e-9 * I, "Sersic profile", n=n, rh=rh)
        ctx.close(so.sersic_profile(np.array([rh]), n=n, rh=rh), [1], 1e-9, "unit intensity at the half-light radius")
        s = float(rng.uniform(.02, .25) * rh)
        xs = np.concatenate([rng.uniform(0.05, 4, 4) * s, rng.uniform(4, 4 * rh / s + 4, 2) * s])
        keep = xs.copy()
        v = so.sersic_profile(xs, n=n, rh=rh, sigma=s)
        ctx.equal(xs, keep, "radii are left alone")
        for j, r in enumerate(xs):
            w = smoothed(r, n, rh, s)
            ctx.close(v[j], w, (1e-4 if j < 4 else .5) * w, "smoothed profile is the convolution with a Gaussian", name="smooth%d" % (j < 4), n=n, rh=rh, s=s, r=r)
            ctx.count("profile")
        for fr in rng.uniform(.01, .99, 3):
            r = so.rfrac_from_halfn(fr, n=n, rh=rh)
            ctx.close(gammainc(2 * n, al * (r / rh) ** (1 / n)), fr, 1e-9, "radius that encloses a fraction of the flux", n=n)
        ctx.close(so.rfrac_from_halfn(.5, n=n, rh=rh), rh, 1e-9 * rh, "half of the flux is within the half-light radius")
        k = int(rng.integers(1, 5))
        A, R = rng.uniform(.1, 2, k), rng.uniform(.2, 3, k)
        if rng.random() < .3:
            R[0] = 0
        got = so.gauss_cfd(x, A, R)
        with np.errstate(divide="ignore"):
            want = sum(a * (1 - np.exp(-.5 * (x / r) ** 2)) if r > 0 else a for a, r in zip(A, R)) / A.sum()
        ctx.close(got, want, 1e-10, "flux of Gaussians within a radius")
        R = R + .1
        got = so.normal_oned(x, .3, A, R)
        want = sum(a / (r * np.sqrt(2 * np.pi)) * np.exp(-.5 * ((x - .3) / r) ** 2) for a, r in zip(A, R))
        ctx.close(got, want, 1e-10 * np.max(want), "sum of one-dimensional Gaussians")
    # fits
    for _ in range(2):
        n, rh = float(rng.choice([1, 2, 4, rng.uniform(1, 4)])), float(rng.uniform(.5, 3))
        s = float(rng.choice([0, rng.uniform(.02, .1) * rh]))
        x = np.geomspace(.05, 4, 50) * rh
        target = so.sersic_profile(x, n, rh, s)
        free = rng.random() < .3
        k = int(rng.integers(3, 7))
        lnr = None if free else np.linspace(np.log(.1 * rh), np.log(2.5 * rh), k)
        asm, arp = (float(rng.choice([0, 0, 1e-8])), float(rng.choice([0, 0, 1e-6])))
        with silent():
            res = so.fit_gaussians(nsersic=n, rh=rh, smoothing=s, radii=lnr, ncomp=k, x=x, asmooth=asm, arpenalty=arp)
            f, x1, t1, g = so.chisq(res.x, x=x, target=target, radii=lnr, smoothing=s, return_models=True)
        amp = np.exp(res.x[:k])
        disp = np.hypot(np.exp(res.x[k:] if free else lnr), s)
        with np.errstate(all="ignore"):
            want = sum(a / (2 * np.pi * d * d) * np.exp(-.5 * (x / d) ** 2) for a, d in zip(amp, disp) if a > 0)
        ctx.equal(len(res.x), 2 * k if free else k, "number of parameters of a profile mixture")
        ctx.close(g, want, 1e-8 * np.max(want), "profile of a mixture is the sum of its Gaussians")
        ctx.equal(np.asarray(t1), target, "target of a profile fit")
        w = x * target
        chi = np.sum(w * (want / target - 1) ** 2) / w.sum() * 1e-2
        ctx.close(f, chi, 1e-7 * chi + 1e-15, "chi-square of a profile fit")
        if not asm and not arp:
            ctx.close(res.fun, chi, 1e-7 * chi + 1e-15, "chi-square of the fit is that of its parameters")
        ctx.check(chi < 4e-3, "fitted Gaussians follow the profile", chi=chi, n=n, rh=rh, s=s, k=k, free=free)
        ctx.maximum("profile_chisq", chi)
        ctx.count("profile_fit")
        ctx.sig("profile_fit", k, free, s > 0, asm > 0, arp > 0)


def grids(ctx, rng):
    mods()
    import h5py
    from forcepho.mixtures import sersic_mix_oned as so
    rg, ng = np.sort(rng.uniform(.5, 2, int(rng.integers(1, 3)))), np.sort(rng.uniform(1, 4, int(rng.integers(1, 3))))
    s = float(rng.choice([0, rng.uniform(.01, .08)]))
    lnr = np.linspace(np.log(.08), np.log(3), int(rng.integers(4, 6)))
    x = np.geomspace(.03, 9, 50)
    root = os.path.join(ctx.tmp, "grid")
    with silent():
        fn = so.fit_profiles(outroot=root, rgrid=rg, ngrid=ng, lnradii=lnr.copy(), smoothing=s, x=x.copy())
    rad = np.exp(lnr) if s == 0 else np.insert(np.exp(lnr), 0, 0)
    with h5py.File(fn, "r") as h:
        f = {k: h[k][:].astype(float) for k in h}
        ctx.close(h.attrs["smoothing"], s, 0, "smoothing of the profiles")
    ctx.close(f["radii"], rad, 1e-6 * rad.max(), "dispersions of the profiles")
    ctx.close(f["x"], x, 1e-6 * 9, "radii of the profiles")
    pairs = [(a, b) for a in ng for b in rg]
    ctx.equal(f["amplitudes"].shape, (len(pairs), len(rad)), "amplitudes of the grid")
    use = x < 2 * rad.max()
    d = np.hypot(rad, s)
    for i, (n, rh) in enumerate(pairs):
        ctx.close((f["nsersic"][i], f["rh"][i]), (n, rh), 1e-5, "grid of profiles")
        ctx.close(f["amplitudes"][i].sum(), 1, 1e-5, "amplitudes of a profile sum to one")
        t = so.sersic_profile(x, n, rh, 0)
        ctx.close(f["truth"][i], t, 1e-5 * t, "profile of the grid")
        t = so.sersic_profile(x, n, rh, s)
        ctx.close(f["smooth_sersic"][i], t, 1e-5 * t, "smoothed profile of the grid")
        m = sum(a / (2 * np.pi * e * e) * np.exp(-.5 * (x / e) ** 2) for a, e in zip(f["amplitudes"][i], d))
        M = f["model"][i]
        tot = M[np.argmax(m)] / m.max()
        ctx.close(M, tot * m, 1e-4 * tot * m.max(), "stored model is the mixture of the stored amplitudes")
        w = (x * t)[use]
        chi = np.sum(w * (M[use] / t[use] - 1) ** 2) / w.sum() * 1e-2
        ctx.close(f["chisq"][i], chi, 1e-3 * chi + 1e-9, "stored chi-square is that of the stored model")
    with silent():
        so.amplitude_table(fn)
    rows = [np.array(ln.split(), float) for ln in open(fn.replace(".h5", ".tbl")) if ln.strip() and not ln.startswith("#")]
    ctx.equal(len(rows), len(pairs), "rows of the table")
    for i, (n, rh) in enumerate(pairs):
        ctx.close(rows[i][:2], (n, rh), (.0501, .00501), "profile of a row of the table")
        ctx.close(rows[i][2:], f["amplitudes"][i], 1e-3 * f["amplitudes"][i] + 1e-30, "amplitudes of a row of the table")
    ctx.count("grid")
    ctx.sig("grid", len(rg), len(ng), s > 0)


KINDS = (em_fits, awkward, ls_fits, psf_images, hmc_models, hmc_tools, profiles, grids)


def case(ctx, i):
    k = KINDS[i % len(KINDS)]
    ctx.desc = k.__name__
    for j in range({hmc_models: 6, ls_fits: 3, hmc_tools: 3, awkward: 4}.get(k, 1)):
        k(ctx, ctx.rng)

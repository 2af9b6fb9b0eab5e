"""C02: gradients of the compiled likelihood and of the posterior are derivatives of the reference model."""
import numpy as np

from checks.c01 import as_vector, fits_pixels, observe, perturb, world_for
from fpv import refmodel
from fpv.refmodel import EPS, PARAMS, dimage
from fpv.world import SHAPES, World, cpu_patch

PROPERTY = "C02"
NEEDS_KERNEL = True
CASES = {"quick": 96, "thorough": 3000}
RULE = ("The random worlds of C01; at perturbed parameter vectors every one of the 7 derivatives of (up to 4 of) the sources in every band is compared "
        "with the derivative of the float64 chi-square (4th order differences of the float64 model), then the stacked posterior gradient with and "
        "without bounded transform, prior and sampling flag is compared with the chain rule applied to the reference gradients. Signature = (parameter, #bands, #exposures, WCS kinds, posterior mode), "
        "non-trivial when the derivative exceeds 20 times its tolerance.")
ASSUMPTIONS = ["float32 tolerance model of fpv/refmodel.py", "scipy splines and astropy WCS trusted", "C++ kernel only (no GPU)"]
MIN = {"derivatives_compared": 2000, "derivatives_significant": 800, "posterior_gradients": 50}


def ref_gradients(ctx, w, ref, patch, cat, anchors, srcs, G=None):
    """want[band, source, 7], tol[band, source, 7] for the chi2 derivatives of the chosen sources."""
    nb = len(patch.bandlist)
    want = np.zeros((nb, len(srcs), 7))
    tol = np.full((nb, len(srcs), 7), 1e-30)
    bypath = {e["path"]: e for e in w.exps}
    xs, ys = patch.split_pix("xpix"), patch.split_pix("ypix")
    for k, path in enumerate(patch.epaths):
        e = bypath[str(path)]
        b = list(patch.bandlist).index(e["band"])
        use = (xs[k] >= 0) & (ys[k] >= 0)
        x, y = xs[k][use].astype(int), ys[k][use].astype(int)
        d, ie = fits_pixels(e, x, y)
        good = ie > 0
        x, y, d, ie = x[good], y[good], d[good], ie[good]
        g = 1.0 if G is None else float(G[k])
        model, mt = ref.image(e, cat, x, y, anchors=anchors, G=g)
        r = d - model
        rt = 20 * mt + 20 * EPS * (np.abs(d) + np.abs(model))
        for j, i in enumerate(srcs):
            for ip, p in enumerate(PARAMS):
                dM, dt = dimage(ref, e, cat, i, p, x, y, anchors, w.scale, G=g)
                want[b, j, ip] += np.sum(-2 * ie ** 2 * r * dM)
                tol[b, j, ip] += np.sum(2 * ie ** 2 * (np.abs(r) * (20 * dt + 1e-4 * np.abs(dM)) + rt * np.abs(dM)))
    return want, tol


def case(ctx, i):
    rng = ctx.rng
    w = world_for(ctx, i)
    observe(ctx, w, 0.6, 0.3, 1.7)
    ref = refmodel.Ref(w)
    anchors = w.cat.copy()
    cat = perturb(rng, w, w.cat) if rng.random() < 0.8 else w.cat
    nmax = 4 if len(w.exps) < 8 else 2
    srcs = list(rng.permutation(len(cat))[:nmax])
    patch = cpu_patch(w, sourcecat=None)
    mode = ["identity", "bounded", "bounded_nosampling", "prior", "bounded_prior"][i % 5]
    nb, ns = len(w.bands), len(cat)
    npar = nb + 6
    c = rng.normal(size=ns * npar)

    def lnprior(q):
        return float(-0.5 * np.sum((q - c) ** 2) * 0.7), -0.7 * (q - c)

    kw = {}
    if "prior" in mode:
        kw["lnprior"] = lnprior
    if mode == "bounded_nosampling":
        kw["sampling"] = False
    bounds = None
    bounded = mode.startswith("bounded")
    if bounded:
        # a bounds catalog as the scene server hands it out: absolute coordinates
        bdt = np.dtype([(n, float, (2,)) for n in SHAPES + list(w.bands)])
        bounds = np.zeros(ns, dtype=bdt)
        for n in bdt.names:
            lo = np.minimum(w.cat[n], cat[n])
            hi = np.maximum(w.cat[n], cat[n])
            pad = 0.3 * (hi - lo) + (1e-5 if n in ("ra", "dec") else 0.05)
            bounds[n][:, 0] = lo - pad * rng.uniform(0.5, 2, ns)
            bounds[n][:, 1] = hi + pad * rng.uniform(0.5, 2, ns)
    model, q0 = patch.prepare_model(active=w.cat, bounds=bounds, model_kwargs=kw)
    zero = patch.patch_reference_coordinates
    q = as_vector(cat, patch.bandlist, zero)
    want, tol = ref_gradients(ctx, w, ref, patch, cat, anchors, srcs)
    # --- raw kernel derivatives
    model.scene.set_all_source_params(q)
    chi2, derivs = model.proposer.evaluate_proposal(model.scene.get_proposal(), patch=patch)[:2]
    derivs = np.asarray(derivs, float)
    ctx.check(derivs.shape == (nb, ns, 7), "shape of the derivatives", got=derivs.shape)
    ctx.close(derivs[:, srcs, :], want, tol, "derivative of chi-square differs", name="dchi2", params=PARAMS, sources=srcs)
    ctx.count("derivatives_compared", want.size)
    sigf = np.abs(want) > 20 * tol
    ctx.count("derivatives_significant", sigf.sum())
    kinds = "".join(sorted(set(e["kind"][0] for e in w.exps)))
    for ip, p in enumerate(PARAMS):
        if sigf[:, :, ip].any():
            ctx.sig(p, nb, len(w.exps), kinds, mode)
    # --- posterior gradient in sampling coordinates
    g = np.zeros((len(srcs), npar))
    gt = np.zeros((len(srcs), npar))
    for b in range(nb):
        g[:, b] = -0.5 * want[b, :, 0]
        gt[:, b] = 0.5 * tol[b, :, 0]
    g[:, nb:] = -0.5 * want[:, :, 1:].sum(axis=0)
    gt[:, nb:] = 0.5 * tol[:, :, 1:].sum(axis=0)
    qs = q.reshape(ns, npar)[srcs]
    if "prior" in mode:
        g += -0.7 * (qs - c.reshape(ns, npar)[srcs])
    if bounded:
        cols = list(patch.bandlist) + SHAPES
        lo = np.array([bounds[n][:, 0] for n in cols]).T.copy()
        hi = np.array([bounds[n][:, 1] for n in cols]).T.copy()
        lo[:, nb] -= zero[0]; hi[:, nb] -= zero[0]
        lo[:, nb + 1] -= zero[1]; hi[:, nb + 1] -= zero[1]
        y = (q.reshape(ns, npar) - lo) / (hi - lo)
        z = np.log(y / (1 - y))
        jac = (hi - lo) * y * (1 - y)
        gz = g * jac[srcs]
        gzt = gt * jac[srcs]
        if mode != "bounded_nosampling":
            gz = gz + (1 - 2 * y[srcs])
        zin = z.reshape(-1)
    else:
        gz, gzt, zin = g, gt, q
    lnp, grad = model.lnprob_and_grad(zin)
    grad2 = model.lnprob_grad(zin.copy())
    nll, ngrad = model.nll(zin.copy())
    ctx.check(np.shape(grad) == (ns * npar,), "shape of the posterior gradient", got=np.shape(grad))
    scale = np.abs(gz)
    ctx.close(np.asarray(grad).reshape(ns, npar)[srcs], gz, 1.5 * gzt + 1e-5 * scale + 1e-7 * (1 + np.abs(gz).max()) * 1e-3, "posterior gradient differs (%s)" % mode,
              name="grad_" + mode, cols=list(patch.bandlist) + SHAPES)
    ctx.equal(grad, grad2, "gradient differs between interfaces")
    ctx.close(ngrad, -np.asarray(grad), 0, "gradient of the negative log-probability")
    ctx.count("posterior_gradients")
    ctx.sample(world=w.describe(), mode=mode, grad=np.asarray(grad)[:8], want=gz.reshape(-1)[:8])

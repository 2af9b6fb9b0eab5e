"""C18: fits stay inside their bounds, report what they evaluated, are reproducible and never lose ground."""
import argparse

import numpy as np
from scipy.spatial import cKDTree
from scipy.stats import truncnorm

from checks.c01 import as_vector, perturb
from checks.c14 import logistic
from fpv.world import SHAPES, World, cpu_patch

PROPERTY = "C18"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: log of every evaluated point and its log-probability, checked offline against chains, statistics, optima and catalogs"
RULE = ("distinct (kind of fit, posterior, bounded, covariance and adaptation options, tuning kept, jacobian used, linear step, barriers) combinations in "
        "which draws were matched to logged evaluations")
ASSUMPTIONS = ["starting values are strictly inside their bounds", "littlemcmc, scipy and dynesty do what they document",
               "moments of chains are compared only for well-conditioned targets, with tolerances of several Monte-Carlo errors"]
CASES = {"quick": 260, "thorough": 4000}
MIN = {"draws_matched": 2000, "optima": 50, "pipelines": 20, "moment_tests": 15, "events": 20000, "repeats": 40}


class Log:
    """Everything a posterior was asked, with what it answered."""

    def __init__(self, model):
        self.z, self.lnp, self.q = [], [], []
        inner = model.evaluate

        def evaluate(z):
            inner(z)
            self.z.append(np.array(z, float))
            self.lnp.append(float(model._lnp))
            self.q.append(np.array(model._q, float))
        model.evaluate = evaluate


def gauss_model(rng, n, bounded, ln=None):
    """A separable normal likelihood, its bounds, and the exact truncated moments."""
    from forcepho.model import BoundedTransform, SlowPosterior, Transform
    s = 10 ** rng.uniform(-2, 2, n)
    mu = rng.normal(0, 3, n) * s
    lo = mu - s * rng.uniform(0.3, 4, n)
    hi = mu + s * rng.uniform(0.3, 4, n)
    if bounded:
        flat = rng.random(n) < 0.25       # nearly uniform in the box
        w = np.where(flat, 30 * (hi - lo), s)
        off = rng.random(n) < 0.25        # maximum outside of the bounds
        mu = np.where(off, hi + 0.5 * s, mu)
    else:
        w = s

    def like(q, scene=None, plans=None):
        return -0.5 * np.sum(((q - mu) / w) ** 2), -(q - mu) / w ** 2
    tr = BoundedTransform(lo, hi) if bounded else None if rng.random() < 0.5 else Transform(n)
    return (lambda: SlowPosterior(lnlike=like, transform=tr)), like, lo, hi, mu, w


def match(ctx, log, chain, logp, scale, what):
    """Every row of the chain is a point that was evaluated, with the log-probability it had."""
    Q, L = np.array(log.q) / scale, np.array(log.lnp)
    tree = cKDTree(Q)
    for row, lp in zip(chain / scale, logp):
        k = tree.query_ball_point(row, 1e-9 * (1 + np.max(np.abs(row))))
        ctx.check(len(k) > 0, "%s: a returned point was never evaluated" % what, row=row * scale)
        ctx.check(np.min(np.abs(L[k] - lp)) <= 1e-7 * (1 + abs(lp)), "%s: log-probability is not that of the point" % what, got=float(lp), evaluated=L[k][:3])
        ctx.count("draws_matched")


def mass_matrix(ctx, step, q, lo, hi, bounded, tuning, cov, trace, weight, full):
    """The mass matrix at the end: the covariance given, updated with the tuning draws."""
    from littlemcmc import QuadPotentialDiagAdapt, QuadPotentialFullAdapt
    y = (np.vstack([q[None, :], tuning]) - lo) / (hi - lo) if bounded else np.full((1, 1), 0.5)
    if np.any(y < 1e-4) or np.any(y > 1 - 1e-4):
        return
    z = np.log(y / (1 - y)) if bounded else np.vstack([q[None, :], tuning])
    mean = z[0]
    if cov is None:
        cov = np.eye(len(q))
        if trace is not None:
            cov, mean = np.cov(trace, rowvar=True), trace.mean(axis=1)
    pot = QuadPotentialFullAdapt(len(q), mean, np.array(cov, float), weight) if full else QuadPotentialDiagAdapt(len(q), mean, np.diag(cov).copy(), weight)
    for x in z[1:]:
        pot.update(x, None, True)
    a, b = [np.asarray(p._cov if full else p._var, float) for p in (step.potential, pot)]
    if full and len(tuning) and weight < 2:
        return
    ctx.close(a, b, 1e-3 * np.abs(b).max(), "mass matrix is not the covariance given, updated with the tuning draws", weight=weight, tuning=len(tuning), name="mass_matrix")
    ctx.count("mass_matrices")


def case_sample(ctx, stat):
    from forcepho.fitting import run_lmc
    rng = ctx.rng
    n = int(rng.integers(1, 4)) if stat else int(rng.integers(1, 12))
    bounded = bool(rng.random() < 0.7)
    make, like, lo, hi, mu, w = gauss_model(rng, n, bounded)
    model = make()
    log = Log(model)
    q = (lo + hi) / 2 if stat else rng.uniform(lo + 1e-6 * (hi - lo), hi - 1e-6 * (hi - lo))
    draws = 1500 if stat else int(rng.choice([1, 2, 7, 30]))
    tune = 400 if stat else int(rng.choice([0, 1, 5, 40, 40, 260]))
    warmup = [tune] + [5] * int(rng.integers(0, 3))
    keep = bool(rng.integers(2)) and not stat
    opts = dict(adapt=bool(rng.integers(2)), full=bool(rng.integers(2)), discard_tuned_samples=not keep)
    if rng.random() < 0.6:
        opts["random_seed"] = int(rng.integers(0, 2 ** 31)) if rng.random() < 0.7 else 0
    if rng.random() < 0.5:
        opts["weight"] = int(rng.choice([1, 3, 10, 40]))
    zsd = 1.0 if bounded else w
    cov = str(rng.choice(["none", "diag", "full"] + ([] if stat else ["singular", "trace"])))
    z_cov = trace = None
    if cov == "diag" or (stat and not bounded):
        z_cov = np.diag((zsd * np.ones(n) * rng.uniform(0.7, 1.4, n)) ** 2)
    elif cov == "full":
        a = rng.normal(0, 0.2, (n, n)) + np.eye(n)
        z_cov = (a @ a.T) * np.outer(zsd * np.ones(n), zsd * np.ones(n))
    elif cov == "singular":
        z_cov = np.ones((n, n))
    elif cov == "trace":
        trace = rng.normal(0, 1, (n, 50)) if n > 1 else None
    if trace is not None:
        opts["trace"] = trace
    given = q.copy(), None if z_cov is None else z_cov.copy(), list(warmup)
    ctx.desc = dict(n=n, bounded=bounded, draws=draws, warmup=warmup, cov=cov, **{k: v for k, v in opts.items() if k != "trace"})
    rs = np.random.get_state()
    out, step, stats = run_lmc(model, q, n_draws=draws, warmup=warmup, z_cov=z_cov, **opts)
    total = draws + (tune if keep else 0)
    ctx.check(out.chain.shape == (total, n), "shape of the chain", got=out.chain.shape, want=(total, n))
    ctx.check(len(stats) == total, "one set of statistics per draw")
    ctx.equal(q, given[0], "the starting position passed in is changed")
    if z_cov is not None:
        ctx.equal(z_cov, given[1], "the covariance passed in is changed")
    ctx.check(warmup == given[2], "the warm-up schedule passed in is changed")
    ctx.equal(out.starting_position, given[0], "reported starting position")
    ctx.check(out.ndim == n, "reported number of parameters")
    ctx.check(np.all(np.isfinite(out.chain)), "chain not finite")
    if bounded:
        ctx.check(np.all((out.chain >= lo) & (out.chain <= hi)), "a draw is outside of the bounds")
    logp = np.array([s["model_logp"] for s in stats], float)
    match(ctx, log, out.chain, logp, hi - lo, "sampling")
    ctx.check(np.sum([bool(s["tune"]) for s in stats]) == (tune if keep else 0), "number of tuning draws among the statistics")
    ctx.check(out.n_call == model.ncall, "reported number of calls", got=out.n_call, want=model.ncall)
    ctx.check(out.n_call >= len(log.z) and out.wall_time >= 0, "reported number of calls or time")
    # the log-probabilities are those of the target itself
    for k in range(0, total, max(1, total // 10)):
        if bounded:
            y = (out.chain[k] - lo) / (hi - lo)
            if np.any(y < 1e-9) or np.any(y > 1 - 1e-9):
                continue
            ld = np.sum(np.log((hi - lo) * y * (1 - y)))
        else:
            ld = 0.0
        want = like(out.chain[k])[0] + ld
        ctx.close(logp[k], want, 1e-6 * (1 + abs(want)), "log-probability of a draw", name="logp")
    if (keep or not tune) and cov != "singular":
        mass_matrix(ctx, step, given[0], lo, hi, bounded, out.chain[:tune], given[1], trace, opts.get("weight", 10), opts["full"])
    ctx.count("events", len(log.z))
    ctx.sig("sample", bounded, cov, opts["adapt"], opts["full"], keep, tune > 0, min(draws, 2), n > 1, stat)
    if stat:
        x = out.chain
        if bounded:
            a, b = (lo - mu) / w, (hi - mu) / w
            d = truncnorm(a, b, loc=mu, scale=w)
            m, v = d.mean(), d.var()
        else:
            m, v = mu, w ** 2
        ctx.close(x.mean(axis=0), m, 0.3 * np.sqrt(v), "mean of the draws is not that of the posterior", name="mean")
        r = np.log(x.var(axis=0) / v)
        ctx.close(r, 0, 0.6, "variance of the draws is not that of the posterior", name="variance")
        ctx.count("moment_tests", n)
    else:
        # same inputs and seed: same answer, whatever the state of the global generator
        np.random.seed(int(rng.integers(2 ** 31)))
        out2, _, stats2 = run_lmc(make(), q, n_draws=draws, warmup=warmup, z_cov=z_cov, **opts)
        ctx.equal(out2.chain, out.chain, "a repeated run differs")
        ctx.equal(np.array([s["model_logp"] for s in stats2], float), logp, "a repeated run has other statistics")
        ctx.count("repeats")
        if draws >= 7 and np.ptp(out.chain, axis=0).max() > 0:
            o = dict(opts, random_seed=opts.get("random_seed", 0) ^ 0x55AA)
            out3, _, _ = run_lmc(make(), q, n_draws=draws, warmup=warmup, z_cov=z_cov, **o)
            ctx.check(not np.array_equal(out3.chain, out.chain) or np.ptp(out3.chain, axis=0).max() == 0, "the random seed is ignored")
            if opts.get("random_seed") == 0:
                o = {k: v for k, v in opts.items() if k != "random_seed"}
                out3, _, _ = run_lmc(make(), q, n_draws=draws, warmup=warmup, z_cov=z_cov, **o)
                ctx.check(not np.array_equal(out3.chain, out.chain) or np.ptp(out3.chain, axis=0).max() == 0, "a random seed of zero is ignored")
    np.random.set_state(rs)
    ctx.sample(n=n, draws=draws, evaluations=len(log.z))


def case_opt(ctx):
    from forcepho import fitting
    rng = ctx.rng
    n = int(rng.integers(1, 10))
    bounded = bool(rng.random() < 0.7)
    make, like, lo, hi, mu, w = gauss_model(rng, n, bounded)
    model = make()
    model.ndof = float(rng.choice([1.0, 1.0, 5.0, 1e4]))
    log = Log(model)
    q = rng.uniform(lo + 0.01 * (hi - lo), hi - 0.01 * (hi - lo))
    jac = bool(rng.random() < 0.7)
    # the bounded version passes on options that only some versions of scipy accept
    name = "run_opt" if rng.random() < 0.75 or (not bounded and model.transform is not None) else "run_opt_bounded"
    kw = dict(gtol=float(10 ** rng.uniform(-8, -1))) if rng.random() < 0.5 else {}
    if name == "run_opt_bounded":
        kw.update(disp=False, iprint=-1)
        if model.transform is None and rng.random() < 0.8:
            kw["bounds"] = list(zip(lo, hi))
    if rng.random() < 0.2:
        kw["maxiter"] = int(rng.choice([0, 1, 2]))
    seen = []
    if rng.random() < 0.3:
        kw["callback"] = lambda z: seen.append(np.array(z))
    ctx.desc = dict(n=n, bounded=bounded, jac=jac, name=name, ndof=model.ndof)
    q0 = q.copy()
    z0 = model.transform.inverse_transform(q) if model.transform is not None else q.copy()
    start = float(model.lnprob(z0))
    out, scires = getattr(fitting, name)(model, q, jac=jac, **kw)
    ctx.equal(q, q0, "the starting position passed in is changed")
    ctx.equal(out.starting_position, q0, "reported starting position")
    ctx.check(out.chain.shape == (1, n) and out.ndim == n, "shape of the optimum")
    if bounded or "bounds" in kw:
        ctx.check(np.all((out.chain >= lo) & (out.chain <= hi)), "the optimum is outside of the bounds")
    if kw.get("maxiter") == 0 and name == "run_opt":
        ctx.close(out.chain[0], q0, 1e-9 * (hi - lo) + 1e-12 * np.abs(q0), "an optimisation without a step does not stay at its start")
    match(ctx, log, out.chain, [out.lnp], hi - lo, "optimisation")
    ctx.check(out.lnp >= start - 1e-9 * (1 + abs(start)), "the optimum is worse than the start", start=start, got=float(out.lnp))
    ctx.close(out.fun, -out.lnp / model.ndof, 1e-9 * (1 + abs(out.lnp)), "reported objective")
    ctx.check(np.shape(out.jac) == (n,), "gradient at the optimum")
    if jac and model.ndof == 1.0 and not kw and name == "run_opt" and scires.success:
        zf = model.transform.inverse_transform(out.chain[0]) if model.transform is not None else out.chain[0]
        g = make().lnprob_grad(zf)
        ctx.close(g, 0, 1e-3, "the gradient does not vanish at the optimum of a run that reports success")
    out2, _ = getattr(fitting, name)(make_like(make, model), q, jac=jac, **{k: v for k, v in kw.items() if k != "callback"})
    ctx.equal(out2.chain, out.chain, "a repeated optimisation differs")
    ctx.count("repeats")
    ctx.count("optima")
    ctx.count("events", len(log.z))
    ctx.sig("opt", name, bounded, jac, model.ndof == 1, bool(kw))


def make_like(make, model):
    m = make()
    m.ndof = model.ndof
    return m


def make_bounds(rng, w, cat, bands):
    dt = np.dtype([("source_index", "<i4")] + [(c, "<f8", (2,)) for c in list(bands) + SHAPES])
    b = np.zeros(len(cat), dtype=dt)
    b["source_index"] = cat["source_index"]
    for j, c in enumerate(cat):
        for f in bands:
            d = abs(c[f]) * rng.uniform(0.2, 1.0) + 0.1
            b[f][j] = c[f] - d, c[f] + d * rng.uniform(0.5, 1.5)
        dp = w.scale / 3600.0
        b["ra"][j] = c["ra"] - dp, c["ra"] + dp * 1.1
        b["dec"][j] = c["dec"] - dp * 0.9, c["dec"] + dp
        b["q"][j] = 0.3, 1.05
        b["pa"][j] = c["pa"] - 0.8, c["pa"] + 0.7
        b["sersic"][j] = w.srange
        b["rhalf"][j] = w.rrange
    return b


def patch_problem(ctx, n_src=None):
    from forcepho.region import CircularRegion
    rng = ctx.rng
    cen = [(53.1625, -27.79), (187.7, 62.2), (150.1, 0.01)][int(rng.integers(3))]
    w = World(rng, ctx.tmp, n_bands=int(rng.integers(1, 4)), n_exp=int(rng.integers(1, 3)), n_src=n_src or int(rng.integers(2, 6)), size=14,
              center=cen, extreme=False, negative=0.0)
    # away from the edges of the allowed shapes
    for c, r in (("sersic", w.srange), ("rhalf", w.rrange)):
        w.cat[c] = np.clip(w.cat[c], r[0] + 0.05 * np.ptp(r), r[1] - 0.05 * np.ptp(r))
    w.add_model()
    w.write(rng)
    region = CircularRegion(w.center[0], w.center[1], 3.0 * w.half / 3600.0)
    ids = rng.permutation(1000)[:len(w.cat)]
    w.cat["source_index"] = ids
    na = int(rng.integers(1, len(w.cat) + 1))
    active, fixed = w.cat[:na].copy(), w.cat[na:].copy()
    if len(fixed) == 0:
        fixed = None
    bounds = make_bounds(rng, w, active, w.bands)
    return w, region, active, fixed, bounds


class JointTruth:
    """log-likelihood of active and fixed sources together, from a patch of its own."""

    def __init__(self, w, region, active, fixed):
        self.fixed = fixed
        full = active if fixed is None else np.concatenate([active, fixed])
        self.patch = cpu_patch(w, region=region, sourcecat=None)
        self.scene = self.patch.set_scene(full)
        self.patch.pack_meta(self.scene)
        self.patch.return_residual = True
        self.patch.send_to_device()
        self.prop = self.patch.get_proposer()

        blank = active.copy()
        for b in self.patch.bandlist:
            blank[b] = 0.0
        self.d, self.w = np.concatenate(self.patch.split_pix("data")).astype(float), np.concatenate(self.patch.split_pix("ierr")).astype(float)
        # what is left for the active sources to explain
        self.left = self.residual(blank)

    def residual(self, active):
        full = active if self.fixed is None else np.concatenate([active, self.fixed])
        q = as_vector(full, self.patch.bandlist, self.patch.patch_reference_coordinates)
        self.scene.set_all_source_params(q)
        _, _, res = self.prop.evaluate_proposal(self.scene.get_proposal(), patch=self.patch)
        return np.concatenate([np.asarray(x, float) for x in res])

    def __call__(self, active):
        """Log-likelihood relative to no active sources at all (the constant the code uses), and its float32 uncertainty."""
        r, g = self.residual(active), self.w > 0
        r, d, left, w = r[g], self.d[g], self.left[g], self.w[g]
        err = 2 ** -23 * 16 * (np.abs(d) + np.abs(left) + np.abs(r)) * w
        tol = np.sum((np.abs(r * w) + np.abs(left * w)) * err) + np.sum(err ** 2) + 1e-3
        tol += 1e-5 * np.sum((r * w) ** 2 + (left * w) ** 2)
        return -0.5 * np.sum((r * w) ** 2 - (left * w) ** 2), 0.05 * tol


def catalog_of(active, bandlist, ref, q):
    """Catalog for a parameter vector, by position."""
    cat = active.copy()
    n = len(bandlist) + 6
    for j in range(len(cat)):
        for k, c in enumerate(list(bandlist) + SHAPES):
            cat[c][j] = q[j * n + k] + (ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0)
    return cat


def same_catalog(ctx, got, want, what):
    ctx.check(got.dtype.names == want.dtype.names, what + ": columns")
    for c in want.dtype.names:
        ctx.close(got[c], want[c], 1e-9 * (1e-3 + np.abs(want[c])) if want[c].dtype.kind == "f" else 0, "%s: column %s" % (what, c))


def block_check(ctx, out, covs, step, model, n, na):
    pot = step.potential
    full = np.array(pot._cov) if hasattr(pot, "_cov") else np.diag(pot._var)
    ctx.close(out.cov, full, 1e-12 * np.abs(full).max(), "covariance stored in the result")
    ctx.check(np.shape(covs) == (na, n, n), "shape of the covariance blocks", got=np.shape(covs), want=(na, n, n))
    for k in range(na):
        ctx.equal(np.asarray(covs)[k], np.asarray(out.cov)[k * n:(k + 1) * n, k * n:(k + 1) * n], "covariance block of a source")


def case_patch_sample(ctx):
    """prepare_model + run_lmc + Result.fill, as in the demonstrations."""
    from forcepho.fitting import run_lmc
    rng = ctx.rng
    w, region, active, fixed, bounds = patch_problem(ctx)
    patch = cpu_patch(w, region=region, sourcecat=None)
    model, q = patch.prepare_model(active=active, fixed=fixed, bounds=bounds)
    ref = np.array(patch.patch_reference_coordinates)
    truth = JointTruth(w, region, active, fixed)
    log = Log(model)
    draws, tune, keep, full = int(rng.integers(1, 12)), int(rng.integers(0, 12)), bool(rng.integers(2)), bool(rng.integers(2))
    ctx.desc = dict(world=w.describe(), draws=draws, tune=tune, keep=keep, full=full, n_active=len(active))
    ctx.close(q, as_vector(active, patch.bandlist, ref), 1e-12, "starting vector")
    out, step, stats = run_lmc(model, q.copy(), n_draws=draws, warmup=[tune], full=full, discard_tuned_samples=not keep, max_treedepth=5)
    a0, f0, b0 = active.copy(), None if fixed is None else fixed.copy(), bounds.copy()
    final, covs = out.fill(region, active, fixed, model, bounds=bounds, step=step, stats=stats, patchID=7)
    total = draws + (tune if keep else 0)
    ctx.check(out.chain.shape == (total, len(q)), "shape of the chain")
    n = len(patch.bandlist) + 6
    lo, hi = np.empty(len(q)), np.empty(len(q))
    for j in range(len(active)):
        for k, c in enumerate(list(patch.bandlist) + SHAPES):
            z = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
            lo[j * n + k], hi[j * n + k] = bounds[c][j] - z
    eps = 1e-9 * (hi - lo) + 1e-13
    ctx.check(np.all((out.chain >= lo - eps) & (out.chain <= hi + eps)), "a draw is outside of the bounds")
    logp = np.array([s["model_logp"] for s in stats], float)
    match(ctx, log, out.chain, logp, hi - lo, "patch sampling")
    ctx.equal(np.asarray(out.stats["model_logp"], float), logp, "log-probabilities stored in the result")
    ctx.check(out.n_tune == (tune if keep else 0) and out.n_sample == draws, "numbers of draws in the result", tune=int(out.n_tune), sample=int(out.n_sample))
    # independent log-likelihood and catalogs
    for k in sorted(set([0, total - 1, int(rng.integers(total))])):
        cat = catalog_of(active, patch.bandlist, ref, out.chain[k])
        ll, tol = truth(cat)
        y = (out.chain[k] - lo) / (hi - lo)
        if np.all((y > 1e-6) & (y < 1 - 1e-6)):
            ld = np.sum(np.log((hi - lo) * y * (1 - y)))
            ctx.close(logp[k], ll + ld, tol + 1e-4 * len(q), "log-probability of a draw against an independent patch", name="patch_logp")
        same_catalog(ctx, out.get_sample_cat(k), cat, "catalog of a draw")
    same_catalog(ctx, final, catalog_of(active, patch.bandlist, ref, out.chain[-1]), "final catalog")
    best = int(np.argmax(logp))
    ctx.equal(np.asarray(out.get_map()).reshape(-1), out.chain[best], "highest probability draw")
    same_catalog(ctx, out.get_map(structured=True), catalog_of(active, patch.bandlist, ref, out.chain[best]), "catalog of the highest probability draw")
    block_check(ctx, out, covs, step, model, n, len(active))
    ctx.check(out.patchID == 7 and out.npix == patch.npix and out.nexp == len(patch.epaths), "header of the result")
    ctx.check([b.decode() if isinstance(b, bytes) else str(b) for b in out.bandlist] == [str(b) for b in patch.bandlist], "bands of the result")
    ctx.check(out.n_call == model.ncall, "number of calls in the result")
    for a, b, nm in ((active, a0, "active"), (fixed, f0, "fixed"), (bounds, b0, "bounds")):
        if b is not None:
            ctx.check(a.tobytes() == b.tobytes(), "filling the result changes the %s catalog" % nm)
    ctx.equal(out.active, a0, "active sources stored in the result")
    ctx.check((out.fixed is None) == (fixed is None), "fixed sources stored in the result")
    ctx.count("events", len(log.z))
    ctx.sig("patch", full, keep, fixed is None, len(patch.bandlist), len(active))


def case_pipeline(ctx):
    """tasks.optimize followed by tasks.sample."""
    from forcepho import tasks
    from forcepho.utils import Logger
    rng = ctx.rng
    w, region, active, fixed, bounds = patch_problem(ctx)
    cfg = argparse.Namespace(bands=list(w.allbands), add_barriers=bool(rng.integers(2)), gtol=float(10 ** rng.uniform(-2, 0)), linear_optimize=bool(rng.integers(2)),
                             flux_prior_expansion=float(rng.choice([1.0, 5.0])), sampling_draws=int(rng.integers(1, 6)), warmup=[int(rng.integers(1, 6))],
                             max_treedepth=4, progressbar=False)
    patch = cpu_patch(w, build=False)
    pad = argparse.Namespace()
    a0, f0, b0 = active.copy(), None if fixed is None else fixed.copy(), bounds.copy()
    rs = np.random.get_state()
    np.random.seed(int(rng.integers(2 ** 31)))
    ctx.desc = dict(world=w.describe(), n_active=len(active), **{k: v for k, v in vars(cfg).items() if k != "bands"})
    (out, step, stats), scene, model = tasks.optimize(patch, (region, active, fixed, bounds), cfg, Logger("x"), scratchpad=pad)
    np.random.set_state(rs)
    ref = np.median(a0["ra"]), np.median(a0["dec"])
    bl = list(patch.bandlist)
    n = len(bl) + 6
    truth = JointTruth(w, region, a0, f0)

    def prior(q):
        if not cfg.add_barriers:
            return 0.0
        x = (q - model.transform.lower) / (model.transform.upper - model.transform.lower)
        return -np.sum((x * (1 - x)) ** -0.9)
    lo, hi = np.empty(len(out.chain[0])), np.empty(len(out.chain[0]))
    for j in range(len(a0)):
        for k, c in enumerate(bl + SHAPES):
            z = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
            lo[j * n + k], hi[j * n + k] = b0[c][j] - z
    eps = 1e-9 * (hi - lo) + 1e-13
    ctx.close(pad.q_initial, as_vector(a0, bl, ref), 1e-11, "initial vector")
    for nm, v in (("start", pad.q_start), ("optimum", out.chain[0])):
        ctx.check(np.all((v >= lo - eps) & (v <= hi + eps)), "the %s is outside of the bounds" % nm)
    ctx.equal(out.starting_position, pad.q_start, "starting position of the optimisation")
    best = catalog_of(a0, bl, ref, out.chain[0])
    ls, ts = truth(catalog_of(a0, bl, ref, pad.q_start))
    lb, tb = truth(best)
    y = (out.chain[0] - lo) / (hi - lo)
    ctx.check(lb + prior(out.chain[0]) >= ls + prior(pad.q_start) - ts - tb, "the optimum is worse than the start", start=ls, end=lb)
    if np.all((y > 1e-6) & (y < 1 - 1e-6)):
        pb = prior(out.chain[0])
        ctx.close(out.lnp, lb + pb, tb + 1e-4 * abs(pb), "log-probability reported for the optimum", name="opt_lnp")
        ctx.count("optima")
    ctx.check(bool(model.sampling) and model._lnpriorfn is None, "the model is not ready for sampling after optimisation")
    same_catalog(ctx, pad.active_postop, best, "catalog after optimisation")
    region2, active2, fixed2, bounds2 = scene
    ctx.check(active.tobytes() == a0.tobytes(), "optimisation changes the catalog it is given")
    if fixed is not None:
        ctx.check(fixed2.tobytes() == f0.tobytes(), "optimisation changes the fixed sources")
    if cfg.linear_optimize:
        want = best.copy()
        for b in bl:
            want[b] = active2[b]
            ctx.check(np.all(np.isfinite(active2[b])) and np.all((bounds2[b][:, 0] <= active2[b]) & (active2[b] <= bounds2[b][:, 1])), "flux bounds exclude the flux they were made for", band=b)
        same_catalog(ctx, active2, want, "catalog after the linear step")
        for i, b in enumerate(bl):
            sig = np.maximum(np.sqrt(np.diag(np.linalg.pinv(np.asarray(pad.precision_matrices[i])))), np.abs(active2[b]) / 10.)
            half = cfg.flux_prior_expansion * sig
            tol = 1e-6 * (half + np.abs(active2[b]))
            ctx.close(active2[b] - bounds2[b][:, 0], half, tol, "lower flux bound after the linear step", band=b)
            ctx.close(bounds2[b][:, 1], np.maximum(active2[b] + half, half), tol, "upper flux bound after the linear step", band=b)
        ll, tl = truth(active2)
        ctx.check(ll >= lb - tl - tb, "the linear flux solution is worse than the fluxes it replaces", before=lb, after=ll)
        for c in SHAPES:
            ctx.equal(bounds2[c], b0[c], "the linear step changes the bounds of %s" % c)
        ctx.close(pad.q_postlinear, as_vector(active2, bl, ref), 1e-9 * (1 + np.abs(as_vector(active2, bl, ref))), "parameters after the linear step")
    else:
        same_catalog(ctx, active2, best, "catalog returned by the optimisation")
        ctx.check(bounds2.tobytes() == b0.tobytes(), "the optimisation changes the bounds")
    # storing the optimisation result
    final, _ = out.fill(region2, a0, fixed2, model, bounds=bounds2)
    same_catalog(ctx, final, best, "catalog stored for the optimisation")
    # the model can still be evaluated
    zt = model.transform.inverse_transform(np.clip(out.chain[0], lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo)))
    v = float(model.lnprob(zt))
    qt = model.transform.transform(zt)
    yt = (qt - lo) / (hi - lo)
    lt, tt = truth(catalog_of(a0, bl, ref, qt))
    ctx.close(v, lt + np.sum(np.log((hi - lo) * yt * (1 - yt))), tt + 1e-4 * len(qt), "the model returned by the optimisation")
    # sampling from there
    if rng.random() < 0.7:
        if "n_iter" not in active2.dtype.names:
            wide = np.zeros(len(active2), dtype=active2.dtype.descr + [("n_iter", np.int32)])
            for c in active2.dtype.names:
                wide[c] = active2[c]
            active2 = wide
        active2["n_iter"] = rng.integers(0, int(rng.choice([5, 200])), len(active2))
    for c in bl + SHAPES:
        eps = 1e-3 * np.ptp(bounds2[c], axis=1)
        active2[c] = np.clip(active2[c], bounds2[c][:, 0] + eps, bounds2[c][:, 1] - eps)
    pad2 = argparse.Namespace()
    q2 = as_vector(active2, bl, (np.median(active2["ra"]), np.median(active2["dec"])))
    cov = None if rng.random() < 0.5 else np.diag(rng.uniform(0.5, 1.5, len(q2)))
    (o2, step2, stats2), (r3, a3, f3, b3), m2 = tasks.sample(patch, scene[:1] + (active2, fixed2, bounds2), cfg, Logger("x"), cov=cov, scratchpad=pad2)
    total = cfg.sampling_draws + cfg.warmup[0]
    ctx.check(o2.chain.shape == (total, len(q2)) and len(stats2) == total, "draws of the sampling task")
    ctx.close(pad2.q_sampling, q2, 1e-11, "starting vector of the sampling task")
    ref2 = np.array(patch.patch_reference_coordinates)
    final, covs = o2.fill(r3, a3, f3, m2, bounds=b3, step=step2, stats=stats2)
    block_check(ctx, o2, covs, step2, m2, n, len(a3))
    lo2, hi2 = np.empty(len(q2)), np.empty(len(q2))
    for j in range(len(a3)):
        for kk, c in enumerate(bl + SHAPES):
            z = ref2[0] if c == "ra" else ref2[1] if c == "dec" else 0.0
            lo2[j * n + kk], hi2[j * n + kk] = bounds2[c][j] - z
    weight = max(10, int(active2["n_iter"].min())) if "n_iter" in active2.dtype.names else 10
    mass_matrix(ctx, step2, q2, lo2, hi2, True, o2.chain[:cfg.warmup[0]], cov, None, weight, True)
    k = int(rng.integers(total))
    cat = catalog_of(active2, bl, ref2, o2.chain[k])
    same_catalog(ctx, o2.get_sample_cat(k), cat, "catalog of a draw of the sampling task")
    for c in bl + SHAPES:
        ctx.check(np.all((cat[c] >= bounds2[c][:, 0] - 1e-9) & (cat[c] <= bounds2[c][:, 1] + 1e-9)), "a draw is outside of the bounds of %s" % c)
    y = (o2.chain[k] - lo2) / (hi2 - lo2)
    if np.all((y > 1e-6) & (y < 1 - 1e-6)):
        # (the WCS is expanded around the positions the sources have now)
        plain = np.zeros(len(active2), dtype=a0.dtype)
        for c in a0.dtype.names:
            plain[c] = active2[c]
        ll, tol = JointTruth(w, region, plain, f0)(catalog_of(plain, bl, ref2, o2.chain[k]))
        ctx.close(float(stats2[k]["model_logp"]), ll + np.sum(np.log((hi2 - lo2) * y * (1 - y))), tol + 1e-4 * len(q2), "log-probability of a draw of the sampling task against an independent patch")
    ctx.count("pipelines")
    ctx.count("events", model.ncall + m2.ncall)
    ctx.sig("pipeline", cfg.add_barriers, cfg.linear_optimize, fixed is None, len(bl), len(a0), cov is None)


def case_misc(ctx):
    from forcepho.fitting import get_pot, run_dynesty
    from forcepho.utils import extract_block_diag
    rng = ctx.rng
    for _ in range(5):
        nb, n = int(rng.integers(1, 6)), int(rng.integers(1, 9))
        a = rng.normal(0, 1, (nb * n, nb * n))
        if rng.random() < 0.3:
            a = np.asfortranarray(a)
        elif rng.random() < 0.3:
            a = np.repeat(np.repeat(a, 2, axis=0), 2, axis=1)[::2, ::2]
        b = extract_block_diag(a, n)
        ctx.check(b.shape == (nb, n, n), "number of blocks")
        for k in range(nb):
            ctx.equal(b[k], a[k * n:(k + 1) * n, k * n:(k + 1) * n], "diagonal block")
        ctx.raises(lambda: extract_block_diag(a, 0), "blocks of size zero are accepted")
        ctx.raises(lambda: extract_block_diag(a[0], n), "a vector is accepted as a covariance")
    for full in (False, True):
        n = int(rng.integers(2, 6))
        x = rng.normal(0, 1, (n, n))
        c = x @ x.T + 0.5 * np.eye(n)
        c0 = c.copy()
        pot = get_pot(n, init_mean=np.zeros(n), init_cov=c, full=full)
        ctx.equal(c, c0, "the covariance passed in is changed")
        v = rng.normal(0, 1, n)
        want = c @ v if full else np.diag(c) * v
        ctx.close(pot.velocity(v), want, 1e-6 * np.abs(want).max(), "the potential does not use the covariance it is given")
    # nested sampling without a transform: points in the box, with the likelihood of the point
    make, like, lo, hi, mu, w = gauss_model(rng, 2, False)
    if ctx.case % 3 == 0:
        m = make()
        rs = np.random.get_state()
        np.random.seed(int(rng.integers(2 ** 31)))
        out, _ = run_dynesty(m, (lo + hi) / 2, lower=lo, upper=hi, nlive=20)
        np.random.set_state(rs)
        ctx.check(np.all((out.chain >= lo - 1e-9 * (hi - lo)) & (out.chain <= hi + 1e-9 * (hi - lo))), "a nested sample is outside of the bounds")
        want = np.array([like(x)[0] for x in out.chain])
        ctx.close(out.lnp, want, 1e-9 * (1 + np.abs(want)), "log-likelihood of a nested sample")
        ctx.count("draws_matched", len(want))
    ctx.sig("misc")


def case(ctx, i):
    k = i % 13
    if k in (0, 1, 2):
        return case_sample(ctx, False)
    if k == 3:
        return case_sample(ctx, True)
    if k in (4, 5, 6):
        return case_opt(ctx)
    if k in (7, 8, 9):
        return case_patch_sample(ctx)
    if k in (10, 11):
        return case_pipeline(ctx)
    return case_misc(ctx)

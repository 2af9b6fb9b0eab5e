"""C14: posterior answers are coherent along every history of calls."""
import numpy as np

from checks.c01 import as_vector, perturb
from fpv.world import SHAPES, World, cpu_patch

PROPERTY = "C14"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: every answer along random call histories compared with a cache-free recomputation on an independently built patch"
RULE = "distinct (posterior class, method, previous method, how the point was produced, transform, prior, sampling) transitions observed"
ASSUMPTIONS = ["arrays returned by the posterior are not modified by the caller", "the compiled evaluator is deterministic (C03)"]
CASES = {"quick": 320, "thorough": 6000}
MIN = {"answers": 4000, "repeats": 300, "inplace": 300, "toggles": 200, "residuals": 200, "priors": 500, "slow_answers": 500, "check_grads": 100}


def make_prior(rng, kind, lo, hi):
    """A log-prior callable and an independent version of it."""
    n = len(lo)
    if kind == "none":
        return None, lambda q: (0.0, np.zeros(n))
    if kind == "expbeta":
        from forcepho.priors import ExpBeta
        a = float(rng.uniform(-0.9, -0.1))

        def truth(q):
            x = (q - lo) / (hi - lo)
            u = x * (1 - x)
            return -np.sum(u ** a), -a * u ** (a - 1) * (1 - 2 * x) / (hi - lo)
        return ExpBeta(lo, hi, alpha=a), truth
    c, s = rng.normal(0, 1, n), float(rng.uniform(0.1, 2))

    def gauss(q):
        return -0.5 * s * np.sum((q - c) ** 2), -s * (q - c)
    return (lambda q: gauss(q)), gauss


def case_priors(ctx):
    from forcepho.priors import ExpBeta, LogPrior
    rng = ctx.rng
    for _ in range(20):
        n = int(rng.integers(1, 12))
        lo = rng.normal(0, 3, n)
        hi = lo + 10 ** rng.uniform(-2, 3, n)
        if rng.random() < 0.3:
            lo, hi = float(lo[0]), float(hi[0])
        al = float(rng.uniform(-0.95, 2.0))
        kind = str(rng.choice(["expbeta", "default", "flat"]))
        pr = ExpBeta(lo, hi, alpha=al) if kind == "expbeta" else ExpBeta(lo, hi) if kind == "default" else LogPrior(lo, hi)
        if kind == "default":
            al = -0.9
        x = rng.uniform(0.02, 0.98, n)
        q = (lo + (hi - lo) * x)
        q0 = q.copy()
        v, g = pr(q)
        ctx.equal(q, q0, "the prior changes its argument")
        u = x * (1 - x)
        want = 0.0 if kind == "flat" else -np.sum(u ** al)
        wg = np.zeros(n) if kind == "flat" else -al * u ** (al - 1) * (1 - 2 * x) / (hi - lo)
        ctx.close(v, want, 1e-9 * (1 + abs(want)), "value of the log-prior", kind=kind, alpha=al)
        ctx.close(g, wg, 1e-8 * (np.abs(wg) + 1e-3 / np.min(hi - lo)), "gradient of the log-prior", kind=kind, alpha=al)
        # gradient against the reported values themselves
        k = int(rng.integers(n))
        w = (hi - lo) if np.isscalar(lo) else (hi - lo)[k]
        h = 1e-4 * w
        v4 = []
        for s in (-2, -1, 1, 2):
            p = q.copy()
            p[k] += s * h
            v4.append(float(pr(p)[0]))
        num = (v4[0] - 8 * v4[1] + 8 * v4[2] - v4[3]) / (12 * h)
        ctx.close(np.asarray(g)[k], num, 1e-5 * (abs(num) + (1 + abs(want)) / w), "gradient of the log-prior is not the derivative of its value", kind=kind)
        ctx.count("priors")
        ctx.sig("prior", kind, al > 0, np.isscalar(lo))
    ctx.raises(lambda: ExpBeta(0.0, 1.0, alpha=-1.0), "an improper exponent is accepted")


class Truth:
    """log-likelihood and gradient from a separately built patch, without any posterior object."""

    def __init__(self, w):
        self.patch = cpu_patch(w, sourcecat=None)
        scene = self.patch.set_scene(w.cat)
        self.patch.pack_meta(scene)
        self.patch.return_residual = True
        self.patch.send_to_device()
        self.scene, self.prop = scene, self.patch.get_proposer()

    def __call__(self, q):
        self.scene.set_all_source_params(np.array(q))
        chi2, d, res = self.prop.evaluate_proposal(self.scene.get_proposal(), patch=self.patch)
        d = np.asarray(d, float)
        nb, ns = d.shape[:2]
        g, m = np.zeros((2, ns, nb + 6))
        for b in range(nb):
            g[:, b] = d[b, :, 0]
            m[:, b] = np.abs(d[b, :, 0])
        g[:, nb:] = d[:, :, 1:].sum(axis=0)
        m[:, nb:] = np.abs(d[:, :, 1:]).sum(axis=0)
        chi2 = np.asarray(chi2, float)
        return -0.5 * float(np.sum(chi2)), -0.5 * g.reshape(-1), float(np.sum(np.abs(chi2))), m.reshape(-1), [r.copy() for r in res]


def logistic(z, lo, hi):
    e = np.exp(-np.abs(z))
    y = np.where(z > 0, 1 / (1 + e), e / (1 + e))
    jac = (hi - lo) * e / (1 + e) ** 2
    return lo + y * (hi - lo), jac, np.sum(np.log(jac)), 1 - 2 * y


def case_fast(ctx):
    from forcepho.model import BoundedTransform, FastPosterior, LogLikeWithGrad, Transform
    rng = ctx.rng
    w = World(rng, ctx.tmp, n_bands=int(rng.integers(1, 4)), n_exp=int(rng.integers(1, 3)), n_src=int(rng.integers(1, 4)), size=12)
    if rng.random() < 0.5:
        w.add_model()
    w.write(rng)
    truth = Truth(w)
    patch = cpu_patch(w, sourcecat=None)
    model0, q0 = patch.prepare_model(active=w.cat)
    zero = patch.patch_reference_coordinates
    n = len(q0)
    cats = [perturb(rng, w, w.cat) for _ in range(3)]
    Q = np.array([as_vector(c, patch.bandlist, zero) for c in cats] + [q0])
    span = Q.max(axis=0) - Q.min(axis=0) + 1e-4
    lo, hi = Q.min(axis=0) - 0.3 * span, Q.max(axis=0) + 0.3 * span
    nb = len(patch.bandlist)
    for j in range(len(w.cat)):
        k = j * (nb + 6) + nb
        lo[k + 2], hi[k + 2] = max(lo[k + 2], 0.2), min(hi[k + 2], 1.2)
        lo[k + 4], hi[k + 4] = max(lo[k + 4], w.srange[0]), min(hi[k + 4], w.srange[1])
        lo[k + 5], hi[k + 5] = max(lo[k + 5], w.rrange[0]), min(hi[k + 5], w.rrange[1])
    bounded = bool(rng.integers(2))
    transform = BoundedTransform(lo.copy(), hi.copy()) if bounded else Transform(n)
    pk = str(rng.choice(["none", "expbeta", "gauss"]))
    prior, ptruth = make_prior(rng, pk, lo, hi)
    sampling = bool(rng.integers(2))
    logging = bool(rng.integers(2))
    kw = dict(scene=model0.scene, lnprior=prior, sampling=sampling, logging=logging)
    if bounded and rng.random() < 0.5:
        kw.update(lower=lo.copy(), upper=hi.copy())
    else:
        kw["transform"] = transform
    model = FastPosterior(model0.proposer, patch, **kw)
    op = LogLikeWithGrad(model)
    ctx.desc = dict(bounded=bounded, prior=pk, sampling=sampling, n=n, world=w.describe())

    def point(k):
        if not bounded:
            return Q[k % len(Q)].copy()
        y = np.clip((Q[k % len(Q)] - lo) / (hi - lo), 0.02, 0.98)
        return np.log(y / (1 - y))

    def want(z):
        z = np.asarray(z, float)
        if not bounded:
            q, jac, ld, ldg = z, np.ones(n), 0.0, np.zeros(n)
        else:
            q, jac, ld, ldg = logistic(z, lo, hi)
            # the very parameters the posterior hands to the evaluator, so that answers can be compared closely
            qm = np.asarray(model.transform.transform(z), float)
            ctx.close(qm, q, 1e-12 * (hi - lo) + 1e-14 * np.abs(q), "scene parameters of a sampling position")
            q = qm
        ll, g, cmag, gmag = truth(q)[:4]
        pr, pg = ptruth(q)
        tot, gt = ll + pr, (g + pg) * jac
        if sampling:
            tot, gt = tot + ld, gt + ldg
        # same evaluator, same parameters: only the double precision sums may differ
        mag = cmag + abs(pr) + abs(ld)
        gm = np.abs(gmag * jac) + np.abs(pg * jac) + np.abs(ldg)
        return tot, gt, 1e-10 * (1 + mag), 1e-9 * gm + 1e-12, ll, q

    methods = ["lnprob", "lnprob_grad", "lnprob_and_grad", "nll", "nll_nograd", "op", "opgrad", "residuals", "check_grad"]
    prev, z, last = "start", point(0), None
    hist = []
    for step in range(int(rng.integers(12, 40))):
        r = rng.random()
        if r < 0.30:
            how = "repeat"
            ctx.count("repeats")
        elif r < 0.55:
            how = "inplace"
            k = int(rng.integers(n))
            z[k] = point(int(rng.integers(1, 4)))[k] if rng.random() < 0.7 else np.nextafter(z[k], np.inf)
            ctx.count("inplace")
        elif r < 0.8:
            how = "new"
            z = point(int(rng.integers(4)))
        else:
            how = "equal"
            z = z.copy()
        if rng.random() < 0.25:
            t = int(rng.integers(3))
            if t == 0:
                sampling = not sampling
                model.sampling = sampling
            elif t == 1:
                pk = str(rng.choice(["none", "expbeta", "gauss"]))
                prior, ptruth = make_prior(rng, pk, lo, hi)
                model._lnpriorfn = prior
            else:
                bounded = not bounded
                k = int(rng.integers(4))
                model.transform = BoundedTransform(lo.copy(), hi.copy()) if bounded else Transform(n)
                if rng.random() < 0.5 and not bounded:
                    # the very same numbers, now read as scene parameters, where that makes sense
                    y = np.clip((Q[k] - lo) / (hi - lo), 0.02, 0.98)
                    z = lo + y * (hi - lo)
                else:
                    z = point(k)
            how += "+toggle%d" % t
            ctx.count("toggles")
        m = str(rng.choice(methods, p=[0.18, 0.18, 0.16, 0.12, 0.08, 0.08, 0.06, 0.1, 0.04]))
        if rng.random() < 0.1:
            model.ndof = float(rng.choice([1.0, 7.0, 1000.0]))
        zc = z.copy()
        tot, gt, tol, gtol, ll, q = want(zc)
        n0 = model.ncall
        if m == "residuals":
            qq = Q[int(rng.integers(len(Q)))].copy()
            wres = truth(qq)[-1]
            flag = bool(rng.random() < 0.3)
            patch.return_residual = flag
            if rng.random() < 0.3:
                flat = np.asarray(model.residuals(qq, unpack=False)).reshape(-1)
                ctx.equal(flat, np.concatenate([np.asarray(b).reshape(-1) for b in wres]), "flat residuals are not those of the point asked for", after=prev, how=how)
                ctx.check(bool(patch.return_residual) == flag, "asking for residuals changes whether the patch returns them")
            res = model.residuals(qq)
            ctx.check(bool(patch.return_residual) == flag, "asking for residuals changes whether the patch returns them")
            patch.return_residual = False
            ctx.check(len(res) == len(wres), "number of residual images")
            for a, b in zip(res, wres):
                ctx.equal(a, b, "residual images are not those of the point asked for", after=prev, how=how)
            ctx.check(not patch.return_residual, "asking for residuals leaves the patch returning them")
            ctx.count("residuals")
        elif m == "check_grad":
            if not bounded:
                continue
            g, gn = model.check_grad(z, delta=1e-3)
            ctx.close(g, gt, gtol, "analytic gradient of check_grad")
            ctx.check(np.shape(gn) == (n,), "numerical gradient of check_grad")
        else:
            v = g = None
            if m == "lnprob":
                v = model.lnprob(z)
            elif m == "lnprob_grad":
                g = model.lnprob_grad(z)
            elif m == "lnprob_and_grad":
                v, g = model.lnprob_and_grad(z)
            elif m == "nll":
                v, g = model.nll(z)
                v, g = -v * model.ndof, -np.asarray(g) * model.ndof
            elif m == "nll_nograd":
                v = -model.nll_nograd(z) * model.ndof
            elif m == "op":
                out = [[None]]
                op.perform(None, [z], out)
                v = out[0][0]
            else:
                out = [[None]]
                op.GradObj.perform(None, [z], out)
                g = out[0][0]
            if v is not None:
                ctx.close(float(v), tot, tol, "%s is not the value at the point passed in" % m, name="value", after=prev, how=how, settings=(bounded, pk, sampling))
            if g is not None:
                ctx.check(np.shape(g) == (n,), "shape of the gradient")
                ctx.close(g, gt, gtol, "%s is not the gradient at the point passed in" % m, name="gradient", after=prev, how=how, settings=(bounded, pk, sampling))
            # what a freshly built posterior says, to the last bit
            fresh = FastPosterior(model0.proposer, patch, scene=model0.scene, lnprior=prior, sampling=sampling, transform=model.transform)
            fv, fg = fresh.lnprob_and_grad(zc)
            if m in ("lnprob", "lnprob_and_grad", "op"):
                ctx.equal(float(v), float(fv), "%s differs from that of a freshly built posterior" % m, after=prev, how=how)
            if m in ("lnprob_grad", "lnprob_and_grad", "opgrad"):
                ctx.equal(np.asarray(g), np.asarray(fg), "%s differs from that of a freshly built posterior" % m, after=prev, how=how)
        ctx.equal(z, zc, "%s changes the point it is given" % m)
        ctx.count("answers")
        ctx.sig("fast", m, prev, how, bounded, pk, sampling)
        if logging and model.ncall > n0 and m in ("lnprob", "lnprob_grad", "lnprob_and_grad", "nll", "nll_nograd", "op", "opgrad"):
            hist.append((len(model.lnp_history) - 1, zc, ll, tol))
        prev = m
    for k, zc, ll, tol in hist:
        ctx.equal(model.pos_history[k], zc, "logged position is not the one evaluated")
        ctx.close(float(model.lnp_history[k]), ll, tol, "logged log-likelihood is not that of its position")
    ctx.raises(lambda: FastPosterior(model0.proposer, patch, scene=model0.scene), "a posterior without transform or bounds is accepted")
    ctx.raises(lambda: FastPosterior(model0.proposer, patch, scene=model0.scene, transform=transform, lower=lo, upper=hi), "a posterior with both transform and bounds is accepted")
    for half in (dict(lower=lo), dict(upper=hi)):
        ctx.raises(lambda: FastPosterior(model0.proposer, patch, scene=model0.scene, **half), "a posterior with only one of the two bounds is accepted")
    plain = FastPosterior(model0.proposer, patch, transform=Transform(n))
    ctx.close(float(plain.lnprob(Q[0].copy())), truth(Q[0])[0], 1e-10 * (1 + truth(Q[0])[2]), "a posterior built without naming a scene does not use the scene of the patch")
    ctx.sample(bounded=bounded, prior=pk, n=n, ncall=model.ncall)


def case_slow(ctx):
    """The posterior of the slow code, with a likelihood known in closed form."""
    from forcepho.model import BoundedTransform, SlowPosterior, Transform
    rng = ctx.rng
    for _ in range(6):
        n = int(rng.integers(1, 15))
        lo = rng.normal(0, 3, n)
        hi = lo + 10 ** rng.uniform(-1, 2, n)
        A = rng.normal(0, 1, (n, n))
        A = A @ A.T
        c = rng.normal(0, 2, n)
        marks = (object(), [object()])
        seen = []

        def like(q, scene=None, plans=None, **kw):
            ctx.check(scene is marks[0] and plans is marks[1], "the likelihood is called with another scene or other plans")
            seen.append(np.array(q))
            return -0.5 * (q - c) @ A @ (q - c), -A @ (q - c)
        tk = str(rng.choice(["none", "identity", "bounded"]))
        make = lambda k: None if k == "none" else Transform(n) if k == "identity" else BoundedTransform(lo.copy(), hi.copy())
        pk = str(rng.choice(["none", "expbeta", "gauss"]))
        prior, ptruth = make_prior(rng, pk, lo, hi)
        model = SlowPosterior(scene=marks[0], plans=marks[1], lnlike=like, lnprior=prior, transform=make(tk))
        z, prev = None, "start"
        for step in range(12):
            how = str(rng.choice(["new", "repeat", "inplace", "equal"]))
            if rng.random() < 0.2:
                pk = str(rng.choice(["none", "expbeta", "gauss"]))
                prior, ptruth = make_prior(rng, pk, lo, hi)
                model._lnpriorfn = prior
            if rng.random() < 0.2:
                tk = str(rng.choice(["none", "identity", "bounded"]))
                model.transform = make(tk)
                how = "new"
            if z is None or how == "new":
                z = rng.normal(0, 2, n) if tk == "bounded" else lo + (hi - lo) * rng.uniform(0.05, 0.95, n)
            elif how == "inplace":
                k = int(rng.integers(n))
                z[k] = rng.normal() if tk == "bounded" else lo[k] + (hi[k] - lo[k]) * rng.uniform(0.05, 0.95)
            elif how == "equal":
                z = z.copy()
            zc = z.copy()
            q, jac, ld, ldg = logistic(zc, lo, hi) if tk == "bounded" else (zc, np.ones(n), 0.0, np.zeros(n))
            ll, g = -0.5 * (q - c) @ A @ (q - c), -A @ (q - c)
            pr, pg = ptruth(q)
            tot, gt = ll + pr + ld, (g + pg) * jac + ldg
            tol = 1e-9 * (1 + abs(ll) + abs(pr) + abs(ld))
            gtol = 1e-8 * (np.abs(g * jac) + np.abs(pg * jac) + np.abs(ldg) + np.abs(A).sum(axis=1) * np.abs(q - c).max() * jac)
            m = str(rng.choice(["lnprob", "lnprob_grad", "lnprob_and_grad", "nll", "nll_nograd"]))
            if rng.random() < 0.2:
                model.ndof = float(rng.choice([1.0, 12.0]))
            out = getattr(model, m)(z)
            v = {"lnprob": lambda o: o, "lnprob_grad": lambda o: None, "lnprob_and_grad": lambda o: o[0], "nll": lambda o: -o[0] * model.ndof, "nll_nograd": lambda o: -o * model.ndof}[m](out)
            gg = {"lnprob_grad": lambda o: o, "lnprob_and_grad": lambda o: o[1], "nll": lambda o: -np.asarray(o[1]) * model.ndof}.get(m, lambda o: None)(out)
            if v is not None:
                ctx.close(float(v), tot, tol, "%s of the slow posterior is not the value at the point passed in" % m, after=prev, how=how, settings=(tk, pk))
            if gg is not None:
                ctx.close(gg, gt, gtol + 1e-12, "%s of the slow posterior is not the gradient at the point passed in" % m, after=prev, how=how, settings=(tk, pk))
            ctx.equal(z, zc, "%s changes the point it is given" % m)
            ctx.count("slow_answers")
            ctx.sig("slow", m, prev, how, tk, pk)
            prev = m
            if rng.random() < 0.15:
                d = 1e-4 * (np.ones(n) if tk == "bounded" else hi - lo) * rng.uniform(0.5, 2, n)
                if rng.random() < 0.5:
                    d = float(d.min())
                da = np.zeros(n) + d

                def value(x):
                    q, jac, ld, ldg = logistic(x, lo, hi) if tk == "bounded" else (x, np.ones(n), 0.0, np.zeros(n))
                    return -0.5 * (q - c) @ A @ (q - c) + ptruth(q)[0] + ld
                num = np.array([(value(zc + da * e) - value(zc - da * e)) / (2 * da[k]) for k, e in enumerate(np.eye(n))])
                ga, gn = model.check_grad(z, delta=d)
                ctx.close(ga, gt, gtol + 1e-12, "analytic gradient of check_grad", settings=(tk, pk))
                ctx.close(gn, num, (1e-11 * (1 + abs(ll) + abs(pr) + abs(ld)) + 1e-13 * np.abs(A).sum() * np.abs(q - c).max() * np.abs(zc).max()) / da + gtol + 1e-6 * np.abs(gt),
                          "numerical gradient of check_grad is not the central difference of the values", settings=(tk, pk))
                ctx.equal(z, zc, "check_grad changes the point it is given")
                ctx.count("check_grads")
                prev = "check_grad"


def case(ctx, i):
    if i % 10 == 7:
        return case_slow(ctx)
    if i % 5 == 4:
        return case_priors(ctx)
    return case_fast(ctx)

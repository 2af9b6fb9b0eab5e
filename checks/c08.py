"""C08: linear flux fits return the weighted least-squares optimum and its precision."""
import numpy as np

from fpv import refmodel
from fpv.harness import Skip
from fpv.refmodel import EPS
from fpv.world import World, cpu_patch, make_catalog
from checks.c07 import Sub

PROPERTY = "C08"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: design matrix against the independent per-unit-flux model, fluxes against a float64 least-squares solve and random challengers, precision against the normal matrix"
RULE = "distinct (bands, sources, exposures, fixed sources, zero/negative starting flux) in which the optimum was challenged"
ASSUMPTIONS = ["non-degenerate source configurations (condition number of the normalised normal matrix below 1e6)", "float32 rounding of the rendered unit models, as in fpv/refmodel.py"]
CASES = {"quick": 100, "thorough": 2500}
MIN = {"design_pixels": 20000, "bands_solved": 100, "challengers": 1000}


def case_patch(ctx):
    from forcepho.fitting import optimize_fluxes
    rng = ctx.rng
    n = int(rng.integers(1, 7))
    w = World(rng, ctx.tmp, n_src=n, n_bands=int(rng.integers(1, 4)), size=int(rng.integers(14, 24)), n_exp=int(rng.integers(1, 4)), negative=0.2, noise=0.05)
    w.add_model(factor=rng.uniform(0.3, 2))
    zero = False
    start = w.cat.copy()
    for b in w.bands:
        start[b] *= rng.uniform(0.2, 3, n)
        if rng.random() < 0.3:
            start[b][int(rng.integers(n))] = 0.0
            zero = True
    w.write(rng)
    nf = int(rng.integers(0, 4))
    fixed = make_catalog(rng, nf, w.center, w.half, w.bands, w.sr, w.rr, start_id=50) if nf else None
    patch = cpu_patch(w, sourcecat=None)
    ref, sub = refmodel.Ref(w), Sub(w)
    m0, q0 = patch.prepare_model(active=start, fixed=fixed)
    r0 = np.concatenate(m0.residuals(q0))
    data = patch.retrieve_array("data")
    before = start.tobytes()
    ret = optimize_fluxes(patch, start, return_all=True)
    ctx.check(len(ret) == 5 and isinstance(ret[0], list), "linear optimisation failed", ret=str(ret)[:200])
    fluxes, prec, Xes, ys, ws = ret
    ctx.equal(start.tobytes(), before, "linear optimisation changed the catalog")
    ctx.equal(patch.retrieve_array("data"), data, "linear optimisation changed the data")
    # and the patch still stands for its sources
    r1 = np.concatenate(m0.residuals(q0))
    ctx.close(r1, r0, 1e-4 * np.abs(data - r0).max() + 4 * EPS * np.abs(data), "after the linear optimisation the patch no longer gives the model of its sources", name="after")
    before_ys = [y.copy() for y in ret[3]]
    for y in patch.retrieve_array("data"), patch.retrieve_array("residual"):
        y += 1.0
    ctx.equal(patch.retrieve_array("data"), data, "changing a retrieved array changes the data")
    ctx.equal([y.tobytes() for y in ret[3]], [y.tobytes() for y in before_ys], "changing a retrieved array changes the target data")
    ctx.check(len(fluxes) == len(prec) == len(Xes) == len(patch.bandlist), "one solution per band")
    D, T, ie, use, M = sub.data(patch, [] if fixed is None else [(fixed, ref)], 1 if nf else 0)
    npb = np.cumsum(np.asarray(patch.band_N_pix)[:-1])
    Ds, Ts, Is, Us = [np.split(a, npb) for a in (D, T, ie, use)]
    # reference unit models
    unit = []
    for k in range(n):
        c = start[k:k + 1].copy()
        for b in w.bands:
            c[b] = 1.0
        _, t1, _, _, m1 = sub.data(patch, [(c, ref)], 0)
        unit.append((np.split(m1, npb), np.split(t1 - EPS * 13 * np.abs(D), npb)))
    for j, b in enumerate(patch.bandlist):
        sel = Us[j] & (Is[j] > 0)
        ctx.check(Xes[j].shape == (n, len(Ds[j])) and len(ys[j]) == len(Ds[j]) == len(ws[j]), "shapes of the design matrix")
        ctx.close(ys[j][sel], Ds[j][sel], Ts[j][sel], "target data are not the fixed-source-subtracted data", name="y")
        ctx.close(ws[j][Us[j]], Is[j][Us[j]], 1e-6 * np.abs(Is[j][Us[j]]), "weights are not the inverse errors")
        Xr = np.array([unit[k][0][j] for k in range(n)])
        xt = np.array([np.abs(unit[k][1][j]) + 8 * EPS * (np.abs(ys[j]) / max(abs(float(start[b][k])), 1e-9) if start[b][k] != 0 else np.abs(ys[j])) + 8 * EPS * np.abs(Xr[k]) for k in range(n)])
        ctx.close(Xes[j][:, sel], Xr[:, sel], xt[:, sel] + 1e-12, "design matrix column is not the model per unit flux", name="X", band=b)
        ctx.count("design_pixels", sel.sum() * n)
        # normal matrix and optimum of the returned system, in float64
        Xw = Xes[j] * ws[j]
        ATA = np.einsum("ip,jp->ij", Xw, Xw)
        ctx.close(prec[j], ATA, 1e-6 * np.sqrt(np.outer(np.diag(ATA), np.diag(ATA))) + 1e-30, "precision matrix is not the normal matrix")
        f = np.asarray(fluxes[j], float)
        ctx.check(f.shape == (n,), "one flux per source", shape=f.shape)
        sd = np.sqrt(np.diag(ATA))
        cond = np.linalg.cond(ATA / np.outer(sd, sd)) if np.all(sd > 0) else np.inf
        if not cond < 1e6:
            ctx.count("degenerate_bands")
            continue
        fr = np.linalg.lstsq((Xw / sd[:, None]).T, ys[j] * ws[j], rcond=None)[0] / sd
        ctx.close(f * sd, fr * sd, 1e-6 * cond * (np.linalg.norm(ys[j] * ws[j]) + 1), "fluxes are not the least-squares optimum", name="flux")
        chi = lambda v: np.sum(((ys[j] - v @ Xes[j]) * ws[j]) ** 2)
        c0 = chi(f)
        for _ in range(10):
            v = f + rng.normal(0, 1, n) / sd * 10 ** rng.uniform(-3, 1)
            ctx.check(chi(v) >= c0 - 1e-9 * (c0 + np.sum((ys[j] * ws[j]) ** 2)), "another flux vector has a lower chi-square", band=b, c0=c0, c=chi(v))
            ctx.count("challengers")
        # against a completely independent solution
        Xi = Xr * Is[j]
        sdr = np.sqrt((Xi ** 2).sum(axis=1))
        fi = np.linalg.lstsq((Xi / sdr[:, None]).T, Ds[j] * Is[j], rcond=None)[0] / sdr
        # first order error of the solution: (A^-1)(dA f + dy)
        err = np.sqrt(np.sum((Is[j] * (np.abs(fi) @ xt + Ts[j])) ** 2))
        ctx.close(f * sdr, fi * sdr, 3 * cond * err + 1e-6 * cond, "fluxes differ from an independent least-squares fit", name="flux_independent", band=b)
        ctx.count("bands_solved")
        ctx.sig(len(w.bands), n, patch.n_exp, nf, zero, j)
    f2, p2 = optimize_fluxes(patch, start)
    for j in range(len(f2)):
        ctx.equal(f2[j], fluxes[j], "repeating the linear fit gives other fluxes")
        ctx.equal(p2[j], prec[j], "repeating the linear fit gives another precision")
    ctx.sample(bands=list(patch.bandlist), n=n, nf=nf, fluxes=fluxes[0])


def case_array(ctx):
    """optimize_one_band on arbitrary systems."""
    from forcepho.fitting import optimize_one_band
    rng = ctx.rng
    for _ in range(20):
        n, npix = int(rng.integers(1, 8)), int(rng.integers(20, 200))
        X = rng.normal(size=(n, npix)) * 10 ** rng.uniform(-2, 2)
        w = rng.uniform(0, 3, npix) * (rng.random(npix) > 0.1)
        y = rng.normal(size=npix) * 10 ** rng.uniform(-2, 2)
        kind = int(rng.integers(3))
        fx = [0, rng.normal(size=npix), rng.normal(size=(int(rng.integers(1, 4)), npix))][kind]
        keep = [a.tobytes() for a in (X, w, y)]
        f, A = optimize_one_band(X, w, y, **(dict(fixedX=fx) if kind else {}))
        ctx.equal([a.tobytes() for a in (X, w, y)], keep, "inputs were changed")
        yy = y - (0 if kind == 0 else fx if kind == 1 else fx.sum(axis=0))
        want = np.linalg.lstsq((X * w).T, yy * w, rcond=None)[0]
        ctx.close(np.ravel(f), want, 1e-8 * (np.abs(want).max() + 1e-12), "least-squares optimum of one band", kind=kind)
        ctx.close(A, (X * w) @ (X * w).T, 1e-9 * np.abs(A).max(), "normal matrix of one band")
        ctx.count("systems")
        ctx.sig("array", n, kind)


def case(ctx, i):
    if i % 10 == 9:
        case_array(ctx)
    else:
        case_patch(ctx)

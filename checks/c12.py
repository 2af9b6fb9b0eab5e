"""C12: check-in writes back exactly the fitted sources; the state on disk reproduces the scene."""
import json
import os

import numpy as np
from astropy.io import fits

from fpv.scenes import Shadow, fitted, random_scene

PROPERTY = "C12"
TECHNIQUE = "runtime monitor: shadow catalog compared with the scene after every check-in of random histories, and with the state files at random crash and restart points"
RULE = "distinct (scene class, what the result carries, flushed, restarted) situations"
ASSUMPTIONS = ["the process is not killed while a state file is being written", "bounds are rebuilt, not stored"]
CASES = {"quick": 640, "thorough": 16000}
MIN = {"checkins": 2000, "state_files": 500, "restarts": 100, "bounds_queries": 500}


def read_state(name):
    cat = fits.getdata(name)
    with open(os.path.splitext(name)[0] + "_log.json") as f:
        log = json.load(f)
    return cat, log


def check_state(ctx, name, scene, sh, what):
    """The files hold the catalog and logs of the shadow."""
    cat, log = read_state(name)
    ctx.check(len(cat) == sh.n, "rows of the state file", after=what)
    ctx.check(set(cat.dtype.names) == set(sh.cat.dtype.names), "columns of the state file", got=cat.dtype.names)
    a, f = sh.held()
    for c in sh.cat.dtype.names:
        want = sh.cat[c]
        if c == "is_active":
            ctx.equal(np.asarray(cat[c]) != 0, a > 0, "active flags in the state file")
        elif c == "is_valid":
            ctx.equal(np.asarray(cat[c]) != 0, (a + f) == 0, "valid flags in the state file")
        else:
            ctx.equal(np.asarray(cat[c]).astype(want.dtype), want, "column '%s' of the state file" % c, after=what)
    ctx.check({int(k): v for k, v in log["sourcelog"].items()} == sh.slog, "source log in the state file", after=what)
    ctx.check(log["patchlog"] == sh.plog, "patch log in the state file", after=what)
    ctx.count("state_files")


def case(ctx, i):
    from forcepho.superscene import LinkedSuperScene, SuperScene
    rng = ctx.rng
    linked = bool(i % 2)
    name = str(rng.choice(["state.fits", "sub/state.fits", "run.fits.d/scene.fits", "scene.fit"]))
    name = os.path.join(ctx.tmp, name)
    os.makedirs(os.path.dirname(name), exist_ok=True)
    scene, opts, roi, _ = random_scene(rng, linked, statefile=name)
    sh = Shadow(scene)
    shapes = list(scene.shape_cols)
    params = list(opts["bands"]) + shapes
    npar = len(params)
    ctx.desc = dict(linked=linked, n=sh.n)
    kind = "linked" if linked else "plain"
    sh.verify(ctx, scene, "ingest")
    flushed = False
    # now and then a few sources are visited again and again
    again = rng.permutation(sh.n)[:2] if rng.random() < 0.1 else None
    for op in range(int(rng.integers(4, 30)) if again is None else 70):
        r = rng.random()
        if r < 0.45 or not sh.out:
            _, act, fix = scene.checkout_region(seed_index=int(rng.choice(again)) if again is not None else int(rng.integers(sh.n)) if rng.random() < 0.7 else -1)
            if act is not None:
                sh.out.append((act, fix))
            continue
        if r < 0.9:
            act, fix = sh.out.pop(int(rng.integers(len(sh.out))))
            res = fitted(rng, act, opts["bands"], shapes)
            perm = rng.permutation(len(res))
            res = res[perm]
            # columns which are not fitted do not come back
            res["id"] = -5
            res["n_iter"] = 12345
            res["roi"] = 99
            thin = rng.random() < 0.3
            if thin:
                keep = ["source_index"] + [params[k] for k in rng.permutation(npar)]
                t = np.zeros(len(res), dtype=[(c, res.dtype[c]) for c in keep])
                for c in keep:
                    t[c] = res[c]
                res = t
            kw = dict(niter=int(rng.choice([0, 1, 64, 40000], p=[0.3, 0.3, 0.3, 0.1])))
            covs = bounds = tid = None
            if rng.random() < 0.6:
                covs = kw["block_covs"] = rng.normal(0, 1, (len(res), npar, npar))
            if rng.random() < 0.5:
                bounds = sh.bounds[res["source_index"]].copy()
                for c in params:
                    bounds[c][:, 0] -= rng.uniform(0, 1, len(res))
                    bounds[c][:, 1] += rng.uniform(0, 1, len(res))
                kw["new_bounds"] = bounds
            if rng.random() < 0.6:
                tid = kw["taskID"] = [int(rng.integers(50)), "patch%d" % rng.integers(50), np.int64(rng.integers(50)), int(rng.integers(10 ** 6))][int(rng.integers(4))]
            flush = bool(rng.random() < 0.4)
            given = res.copy(), None if covs is None else covs.copy(), None if bounds is None else bounds.copy()
            scene.checkin_region(res, fix, flush=flush, **kw)
            ctx.equal(res, given[0], "the result catalog is modified by check-in")
            if covs is not None:
                # what was handed over is kept by value
                res0, covs0 = given[0], given[1]
                covs[:] = np.nan
                sh.checkin(res0, fix, kw["niter"], covs0, given[2], tid, params)
            else:
                sh.checkin(res, fix, kw["niter"], None, given[2], tid, params)
            what = "checkin op %d" % op
            sh.verify(ctx, scene, what)
            ctx.count("checkins")
            ctx.sig(kind, covs is not None, bounds is not None, tid is not None, flush, thin, min(len(res), 4))
            flushed = False
            if flush:
                check_state(ctx, name, scene, sh, what)
                flushed = True
        # bounds and covariances handed to a worker
        ids = rng.permutation(sh.n)[:int(rng.integers(1, min(sh.n, 5) + 1))]
        b, cov = scene.bounds_and_covs(ids)
        for c in ["source_index"] + params:
            ctx.equal(b[c], sh.bounds[c][ids], "bounds handed out for '%s'" % c)
        want = np.zeros((len(ids) * npar,) * 2)
        for k, s in enumerate(ids):
            want[k * npar:(k + 1) * npar, k * npar:(k + 1) * npar] = sh.covs[s]
        ctx.equal(cov, want, "covariance handed out is not block diagonal in the order asked for")
        ctx.count("bounds_queries")
        if rng.random() < 0.2:
            other = os.path.join(ctx.tmp, "copy.fits")
            if rng.random() < 0.5:
                scene.writeout(other)
            else:
                scene.writeout()
                other = name
            check_state(ctx, other, scene, sh, "writeout")
    # --- leaving the context writes the state, also after an exception
    class Boom(Exception):
        pass
    boom = rng.random() < 0.5
    try:
        with scene as s:
            ctx.check(s is scene, "the context is the scene")
            if sh.out:
                act, fix = sh.out.pop()
                s.checkin_region(act, fix, niter=3, taskID=7)
                sh.checkin(act, fix, 3, None, None, 7, params)
            if boom:
                raise Boom()
    except Boom:
        pass
    check_state(ctx, name, scene, sh, "exit")
    # --- restart from disk
    cat = np.array(fits.getdata(name))
    cls = LinkedSuperScene if linked else SuperScene
    new = cls(cat, **opts)
    for c in sh.cat.dtype.names:
        if c not in ("is_active", "is_valid"):
            ctx.equal(np.asarray(new.sourcecat[c]).astype(sh.cat[c].dtype), sh.cat[c], "column '%s' after a restart" % c)
    ctx.check(np.all(new.sourcecat["is_valid"] != 0) and not np.any(new.sourcecat["is_active"]) and new.n_active == 0, "sources are not free after a restart")
    ctx.check(bool(new.undone) == bool(np.any(np.abs(sh.cat["n_iter"]) < opts["target_niter"])), "unfinished work after a restart")
    _, act, fix = new.checkout_region(seed_index=int(rng.integers(sh.n)))
    ctx.check(act is not None, "no check-out after a restart")
    new.checkin_region(act, fix, niter=2)
    ctx.equal(np.asarray(new.sourcecat["n_iter"][act["source_index"]]), sh.cat["n_iter"][act["source_index"]] + 2, "iterations after a restart")
    ctx.count("restarts")
    ctx.sig(kind, "restart", boom, bool(sh.out))
    ctx.sample(linked=linked, n=sh.n, log=len(sh.plog))

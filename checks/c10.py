"""C10: check-out and check-in of the superscene are mutually exclusive and conserve bookkeeping."""
import numpy as np

from fpv.scenes import Shadow, fitted, random_catalog, random_scene

PROPERTY = "C10"
TECHNIQUE = "runtime monitor: shadow bookkeeping compared with the scene after every operation of random check-out/check-in histories"
RULE = "distinct (scene class, operation, outcome, outstanding patches, size of patch, shared fixed sources) situations observed"
ASSUMPTIONS = ["each outstanding patch is checked in once, with the fixed catalog it was given", "seed sources are smaller than the maximum patch radius"]
CASES = {"quick": 640, "thorough": 16000}
MIN = {"checkouts": 3000, "refused": 300, "checkins": 2000, "undone": 100, "shared_fixed": 20, "drawn": 300}


def isolated(ctx, i):
    """Sources far from each other: every free one can be checked out, and a random seed is the least iterated free one."""
    from forcepho.superscene import LinkedSuperScene, SuperScene
    rng = ctx.rng
    n = int(rng.choice([3, 12, 25, 40]))
    bands = ["F200W", "CLEAR"][:int(rng.integers(1, 3))]
    cat, cen = random_catalog(rng, n, bands)
    cosd = np.cos(np.deg2rad(cen[1]))
    m = int(np.ceil(np.sqrt(n)))
    cell = rng.permutation(m * m)[:n]
    xy = np.array([cell % m, cell // m]).T * 40.0 + rng.uniform(-3, 3, (n, 2))
    cat["ra"] = cen[0] + (xy[:, 0] - xy[:, 0].mean()) / 3600 / cosd
    cat["dec"] = cen[1] + (xy[:, 1] - xy[:, 1].mean()) / 3600
    gap = 1000
    order = rng.permutation(n)
    cat["n_iter"][order] = gap * np.arange(n)
    linked = bool(i % 2)
    cls = LinkedSuperScene if linked else SuperScene
    kw = dict(roi=rng.uniform(0.1, 1, n)) if linked else {}
    scene = cls(cat, bands=bands, target_niter=10 ** 6, maxactive_per_patch=int(rng.choice([1, 5, 20])), boundary_radius=8.0, maxradius=6.0, minradius=1.0, **kw)
    sh = Shadow(scene)
    params = list(bands) + list(scene.shape_cols)
    ctx.desc = dict(isolated=True, n=n, linked=linked)
    free = set(range(n))
    for op in range(int(rng.integers(n, 3 * n + 2))):
        r = rng.random()
        if sh.out and r < 0.25:
            act, fix = sh.out.pop(int(rng.integers(len(sh.out))))
            k = int(act["source_index"][0])
            niter = int(rng.choice([0, gap * n]))
            res = fitted(rng, act, bands, scene.shape_cols)
            scene.checkin_region(res.copy(), None if fix is None else fix.copy(), niter=niter)
            sh.checkin(res, fix, niter, params=params)
            free.add(k)
        else:
            by_index = rng.random() < 0.3
            seed = int(rng.integers(n)) if by_index else -1
            region, act, fix = scene.checkout_region(seed_index=seed)
            it = np.abs(sh.cat["n_iter"])
            if act is None:
                ctx.check(seed not in free if by_index else len(free) == 0, "a check-out is refused although the source and everything near it is free", seed=seed, free=len(free), n=n)
                ctx.count("refused")
                ctx.sig("isolated", linked, "refused", by_index)
            else:
                ctx.equal(len(act), 1, "number of active sources of an isolated one")
                k = int(act["source_index"][0])
                ctx.check(k in free, "a source in use is checked out", k=k)
                if by_index:
                    ctx.equal(k, seed, "source checked out")
                else:
                    low = min(it[j] for j in free)
                    ctx.check(it[k] == low, "a randomly drawn patch does not start from the least iterated free source", n_iter=int(it[k]), least=int(low))
                    ctx.count("drawn")
                free.discard(k)
                sh.out.append((act.copy(), None if fix is None or len(fix) == 0 else fix.copy()))
                ctx.sig("isolated", linked, "out", by_index, min(len(free), 4))
        sh.verify(ctx, scene, "isolated op %d" % op)


def case(ctx, i):
    rng = ctx.rng
    if i % 11 == 10:
        return isolated(ctx, i)
    linked = bool(i % 2)
    ring = i % 5 == 4
    scene, opts, roi, _ = random_scene(rng, linked, ring=ring, n=int(rng.choice([6, 12, 30])) if ring else None)
    sh = Shadow(scene)
    ctx.desc = dict(linked=linked, n=sh.n, opts={k: v for k, v in opts.items() if k != "roi"})
    sh.verify(ctx, scene, "ingest")
    params = list(opts["bands"]) + list(scene.shape_cols)
    nops = int(rng.integers(5, 60))
    kind = linked and "linked" or "plain"
    for op in range(nops):
        r = rng.random()
        if r < (0.75 if ring else 0.55) or not sh.out:
            seed = int(rng.integers(sh.n)) if rng.random() < 0.5 else -1
            free = len(sh.out) == 0
            a0, f0 = sh.held()
            region, act, fix = scene.checkout_region(seed_index=seed)
            what = "checkout %d (op %d)" % (seed, op)
            if act is None:
                ctx.check(fix is None, "a refused check-out returns fixed sources")
                ctx.check(not free, "a check-out is refused although nothing is checked out", seed=seed)
                ctx.count("refused")
                ctx.sig(kind, "refused", min(len(sh.out), 5), seed >= 0)
            else:
                ki = act["source_index"]
                kf = fix["source_index"] if fix is not None else np.zeros(0, int)
                ctx.check(1 <= len(ki) <= opts["maxactive_per_patch"], "number of active sources", n=len(ki))
                ctx.check(len(kf) <= opts["maxactive_per_patch"], "number of fixed sources", n=len(kf))
                ctx.check(len(np.unique(np.concatenate([ki, kf]))) == len(ki) + len(kf), "a source appears twice in a patch", active=ki, fixed=kf)
                ctx.check(not np.any((a0 + f0)[ki]), "a source already in use is checked out as active", active=ki)
                ctx.check(not np.any(a0[kf]), "a source active in another patch is fixed in this one", fixed=kf)
                for k, c in ((ki, act), (kf, fix)):
                    for name in scene.sourcecat.dtype.names:
                        if c is not None and name not in ("is_active", "is_valid"):
                            ctx.equal(c[name], sh.cat[name][k], "checked out value of '%s'" % name)
                if np.any(f0[kf]):
                    ctx.count("shared_fixed")
                    ctx.maximum("patches_sharing_a_fixed_source", 1 + f0[kf].max())
                    ctx.count("shared_by_three", int(f0[kf].max() > 1))
                sh.out.append((act.copy(), None if fix is None else fix.copy()))
                # the catalogs handed out are copies
                act[params[0]] += 1e3
                act["n_iter"] += 7
                if fix is not None:
                    fix[params[0]] += 1e3
                ctx.count("checkouts")
                ctx.sig(kind, "checkout", min(len(sh.out), 6), min(len(ki), 6), min(len(kf), 6), bool(np.any(f0[kf])))
        elif r < 0.95:
            act, fix = sh.out.pop(int(rng.integers(len(sh.out))))
            niter = int(rng.choice([0, 0, 1, 17, 100, 30000, -25]))
            undo = niter == 0 and rng.random() < 0.7
            res = act if undo else fitted(rng, act, opts["bands"], scene.shape_cols)
            tid = None if undo or rng.random() < 0.4 else int(rng.integers(100))
            kw = dict(niter=niter)
            if tid is not None:
                kw["taskID"] = tid
            before = sh.cat.copy()
            scene.checkin_region(res.copy(), None if fix is None else fix.copy(), **kw)
            sh.checkin(res, fix, niter, taskID=tid, params=params)
            what = "checkin niter=%d (op %d)" % (niter, op)
            ctx.count("checkins")
            if undo:
                ctx.count("undone")
                ctx.equal(sh.cat, before, "shadow of an undone check-out")
            ctx.sig(kind, "checkin", np.sign(niter), undo, min(len(sh.out), 6))
        else:
            scene.reset()
            sh.out = []
            sh.cat["n_iter"] = 0
            sh.cat["n_patch"] = 0
            what = "reset (op %d)" % op
            ctx.sig(kind, "reset")
        sh.verify(ctx, scene, what)
    for act, fix in sh.out:
        scene.checkin_region(act, fix, niter=1)
        sh.checkin(act, fix, 1, params=params)
    sh.out = []
    sh.verify(ctx, scene, "everything checked in")
    ctx.check(np.all(scene.sourcecat["is_valid"] != 0) and not np.any(scene.sourcecat["is_active"]) and scene.n_active == 0 and scene.n_fixed == 0, "sources are not free after everything is checked in")
    ctx.sample(linked=linked, n=sh.n, ops=nops, n_iter=sh.cat["n_iter"][:10])

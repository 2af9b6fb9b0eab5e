"""C15: parameter vectors, scenes, catalogs and proposals convert into one another without loss."""
import numpy as np

from fpv.world import DEMO_SPLINE as SPLINE

PROPERTY = "C15"
TECHNIQUE = "runtime monitor: shadow copy of every source through random histories of conversions, compared value by value"
RULE = "distinct (source type, free Sersic, number of bands, number of sources) and (slot test, bands, radii) situations in which values were compared"
ASSUMPTIONS = ["a band name occurs once per source", "proposals are float32"]
CASES = {"quick": 700, "thorough": 20000}
MIN = {"vectors": 500, "catalogs": 200, "proposals": 200, "kernel_slots": 20}
NEEDS_KERNEL = True

NAMES = ["CLEAR", "F090W", "HST_F814W", "F200W", "b4", "b5", "f-6", "B7", "b8", "b9", "b10", "b11"]


def value(rng, col):
    if col == "ra":
        return float(rng.choice([rng.uniform(0, 360), 359.9999999, 1e-9, rng.uniform(53.1, 53.2)]))
    if col == "dec":
        return float(rng.choice([rng.uniform(-90, 90), -27.79123456789]))
    if col == "q":
        return float(rng.choice([rng.uniform(0.3, 1), rng.uniform(0.02, 1.3)]))
    if col == "pa":
        return float(rng.choice([rng.uniform(-2, 2), rng.uniform(-7, 7)]))
    if col == "sersic":
        return float(rng.choice([rng.uniform(1.01, 4.9), rng.uniform(0.3, 8)]))
    if col == "rhalf":
        return float(rng.choice([rng.uniform(0.035, 0.9), 10 ** rng.uniform(-3, 0.5)]))
    if col in ("ep", "ec"):
        return float(rng.normal(0, 0.7))
    return float(rng.normal() * 10 ** rng.uniform(-4, 6)) if rng.random() > 0.1 else 0.0


def case(ctx, i):
    rng = ctx.rng
    if i % 6 == 5:
        return slots(ctx, rng)
    from forcepho.proposal import source_struct_dtype
    from forcepho.sources import ConformalShearGalaxy, Galaxy, Scene, SimpleGalaxy, Star
    kinds = [Galaxy, Galaxy, Galaxy, Star, SimpleGalaxy, ConformalShearGalaxy]
    K = kinds[int(rng.integers(len(kinds)))]
    spl = K in (Galaxy, ConformalShearGalaxy)
    free = not (spl and rng.random() < 0.25)
    kw = dict(splinedata=SPLINE, free_sersic=free) if spl else {}
    cols = {Galaxy: ["ra", "dec", "q", "pa", "sersic", "rhalf"], ConformalShearGalaxy: ["ra", "dec", "ep", "ec", "sersic", "rhalf"],
            SimpleGalaxy: ["ra", "dec", "q", "pa"], Star: ["ra", "dec"]}[K]
    if not free:
        cols = cols[:4]
    nb = int(rng.choice([1, 2, 3, 5, 12]))
    bands = [NAMES[k] for k in rng.permutation(len(NAMES))[:nb]]
    n = int(rng.choice([1, 2, 3, 7, 15]))
    ctx.desc.update(kind=K.__name__, free=free, bands=bands, n=n)
    ctx.sig(K.__name__, free, nb, n)
    allcols = list(bands) + cols
    # the catalog has the columns in another order, and some of its own
    extra = ["zz", "y1", "y2", "y3", "y4"][:int(rng.choice([0, 0, 1, 2, 5]))]
    names = [allcols[k] for k in rng.permutation(len(allcols))] + extra + (["other"] if rng.random() < 0.5 else [])
    cat = np.zeros(n, dtype=[(c, np.float64) for c in names])
    for c in names:
        cat[c] = [value(rng, c) for _ in range(n)]
    before = cat.copy()
    style = rng.integers(3)
    if style == 0:
        sc = Scene(catalog=cat, filternames=list(bands), source_type=K, extra_parameters=list(extra), **kw)
    elif style == 1:
        sc = Scene()
        ctx.equal(len(sc), 0, "an empty scene has no sources")
        sc.from_catalog(cat, filternames=list(bands), source_type=K, extra_parameters=list(extra), **kw)
    else:
        srcs = []
        for row in cat:
            s = K(filternames=list(bands), **kw) if rng.random() < 0.5 else K(list(bands), **kw)
            s.from_catalog_row(row, extra_parameters=list(extra))
            srcs.append(s)
        sc = Scene(srcs)
    ctx.equal(cat, before, "the input catalog was changed")
    shadow = [[float(row[c]) for c in allcols] for row in cat]
    xtra = [[float(row[c]) for c in extra] for row in cat]
    fixed = [False] * n

    def verify(what):
        ctx.count("vectors")
        ctx.equal(len(sc), n, "number of sources", after=what)
        ctx.equal([s.id for s in sc.sources], list(range(n)), "source numbers", after=what)
        act = [k for k in range(n) if not fixed[k]]
        ctx.equal([s.id for s in sc.active_sources], act, "active sources", after=what)
        ctx.equal([s.id for s in sc.fixed_sources], [k for k in range(n) if fixed[k]], "fixed sources", after=what)
        ctx.equal([sc.n_active, sc.n_fixed], [len(act), n - len(act)], "numbers of active and fixed sources", after=what)
        if act:
            ctx.equal(np.asarray(sc.get_all_source_params(), float), np.concatenate([shadow[k] for k in act]), "scene vector of the active sources", after=what)
        ctx.equal(np.asarray(sc.get_all_source_params(active=False), float), np.concatenate(shadow), "scene vector of all sources", after=what)
        for k, s in enumerate(sc.sources):
            ctx.equal(s.n_params, len(allcols), "number of parameters")
            ctx.equal(np.asarray(s.get_param_vector(), float), shadow[k], "source vector", after=what, source=k)
            for j, c in enumerate(cols):
                ctx.check(float(getattr(s, c)) == shadow[k][nb + j], "attribute", after=what, source=k, col=c, got=getattr(s, c), want=shadow[k][nb + j])
            b = int(rng.integers(nb))
            ctx.equal(s.filter_index(bands[b]), b, "filter index")
            ctx.equal(np.asarray(s.get_param_vector(bands[b]), float), [shadow[k][b]] + shadow[k][nb:], "source vector of one filter", after=what, source=k)
        # indices of each active source in the scene vector
        for pos, k in enumerate(act):
            if rng.random() < 0.4:
                b = int(rng.integers(nb))
                s0 = pos * len(allcols)
                ctx.equal(list(sc.param_indices(k, bands[b])), [s0 + b] + list(range(s0 + nb, s0 + len(allcols))), "indices of one filter", after=what, source=k)
                ctx.equal(list(sc.param_indices(k)), list(range(s0, s0 + len(allcols))), "indices of all filters", after=what, source=k)
        pn = list(sc.parameter_names)
        ctx.equal(len(pn), n * len(allcols), "number of parameter names")
        ctx.equal(len(set(pn)), len(pn), "parameter names are not distinct")
        for k in range(n):
            for j, b in enumerate(bands):
                ctx.check(pn[k * len(allcols) + j] == "%s_%d" % (b, k), "parameter name", got=pn[k * len(allcols) + j], band=b, source=k)

    verify("import")
    for step in range(int(rng.integers(3, 9))):
        op = int(rng.integers(7))
        act = [k for k in range(n) if not fixed[k]]
        if op <= 1 and act:                              # whole vector
            th = np.array([value(rng, c) for k in act for c in allcols])
            form = rng.integers(3)
            arg = th.copy() if form else list(th)
            sc.set_all_source_params(arg)
            for p, k in enumerate(act):
                shadow[k] = list(th[p * len(allcols):(p + 1) * len(allcols)])
            if form == 2:
                arg[:] = 77.0                              # caller reuses its vector
            verify("set vector")
        elif op == 2:                                    # one filter of one source
            k, b = int(rng.integers(n)), int(rng.integers(nb))
            v = [value(rng, bands[b])] + [value(rng, c) for c in cols]
            sc.sources[k].set_params(v if rng.random() < 0.5 else np.array(v), filtername=bands[b])
            shadow[k][b], shadow[k][nb:] = v[0], v[1:]
            verify("set one filter")
            ctx.raises(lambda: sc.sources[k].set_params(v + [1.0], filtername=bands[b]), "a vector of the wrong length was accepted")
            verify("refused")
        elif op == 3:                                    # flip fixed
            k = int(rng.integers(n))
            fixed[k] = not fixed[k]
            sc.sources[k].fixed = fixed[k]
            verify("flip")
        elif op <= 5:                                    # round trip through a catalog
            ctx.count("catalogs")
            out = sc.to_catalog(extra_cols=list(extra))
            ctx.equal(len(out), n, "rows of the catalog")
            for j, c in enumerate(allcols):
                ctx.equal(np.asarray(out[c], float), np.array([s[j] for s in shadow]), "catalog column", col=c)
            for j, c in enumerate(extra):
                ctx.equal(np.asarray(out[c], float), np.array([x[j] for x in xtra]), "catalog column", col=c)
            ctx.equal(np.asarray(out["id"]).astype(int), np.arange(n), "catalog ids")
            # a new scene, with a subset of the bands in another order
            m = int(rng.integers(1, nb + 1))
            sub = [bands[k] for k in rng.permutation(nb)[:m]]
            perm = rng.permutation(n)
            sc2 = Scene(catalog=out[perm], filternames=list(sub), source_type=K, extra_parameters=list(extra), **kw)
            want = [[shadow[k][bands.index(b)] for b in sub] + shadow[k][nb:] for k in perm]
            ctx.equal(np.asarray(sc2.get_all_source_params(), float), np.concatenate(want), "scene made from part of a catalog")
            ctx.equal(len(Scene()), 0, "a new empty scene has sources of another")
            s = sc.sources[int(rng.integers(n))]
            import copy
            s2 = copy.deepcopy(s)
            s2.from_catalog_row(out[perm[0]], filternames=list(sub))
            ctx.equal(np.asarray(s2.get_param_vector(), float), want[0], "source with its filters replaced")
            if m == nb and rng.random() < 0.5:
                sc = sc2
                bands = sub
                allcols = list(bands) + cols
                shadow = want
                xtra = [xtra[k] for k in perm]
                fixed = [False] * n
            verify("round trip")
        elif K is Galaxy:                                # proposals
            ctx.count("proposals")
            for active in (True, False):
                who = [k for k in range(n) if fixed[k] != active]
                if not who:
                    continue
                if not free:
                    for k in who:
                        sc.sources[k].sersic, sc.sources[k].rhalf = 2.0, 0.1
                pr = sc.get_proposal(active=active)
                ctx.check(pr.dtype == source_struct_dtype and len(pr) == len(who), "shape of the proposal")
                held = pr.copy()
                for p, k in enumerate(who):
                    f32 = lambda x: np.asarray(x, np.float32)
                    ctx.equal(pr[p]["fluxes"][:nb], f32(shadow[k][:nb]), "proposal fluxes", source=k)
                    d = dict(zip(cols, shadow[k][nb:]))
                    for c, nm in dict(ra="ra", dec="dec", q="q", pa="pa", sersic="nsersic", rhalf="rh").items():
                        if c in d:
                            ctx.equal(pr[p][nm], f32(d[c]), "proposal " + c, source=k)
                    s = sc.sources[k]
                    for nm, a in dict(mixture_amplitudes="amplitudes", damplitude_drh="damplitude_drh", damplitude_dnsersic="damplitude_dsersic").items():
                        ctx.equal(pr[p][nm][:s.n_gauss], f32(getattr(s, a)), "proposal " + nm, source=k)
                # a proposal in hand does not follow later changes of the scene
                if active:
                    th = np.array([value(rng, c) for k in who for c in allcols])
                    sc.set_all_source_params(th)
                    for p, k in enumerate(who):
                        shadow[k] = list(th[p * len(allcols):(p + 1) * len(allcols)])
                    sc.get_proposal()
                    ctx.check(held.tobytes() == pr.tobytes(), "a proposal changed after it was returned")
                    verify("proposal")
    ctx.sample(bands=bands, n=n, theta=np.concatenate(shadow)[:8])


def slots(ctx, rng):
    """Slots of the proposal beyond the bands and radii in use do not reach the result."""
    from forcepho.proposal import CPUProposer
    from fpv.world import World, cpu_patch
    w = World(rng, ctx.tmp)
    w.write(rng)
    patch = cpu_patch(w)
    scene = patch.scene_used
    pro = CPUProposer()
    patch.send_to_device()
    patch.return_residual = False
    pr = scene.get_proposal()
    nb, ng = len(scene.sources[0].filternames), scene.sources[0].n_gauss
    base = pro.evaluate_proposal(pr.copy(), patch=patch)
    for fill in (np.nan, np.inf, 1e30, 0.0):
        p2 = pr.copy()
        p2["fluxes"][:, nb:] = fill
        for nm in ("mixture_amplitudes", "damplitude_drh", "damplitude_dnsersic"):
            p2[nm][:, ng:] = fill
        r = pro.evaluate_proposal(p2, patch=patch)
        ctx.equal(np.asarray(r[0]), np.asarray(base[0]), "chi-square depends on unused slots", fill=str(fill))
        ctx.equal(np.asarray(r[1]), np.asarray(base[1]), "derivatives depend on unused slots", fill=str(fill))
        ctx.count("kernel_slots")
    ctx.sig("slots", nb, ng)

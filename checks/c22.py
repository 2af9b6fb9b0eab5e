"""C22: catalog ingestion keeps sources and normalises conventions."""
import os

import numpy as np
from astropy.io import fits

from fpv.world import SHAPES

PROPERTY = "C22"
NEEDS_KERNEL = False
TECHNIQUE = "runtime monitor: catalogs written to disk, ingested and handed to scenes, every cell compared with the row it came from"
RULE = "distinct (source of the table, byte order/type, extra columns, out-of-range shapes, rotation, scene class) combinations ingested"
ASSUMPTIONS = ["position angles given to convert_pa are floating point arrays within 4.5 half turns of zero", "catalogs name their bands in the header of the file"]
CASES = {"quick": 400, "thorough": 12000}
MIN = {"rows": 3000, "clipped": 500, "angles": 3000, "refused": 300, "scenes": 100, "big_ids": 30}
KEYS = ("rhalf", "q", "sersic", "pa")
DEFAULT = dict(rhalf=(0.051, 0.29), q=(0.2, 0.99), sersic=(1.01, 4.99), pa=(-2.0, 2.0))


def make(ctx):
    rng = ctx.rng
    n, nb = int(rng.integers(1, 40)), int(rng.integers(1, 6))
    bands = ["F%03d%s" % (x, rng.choice(["W", "M", "N"])) for x in rng.permutation(800)[:nb] + 100]
    if rng.random() < 0.4:
        bands = [["%s", "HST_%s", "wfc3_%s", "Nir%sb", "f_%s"][int(rng.integers(5))] % (b.lower() if rng.random() < 0.5 else b) for b in bands]
    ft = str(rng.choice(["<f8", ">f8", ">f8", "<f4"]))
    idt = str(rng.choice(["<i4", ">i8", ">i2"]))
    cols = [(c, ft) for c in SHAPES + bands]
    idmax = {"i4": 2 ** 31 - 1, "i8": 2 ** 62, "i2": 2 ** 15 - 1}[idt[1:]]
    if rng.random() < 0.9:
        cols.append(("id", idt))
    extra = int(rng.integers(0, 4))
    cols += [("EXTRA%d" % k, ["f8", "i4", "U7"][k % 3]) for k in range(extra)]
    if rng.random() < 0.3:
        cols += [("n_iter", "i4"), ("n_patch", "i4"), ("roi", "f4"), ("source_index", "i4"), ("is_valid", "i4")]
    cols = [cols[k] for k in rng.permutation(len(cols))]
    cat = np.zeros(n, dtype=cols)
    for b in bands:
        cat[b] = 10 ** rng.uniform(-3, 4, n) * rng.choice([1, 1, -1], n)
    cat["ra"], cat["dec"] = rng.choice([0.001, 53.1, 359.99]) + rng.uniform(0, 0.01, n), rng.uniform(-27.9, -27.7, n)
    lim = {k: ((v[0] - 0.6 * (v[1] - v[0]), v[1] + 0.6 * (v[1] - v[0])) if rng.random() < 0.7 else v) for k, v in DEFAULT.items()}
    for k in KEYS:
        cat[k] = rng.uniform(*lim[k], n)
        e = rng.random(n) < 0.1
        cat[k][e] = rng.choice([DEFAULT[k][0], DEFAULT[k][1], 0.0], e.sum())
    for c in cat.dtype.names:
        if c == "id":
            cat[c] = rng.integers(0, idmax, n)
        elif c.startswith("EXTRA"):
            cat[c] = np.full(n, np.nan) if cat.dtype[c].kind == "f" and rng.random() < 0.5 else rng.integers(0, 99, n).astype(cat.dtype[c])
        elif c in ("n_iter", "n_patch", "roi", "source_index", "is_valid"):
            cat[c] = rng.integers(0, 50, n)
    return cat, bands, extra


def case_catalog(ctx):
    from forcepho.superscene import LinkedSuperScene, SuperScene, rectify_catalog
    rng = ctx.rng
    cat, bands, extra = make(ctx)
    sep = str(rng.choice([",", ", ", " ,"]))
    hdr = fits.Header()
    hdr["FILTERS"] = sep.join(bands)
    hdr["NOTE"] = "x"
    kw, lim = {}, dict(DEFAULT)
    for k, name in zip(KEYS, ("rhalf_range", "sqrtq_range", "sersic_range", "pa_range")):
        if rng.random() < 0.25:
            a, b = DEFAULT[k]
            lim[k] = kw[name] = tuple(float(x) for x in np.sort(rng.uniform(a, b, 2)))
    rot, rev = bool(rng.random() < 0.3), bool(rng.random() < 0.3)
    if rot:
        kw["rotate"] = True
    if rev:
        kw["reverse"] = True
    ondisk = bool(rng.integers(2))
    keep = cat.copy()
    if ondisk:
        fn = os.path.join(ctx.tmp, "in%d.fits" % ctx.case)
        fits.HDUList([fits.PrimaryHDU(header=hdr), fits.BinTableHDU(cat)]).writeto(fn)
        raw = open(fn, "rb").read()
        out, ob, oh = rectify_catalog(fn, **kw)
        ctx.check(open(fn, "rb").read() == raw, "reading a catalog changes the file")
    else:
        out, ob, oh = rectify_catalog((cat, hdr), **kw)
        ctx.check(cat.tobytes() == keep.tobytes(), "reading a catalog changes the catalog given")
    ctx.check(list(ob) == bands, "bands of the catalog", got=list(ob), want=bands)
    ctx.check(oh["NOTE"] == "x", "header of the catalog")
    n = len(cat)
    ctx.check(len(out) == n, "number of sources", got=len(out), want=n)
    same = ["ra", "dec"] + bands + [c for c in ("id", "n_iter", "n_patch", "roi") if c in cat.dtype.names]
    for c in same:
        ctx.equal(np.array(out[c]).astype(cat.dtype[c].newbyteorder("=")), keep[c].astype(cat.dtype[c].newbyteorder("=")), "column %s is not that of the input" % c)
    if "id" in cat.dtype.names and keep["id"].max() > 2 ** 31:
        ctx.check([int(x) for x in out["id"]] == [int(x) for x in keep["id"]], "identifiers of the sources")
        ctx.count("big_ids")
    if "source_index" not in cat.dtype.names:
        ctx.equal(np.array(out["source_index"]), np.arange(n), "sources without a number are numbered by row")
    for k in KEYS:
        v = np.array(keep[k], float)
        want = np.where(v < lim[k][0], lim[k][0], np.where(v > lim[k][1], lim[k][1], v))
        got = np.array(out[k], float)
        ctx.count("clipped", int((want != v).sum()))
        if k != "pa" or not (rot or rev):
            ctx.equal(got, want, "shape column %s" % k, range=lim[k])
        else:
            w = want + (np.pi / 2 if rot else 0)
            w = -w if rev else w
            ctx.close(np.array([np.cos(2 * got), np.sin(2 * got)]), np.array([np.cos(2 * w), np.sin(2 * w)]), 1e-6 if "f4" in str(cat.dtype["pa"]) else 1e-12, "position angle after rotation or reversal", rotate=rot, reverse=rev)
            if rot:
                ctx.check(np.all(np.abs(got) <= np.pi / 2 + 1e-12), "rotated position angle outside of half a turn", got=got[np.abs(got) > np.pi / 2][:3])
    ctx.count("rows", n)
    if not (rot or rev):
        again, b2, _ = rectify_catalog((out, hdr), **kw)
        ctx.check(again.tobytes() == out.tobytes() and list(b2) == bands, "a clean catalog is changed when it is read again")
    # as a scene
    if n > 1 or rng.random() < 0.5:
        cls = [SuperScene, LinkedSuperScene][int(rng.integers(2))]
        c0 = out.copy()
        s = cls(out, bands=ob)
        ctx.check(s.n_sources == n and s.bands == bands, "sources or bands of the scene")
        ctx.equal(s.sourcecat["source_index"], np.arange(n), "sources of a scene are numbered by row")
        for c in bands + SHAPES + ["id"]:
            ctx.equal(np.array(s.sourcecat[c]), c0[c], "the scene changes column %s of its catalog" % c)
        ctx.check(np.all(s.sourcecat["is_valid"] == 1) and np.all(s.sourcecat["is_active"] == 0), "state of a new scene")
        for c in bands + SHAPES:
            lo, hi = s.bounds_catalog[c][:, 0], s.bounds_catalog[c][:, 1]
            ctx.check(np.all(lo < hi), "bounds of a new scene", column=c)
        ctx.count("scenes")
    # what cannot be used is refused
    bad = keep.copy()
    c = str(rng.choice(bands + SHAPES))
    bad[c][rng.integers(n)] = rng.choice([np.nan, np.inf, -np.inf])
    ctx.raises(lambda: rectify_catalog((bad, hdr)), "a catalog with a value that is not finite is accepted", column=c)
    drop = str(rng.choice(bands + SHAPES))
    left = [x for x in keep.dtype.names if x != drop]
    small = np.zeros(n, dtype=[(x, keep.dtype[x]) for x in left])
    for x in left:
        small[x] = keep[x]
    ctx.raises(lambda: rectify_catalog((small, hdr)), "a catalog without a needed column is accepted", column=drop)
    ctx.count("refused", 2)
    ctx.sig("cat", ondisk, str(cat.dtype["ra"]), extra > 0, "id" in cat.dtype.names, rot, rev, len(kw) > 0)
    ctx.sample(sources=n, bands=len(bands), rotate=rot, reverse=rev)


def case_angles(ctx):
    from forcepho.superscene import convert_pa
    rng = ctx.rng
    for _ in range(4):
        n = int(rng.integers(1, 30))
        lim = float(rng.choice([0.5, 1, 2, 4.49])) * np.pi
        a = rng.uniform(-lim, lim, n)
        e = rng.random(n) < 0.2
        a[e] = rng.choice([0, 0.5, -0.5, 1, -1], e.sum()) * np.pi
        deg, rot, rev = [bool(x) for x in rng.integers(0, 2, 3)]
        x = np.rad2deg(a) if deg else a.copy()
        f4 = bool(rng.random() < 0.2)
        if f4:
            x = x.astype(np.float32)
        x0 = x.copy()
        kw = {}
        for k, v in (("from_deg", deg), ("rotate", rot), ("reverse", rev)):
            if v or rng.random() < 0.5:
                kw[k] = v
        y = np.array(convert_pa(x, **kw), float)
        ctx.equal(x, x0, "converting position angles changes the input")
        w = np.array(np.deg2rad(x0.astype(float)) if deg else x0, float) + (np.pi / 2 if rot else 0)
        w = -w if rev else w
        tol = 1e-5 if f4 else 1e-12
        ctx.close(np.array([np.cos(2 * y), np.sin(2 * y)]), np.array([np.cos(2 * w), np.sin(2 * w)]), tol, "a converted position angle is another direction", deg=deg, rotate=rot, reverse=rev)
        ctx.check(np.all(np.abs(y) <= np.pi / 2 + tol), "a converted position angle is outside of half a turn", got=y[np.abs(y) > np.pi / 2][:3])
        ctx.count("angles", n)
        ctx.sig("pa", deg, rot, rev, f4, lim)


def case(ctx, i):
    if i % 3 == 2:
        return case_angles(ctx)
    return case_catalog(ctx)

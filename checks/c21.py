"""C21: catalogs made from the chains of a run report each source's own samples."""
import json
import os

import numpy as np
from astropy.io import fits

from scipy.special import gamma, gammaincinv

from fpv.world import SHAPES

PROPERTY = "C21"
NEEDS_KERNEL = False
TECHNIQUE = "runtime monitor: run directories recorded by the real scene bookkeeping and result writer, catalogs compared with the monitor's own record of every draw"
RULE = "distinct (catalog kind, patches, sources in several patches, never fitted, bands, draws, precision matrices, selection) combinations summarised"
ASSUMPTIONS = ["all patches of a run have the same bands and numbers of tuning and kept draws", "a run directory holds one scene catalog"]
CASES = {"quick": 240, "thorough": 4000}
MIN = {"rows": 1000, "unfitted": 150, "multipatch": 200, "precisions": 60, "errorbars": 100, "groups": 60, "appended": 30, "regions": 200}


def make_run(ctx):
    """A run directory and the monitor's own record of it."""
    from forcepho.fitting import Result
    from forcepho.superscene import SuperScene, sourcecat_dtype
    from forcepho.utils import make_chaincat
    rng = ctx.rng
    ns, nb = int(rng.integers(2, 25)), int(rng.integers(1, 5))
    bands = ["F%03dW" % x for x in rng.permutation(400)[:nb] + 100]
    cat = np.zeros(ns, dtype=sourcecat_dtype(bands=bands))
    for b in bands:
        cat[b] = 10 ** rng.uniform(-2, 3, ns) * rng.choice([1, 1, 1, -1], ns)
    cat["ra"], cat["dec"] = 53.1 + rng.uniform(-1, 1, ns) / 60, -27.8 + rng.uniform(-1, 1, ns) / 60
    cat["rhalf"], cat["sersic"], cat["q"], cat["pa"] = rng.uniform(0.05, 0.3, ns), rng.uniform(1, 5, ns), rng.uniform(0.4, 1, ns), rng.uniform(-1.5, 1.5, ns)
    cat["id"] = rng.permutation(100000)[:ns] * int(rng.choice([1, 2 ** 40]))
    root = os.path.join(ctx.tmp, "run%d" % ctx.case)
    os.makedirs(root + "/patches")
    cfg = dict(bandlist=bands, raw_catalog=os.path.join(root, "raw", "cat.fits"), gtol=1e-5)
    name = str(rng.choice(["superscene", "outscene", "outscene_2"]))
    if name != "superscene" or rng.random() < 0.5:
        cfg["scene_catalog"] = name + ".fits"
    with open(root + "/config.json", "w") as f:
        json.dump(cfg, f)
    scene = SuperScene(sourcecat=cat.copy(), bands=bands, statefile="%s/%s.fits" % (root, name))
    nsamp, ntune = int(rng.integers(1, 12)), int(rng.integers(0, 9))
    prec_mode = str(rng.choice(["none", "some", "all"]))
    npatch = int(rng.integers(1, 7))
    pids = [int(p) for p in (np.arange(npatch) if rng.random() < 0.5 else rng.permutation(30)[:npatch])]
    fitted = rng.permutation(ns)[:int(rng.integers(1, ns + 1))]
    rec = {}
    n = nb + 6
    for p in pids:
        act = rng.permutation(fitted)[:int(rng.integers(1, min(8, len(fitted)) + 1))]
        active = np.array(scene.sourcecat[act])
        ref = np.array([53.1, -27.8]) + rng.normal(0, 0.01, 2)
        lo, hi = np.append([-20.0] * nb, [-0.01, -0.01, 0.4, -1.5, 1, 0.03]), np.append([50.0] * nb, [0.01, 0.01, 1, 1.5, 5, 0.3])   # in the order of SHAPES
        chain = rng.uniform(np.tile(lo, len(act)), np.tile(hi, len(act)), (ntune + nsamp, len(act) * n))
        r = Result()
        r.chain = chain
        r.bandlist, r.shapenames, r.reference_coordinates = np.array(bands, dtype="S"), np.array(SHAPES, dtype="S"), ref
        r.active, r.ra, r.dec, r.radius = active, float(ref[0]), float(ref[1]), float(rng.uniform(1e-4, 1e-3))
        if rng.random() < 0.7:
            r.chaincat = make_chaincat(chain, bands, active, ref)
        st = np.zeros(ntune + nsamp, dtype=[("depth", "i8"), ("tune", "?"), ("model_logp", "f8")])
        st["tune"][:ntune] = True
        st["model_logp"] = rng.normal(0, 100, len(st))
        r.stats, r.n_tune, r.n_sample, r.wall_time, r.patchID = st, ntune, nsamp, float(rng.uniform(1, 1000)), p
        r.config = json.dumps(cfg)
        fin = active.copy()
        for k, c in enumerate(bands + SHAPES):
            fin[c] = chain[-1, np.arange(len(act)) * n + k] + {"ra": ref[0], "dec": ref[1]}.get(c, 0)
        r.final = fin
        pr = None
        if prec_mode == "all" or (prec_mode == "some" and rng.random() < 0.5):
            A = rng.normal(size=(nb, len(act), len(act)))
            scale = 10 ** rng.uniform(-2, 3, (nb, 1, len(act)))
            pr = np.einsum("bij,bkj->bik", A, A) + np.eye(len(act))
            pr = pr * scale * scale.transpose(0, 2, 1)
            r.precisions = pr.copy()
        r.dump_to_h5("%s/patches/patch%d_samples.h5" % (root, p))
        scene.checkin_region(fin, None, niter=nsamp, taskID=p)
        rec[p] = dict(act=[int(a) for a in act], ids=active["id"].copy(), lnp=st["model_logp"][ntune:].copy(), wall=r.wall_time, prec=pr, final=fin, region=(r.ra, r.dec, r.radius),
                      draws={c: np.array([chain[:, j * n + k] + {"ra": ref[0], "dec": ref[1]}.get(c, 0) for j in range(len(act))]) for k, c in enumerate(bands + SHAPES)}, ntune=ntune)
    scene.writeout()
    return root, name, cfg, bands, pids, rec, scene, nsamp


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.join(d, f)] = h.read()
    return out


def check_rows(ctx, cat, sel, rec, bands, ns, nsamp):
    last = {}
    for p in sel:
        for j, s in enumerate(rec[p]["act"]):
            last[s] = (p, j)
    ctx.check(len(cat) == ns, "the sample catalog does not have a row for every source", got=len(cat), want=ns)
    for s in range(ns):
        if s not in last:
            ctx.check(cat["id"][s] == -1, "a source that was never fitted is not flagged", source=s)
            for c in bands + SHAPES + ["lnp"]:
                ctx.check(np.all(np.isnan(cat[c][s]) | (np.atleast_1d(cat[c][s]) == 0)), "samples were made up for a source that was never fitted", source=s, column=c)
            ctx.count("unfitted")
            continue
        p, j = last[s]
        r = rec[p]
        ctx.check(cat["id"][s] == r["ids"][j] and cat["source_index"][s] == s and cat["patch_id"][s] == p, "identifiers of a source in the sample catalog", source=s,
                  got=(int(cat["id"][s]), int(cat["source_index"][s]), int(cat["patch_id"][s])), want=(int(r["ids"][j]), s, p))
        ctx.close(cat["wall"][s], r["wall"], 1e-6 * r["wall"], "wall time of a source")
        ctx.equal(np.atleast_1d(cat["lnp"][s]), r["lnp"], "log-probabilities of the draws of a source", source=s)
        for c in bands + SHAPES:
            ctx.equal(np.atleast_1d(cat[c][s]), r["draws"][c][j][r["ntune"]:], "draws of a source", source=s, column=c, patch=p)
        ctx.count("rows")


def stale(ctx, path):
    """Sometimes the product of an earlier post-processing is still there."""
    if ctx.rng.random() < 0.4:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if path.endswith(".fits"):
            fits.writeto(path, np.arange(12.0).reshape(3, 4), overwrite=True)
        else:
            open(path, "w").write("fk5\n" + 400 * "circle(10.0,20.0,1.0\")\n")
        ctx.count("stale_product")


def case_run(ctx):
    from forcepho import postprocess as pp
    rng = ctx.rng
    root, name, cfg, bands, pids, rec, scene, nsamp = make_run(ctx)
    final = scene.sourcecat
    ns = len(final)
    before = snapshot(root)
    same = lambda what: ctx.check({k: v for k, v in snapshot(root).items() if k in before} == before, "%s changes the files of the run" % what)
    conf, plog, slog, fin = pp.run_metadata(root)
    ctx.check(conf == cfg and [str(p) for p in plog] == [str(p) for p in pids], "configuration or order of patches", got=plog, want=pids)
    where = {}
    for p in pids:
        for s in rec[p]["act"]:
            where.setdefault(s, []).append(p)
    ctx.check({int(k): [int(x) for x in v] for k, v in slog.items()} == where, "patches of each source", got=slog, want=where)
    for c in final.dtype.names:
        ctx.equal(np.array(fin[c]), final[c], "final catalog of the run", column=c)
    # samples
    if nsamp > 1:
        out = os.path.join(ctx.tmp, "post%d.fits" % ctx.case)
        write = rng.random() < 0.6
        if write:
            stale(ctx, out)
        cat = pp.postsample_catalog(root, catname=out if write else None)
        check_rows(ctx, cat, pids, rec, bands, ns, nsamp)
        sel = [int(p) for p in rng.permutation(pids)[:int(rng.integers(1, len(pids) + 1))]]
        sel = [str(p) for p in sel] if rng.random() < 0.3 else sel
        check_rows(ctx, pp.postsample_catalog(root, patches=list(sel)), [int(p) for p in sel], rec, bands, ns, nsamp)
        same("making a sample catalog")
        if os.path.exists(out):
            tab, hdr = fits.getdata(out), fits.getheader(out)
            ctx.check(hdr["FILTERS"].split(",") == bands, "bands in the header of the sample catalog", got=hdr["FILTERS"])
            check_rows(ctx, tab, pids, rec, bands, ns, nsamp)
        # error bars
        pct = [[16, 50, 84], [2.5, 97.5], [50], [0, 100], [float(x) for x in rng.uniform(0, 100, 4)], [84, 16, 50]][int(rng.integers(6))]
        keep = cat.copy()
        kw = {} if pct == [16, 50, 84] else dict(percentiles=pct)
        e, h = (pp.make_errorbars(out, **kw) if os.path.exists(out) and rng.random() < 0.6 else pp.make_errorbars(cat, **kw))
        ctx.check(cat.tobytes() == keep.tobytes(), "making error bars changes the samples")
        ctx.check(h["PCTS"] == ",".join(str(p) for p in pct) and h["SMPLCOLS"].split(",") == ["lnp"] + bands + SHAPES, "header of the error bars", got=dict(h) if isinstance(h, dict) else None)
        for c in ["lnp"] + bands + SHAPES:
            srt = np.sort(cat[c], axis=-1)
            x = np.array(pct) / 100. * (nsamp - 1)
            lo = np.clip(np.floor(x).astype(int), 0, nsamp - 1)
            hi = np.clip(lo + 1, 0, nsamp - 1)
            want = srt[:, lo] + (x - lo) * (srt[:, hi] - srt[:, lo])
            ctx.close(np.asarray(e[c]).reshape(ns, -1), want, 1e-12 * (1 + np.abs(want)), "percentiles of the samples of a source", column=c)
        for c in ("id", "source_index", "patch_id", "wall"):
            ctx.equal(np.array(e[c]), cat[c], "error bar catalog column %s" % c)
        ctx.count("errorbars")
    # uncertainties
    lastp = {}
    for p in pids:
        if rec[p]["prec"] is not None:
            for j, s in enumerate(rec[p]["act"]):
                lastp[s] = (p, j)
    snr = float(rng.choice([1000, 20]))
    unc = pp.flux_unc_linear(root, snr_max=snr) if snr != 1000 or rng.random() < 0.5 else pp.flux_unc_linear(root)
    ctx.equal(np.array(unc["id"]), final["id"], "identifiers of the uncertainties")
    ctx.equal(np.array(unc["source_index"]), final["source_index"], "source indices of the uncertainties")
    for i, b in enumerate(bands):
        for s in range(ns):
            f = float(final[b][s])
            if s not in lastp:
                noise = np.sqrt(abs(f))
                lo = min(f - noise, -0.25) if f <= 0.25 else f - noise
                want = [max(abs(lo - f), abs(max(f + noise, 0.25) - f))]
            else:
                p, j = lastp[s]
                sig = np.sqrt(np.linalg.inv(rec[p]["prec"][i])[j, j])
                pf = float(rec[p]["final"][b][j])
                want = [max(sig, pf / snr), max(sig, abs(pf) / snr)]
                ctx.count("precisions")
            ctx.check(min(abs(unc[b][s] - x) / (abs(x) + 1e-12) for x in want) < 1e-6, "flux uncertainty of a source", source=s, band=b, got=float(unc[b][s]), want=want, from_precision=s in lastp)
    # catalog for a later run
    if 0 in pids:
        out = os.path.join(ctx.tmp, "postop%d.fits" % ctx.case)
        if rng.random() < 0.3:
            os.makedirs(root + "/raw")
            out = root + "/raw/cat_postop.fits"
            stale(ctx, out)
            pp.postop_catalog(root)
        elif rng.random() < 0.5:
            pp.postop_catalog(root, catname=out, bands=bands[::-1])
        else:
            stale(ctx, out)
            pp.postop_catalog(root, catname=out)
        with fits.open(out) as hd:
            ctx.check(sorted(hd[0].header["FILTERS"].split(",")) == sorted(bands), "bands of the catalog after optimisation")
            t = hd[1].data
            for c in final.dtype.names:
                ctx.equal(np.array(t[c]), final[c] * 0 if c in ("n_iter", "n_patch") else final[c], "catalog after optimisation", column=c)
            for b in bands:
                ctx.close(np.array(hd[2].data[b], float), np.array(pp.flux_unc_linear(root)[b], float), 1e-12, "uncertainties in the catalog after optimisation")
    # sources in several patches
    ss, ps, cs = pp.find_multipatch(root)
    ctx.check(sorted(int(s) for s in ss) == sorted(s for s in where if len(where[s]) > 1), "sources in several patches", got=list(ss))
    stats = pp.check_multipatch(root, n_sample=int(nsamp))
    for s, p, c in zip(ss, ps, cs):
        s0 = int(s)
        ctx.check([int(x) for x in p] == where[s0] and len(c) == len(p), "patches of a source in several patches", source=s0)
        for k, x in enumerate(where[s0]):
            j = rec[x]["act"].index(s0)
            for col in bands + SHAPES:
                d = rec[x]["draws"][col][j]
                ctx.equal(np.atleast_1d(c[col][k])[-nsamp:], d[-nsamp:], "chain of a source in several patches", source=s0, patch=x, column=col)
                m, sd = stats[s][col]
                ctx.close(m[k], d[-nsamp:].mean(), 1e-9 * (1 + np.abs(d).max()), "mean of a source in several patches")
                ctx.close(sd[k], d[-nsamp:].std(), 1e-9 * (1 + np.abs(d).max()), "spread of a source in several patches")
        ctx.count("multipatch")
    # regions
    from regions import Regions
    pl = ["%s/patches/patch%d_samples.h5" % (root, p) for p in pids]
    keep = list(pl)
    stale(ctx, os.path.join(ctx.tmp, "p%d.reg" % ctx.case))
    pp.write_patchreg(pl, plist=os.path.join(ctx.tmp, "p%d.reg" % ctx.case))
    ctx.check(pl == keep, "writing patch regions changes the list of patches")
    regs = Regions.read(os.path.join(ctx.tmp, "p%d.reg" % ctx.case), format="ds9")
    ctx.check(len(regs) == len(pids), "number of patch regions")
    for p, g in zip([pids[k] for k in np.argsort(pl)], regs):
        ctx.close([g.center.ra.deg, g.center.dec.deg, g.radius.to("deg").value], rec[p]["region"], 1e-8, "region of a patch")
    if name.startswith("outscene"):
        show = bool(rng.integers(2))
        stale(ctx, root + "/image/sources.reg")
        pp.write_sourcereg(root, showid=show)
        regs = Regions.read(root + "/image/sources.reg", format="ds9")
        source_regions(ctx, regs, final, final["rhalf"], show)
        b, level = bands[-1], float(10 ** rng.uniform(-1, 2))
        with np.errstate(all="ignore"):
            pp.write_sourcereg(root, slist="iso.reg", isophote=(b, level))
            n_, f_, r_ = [np.array(final[c], float) for c in ("sersic", b, "rhalf")]
            k = gammaincinv(2 * n_, 0.5)
            Ie = f_ * k ** (2 * n_) / (np.exp(k) * n_ * gamma(2 * n_) * 2 * np.pi * r_ ** 2)   # of a profile with total flux f_
            roi = r_ * (1 - np.log(level / Ie) / k) ** n_
        roi[np.isnan(roi)] = r_[np.isnan(roi)]
        source_regions(ctx, Regions.read(root + "/image/iso.reg", format="ds9"), final, roi, False)
    if rng.random() < 0.15:
        chain_pages(ctx, pp, root, int(rng.choice(pids)), rec, bands)
    same("post-processing")
    ctx.sig("run", min(len(pids), 4), max(len(v) for v in where.values()) > 1, len(where) < ns, len(bands), nsamp > 1, len(lastp) > 0)
    ctx.sample(patches=len(pids), sources=ns, fitted=len(where), draws=nsamp)


def source_regions(ctx, regs, cat, roi, show):
    """Ellipses on the sky: position, axis ratio, scale with roi, and orientation against the model's own covariance."""
    ctx.check(len(regs) == len(cat), "number of source regions", got=len(regs))
    scales = []
    for j, g in enumerate(regs):
        ctx.close([g.center.ra.deg, g.center.dec.deg], [cat["ra"][j], cat["dec"][j]], 2e-6, "position of a source region")
        if not (roi[j] > 0.01 and 0.2 < cat["q"][j] < 0.95):
            continue
        a, b, th = g.width.to("arcsec").value, g.height.to("arcsec").value, np.deg2rad(g.angle.to("deg").value)
        # longitude increases to the east, region angles go from west to north
        u = np.array([[-np.cos(th), np.sin(th)], [np.sin(th), np.cos(th)]])   # rows: width and height axes in (E, N)
        C = a ** 2 * np.outer(u[0], u[0]) + b ** 2 * np.outer(u[1], u[1])
        q, pa = float(cat["q"][j]), float(cat["pa"][j])
        R = np.array([[np.cos(pa), -np.sin(pa)], [np.sin(pa), np.cos(pa)]])
        M = R @ np.diag([1 / q ** 2, q ** 2]) @ R.T * roi[j] ** 2
        s = np.sqrt(np.trace(C) / np.trace(M))
        ctx.close(C / s ** 2, M, 2e-3 * np.trace(M), "orientation or axis ratio of a source region", pa=pa, q=q)
        scales.append(s)
        if show:
            ctx.check(str(g.meta.get("text", "")) == str(cat["id"][j]), "label of a source region", got=str(g.meta), want=str(cat["id"][j]))
        ctx.count("regions")
    if scales:
        ctx.close(scales, np.median(scales), 2e-3 * np.median(scales), "source regions are not drawn to the same scale")


def chain_pages(ctx, pp, root, p, rec, bands):
    """One page per source with the chain of each of its parameters."""
    from matplotlib.backends.backend_pdf import PdfPages
    pages = []
    orig = PdfPages.savefig
    s = pp.Samples("%s/patches/patch%d_samples.h5" % (root, p))
    lim = None
    if ctx.rng.random() < 0.5:
        lim = s.bounds = np.zeros(len(s.active), dtype=[(c, "f8", (2,)) for c in bands + SHAPES])
        for k, c in enumerate(bands + SHAPES):
            lim[c] = np.array([-1.0, 1.0]) * (1 + k + np.arange(len(lim)))[:, None]

    def savefig(self, fig, **kw):
        fig.canvas.draw()
        pages.append([(a.get_ylabel(), [np.array(l.get_data()) for l in a.lines], a.get_ylim()) for a in fig.axes if a.lines])
    PdfPages.savefig = savefig
    try:
        pp.chain_pdf(s, fn=os.path.join(ctx.tmp, "chain%d.pdf" % ctx.case), dh=0.5)
    finally:
        PdfPages.savefig = orig
    r = rec[p]
    ctx.check(len(pages) == len(r["act"]), "one page for each source", got=len(pages), want=len(r["act"]))
    for j, page in enumerate(pages):
        ctx.check(sorted(a[0] for a in page) == sorted(bands + SHAPES), "parameters shown for a source", got=[a[0] for a in page])
        for c, lines, yl in page:
            d = np.atleast_1d(r["draws"][c][j])
            ctx.equal(lines[0][1], d, "chain shown for a parameter of a source", column=c, source=j)
            ctx.equal(lines[0][0], np.arange(len(d)), "iterations shown")
            ctx.check(len(lines) == 2 and np.all(np.asarray(lines[1][1], float) == float(s.active[c][j])), "starting value shown for a parameter", column=c, source=j)
            if lim is not None:
                ctx.close(yl, lim[c][j], 1e-12, "range shown is not that of the bounds", column=c, source=j)
            ctx.count("chains_shown")
    ctx.sig("pages", len(bands), lim is not None, min(r["ntune"], 1))


def sources_shown(ctx):
    """Catalogs as regions, straight from a table or file."""
    from forcepho.superscene import sourcecat_dtype
    from forcepho.utils import annotate_regions, cat_to_regions
    rng = ctx.rng
    n = int(rng.integers(1, 20))
    cat = np.zeros(n, dtype=sourcecat_dtype(bands=["F1"]))
    cat["id"] = rng.permutation(1000)[:n]
    cat["ra"], cat["dec"] = rng.uniform(0, 360, n), rng.uniform(-80, 80, n)
    cat["q"], cat["pa"], cat["rhalf"] = rng.uniform(0.3, 0.94, n), rng.uniform(-1.57, 1.57, n), rng.uniform(0.05, 0.5, n)
    cat["roi"] = 10 ** rng.uniform(-1, 1, n)
    arg = cat
    if rng.random() < 0.5:
        arg = os.path.join(ctx.tmp, "cat%d.fits" % ctx.case)
        fits.writeto(arg, cat, overwrite=True)
    roi = None if rng.random() < 0.5 else 10 ** rng.uniform(-1, 1, n)
    raw = cat.tobytes()
    ell, show = bool(rng.random() < 0.7), bool(rng.integers(2))
    regs = cat_to_regions(arg, roi=roi, ellipse=ell, showid=show)
    want = cat.copy()
    size = cat["roi"] if roi is None else roi
    if ell:
        source_regions(ctx, regs, want, size, show)
    else:
        ctx.check(len(regs) == n, "number of source regions")
        a = np.array([[g.width.to("arcsec").value, g.height.to("arcsec").value] for g in regs])
        ctx.close(a[:, 0], a[:, 1], 1e-9 * a[:, 0], "source regions that should be round")
        ctx.close(a[:, 0] / size, a[0, 0] / size[0], 1e-6, "size of round source regions")
        for j, g in enumerate(regs):
            ctx.close([g.center.ra.deg, g.center.dec.deg], [cat["ra"][j], cat["dec"][j]], 1e-9, "position of a source region")
    for j, g in enumerate(regs):
        ctx.check(str(g.meta.get("text", "")) == (str(cat["id"][j]) if show else ""), "label of a source region", got=str(g.meta))
    cols = [str(rng.choice(["red", "blue", "cyan"])) for _ in range(n)]
    out = annotate_regions(regs, ids=cat["id"][::-1], colors=cols)
    for j, g in enumerate(out):
        ctx.check(g.visual["color"] == cols[j] and g.meta["text"] == str(cat["id"][::-1][j]), "annotation of a region", j=j)
    ctx.equal(cat.tobytes(), raw, "making regions changed the catalog")
    ctx.sig("shown", ell, show, roi is None, isinstance(arg, str))


def case_tables(ctx):
    from forcepho.utils.catalog import append_catalogs, combine_chains, out_dtype, pctile_cat, write_table
    rng = ctx.rng
    bands = ["F%03dW" % x for x in rng.permutation(400)[:int(rng.integers(1, 4))] + 100]
    ns, npt = int(rng.integers(1, 9)), int(rng.integers(4, 20))
    strid = bool(rng.integers(2))
    dt = [("id", "U20" if strid else "i8")] + [(c, "f8", (npt,)) for c in bands + SHAPES]
    cat = np.zeros(ns, dtype=dt)
    ids = rng.permutation(1000)[:ns]
    cat["id"] = ["s%d" % x for x in ids] if strid else ids
    for c in bands + SHAPES:
        cat[c] = rng.normal(size=(ns, npt))
    groups = {}
    for g in range(int(rng.integers(1, 5))):
        m = rng.permutation(ns)[:int(rng.integers(1, ns + 1))]
        groups[["g%d" % g, g][int(rng.integers(2))]] = [cat["id"][k].item() for k in m]
    keep = cat.copy()
    oc, hdr = combine_chains(cat, bands, groups=groups)
    ctx.check(cat.tobytes() == keep.tobytes(), "combining sources changes the chains")
    ctx.check(len(oc) == len(groups), "number of combined sources")
    idl = cat["id"].tolist()
    for k, (g, mem) in enumerate(groups.items()):
        ctx.check(str(oc["id"][k]) == str(g) and hdr["G%s" % g] == ",".join(str(m) for m in mem), "name of a combined source")
        ii = [idl.index(m) for m in mem]
        for c in bands:
            ctx.close(oc[c][k], sum(cat[c][j] for j in ii), 1e-12 * len(ii) * 10, "flux of a combined source", column=c)
        for c in ("ra", "dec"):
            ctx.close(oc[c][k], sum(cat[c][j] for j in ii) / len(ii), 1e-11, "position of a combined source", column=c)
        ctx.count("groups")
    ctx.raises(lambda: combine_chains(cat, bands, groups={"x": ["nothing like it"]}), "sources that do not exist are combined")
    # appending
    files, parts = [], []
    named = bool(rng.integers(2))
    exts = ["MOMENT", "SAMPLES", "BEST", "PERCENTILES"]
    pts = [0, npt, 0, 3]
    for f in range(int(rng.integers(1, 4))):
        n = int(rng.integers(1, 6))
        tabs = []
        for p in pts:
            t = np.zeros(n, dtype=out_dtype(npoint=p, bands=bands) if p else np.dtype([("id", "U30"), ("wall", "f4")] + [(c, float) for c in bands + SHAPES]))
            for c in t.dtype.names:
                t[c] = (["%d_%d" % (f, k) for k in range(n)] if c == "id" else rng.integers(0, 99, t[c].shape) if t.dtype[c].kind == "i" else rng.normal(size=t[c].shape))
            tabs.append(t)
        fn = os.path.join(ctx.tmp, "a%d_%d.fits" % (ctx.case, f))
        order = list(range(4)) if not named else [int(x) for x in rng.permutation(4)]
        write_table(fn, [tabs[o] for o in order], extnames=[exts[o] for o in order] if named else [], FILTERS=",".join(bands), RUN=7)
        files.append(fn)
        parts.append(tabs)
    out = os.path.join(ctx.tmp, "all%d.fits" % ctx.case)
    append_catalogs(files, out)
    with fits.open(out) as hd:
        ctx.check([h.name for h in hd[1:]] == exts, "names of the appended tables", got=[h.name for h in hd[1:]])
        for k, e in enumerate(exts):
            got = hd[e].data
            for c in parts[0][k].dtype.names:
                want = np.concatenate([t[k][c] for t in parts])
                ctx.check(len(got) == len(want) and c in got.dtype.names, "rows or columns of an appended table", table=e, column=c, got=len(got), want=len(want))
                x = np.array(got[c])
                if x.dtype.kind in "US":
                    ctx.check([str(a) for a in x] == [str(a) for a in want], "an appended table", table=e, column=c)
                else:
                    ctx.equal(x, want, "an appended table", table=e, column=c)
            ctx.check(hd[e].header.get("FILTERS") == ",".join(bands) and hd[e].header.get("RUN") == 7, "header values of the appended tables")
    ctx.count("appended")
    # plain percentiles of structured samples
    pct = rng.uniform(0, 100, int(rng.integers(1, 5))).tolist()
    e, h = pctile_cat(cat, percentiles=pct)
    for c in bands + SHAPES:
        for k, p in enumerate(pct):
            frac = (cat[c] <= np.asarray(e[c]).reshape(ns, -1)[:, k][:, None] + 1e-12).sum(axis=1)
            ctx.check(np.all(np.abs(frac - (1 + p / 100 * (npt - 1))) <= 1), "a percentile does not have its share of the samples below it", column=c, percentile=p)
    ctx.count("errorbars")
    ctx.sig("tables", strid, len(groups), len(files), named, len(pct))


def case(ctx, i):
    if i % 12 == 5:
        return sources_shown(ctx)
    if i % 4 == 3:
        return case_tables(ctx)
    return case_run(ctx)

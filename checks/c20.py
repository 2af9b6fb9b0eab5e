"""C20: residual files hold the patch, and images reassembled from them are pixel-exact."""
import argparse
import glob
import os

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS

from checks.c18 import make_bounds
from fpv.world import World, cpu_patch

PROPERTY = "C20"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: residual files and reassembled images compared pixel by pixel with the patch, the input images and the model"
RULE = "distinct (source of pixels, number of patches, overlap, padded, bands, exposures, shapes differ, value type) combinations reassembled"
ASSUMPTIONS = ["exposures have different base names", "where patches overlap, any of their values may be kept"]
CASES = {"quick": 140, "thorough": 3000}
MIN = {"pixels": 50000, "patch_files": 120, "fits_written": 150, "padded": 40, "overlapping": 20, "positions": 300}


def build(ctx, kind):
    """Patch class instance, regions, and truth per exposure path: data, weight, header, wcs."""
    from forcepho.patches import CPUPatchMixin, StorePatch
    from forcepho.region import CircularRegion
    rng = ctx.rng
    w = World(rng, ctx.tmp, n_bands=int(rng.integers(1, 4)), n_exp=int(rng.integers(1, 4)), n_src=int(rng.integers(1, 5)), size=16 if kind == "fits" else 18,
              center=[(53.1625, -27.79), (187.7, 62.2), (150.1, 0.01)][int(rng.integers(3))])
    if rng.random() < 0.5:
        w.add_model()
    truth, metafile = {}, None
    if kind == "fits":
        w.write(rng)
        patch = cpu_patch(w, build=False)
        for e in w.exps:
            d = e["data"].astype(float)
            with np.errstate(all="ignore"):
                ie = 1.0 / e["err"].astype(float)
            bad = ~np.isfinite(d) | ~np.isfinite(ie) | (ie < 0)
            truth[e["path"]] = dict(d=np.where(bad, 0, d).T, ie=np.where(bad, 0, ie).T, shape=(e["nx"], e["ny"]), wcs=e["wcs"], band=e["band"])
    else:
        from forcepho.patches.storage import ImageSet, MetaStore, PixelStore

        class Patcher(StorePatch, CPUPatchMixin):
            pass
        s = int(rng.choice([2, 4]))
        nx, ny = s * int(rng.integers(4, 8)), s * int(rng.integers(4, 8))
        if rng.random() < 0.25:
            nx, ny = [int(v) for v in rng.permutation([s * int(rng.integers(132 // s, 280 // s)), s * int(rng.integers(2, 8))])]
        pixfile, metafile = os.path.join(ctx.tmp, "pix.h5"), os.path.join(ctx.tmp, "meta.json")
        store, meta = PixelStore(pixfile, nside_full=np.array([nx, ny]), super_pixel_size=s), MetaStore()
        for k, e in enumerate(w.exps):
            hdr = e["hdr"].copy()
            hdr["NAXIS"], hdr["NAXIS1"], hdr["NAXIS2"] = 2, nx, ny
            hdr["CRPIX1"], hdr["CRPIX2"] = nx / 2 + rng.uniform(-2, 2), ny / 2 + rng.uniform(-2, 2)
            im, ierr = rng.normal(0, 1, (nx, ny)).astype(np.float32), rng.uniform(0.5, 3, (nx, ny)).astype(np.float32)
            ierr[rng.random((nx, ny)) < 0.05] = 0
            exp = ("sub/" if rng.random() < 0.2 else "") + "exp%d" % k
            ims = ImageSet(im=im.copy(), ierr=ierr.copy(), mask=None, bkg=None, hdr=hdr, band=e["band"], expID=exp, names=None)
            store.add_exposure(ims)
            meta.add_exposure(ims)
            truth["%s/%s" % (e["band"], exp)] = dict(d=im.astype(float), ie=ierr.astype(float), shape=(nx, ny), wcs=WCS(hdr), band=e["band"])
        store.close()
        meta.write_to_file(metafile)
        patch = Patcher(pixelstore=pixfile, metastore=metafile, psfstore=w.psfstore, splinedata=w.spline)
    regs = []
    for _ in range(int(rng.integers(1, 4))):
        off = rng.uniform(-1, 1, 2) * w.half * rng.choice([0.1, 0.6])
        r = w.half * rng.uniform(0.4, 1.5) if rng.random() < 0.8 else 5 * w.half
        regs.append(CircularRegion(w.center[0] + off[0] / 3600 / np.cos(np.deg2rad(w.center[1])), w.center[1] + off[1] / 3600, r / 3600))
    return w, patch, truth, regs, metafile


def case_images(ctx):
    from forcepho.patches.storage import MetaStore
    from forcepho.postprocess import Residuals, write_images
    from forcepho.utils import write_residuals, write_to_disk
    rng = ctx.rng
    kind = str(rng.choice(["fits", "fits", "store"]))
    w, patch, truth, regs, metafile = build(ctx, kind)
    root = os.path.join(ctx.tmp, "run%d" % ctx.case)
    os.makedirs(root + "/patches")
    files, held = [], []
    anypad = False
    alldisk = bool(rng.random() < 0.4)
    shown = {}
    for p, reg in enumerate(regs):
        try:
            patch.build_patch(region=reg, allbands=w.allbands)
        except (ValueError, AssertionError):
            continue
        na = int(rng.integers(1, len(w.cat) + 1))
        active, fixed = w.cat[:na], w.cat[na:]
        fixed = fixed if len(fixed) and rng.random() < 0.6 else None
        model, q = patch.prepare_model(active=active, fixed=fixed, bounds=make_bounds(rng, w, active, w.bands))
        res = [np.array(r) for r in model.residuals(q)]
        fn = "%s/patches/patch%d_residuals.h5" % (root, p)
        before = {a: [np.array(x) for x in patch.split_pix(a)] for a in ("data", "ierr", "xpix", "ypix")}
        how = str(rng.choice(["write_residuals", "noresidual", "disk"])) if len(regs) == 1 else "disk" if alldisk else "write_residuals"
        if how == "write_residuals":
            write_residuals(patch, fn, residuals=res)
        elif how == "noresidual":
            write_residuals(patch, fn)
        else:
            from forcepho.fitting import Result
            out = Result()
            out.chain = np.vstack([q * 0 + 1e3, q])
            out.message, out.ncall = "done", 3
            given = None if rng.random() < 0.5 else res
            if given is not None:   # the residuals given are written, whatever the chain says
                out.chain = out.chain[:1].copy()
                out.chain[0] = q * 1.001
            write_to_disk(out, fn.replace("_residuals.h5", ""), model, argparse.Namespace(write_residuals=1), residual=given)
        r = Residuals(fn)
        ep = [str(e) for e in patch.epaths]
        ctx.check(r.exposures == ep and r.ebands == [str(b) for b in patch.bands], "exposures or bands of the residual file", got=r.exposures, want=ep)
        ctx.equal(r.reference_coordinates, patch.patch_reference_coordinates, "reference coordinates of the residual file")
        cov = {}
        for k, e in enumerate(ep):
            x, y = before["xpix"][k].astype(int), before["ypix"][k].astype(int)
            g = (x >= 0) & (y >= 0)
            anypad |= not g.all()
            for a in ("data", "ierr", "xpix", "ypix"):
                ctx.equal(r.handle[e][a][:], before[a][k], "%s of the residual file" % a, exposure=e)
            if how != "noresidual":
                ctx.equal(r.handle[e]["residual"][:], res[k], "residuals of the residual file", exposure=e)
            else:
                ctx.check("residual" not in r.handle[e], "residuals appear that were not given")
            t = truth[e]
            tol = 1e-6 * (np.abs(t["d"][x[g], y[g]]) + 1e-3)
            if fixed is None:   # otherwise the patch holds the data without its fixed sources
                ctx.close(r.handle[e]["data"][:][g], t["d"][x[g], y[g]], tol, "data of the residual file against the image", exposure=e)
            ctx.close(r.handle[e]["ierr"][:][g], t["ie"][x[g], y[g]], 1e-6 * t["ie"][x[g], y[g]], "inverse errors of the residual file against the image", exposure=e)
            cov[e] = (x[g], y[g], res[k][g], before["data"][k][g])
            for a in ("CW", "crpix", "crval", "D"):
                ctx.equal(r.handle[e][a][:], np.asarray(getattr(patch, a))[k], "%s of the residual file" % a)
            # one exposure as a bounding image
            for val in ["data", "ierr"] + (["residual"] if how != "noresidual" else []):
                im, lo, hi = r.make_exp(e=k, value=val) if rng.random() < 0.5 else r.make_exp(exp=e, value=val)
                arr = before[val][k][g] if val != "residual" else res[k][g]
                ctx.check(tuple(lo) == (x[g].min() - 0.5, y[g].min() - 0.5) and tuple(hi) == (x[g].max() + 0.5, y[g].max() + 0.5), "limits of the bounding image")
                want = np.full((np.ptp(x[g]) + 1, np.ptp(y[g]) + 1), np.nan)
                want[x[g] - x[g].min(), y[g] - y[g].min()] = arr
                ctx.equal(im, want, "bounding image of one exposure", value=val)
                arr = arr.astype(float)
                arr[before["ierr"][k][g] == 0] = np.nan if val == "residual" else arr[before["ierr"][k][g] == 0]
                shown.setdefault(p, {}).setdefault(k, {})[val] = (x[g], y[g], arr)
            if how != "noresidual":
                dat, rr = before["data"][k][g].astype(float), res[k][g].astype(float)
                shown[p][k]["model"] = (x[g], y[g], dat - rr)
                if rng.random() < 0.25:
                    display(ctx, r, k, e, shown[p][k], w.cat[:na], truth[e]["wcs"])
            # sources on the pixel grid
            src = w.cat[:na]
            pos = r.sky_to_pix(src["ra"], src["dec"], e=k) if rng.random() < 0.5 else r.sky_to_pix(src["ra"], src["dec"], exp=e)
            true = np.array(t["wcs"].world_to_pixel_values(src["ra"], src["dec"])).T
            ctx.close(pos, true, 1e-3, "position of a source on an exposure", name="position")
            ctx.count("positions", len(src))
        # whole images, one call per value, nothing handed in
        ms = MetaStore(metafile) if metafile else None
        for val in ["data", "ierr"] + (["residual"] if how != "noresidual" else []):
            kw = dict(fill_type=val, metastore=ms)
            if val == "residual" and rng.random() < 0.5:
                kw.pop("fill_type")
            ims, hdrs = r.fill_images(**kw)
            ctx.check(sorted(ims) == sorted(ep), "exposures of the reassembled images", got=sorted(ims), want=sorted(ep))
            for k, e in enumerate(ep):
                x, y = before["xpix"][k].astype(int), before["ypix"][k].astype(int)
                g = (x >= 0) & (y >= 0)
                want = np.full(truth[e]["shape"], np.nan)
                want[x[g], y[g]] = (before[val][k] if val != "residual" else res[k])[g]
                ctx.equal(ims[e], want, "a reassembled image differs from the patch", value=val, exposure=e)
                ctx.check((hdrs[e]["NAXIS1"], hdrs[e]["NAXIS2"]) == truth[e]["shape"], "header of a reassembled image")
                ctx.count("pixels", want.size)
        # images of a size given by the user, when nothing else says what it is
        if metafile and rng.random() < 0.5:
            shape = (int(rng.integers(300, 500)), int(rng.integers(300, 500)))
            val = str(rng.choice(["data", "ierr"]))
            had = {}
            ims, _ = r.fill_images(images=had, fill_type=val, imshape=shape)
            ctx.check(ims is had or all(np.array_equal(ims[e], had[e], equal_nan=True) for e in ims), "images handed in are not those filled")
            for k, e in enumerate(ep):
                x, y = before["xpix"][k].astype(int), before["ypix"][k].astype(int)
                g = (x >= 0) & (y >= 0)
                want = np.full(shape, np.nan)
                want[x[g], y[g]] = before[val][k][g]
                ctx.equal(ims[e], want, "image of a given size", value=val, exposure=e)
        r.handle.close()
        if how != "noresidual":
            files.append(fn)
            held.append((cov, kind))
        else:
            os.remove(fn)
        ctx.count("patch_files")
        ctx.sig(kind, how, fixed is not None, len(patch.bandlist), len(ep), len(set(truth[e]["shape"] for e in ep)) > 1)
    if kind == "store":
        patch.pixelstore.close()
    if anypad:
        ctx.count("padded")
    if not files:
        return
    if alldisk and len(files) == len(regs) and how == "disk" and rng.random() < 0.6:
        pdf_pages(ctx, root, shown)
    # everything together, on disk
    subdir = str(rng.choice(["image", "deep/images"]))
    sm, sc = bool(rng.integers(2)), bool(rng.integers(2))
    hashes = [open(f, "rb").read() for f in files]
    write_images(root, subdir=subdir, metafile=metafile, show_model=sm, show_chi=sc)
    ctx.check(all(open(f, "rb").read() == h for f, h in zip(files, hashes)), "making images changes the residual files")
    union = {}
    for cov, _ in held:
        for e in cov:
            union.setdefault(e, []).append(cov[e])
    want_types = ["data", "delta"] + (["model"] if sm else []) + (["chi"] if sc else [])
    names = set()
    overlapped = False
    for e, parts in union.items():
        base = e.split("/")[-1].replace(".fits", "")
        t = truth[e]
        ims = {}
        for st in want_types:
            fn = "%s/%s/%s_%s.fits" % (root, subdir, base, st)
            names.add(os.path.basename(fn))
            with fits.open(fn) as hd:
                ims[st] = hd[0].data.astype(float).T
                ctx.check(hd[0].header["IMTYPE"] == st.upper(), "type of a written image")
                ctx.check(hd[0].header["FILTER"] == t["band"], "header of a written image belongs to another exposure")
                p0 = np.array(WCS(hd[0].header).world_to_pixel_values(*w.center))
                ctx.close(p0, t["wcs"].world_to_pixel_values(*w.center), 1e-6, "astrometry of a written image")
            ctx.check(ims[st].shape == t["shape"], "size of a written image", got=ims[st].shape, want=t["shape"])
            ctx.count("fits_written")
        inside = np.zeros(t["shape"], bool)
        nin = np.zeros(t["shape"], int)
        okres = np.zeros(t["shape"], bool)
        for x, y, rs, dd in parts:
            inside[x, y] = True
            nin[x, y] += 1
            okres[x, y] |= (ims["delta"][x, y] == rs) & (ims["data"][x, y] == dd)
        overlapped |= nin.max() > 1
        for st in want_types:
            ctx.check(np.all(np.isnan(ims[st][~inside])), "a pixel outside of the patches has a value", type=st)
        ctx.check(np.all(okres[inside]), "a residual or data value is not that of its pixel")
        if sm:
            ctx.close(ims["data"][inside] - ims["model"][inside], ims["delta"][inside], 1e-9 + 1e-9 * np.abs(t["d"][inside]), "data minus model is not the residual")
        if sc:
            ctx.close(ims["chi"][inside], ims["delta"][inside] * t["ie"][inside], 1e-5 * (1e-6 + np.abs(ims["delta"][inside] * t["ie"][inside])), "chi is not residual over error")
        ctx.count("pixels", inside.sum())
    got = set(os.path.basename(f) for f in glob.glob("%s/%s/*" % (root, subdir)))
    ctx.check(got == names, "files written", extra=sorted(got - names), missing=sorted(names - got))
    if overlapped:
        ctx.count("overlapping")
    ctx.sample(kind=kind, patches=len(files), exposures=len(union))
    ctx.sig("images", kind, len(files), overlapped, anypad, sm, sc)


def drawn(ctx, ax, want, what):
    """The image on an axis has these values at these pixels and nothing else."""
    x, y, v = want
    ctx.check(len(ax.images) == 1, "%s: number of images shown" % what, n=len(ax.images))
    im = ax.images[0]
    arr = np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)
    ext = im.get_extent()
    ctx.check(np.allclose(ext, (x.min() - 0.5, x.max() + 0.5, y.min() - 0.5, y.max() + 0.5)) and im.origin == "lower", "%s: place of the image" % what, extent=ext)
    full = np.full((np.ptp(y) + 1, np.ptp(x) + 1), np.nan)
    full[y - y.min(), x - x.min()] = v
    ctx.check(arr.shape == full.shape and np.allclose(arr, full, rtol=1e-6, atol=1e-6, equal_nan=True), "%s: values shown" % what)
    ctx.count("displays")


def display(ctx, r, k, e, want, cat, wcs):
    """What is drawn of one exposure of a patch."""
    import matplotlib.pyplot as pl
    rng = ctx.rng
    fig, axes = pl.subplots(1, 3)
    try:
        kw = dict(e=k) if rng.random() < 0.5 else dict(exp=e)
        lim = {} if rng.random() < 0.5 else dict(vmin=-1.0, vmax=2.0)
        r.show(axes=axes, **kw, **lim)
        for ax, val in zip(axes, ("data", "residual", "model")):
            drawn(ctx, ax, want[val], "%s of an exposure" % val)
            if lim:
                ctx.check(ax.images[0].get_clim() == (-1.0, 2.0), "limits of the display", got=ax.images[0].get_clim())
        ctx.check(len(set(tuple(ax.images[0].get_clim()) for ax in axes)) == 1, "data, model and residual are shown on different scales")
        true = np.array(wcs.world_to_pixel_values(cat["ra"], cat["dec"])).T
        for opt in (dict(color="blue", marker="o"), {}):
            r.mark_sources(cat["ra"], cat["dec"], axes=axes[:2], **kw, **opt)
            for ax in axes[:2]:
                line = ax.lines[-1]
                ctx.close(np.array(line.get_data()).T, true, 1e-3, "place of the marks of sources")
                ctx.check((line.get_color(), line.get_marker()) == (opt.get("color", "red"), opt.get("marker", "x")), "looks of the marks of sources", got=(line.get_color(), line.get_marker()))
    finally:
        pl.close(fig)


def pdf_pages(ctx, root, shown):
    """Every patch is shown once, in order, with the exposure asked for."""
    from matplotlib.backends.backend_pdf import PdfPages
    import contextlib
    import io
    from forcepho.postprocess import residual_pdf
    rng = ctx.rng
    n = int(rng.integers(1, 4))
    e = int(rng.integers(0, max(len(s) for s in shown.values())))
    rows = []
    orig = PdfPages.savefig

    def savefig(self, fig, **kw):
        axes = fig.axes
        rows.extend([[a for a in axes[j:j + 3]] for j in range(0, len(axes), 3)])
        for a in axes:
            for im in a.images:
                ctx.count("pdf_images")
    PdfPages.savefig = savefig
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            residual_pdf(root, n=n, e=e)
    finally:
        PdfPages.savefig = orig
    for p in sorted(shown):
        ctx.check(p < len(rows), "a patch is missing from the pdf", patch=p, rows=len(rows), per_page=n)
        if e in shown[p]:
            for ax, val in zip(rows[p], ("data", "model", "residual")):
                drawn(ctx, ax, shown[p][e][val], "%s in the pdf" % val)
        else:
            ctx.check(not any(ax.images for ax in rows[p]), "an exposure that does not exist is shown", patch=p)
    ctx.check(not any(ax.images for row in rows[len(shown):] for ax in row), "patches that do not exist are shown")
    ctx.sig("pdf", n, len(shown))


def case_populate(ctx):
    from forcepho.utils import populate_image
    rng = ctx.rng
    for _ in range(5):
        nx, ny = int(rng.integers(1, 40)), int(rng.integers(1, 40))
        x0, y0 = int(rng.integers(0, 3000)), int(rng.integers(0, 3000))
        xx, yy = [a.reshape(-1) for a in np.meshgrid(np.arange(nx) + x0, np.arange(ny) + y0, indexing="ij")]
        keep = rng.permutation(xx.size)[:max(1, int(xx.size * rng.uniform(0.2, 1)))]
        xx, yy = xx[keep], yy[keep]
        v = rng.normal(size=len(xx))
        pad = int(rng.integers(0, 20))
        dt = rng.choice([np.float32, np.float64, np.int64])
        px, py = np.append(xx, -np.ones(pad, int)).astype(dt), np.append(yy, -np.ones(pad, int)).astype(dt)
        pv = np.append(v, 1e9 * np.ones(pad))
        o = rng.permutation(len(px))
        a, b, c = px[o].copy(), py[o].copy(), pv[o].copy()
        im, lo, hi = populate_image(a, b, c)
        ctx.check(np.array_equal(a, px[o]) and np.array_equal(b, py[o]) and np.array_equal(c, pv[o]), "making an image changes its input")
        want = np.full((np.ptp(xx) + 1, np.ptp(yy) + 1), np.nan)
        want[xx - xx.min(), yy - yy.min()] = v
        ctx.equal(im, want, "image of a set of pixels")
        ctx.equal(lo, [xx.min() - 0.5, yy.min() - 0.5], "lower corner")
        ctx.equal(hi, [xx.max() + 0.5, yy.max() + 0.5], "upper corner")
        ctx.count("pixels", len(xx))
    ctx.sig("populate")


def case(ctx, i):
    if i % 7 == 6:
        return case_populate(ctx)
    return case_images(ctx)

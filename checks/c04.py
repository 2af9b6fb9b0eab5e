"""C04: packed pixel lists hold exactly the pixels of the region, once, with the right values and weights."""
import hashlib
import os

import numpy as np
from astropy.wcs import WCS

from fpv.harness import Skip
from fpv.world import World, cpu_patch, make_header

PROPERTY = "C04"
CASES = {"quick": 240, "thorough": 6000}
RULE = ("Random sets of exposures (1-4 bands, dithered so that some miss the region or only graze it, rotated/flipped/SIP, non-square), circular and RA/Dec-rectangular regions "
        "smaller and larger than the images, random requested band lists, bad pixels, background offsets, S/N caps, three storage back-ends (FITS, HDF5 pixel store, in-memory). "
        "The oracle recomputes membership from the sky positions of pixel corners and compares every packed pixel with its image. Signature = (back-end, region kind, exposures used/total, padding present, options), "
        "non-trivial when at least one pixel was packed and at least one pixel or exposure was left out.")
ASSUMPTIONS = ["pixels whose corner is within 1e-3 of the region's radius (2e-2 for distorted WCS) from the edge are not decided",
               "circular regions are used with square pixels, rectangular regions away from RA=0 (documented limits of the region code)",
               "a pixel's corners are (x, y)..(x+1, y+1); a superpixel's corners are its four corner pixels"]
MIN = {"pixels_checked": 20000, "patches_built": 60, "exposures_skipped": 20}


def separation(ra, dec, ra0, dec0):
    ra, dec, ra0, dec0 = map(np.deg2rad, (ra, dec, ra0, dec0))
    s = np.sin((dec - dec0) / 2) ** 2 + np.cos(dec) * np.cos(dec0) * np.sin((ra - ra0) / 2) ** 2
    return np.rad2deg(2 * np.arcsin(np.sqrt(np.clip(s, 0, 1))))


class Reg:
    """A region plus an oracle for it."""

    def __init__(self, rng, w, kind, rad_pix):
        from forcepho.region import CircularRegion, RectangularRegion
        cosd = np.cos(np.deg2rad(w.center[1]))
        c = w.center + rng.uniform(-1, 1, 2) * 6 * w.scale / 3600 / np.array([cosd, 1])
        self.kind = kind
        self.rad_pix = rad_pix
        if kind == "circle":
            self.c, self.r = c, rad_pix * w.scale / 3600
            self.region = CircularRegion(c[0], c[1], self.r)
        else:
            a, b = rad_pix * w.scale / 3600 * rng.uniform(0.5, 1.5, 2)
            self.lim = (c[0] - a / cosd, c[0] + a / cosd, c[1] - b, c[1] + b)
            self.region = RectangularRegion(*self.lim)
        self.scale = w.scale

    def inside(self, x, y, wcs):
        """(certainly inside, certainly outside) of pixel coordinates."""
        ra, dec = wcs.pixel_to_world_values(x, y)
        if self.kind == "circle":
            d = separation(ra, dec, *self.c)
            tol = self.r * (2e-2 if wcs.has_distortion else 1e-3)
            return d < self.r - tol, d > self.r + tol
        tol = 1e-9
        l = self.lim
        return ((ra > l[0] + tol) & (ra < l[1] - tol) & (dec > l[2] + tol) & (dec < l[3] - tol),
                (ra < l[0] - tol) | (ra > l[1] + tol) | (dec < l[2] - tol) | (dec > l[3] + tol))

    def cells(self, cx, cy, wcs):
        """must be in / must be out for cells with corners on the last axis."""
        i, o = self.inside(cx, cy, wcs)
        return i.any(axis=-1), o.all(axis=-1)


def pixel_truth(reg, nx, ny, wcs):
    xx, yy = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    if reg is None:
        t = np.ones((nx, ny), bool)
        return t, ~t
    cx = np.stack([xx, xx + 1, xx + 1, xx], axis=-1).astype(float)
    cy = np.stack([yy, yy, yy + 1, yy + 1], axis=-1).astype(float)
    return reg.cells(cx, cy, wcs)


def super_truth(reg, nx, ny, wcs, s):
    xx, yy = np.meshgrid(np.arange(0, nx, s), np.arange(0, ny, s), indexing="ij")
    o = s - 1
    cx = np.stack([xx, xx + o, xx + o, xx], axis=-1).astype(float)
    cy = np.stack([yy, yy, yy + o, yy + o], axis=-1).astype(float)
    i, o = reg.cells(cx, cy, wcs)
    return np.kron(i, np.ones((s, s), bool)), np.kron(o, np.ones((s, s), bool))


def check_packed(ctx, patch, req, truth, value, offset, max_snr, origin={}, pix=np.float32):
    """truth[epath] = (band, must_in, must_out); value[epath] = (flux[nx,ny], ierr[nx,ny]); origin[epath] = pixel of their first element."""
    order = {b: k for k, b in enumerate(req)}
    used = [str(p) for p in patch.epaths]
    ctx.check(len(set(used)) == len(used), "an exposure is used twice", epaths=used)
    for ep, (band, i, o) in truth.items():
        if band not in order:
            ctx.check(ep not in used, "exposure of a band that was not requested", ep=ep, band=band)
        elif i.any():
            ctx.check(ep in used, "an exposure with pixels inside the region was left out", ep=ep, n_inside=int(i.sum()))
        elif o.all():
            ctx.check(ep not in used, "an exposure without pixels in the region is used", ep=ep)
            ctx.count("exposures_skipped")
    ctx.check(len(patch.bands) == len(used) == patch.n_exp == len(patch.hdrs) == len(patch.wcses), "per-exposure lists differ in length")
    ctx.equal([str(b) for b in patch.bands], [truth[e][0] for e in used], "band of each exposure")
    k = [order[str(b)] for b in patch.bands]
    ctx.check(k == sorted(k), "exposures are not in band order", bands=[str(b) for b in patch.bands])
    blist = sorted(set(str(b) for b in patch.bands), key=lambda b: order[b])
    ctx.equal([str(b) for b in patch.bandlist], blist, "list of bands")
    # --- index arrays
    E0, EN = np.asarray(patch.exposure_start), np.asarray(patch.exposure_N)
    ctx.equal(E0, np.concatenate([[0], np.cumsum(EN)[:-1]]), "exposure starts do not partition the pixels")
    ctx.check(EN.sum() == patch.npix == len(patch.data) == len(patch.ierr) == len(patch.ypix), "pixel arrays differ in length")
    nper = [sum(str(b) == bb for b in patch.bands) for bb in blist]
    ctx.equal(np.asarray(patch.band_N), nper, "number of exposures per band")
    ctx.equal(np.asarray(patch.band_start), np.concatenate([[0], np.cumsum(nper)[:-1]]), "band starts")
    ends = np.cumsum(nper)
    bpix = [int(EN[e - n:e].sum()) for e, n in zip(ends, nper)]
    ctx.equal(np.asarray(patch.band_N_pix), bpix, "number of pixels per band")
    for attr in ("data", "ierr", "xpix", "ypix"):
        arr = getattr(patch, attr)
        ctx.check(np.all(np.isfinite(arr)), "non-finite packed values", attr=attr)
        ctx.equal(arr.dtype, np.dtype(pix), "data type of the packed pixels", attr=attr)
        ctx.equal(np.concatenate(patch.split_pix(attr)), arr, "split by exposure")
        ctx.equal([len(a) for a in patch.split_pix(attr)], list(EN), "split by exposure")
        ctx.equal([len(a) for a in patch.split_band(attr)], bpix, "split by band")
        ctx.equal(np.concatenate(patch.split_band(attr)), arr, "split by band")
    ctx.check(np.all(patch.ierr >= 0), "negative weight")
    npad = 0
    nout = 0
    for e, ep in enumerate(used):
        band, must_in, must_out = truth[ep]
        sl = slice(int(E0[e]), int(E0[e] + EN[e]))
        x, y, d, ie = [np.asarray(getattr(patch, a)[sl], float) for a in ("xpix", "ypix", "data", "ierr")]
        pad = (x < 0) | (y < 0)
        npad += int(pad.sum())
        ctx.check(np.all(ie[pad] == 0), "padding has weight", ep=ep)
        x0, y0 = origin.get(ep, (0, 0))
        x, y, d, ie = x[~pad].astype(int) - x0, y[~pad].astype(int) - y0, d[~pad], ie[~pad]
        nx, ny = must_in.shape
        ctx.check(np.all((x >= 0) & (y >= 0) & (x < nx) & (y < ny)), "pixel coordinates outside the image", ep=ep, shape=(nx, ny), xmax=x.max() if len(x) else 0, ymax=y.max() if len(y) else 0)
        cnt = np.zeros((nx, ny), int)
        np.add.at(cnt, (x, y), 1)
        ctx.check(cnt.max() <= 1, "a pixel is packed more than once", ep=ep)
        ctx.check(np.all(cnt[must_in] == 1), "pixels inside the region are missing", ep=ep, missing=int((cnt[must_in] == 0).sum()), n=int(must_in.sum()))
        ctx.check(np.all(cnt[must_out] == 0), "pixels outside the region are packed", ep=ep, extra=int(cnt[must_out].sum()))
        nout += int(must_out.sum())
        f, w = value[ep]
        f, w = f[x, y], w[x, y]
        off = offset.get(ep, 0.0)
        good = w > 0
        ctx.close(d[good], f[good] - off, 3e-7 * (np.abs(f[good]) + np.abs(off)) + 1e-12, "packed flux is not the flux of its pixel", ep=ep, offset=off)
        want = w.copy()
        if max_snr:
            with np.errstate(all="ignore"):
                snr = (f - off) * w
                want = np.where(snr > max_snr, max_snr / (f - off), w)
                edge = np.abs(snr - max_snr) < 1e-4 * max_snr
            ctx.check(np.all(ie <= w * (1 + 1e-6)), "the S/N cap raised a weight")
            ctx.check(np.all(ie[good] > 0), "the S/N cap removed pixels")
            sel = good & ~edge
        else:
            sel = good
        ctx.close(ie[sel], want[sel], 2e-6 * np.abs(want[sel]), "packed weight is not the inverse error of its pixel", ep=ep)
        ctx.check(np.all(ie[~good] == 0), "a bad pixel carries weight", ep=ep, n=int((ie[~good] != 0).sum()))
        ctx.count("pixels_checked", len(x))
        ctx.count("bad_pixels", (~good).sum())
    return used, npad, nout


def digest(files):
    return [hashlib.md5(open(f, "rb").read()).hexdigest() for f in files]


def truth_fits(w, reg, unc=None, snr=None):
    truth, value = {}, {}
    for e in w.exps:
        nx, ny = e["nx"], e["ny"]
        i, o = pixel_truth(reg, nx, ny, e["wcs"])
        truth[e["path"]] = (e["band"], i, o)
        f = e["data"].T.astype(float)
        with np.errstate(all="ignore"):
            if snr is not None:
                ie = snr / f
            elif unc is not None:
                ie = np.zeros_like(f) + 1.0 / unc
            else:
                ie = 1.0 / e["err"].T.astype(float)
        bad = ~np.isfinite(f) | ~np.isfinite(ie) | (ie < 0)
        value[e["path"]] = np.where(bad, 0, f), np.where(bad, 0, ie)
    return truth, value


def make_world(ctx, kinds=("plain", "rot", "flip", "sip")):
    rng = ctx.rng
    cen = [(53.1625, -27.79), (187.7, 62.2), (150.1, 0.0), (12.0, -75.0)][int(rng.integers(4))]
    w = World(rng, ctx.tmp, n_bands=int(rng.integers(1, 5)), n_exp=None, n_src=1, size=int(rng.integers(10, 34)), kinds=list(kinds), center=cen,
              center_jitter=float(rng.choice([0.2, 2.0, 4.0])))
    for e in w.exps:
        e["hdr"]["BKGOFF"] = float(np.round(rng.normal(0, 0.1), 4))
        if rng.random() < 0.3:
            del e["hdr"]["BKGOFF"]
        # some bright pixels for the S/N cap
        e["data"] = (e["data"] + (rng.random(e["data"].shape) < 0.2) * rng.uniform(0, 5, e["data"].shape)).astype(np.float32)
    # any flux units
    w.unit = float(rng.choice([1, 1, 1e-3, 1e3, 1e5]))
    w.units(w.unit)
    for e in w.exps:
        if "BKGOFF" in e["hdr"]:
            e["hdr"]["BKGOFF"] = float("%.5g" % (e["hdr"]["BKGOFF"] * w.unit))
    return w


def options(rng):
    """Constructor options of a patch."""
    return dict(return_residual=bool(rng.integers(2)), pix_dtype=np.float64 if rng.random() < 0.2 else np.float32)


def case_fits(ctx):
    rng = ctx.rng
    w = make_world(ctx)
    for e in w.exps:
        # images come in any data type
        r = rng.random()
        if r < 0.2:
            e["data"], e["err"] = e["data"].astype(np.float64), e["err"].astype(np.float64)
        elif r < 0.3:
            e["data"] = np.round(1e3 * np.nan_to_num(e["data"] / w.unit)).astype(rng.choice([np.int16, np.int32]))
        elif r < 0.35:
            e["data"] = e["data"].astype(np.float64)
    w.write(rng)
    h0 = digest(w.files)
    opt = options(rng)
    patch = cpu_patch(w, build=False, **opt)
    ctx.equal(bool(patch.return_residual), opt["return_residual"], "residuals are returned as asked for")
    w.pix = opt["pix_dtype"]
    # one patch object serves one region after another
    for k in range(int(rng.choice([1, 2, 3]))):
        build_fits(ctx, w, patch, h0, k)


def build_fits(ctx, w, patch, h0, k):
    rng = ctx.rng
    kind = str(rng.choice(["circle", "rect", "none"], p=[.55, .3, .15]))
    reg = None if kind == "none" else Reg(rng, w, kind, rng.choice([2.0, 5.0, 10.0, 18.0, 40.0]) * rng.uniform(0.8, 1.3))
    req = [b for b in w.allbands if b in w.bands and rng.random() < 0.75 or (b not in w.bands and rng.random() < 0.1)]
    if not req:
        req = list(w.bands)
    opts = dict(offset=bool(rng.random() < 0.4), max_snr=float(rng.choice([0, 0, 3.0, 20.0])), noise=str(rng.choice(["err", "err", "unc", "snr"])))
    unc = snr = None
    patch.unc = patch.snr = None
    patch.max_snr = None
    if opts["noise"] == "unc":
        patch.unc = unc = 0.3 * w.unit
    elif opts["noise"] == "snr":
        patch.snr = snr = 12.0
    if opts["max_snr"]:
        patch.max_snr = opts["max_snr"]
    truth, value = truth_fits(w, reg, unc, snr)
    ctx.desc = dict(w=w.describe(), req=req, kind=kind, opts=opts, build=k)
    usable = [ep for ep, (b, i, o) in truth.items() if b in req and i.any()]
    maybe = [ep for ep, (b, i, o) in truth.items() if b in req and not o.all()]
    args = dict(region=None if reg is None else reg.region, allbands=req, tweak_background="BKGOFF" if opts["offset"] else False)
    if not maybe:
        ctx.raises(lambda: patch.build_patch(**args), "a patch without any exposure was built", kinds=(ValueError,))
        ctx.count("empty_patches")
        return
    if not usable:
        if k == 0:
            raise Skip("undecided overlap")
        return
    patch.build_patch(**args)
    ctx.count("patches_built")
    ctx.count("patches_rebuilt", int(k > 0))
    offset = {e["path"]: (e["hdr"].get("BKGOFF", 0.0) if opts["offset"] else 0.0) for e in w.exps}
    used, npad, nout = check_packed(ctx, patch, req, truth, value, offset, opts["max_snr"], pix=w.pix)
    ctx.equal(digest(w.files), h0, "building a patch changed the image files")
    # building twice gives the same
    d1 = [getattr(patch, a).copy() for a in ("data", "ierr", "xpix", "ypix")]
    patch.build_patch(**args)
    for a, b in zip(d1, ("data", "ierr", "xpix", "ypix")):
        ctx.equal(getattr(patch, b), a, "rebuilding the patch changed the packed pixels", attr=b)
    if nout or len(used) < len(w.exps):
        ctx.sig("fits", kind, "%d/%d" % (len(used), len(w.exps)), bool(npad), opts["noise"], opts["max_snr"] > 0, opts["offset"], len(req), min(k, 1))
    ctx.sample(req=req, used=len(used), total=len(w.exps), npix=int(patch.npix), region=kind, opts=opts)


def case_store(ctx):
    from forcepho.patches import StorePatch, CPUPatchMixin
    from forcepho.patches.storage import ImageSet, MetaStore, PixelStore

    class Patcher(StorePatch, CPUPatchMixin):
        pass

    rng = ctx.rng
    s = int(rng.choice([2, 4, 8]))
    nx, ny = s * int(rng.integers(2, 8)), s * int(rng.integers(2, 8))
    big = rng.random() < 0.25
    if big:
        # sides beyond what one byte holds
        nx, ny = [int(v) for v in rng.permutation([s * int(rng.integers(260 // s + 1, 300 // s + 1)), s * int(rng.integers(1, 180 // s + 1))])]
    # distortion terms are only small on small images
    w = make_world(ctx, **(dict(kinds=["plain", "rot", "flip"]) if big else {}))
    pixfile, metafile = os.path.join(ctx.tmp, "pix.h5"), os.path.join(ctx.tmp, "meta.json")
    store = PixelStore(pixfile, nside_full=np.array([nx, ny]), super_pixel_size=s)
    meta = MetaStore()
    truth, value = {}, {}
    offset = {}
    images = {}
    # exposures of different bands may have the same name
    named = bool(rng.random() < 0.5)
    for k, e in enumerate(w.exps):
        hdr = e["hdr"].copy()
        hdr["NAXIS1"], hdr["NAXIS2"] = nx, ny
        hdr["CRPIX1"], hdr["CRPIX2"] = nx / 2 + rng.uniform(-4, 4), ny / 2 + rng.uniform(-4, 4)
        im = (w.unit * rng.normal(0, 1, (nx, ny))).astype(np.float32)
        ierr = (rng.uniform(0.5, 3, (nx, ny)) / w.unit).astype(np.float32)
        bad = rng.random((nx, ny)) < 0.05
        ierr[bad] = rng.choice([np.nan, -1, 0, np.inf], bad.sum())
        im[rng.random((nx, ny)) < 0.02] = 0.0
        f, ie = im.astype(float), np.where(bad, 0, ierr).astype(float)
        expID = "exp%d" % (e["idx"] if named else k)
        imset = ImageSet(im=im.copy(), ierr=ierr.copy(), mask=None, bkg=None, hdr=hdr, band=e["band"], expID=expID, names=None)
        store.add_exposure(imset)
        meta.add_exposure(imset)
        ep = "%s/%s" % (e["band"], expID)
        images[ep] = (e["band"], hdr)
        value[ep] = (f, ie)
        offset[ep] = 0.0
    store.close()
    meta.write_to_file(metafile)
    opt = options(rng)
    w.pix = opt["pix_dtype"]
    patch = Patcher(pixelstore=pixfile, metastore=metafile, psfstore=w.psfstore, splinedata=w.spline, **opt)
    ctx.equal(bool(patch.return_residual), opt["return_residual"], "residuals are returned as asked for")
    try:
        for k in range(int(rng.choice([1, 2, 3]))):
            if k and rng.random() < 0.4:
                # an image is ingested again while the patch object lives
                patch.pixelstore.close()
                ep = str(rng.choice(list(value)))
                im = rng.normal(0, 1, (nx, ny)).astype(np.float32)
                ierr = rng.uniform(0.5, 3, (nx, ny)).astype(np.float32)
                PixelStore(pixfile).add_exposure(ImageSet(im=im, ierr=ierr, mask=None, bkg=None, hdr=images[ep][1], band=images[ep][0], expID=ep.split("/")[1], names=None))
                value[ep] = (im.astype(float), ierr.astype(float))
                ctx.count("images_replaced")
            build_store(ctx, w, patch, images, value, offset, big, s, nx, ny, k)
    finally:
        patch.pixelstore.close()


def build_store(ctx, w, patch, images, value, offset, big, s, nx, ny, k):
    rng = ctx.rng
    kind = str(rng.choice(["circle", "rect"]))
    reg = Reg(rng, w, kind, max(rng.choice([5.0, 10.0, 25.0, 50.0] if not big else [25.0, 80.0, 200.0]), 1.5 * s))
    req = [b for b in w.allbands if b in w.bands and rng.random() < 0.8] or list(w.bands)
    truth = {ep: (b,) + super_truth(reg, nx, ny, WCS(hdr), s) for ep, (b, hdr) in images.items()}
    tweak = bool(rng.random() < 0.3)
    offset = {ep: (hdr.get("BKGOFF", 0.0) if tweak else 0.0) for ep, (b, hdr) in images.items()}
    ctx.desc = dict(w=w.describe(), req=req, kind=kind, s=s, n=(nx, ny), build=k, tweak=tweak)
    usable = [ep for ep, (b, i, o) in truth.items() if b in req and i.any()]
    maybe = [ep for ep, (b, i, o) in truth.items() if b in req and not o.all()]
    args = dict(region=reg.region, allbands=req, tweak_background="BKGOFF" if tweak else False)
    if not maybe:
        ctx.raises(lambda: patch.build_patch(**args), "a patch without any exposure was built", kinds=(ValueError,))
        ctx.count("empty_patches")
        return
    if not usable:
        if k == 0:
            raise Skip("undecided overlap")
        return
    patch.build_patch(**args)
    ctx.count("patches_built")
    ctx.count("patches_rebuilt", int(k > 0))
    used, npad, nout = check_packed(ctx, patch, req, truth, value, offset, 0, pix=w.pix)
    if nout or len(used) < len(w.exps):
        ctx.sig("store", kind, "%d/%d" % (len(used), len(w.exps)), s, nx == ny, len(req), min(k, 1))
    ctx.sample(backend="store", used=len(used), total=len(w.exps), npix=int(patch.npix), shape=(nx, ny), super=s)


def case_direct(ctx):
    from forcepho.patches import DirectPatch, CPUPatchMixin

    class Patcher(DirectPatch, CPUPatchMixin):
        pass

    rng = ctx.rng
    w = make_world(ctx)
    pixel, header, truth, value, origin = {}, {}, {}, {}, {}
    names = list(range(len(w.exps)))
    rng.shuffle(names)
    for k in names:
        e = w.exps[k]
        nx, ny = e["nx"], e["ny"]
        n = int(rng.integers(1, nx * ny))
        sel = rng.permutation(nx * ny)[:n]
        x, y = sel // ny, sel % ny
        f = np.nan_to_num(e["data"].T.astype(float))
        ie = rng.uniform(0.1, 4, (nx, ny)) / w.unit
        ie[rng.random((nx, ny)) < 0.05] = 0
        ep = "img%d" % k
        # cutouts of large images
        x0, y0 = origin[ep] = [int(v) for v in rng.integers(0, 9000, 2)] if rng.random() < 0.4 else (0, 0)
        pixel[ep] = dict(flux=f[x, y], ierr=ie[x, y], xpix=x + x0, ypix=y + y0)
        header[ep] = e["hdr"]
        m = np.zeros((nx, ny), bool)
        m[x, y] = True
        truth[ep] = (e["band"], m, ~m)
        value[ep] = (f, ie)
    opt = options(rng)
    patch = Patcher(pixel_dict=pixel, header_dict=header, psfstore=w.psfstore, splinedata=w.spline, **opt)
    ctx.equal(bool(patch.return_residual), opt["return_residual"], "residuals are returned as asked for")
    raw = {ep: {c: a.tobytes() for c, a in d.items()} for ep, d in pixel.items()}
    for k in range(int(rng.choice([1, 2, 3]))):
        req = [b for b in w.allbands if b in w.bands and rng.random() < 0.8] or list(w.bands)
        ms = float(rng.choice([0, 5.0]))
        patch.max_snr = ms or None
        tweak = bool(rng.random() < 0.5)
        patch.build_patch(region=None, allbands=req, tweak_background="BKGOFF" if tweak else False)
        ctx.count("patches_built")
        ctx.count("patches_rebuilt", int(k > 0))
        offset = {ep: h.get("BKGOFF", 0.0) if tweak else 0.0 for ep, h in header.items()}
        used, npad, nout = check_packed(ctx, patch, req, truth, value, offset, ms, origin, pix=opt["pix_dtype"])
        ctx.check({ep: {c: a.tobytes() for c, a in d.items()} for ep, d in pixel.items()} == raw, "building a patch changed the pixel data handed over")
        ctx.sig("direct", len(used), len(w.exps), ms > 0, len(req), tweak, min(k, 1))


def case(ctx, i):
    (case_fits, case_store, case_fits, case_direct)[i % 4](ctx)

"""C05: stores reproduce what was ingested."""
import hashlib
import json
import os
from collections import namedtuple

import h5py
import numpy as np
from astropy.io import fits
from astropy.wcs import WCS

from fpv.harness import Skip
from fpv.world import PSF_FIELDS, make_header, make_psf

PROPERTY = "C05"
TECHNIQUE = "ingest/read-back monitor: independent float64 re-computation of every stored pixel, header round-trip and coverage oracle"
RULE = "distinct (store kind, option set, overlap/replace situation) in which non-default processing was observed"
ASSUMPTIONS = ["images do not straddle RA=0 (sky polygons are planar in RA, Dec)", "queried positions within 0.02 pixel-scale bands of an image edge are not judged",
               "detector_locations holds the x row then the y row, as PSFStore.lookup reads it"]
CASES = {"quick": 320, "thorough": 6000}
MIN = {"pixels_compared": 20000, "coverage_queries": 400, "psf_lookups": 200, "long_images": 5}


def case_pixels(ctx):
    from forcepho.patches.storage import ImageNameSet, ImageSet, PixelStore
    rng = ctx.rng
    s = int(rng.choice([1, 2, 3, 4, 8]))
    nx, ny = s * int(rng.integers(1, 7)), s * int(rng.integers(1, 7))
    square = rng.random() < 0.3
    if square:
        ny = nx
    elif rng.random() < 0.15:
        # sides beyond what one or two bytes hold
        long = int(rng.choice([136, 264, 520, 33000] if s > 1 else [136, 264, 520]))
        nx, ny = [int(v) for v in rng.permutation([-(-long // s) * s, s])]
        ctx.count("long_images")
    fn = os.path.join(ctx.tmp, "pix.h5")
    dtype = np.float64 if rng.random() < 0.2 else np.float32
    store = PixelStore(fn, nside_full=int(nx) if square else np.array([nx, ny]), super_pixel_size=s, pix_dtype=dtype)
    want = {}
    nexp = int(rng.integers(1, 6))
    for k in range(nexp):
        band = str(rng.choice(["F090W", "F200W", "F444W"]))
        expID = "dir/e%d" % rng.integers(0, 4) if rng.random() < 0.3 else "e%d" % rng.integers(0, 4)
        it = np.float64 if rng.random() < 0.5 else np.float32
        im = rng.normal(0, 1, (nx, ny)).astype(it) * 10 ** rng.uniform(-2, 2)
        ierr = rng.uniform(0.1, 5, (nx, ny)).astype(it)
        bkg = rng.normal(3, 1, (nx, ny)).astype(it) if rng.random() < 0.5 else None
        for arr in [im, ierr] + ([bkg] if bkg is not None else []):
            m = rng.random((nx, ny)) < 0.04
            arr[m] = rng.choice([np.nan, np.inf, -np.inf], m.sum())
        neg = rng.random((nx, ny)) < 0.04
        ierr[neg] = -np.abs(ierr[neg])
        zero = rng.random((nx, ny)) < 0.03
        ierr[zero] = 0
        blank = rng.random((nx, ny)) < 0.03
        im[blank] = 0 if bkg is None or rng.random() < 0.5 else bkg[blank]
        mkind = str(rng.choice(["none", "bool", "int", "bits"]))
        mask, bitmask = None, None
        flagged = np.zeros((nx, ny), bool)
        if mkind == "bool":
            mask = rng.random((nx, ny)) < 0.1
            flagged = mask
        elif mkind == "int":
            mask = rng.choice([0, 0, 0, 1, 4], (nx, ny)).astype(np.int32)
            flagged = mask > 0
        elif mkind == "bits":
            mask = rng.integers(0, 64, (nx, ny)).astype(np.int32) * (rng.random((nx, ny)) < 0.4)
            bitmask = int(rng.integers(1, 64))
            flagged = np.array([[any(((int(v) >> b) & 1) and ((bitmask >> b) & 1) for b in range(8)) for v in row] for row in mask])
        hdr = fits.Header()
        cal = bool(rng.random() < 0.5)
        conv, unit = 1.0, "image"
        if rng.random() < 0.7:
            hdr["ABMAG"] = float(rng.uniform(22, 30))
        if cal:
            conv, unit = (1e9 * 10 ** (0.4 * (8.9 - hdr["ABMAG"])), "nJy") if "ABMAG" in hdr else (1.0, "counts")
        names = [None, "img.fits", ImageNameSet("a.fits", "b.fits", None, None)][int(rng.integers(3))]
        args = [a for a in (im, ierr, mask, bkg) if a is not None]
        before = [a.tobytes() for a in args]
        store.add_exposure(ImageSet(im=im, ierr=ierr, mask=mask, bkg=bkg, hdr=hdr, band=band, expID=expID, names=names), bitmask=bitmask, do_fluxcal=cal)
        ctx.equal([a.tobytes() == b for a, b in zip(args, before)], [True] * len(args), "ingesting an exposure changed the caller's arrays")
        with np.errstate(all="ignore"):
            f = im.astype(float) - (0 if bkg is None else bkg.astype(float))
            scale = np.abs(im.astype(float)) + (0 if bkg is None else np.abs(bkg.astype(float)))
        good = np.isfinite(f) & np.isfinite(ierr.astype(float)) & (ierr >= 0) & ~flagged
        fillf = np.zeros((nx, ny)) if bkg is None else np.where(np.isfinite(bkg), bkg, 0).astype(float)
        key = band + "/" + expID
        want[key] = dict(f=np.where(good, f, fillf) * conv, scale=np.where(good, scale, np.abs(fillf)) * conv, ie=np.where(good, ierr, 0).astype(float) / conv,
                         good=good, conv=conv, unit=unit, bitmask=bitmask, names=names)
        ctx.sig("pix", mkind, bkg is not None, cal, conv != 1, "replace" if len(want) <= k else "new", square, s)
        # sometimes read in between (history of writes and reads)
        if rng.random() < 0.3:
            store.close()
            _ = list(store.data.keys())
            store.close()
        if rng.random() < 0.2:
            store.close()
            store = PixelStore(fn, pix_dtype=dtype)
    store.close()
    # wrong size is refused and leaves the store alone
    if rng.random() < 0.4:
        bad = np.zeros((nx + s, ny), np.float32)
        ctx.raises(lambda: store.add_exposure(ImageSet(bad, bad + 1, None, None, fits.Header(), "F090W", "wrong", None)), "an image of the wrong size was accepted")
    r = PixelStore(fn)
    ctx.check(int(r.super_pixel_size) == s and np.all(np.zeros(2, int) + r.nside_full == [nx, ny]), "image or super-pixel size changed by a write/read cycle")
    x, y = np.asarray(r.xpix).astype(int), np.asarray(r.ypix).astype(int)
    ctx.equal(x.shape, (nx // s, ny // s, s * s), "shape of the coordinates")
    cnt = np.zeros((nx, ny), int)
    np.add.at(cnt, (x.reshape(-1), y.reshape(-1)), 1)
    ctx.check(np.all(cnt == 1), "super-pixel coordinates do not cover each pixel once")
    c = r.superpixel_corners()
    for v, ax in ((x, 0), (y, 1)):
        ctx.equal(c[..., ax].min(axis=-1), v.min(axis=-1), "superpixel corners do not span the pixels")
        ctx.equal(c[..., ax].max(axis=-1), v.max(axis=-1), "superpixel corners do not span the pixels")
    found = []
    r.data.visititems(lambda n, o: found.append(n[:-5]) if n.endswith("/data") else None)
    ctx.equal(sorted(found), sorted(want), "exposures in the store")
    for key, w in want.items():
        d = r.data[key]["data"]
        a = d[:].astype(float)
        f, ie = a[..., :s * s], a[..., s * s:]
        ctx.check(np.all(np.isfinite(a)), "non-finite stored values", key=key)
        ctx.close(ie, w["ie"][x, y], 3e-7 * np.abs(w["ie"][x, y]), "stored inverse error is not that of its pixel", key=key, conv=w["conv"])
        ctx.check(np.all(ie[~w["good"][x, y]] == 0), "a masked or bad pixel has weight", key=key)
        ctx.close(f, w["f"][x, y], 1e-6 * w["scale"][x, y] + 1e-30, "stored flux is not that of its pixel", key=key, conv=w["conv"])
        ctx.close(d.attrs["counts_to_flux"], w["conv"], 1e-9 * w["conv"], "recorded calibration factor")
        ctx.check(d.attrs["flux_units"] == w["unit"], "recorded unit", got=str(d.attrs["flux_units"]), want=w["unit"])
        ctx.check(("bitmask_applied" in d.attrs) == bool(w["bitmask"]) and d.attrs.get("bitmask_applied", w["bitmask"]) == w["bitmask"], "recorded bitmask")
        if isinstance(w["names"], str):
            ctx.check(d.attrs["image_name"] == w["names"], "recorded name")
        elif w["names"] is not None:
            ctx.check(d.attrs["im"] == "a.fits" and d.attrs["err"] == "b.fits" and "mask" not in d.attrs, "recorded names")
        ctx.count("pixels_compared", f.size)
        ctx.count("bad_pixels", (~w["good"]).sum())
    r.close()
    ctx.sample(shape=(nx, ny), s=s, exposures=len(want))


def case_meta(ctx):
    from forcepho.patches.storage import ImageSet, MetaStore
    rng = ctx.rng
    cen = np.array([(53.16, -27.79), (187.7, 62.2), (150.1, 0.0), (12.0, -75.0)][int(rng.integers(4))])
    cosd = np.cos(np.deg2rad(cen[1]))
    scale = float(rng.choice([0.03, 0.06]))
    meta = MetaStore()
    truth = {}
    bands = ["F090W", "F200W", "F444W"][:int(rng.integers(1, 4))]
    for b in bands:
        for k in range(int(rng.integers(1, 4))):
            nx, ny = [int(v) for v in rng.integers(8, 200, 2)]
            c = cen + rng.uniform(-1, 1, 2) * 3 / 3600 / np.array([cosd, 1])
            hdr, kind = make_header(rng, c, nx, ny, scale=scale, kind=str(rng.choice(["plain", "rot", "flip", "rect"])))
            hdr["OBSERVER"] = "it's a 'name' %d" % k
            hdr["LONGKEY"] = "x" * int(rng.integers(1, 60))
            hdr["TFLAG"] = bool(rng.random() < .5)
            hdr["VALF"] = float(rng.normal() * 10 ** rng.uniform(-5, 5))
            hdr["VALI"] = int(rng.integers(-1000, 1000))
            hdr["FILTER"] = b
            hdr["DETECTOR"] = "NRC%s1" % rng.choice(["A", "B"])
            if rng.random() < 0.5:
                w = WCS(hdr)
                # the rough footprint keyword is a bit generous
                ra, dec = w.pixel_to_world_values([-3, nx + 3, nx + 3, -3], [-3, -3, ny + 3, ny + 3])
                hdr["S_REGION"] = "POLYGON ICRS " + " ".join("%.9f %.9f" % t for t in zip(ra, dec))
            truth[(b, "e%d" % k)] = hdr
            meta.add_exposure(ImageSet(None, None, None, None, hdr.copy(), b, "e%d" % k, None))
    fn = os.path.join(ctx.tmp, "meta.json")
    mode = str(rng.choice(["memory", "lazy", "load_all", "twice"]))
    if mode != "memory":
        meta.write_to_file(fn)
        h = hashlib.md5(open(fn, "rb").read()).hexdigest()
        meta = MetaStore(fn, load_all=mode == "load_all")
        if mode == "twice":
            meta.write_to_file(fn)
            meta = MetaStore(fn)
        ctx.equal(hashlib.md5(open(fn, "rb").read()).hexdigest(), h, "reading (or rewriting) the metadata changed the file")
    elif rng.random() < 0.5:
        meta.populate_wcs()
    # an exposure taken again replaces the older one, whatever was asked of the store before
    if rng.random() < 0.5:
        meta.find_exposures(cen, bands)
        for b, e in list(truth):
            if rng.random() < 0.4:
                c = cen + rng.uniform(-1, 1, 2) * 6 / 3600 / np.array([cosd, 1])
                nx, ny = [int(v) for v in rng.integers(8, 200, 2)]
                hdr, kind = make_header(rng, c, nx, ny, scale=scale, kind=str(rng.choice(["plain", "rot", "flip", "rect"])))
                hdr["FILTER"], hdr["DETECTOR"] = b, "NRCA1"
                truth[(b, e)] = hdr
                meta.add_exposure(ImageSet(None, None, None, None, hdr.copy(), b, e, None))
                mode = "replaced"
                ctx.count("replaced_headers")
    got = {(b, e) for b in meta.headers for e in meta.headers[b]}
    ctx.equal(sorted(got), sorted(truth), "exposures in the metadata store")
    ctx.check(meta.nexp == len(truth), "number of exposures", got=meta.nexp)
    for (b, e), hdr in truth.items():
        g = meta.headers[b][e]
        ctx.check(list(g.keys()) == list(hdr.keys()), "header keywords changed")
        for k in hdr:
            ctx.check(isinstance(g[k], (bool, np.bool_)) == isinstance(hdr[k], (bool, np.bool_)) and isinstance(g[k], str) == isinstance(hdr[k], str) and (g[k] == hdr[k] or isinstance(hdr[k], float) and abs(g[k] - hdr[k]) <= 1e-11 * abs(hdr[k])), "header value changed", key=k, got=g[k], want=hdr[k])
        ctx.count("header_cards", len(hdr))
    # --- coverage queries
    nin = nout = 0
    for q in range(12):
        if rng.random() < 0.5:
            sky = cen + rng.uniform(-1, 1, 2) * 8 / 3600 / np.array([cosd, 1])
        else:  # aim near an image edge
            b, e = list(truth)[int(rng.integers(len(truth)))]
            hdr = truth[(b, e)]
            nx, ny = hdr["NAXIS1"], hdr["NAXIS2"]
            t = [rng.uniform(0, nx), rng.choice([-1.5, 1.5, ny - 1.5, ny + 1.5])] if rng.random() < .5 else [rng.choice([-1.5, 1.5, nx - 1.5, nx + 1.5]), rng.uniform(0, ny)]
            sky = np.array(WCS(hdr).pixel_to_world_values(*t))
        req = [b for b in ["F444W", "F090W", "F200W", "F115W"] if rng.random() < 0.8]
        ep, eb = meta.find_exposures(sky, req)
        gotset = list(zip([str(b) for b in eb], [str(e) for e in ep]))
        ctx.check(len(set(gotset)) == len(gotset), "an exposure is reported twice")
        order = [req.index(b) for b, e in gotset]
        ctx.check(order == sorted(order), "exposures not in the requested band order")
        for (b, e), hdr in truth.items():
            x, y = WCS(hdr).world_to_pixel_values(*sky)
            nx, ny = hdr["NAXIS1"], hdr["NAXIS2"]
            m = min(x, y, nx - x, ny - y)
            if b not in req:
                ctx.check((b, e) not in gotset, "an exposure in a band that was not requested is reported", band=b)
            elif m > 0.05:
                ctx.check((b, e) in gotset, "an exposure covering the position is not reported", band=b, margin=m, shape=(nx, ny), mode=mode)
                nin += 1
            elif m < -0.05:
                ctx.check((b, e) not in gotset, "an exposure not covering the position is reported", band=b, margin=m, shape=(nx, ny), mode=mode)
                nout += 1
            ctx.count("coverage_queries")
    # --- the WCS served is that of the header
    for b in meta.wcs:
        for e, wc in meta.wcs[b].items():
            xy = rng.uniform(0, 50, (2, 5))
            ctx.close(np.array(wc.pixel_to_world_values(*xy)), np.array(WCS(truth[(b, e)]).pixel_to_world_values(*xy)), 1e-10, "the WCS is not that of the exposure")
            ctx.count("wcs_compared")
    if mode == "load_all":
        ctx.check({(b, e) for b in meta.wcs for e in meta.wcs[b]} == set(truth), "not all WCSs were loaded")
    # --- table
    tab = os.path.join(ctx.tmp, "t.fits")
    meta.to_table(tab)
    t = fits.getdata(tab)
    ctx.check(len(t) == len(truth), "rows of the exposure table")
    k = 0
    for b in meta.headers:
        for e in meta.headers[b]:
            hdr = truth[(b, e)]
            ctx.check(abs(t[k]["ra"] - hdr["CRVAL1"]) < 1e-9 and abs(t[k]["dec"] - hdr["CRVAL2"]) < 1e-9 and t[k]["filter"] == b and t[k]["detector"] == hdr["DETECTOR"], "row of the exposure table", row=k)
            k += 1
    ctx.sig("meta", mode, len(truth), bool(nin), bool(nout), len(bands))
    ctx.sample(mode=mode, exposures=len(truth), inside=nin, outside=nout)


def case_psf(ctx):
    from forcepho.patches.storage import PSFStore
    rng = ctx.rng
    fn = os.path.join(ctx.tmp, "psf.h5")
    dt = np.dtype([(c, np.float32) for c in PSF_FIELDS] + [("sersic_bin", np.int32)])
    truth, locs = {}, {}
    with h5py.File(fn, "w") as f:
        for b in ["F090W", "F200W", "F444W"][:int(rng.integers(1, 4))]:
            nloc = int(rng.integers(1, 6))
            base = make_psf(rng, int(rng.integers(1, 5)), variable=False, ng=int(rng.integers(1, 4)))
            arr = np.zeros((nloc, len(base)), dt)
            for l in range(nloc):
                arr[l] = np.array(base, dtype=dt)
                for c in PSF_FIELDS:
                    arr[l][c] += rng.normal(0, 0.1, len(base)).astype(np.float32)
            f.create_dataset(b + "/parameters", data=arr)
            f[b].attrs["n_psf_per_source"] = len(base)
            locs[b] = rng.uniform(0, 2048, (2, nloc))
            f[b].create_dataset("detector_locations", data=locs[b])
            truth[b] = arr
    h = hashlib.md5(open(fn, "rb").read()).hexdigest()
    st = PSFStore(fn)
    Src = namedtuple("Src", "ra dec")
    for q in range(12):
        b = str(rng.choice(list(truth)))
        how = int(rng.integers(3))
        if how == 0:
            p, k = st.lookup(b), 0
        elif how == 1:
            xy = rng.uniform(0, 2048, 2)
            d = np.hypot(*(locs[b] - xy[:, None]))
            k = int(d.argmin())
            if len(d) > 1 and np.diff(np.sort(d)[:2])[0] < 1e-3:
                continue
            p = st.lookup(b, xy=xy)
        else:
            hdr, _ = make_header(rng, (53.1, -27.8), 2048, 2048, offset=(0, 0))
            xy = rng.uniform(0, 2048, 2)
            w = WCS(hdr)
            sky = w.pixel_to_world_values(*xy)
            xy = np.array(w.world_to_pixel_values(*sky))
            d = np.hypot(*(locs[b] - xy[:, None]))
            k = int(d.argmin())
            if len(d) > 1 and np.diff(np.sort(d)[:2])[0] < 1e-3:
                continue
            p = st.get_local_psf(b, source=Src(*[float(v) for v in sky]), wcs=w)
        ctx.check(len(p) == truth[b].shape[1], "number of Gaussians")
        for c in PSF_FIELDS + ["sersic_bin"]:
            ctx.equal(p[c], truth[b][k][c], "PSF parameter is not that stored for the band and position", band=b, loc=k, field=c)
        ctx.sig("psf", how, truth[b].shape[0] > 1, k > 0)
        ctx.count("psf_lookups")
    ctx.raises(lambda: st.lookup("F999W"), "a PSF was made up for a band that is not in the store")
    ctx.equal(hashlib.md5(open(fn, "rb").read()).hexdigest(), h, "reading changed the PSF file")


def case_id(ctx):
    from forcepho.patches.storage import header_to_id
    rng = ctx.rng
    for _ in range(10):
        hdr = fits.Header()
        filt = str(rng.choice(["f090w", "F200W", "F444W"]))
        mod = str(rng.choice(["A", "B", "b"]))
        hdr["FILTER"], hdr["DETECTOR"] = filt, "NRC%s%d" % (mod, rng.integers(1, 5))
        split = [f for f in ("F200W", "F444W", "f090w") if rng.random() < 0.5]
        base = "im_%d.v2" % rng.integers(100)
        sub = str(rng.choice(["", "/a", "/a/b"]))
        root = "/data/frames"
        framedir = str(rng.choice(["", root]))
        band, e = header_to_id(hdr, root + sub + "/" + base + ".fits", framedir=framedir or None, split_by_detector=split)
        ctx.equal(band, filt.upper() + (mod.upper() if filt in split else ""), "band name", filt=filt, split=split)
        ctx.equal(e, ((sub[1:] + "/") if framedir and sub else "") + base, "exposure name")
        ctx.count("ids")
        ctx.sig("id", filt in split, bool(framedir), sub)


def case(ctx, i):
    (case_pixels, case_meta, case_pixels, case_meta, case_psf, case_pixels, case_meta, case_id)[i % 8](ctx)

"""C06: sources land where each exposure's WCS puts them."""
import os

import h5py
import numpy as np

from fpv.world import World, cpu_patch, make_catalog, write_psfstore, write_spline

PROPERTY = "C06"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: astrometry packed for every source x exposure, and centroids of rendered images, compared with the full WCS"
RULE = "distinct (WCS kinds, declination, RA side, number of sources/exposures, check kind)"
ASSUMPTIONS = ["right ascensions of one patch are on one continuous branch (sources may sit at RA<0 or >360, but not half at 359.99 and half at 0.01)",
               "linear terms are judged to 1e-3 plus the field rotation between the source and the reference point of the image (forcepho uses the matrix of the reference point when there is no distortion), "
               "and to the curvature over one pixel when there is distortion", "astropy WCS is trusted"]
CASES = {"quick": 160, "thorough": 4000}
MIN = {"positions": 1000, "centroids": 100, "roundtrips": 100, "scales": 100}
CENTERS = [(53.1625, -27.79), (0.0002, 2.3), (359.9997, -61.0), (-0.0001, 30.0), (187.7, 62.2), (150.1, 0.0), (12.0, -82.0), (270.0, 85.0)]


def derivative(wcs, ra, dec, h):
    """d(x,y)/d(ra,dec) by central differences of the full map."""
    cosd = np.cos(np.deg2rad(dec))
    cols = []
    for d in (np.array([h / cosd, 0]), np.array([0, h])):
        p = np.array(wcs.world_to_pixel_values(ra + d[0], dec + d[1]), float)
        m = np.array(wcs.world_to_pixel_values(ra - d[0], dec - d[1]), float)
        cols.append((p - m) / (2 * np.abs(d).sum()))
    return np.array(cols).T


def case_pack(ctx):
    rng = ctx.rng
    cen = CENTERS[int(rng.integers(len(CENTERS)))]
    w = World(rng, ctx.tmp, center=cen, n_bands=int(rng.integers(1, 4)), n_src=int(rng.integers(1, 9)), center_jitter=float(rng.choice([0.2, 3.0])),
              half=float(rng.choice([0.5, 5.0])))
    w.write(rng)
    patch = cpu_patch(w, sourcecat=None)
    scene = patch.set_scene(w.cat)
    given = None
    for k in range(4):   # packing another scene replaces everything
        cat = w.cat if k == 0 else cat
        if k == 2:
            # other sources with the same median position
            cat = cat[::-1].copy()
            scene = patch.set_scene(cat)
        elif k == 3:
            given = w.center + rng.uniform(-2, 2, 2) / 3600
            cat = cat[rng.permutation(len(cat))]
            cat["dec"] += rng.uniform(-1, 1, len(cat)) * w.scale / 3600
            scene = patch.set_scene(cat)
        elif k == 1:
            cat = make_catalog(rng, int(rng.integers(1, 9)), w.center, w.half, w.bands, w.sr, w.rr)
            scene = patch.set_scene(cat)
        patch.pack_meta(scene, **({} if given is None else dict(sky_zero=tuple(given))))
        zero = np.array(patch.patch_reference_coordinates)
        cosd = np.cos(np.deg2rad(w.center[1]))
        if given is not None:
            ctx.close(zero, given, 1e-12, "the reference coordinate is not the one asked for")
        ctx.check(np.hypot((zero[0] - w.center[0]) * cosd, zero[1] - w.center[1]) * 3600 < 4 * w.half + 1, "the reference coordinate is far from the sources", zero=zero)
        bypath = {e["path"]: e for e in w.exps}
        ctx.check(patch.crpix.shape == (patch.n_exp, len(cat), 2), "shape of the astrometry arrays", shape=patch.crpix.shape)
        for j, ep in enumerate(patch.epaths):
            e = bypath[str(ep)]
            wcs, hdr = e["wcs"], e["hdr"]
            for i, row in enumerate(cat):
                ra, dec = float(row["ra"]), float(row["dec"])
                xy = np.array(wcs.world_to_pixel_values(ra, dec), float)
                CW = patch.CW[j, i].astype(float)
                off = np.array([scene.sources[i].ra, scene.sources[i].dec], float) - patch.crval[j, i].astype(float)
                got = patch.crpix[j, i].astype(float) + CW @ off
                ctx.close(got, xy, 1e-4 + 3e-7 * np.abs(xy), "packed position of a source is not where the WCS puts it", name="position", kind=e["kind"], source=i)
                ctx.close(np.array([scene.sources[i].ra + zero[0], scene.sources[i].dec + zero[1]]), [ra, dec], 1e-9, "source coordinate is not relative to the reference")
                # linear terms
                T = derivative(wcs, ra, dec, 0.5 * w.scale / 3600)
                dra = (ra - hdr["CRVAL1"] + 180) % 360 - 180
                rot = abs(np.deg2rad(dra) * np.sin(np.deg2rad(dec))) + (np.deg2rad(abs(dec - hdr["CRVAL2"])) + abs(np.deg2rad(dra))) * (1 + abs(np.tan(np.deg2rad(dec))))
                curv = 1.2e-3 if wcs.has_distortion else 0
                tol = (1e-4 + 2 * rot + curv) * np.abs(T[:, 0] / cosd_of(dec)).max()
                A = np.diag([1 / cosd_of(dec), 1.0])
                ctx.close(CW @ A, T @ A, tol, "linear astrometry (pixels per degree)", name="CW", kind=e["kind"])
                D = patch.D[j, i].astype(float)
                ctx.close(D * 3600, T @ A, tol, "scale matrix (pixels per arcsec)", name="D", kind=e["kind"])
                ctx.count("positions")
            ctx.sig("pack", e["kind"], round(cen[1]), round(cen[0]), k, min(len(cat), 4))
        # --- undoing the shift
        patch.unzerocoords(scene)
        for i, row in enumerate(cat):
            s = scene.sources[i]
            ctx.close([s.ra, s.dec], [row["ra"], row["dec"]], 1e-12 * 400, "undoing the coordinate shift does not give the sky position back", name="undo")
            ctx.count("roundtrips")
    ctx.desc = w.describe()
    ctx.sample(center=cen, kinds=[e["kind"] for e in w.exps], n_src=len(cat))


def cosd_of(dec):
    return np.cos(np.deg2rad(dec))


def case_centroid(ctx):
    """Where does the light actually fall?  (compact sources, shown one at a time, at the catalog position and moved from it)"""
    rng = ctx.rng
    cen = CENTERS[int(rng.integers(len(CENTERS)))]
    spline = write_spline(os.path.join(ctx.tmp, "s.h5"), rng, 4)
    with h5py.File(spline, "r+") as f:
        f["radii"][:] = np.sort(rng.uniform(0.01, 0.1, 4))
    w = World(rng, ctx.tmp, center=cen, n_bands=int(rng.integers(1, 3)), n_src=int(rng.integers(1, 4)), size=48, spline=spline, masked=False, center_jitter=0.1, half=0.12, negative=0.0,
              kinds=["plain", "rot", "flip", "rect", "sip"], extreme=False)
    # compact: small galaxies and a PSF with positive amplitudes
    for b in w.bands:
        w.psfs[b] = [(abs(p[0]) + .1, p[1], p[2], 1.0 + p[3] % 2, 1.0 + p[4] % 2, 0.1, p[6]) for p in w.psfs[b]]
        w.psfs[b] = [tuple(float(np.float32(v)) for v in p[:6]) + (p[6],) for p in w.psfs[b]]
    write_psfstore(w.psfstore, w.psfs)
    from fpv.refmodel import load_spline
    spl, radii = load_spline(w.spline)
    w.cat["q"] = rng.uniform(0.8, 1.0, len(w.cat))
    for e in w.exps:
        e["data"][:] = 0
        e["err"][:] = 1
    w.write(rng)
    patch = cpu_patch(w)
    patch.return_residual = True
    patch.send_to_device()
    proposer, scene = patch.get_proposer(), patch.scene_used
    q0 = np.array(scene.get_all_source_params(), float).reshape(len(w.cat), -1)
    nb = len(patch.bandlist)
    for s in range(len(w.cat)):
        for moved in (False, True):
            q = q0.copy()
            q[np.arange(len(q)) != s, :nb] = 0.0
            row = w.cat[s].copy()
            if moved:
                d = rng.uniform(-2.5, 2.5, 2) * w.scale / 3600 / np.array([cosd_of(row["dec"]), 1])
                q[s, nb:nb + 2] += d
                row["ra"] += d[0]
                row["dec"] += d[1]
            scene.set_all_source_params(q.reshape(-1))
            _, _, res = proposer.evaluate_proposal(scene.get_proposal(), patch=patch, unpack=True)
            centroid(ctx, w, patch, res, row, spl, cen, moved)


def centroid(ctx, w, patch, res, row, spl, cen, moved):
    amps = np.array([float(s(row["sersic"], row["rhalf"])[0, 0]) for s in spl])
    bypath = {e["path"]: e for e in w.exps}
    xs, ys = patch.split_pix("xpix"), patch.split_pix("ypix")
    for k, ep in enumerate(patch.epaths):
        e = bypath[str(ep)]
        use = xs[k] >= 0
        m = -np.asarray(res[k], float)[use]
        x, y = xs[k][use].astype(float), ys[k][use].astype(float)
        psf = np.array(w.psfs[e["band"]])
        wt = psf[:, 0] * amps[psf[:, 6].astype(int)]
        xy = np.array(e["wcs"].world_to_pixel_values(float(row["ra"]), float(row["dec"])), float) + (psf[:, 1:3] * wt[:, None]).sum(0) / wt.sum()
        total = float(row[e["band"]]) * wt.sum()
        # fraction off the image: only judge when nearly all the light is on it
        if abs(m.sum() / total - 1) > 1e-3:
            ctx.count("centroid_skipped")
            continue
        c = np.array([(m * x).sum(), (m * y).sum()]) / m.sum()
        ctx.close(c, xy, 0.008 + 0.008 * (moved and e["kind"] == "sip"), "centroid of the rendered source is not at its WCS position", name="centroid", kind=e["kind"], center=cen)
        ctx.count("centroids")
        ctx.sig("centroid", e["kind"], round(cen[1]), min(len(w.cat), 2), moved)


class Other:
    """A WCS that is not an astropy.wcs.WCS (as gwcs): only the common interface."""

    def __init__(self, wcs):
        self._w = wcs

    def pixel_to_world_values(self, x, y):
        return self._w.pixel_to_world_values(x, y)

    def world_to_pixel_values(self, ra, dec):
        return self._w.world_to_pixel_values(ra, dec)


def case_utils(ctx):
    """scale_at_sky / FWCS / sky_to_pix and coordinates handed back from chains."""
    from forcepho.utils.wcs import FWCS, scale_at_sky, sky_to_pix
    from forcepho.slow.stamp import scale_at_sky as slow_scale
    from forcepho.utils import make_chaincat, get_sample_cat
    rng = ctx.rng
    cen = CENTERS[int(rng.integers(len(CENTERS)))]
    w = World(rng, ctx.tmp, center=cen, n_bands=1, n_exp=2, n_src=int(rng.integers(2, 6)), half=0.4)
    w.write(rng)
    patch = cpu_patch(w)
    e = {x["path"]: x for x in w.exps}
    zero = patch.patch_reference_coordinates
    for j, ep in enumerate(patch.epaths):
        wcs = e[str(ep)]["wcs"]
        exp = dict(crval=patch.crval[j].astype(float), crpix=patch.crpix[j].astype(float), CW=patch.CW[j].astype(float))
        pix = sky_to_pix(w.cat["ra"], w.cat["dec"], exp=exp, ref_coords=np.array(zero))
        want = np.array(wcs.world_to_pixel_values(w.cat["ra"], w.cat["dec"])).T
        ctx.close(pix, want, 1e-4, "sky_to_pix", name="sky_to_pix")
        f = FWCS(wcs)
        a, b = scale_at_sky((w.cat["ra"][0], w.cat["dec"][0]), wcs), f.scale_at_sky((w.cat["ra"][0], w.cat["dec"][0]))
        c, d = scale_at_sky((w.cat["ra"][0], w.cat["dec"][0]), wcs, make_approx=True)
        ctx.equal(a[0], b[0], "wrapped WCS gives other scales")
        ctx.equal(a[1], b[1], "wrapped WCS gives other scales")
        # numerical and exact linearisation agree up to field rotation over the small field
        t = 3e-3 + (np.deg2rad(3 * w.half / 3600) * 3) * (1 + abs(np.tan(np.deg2rad(cen[1]))))
        ctx.close(c @ np.diag([1 / cosd_of(w.cat["dec"][0]), 1]), a[0] @ np.diag([1 / cosd_of(w.cat["dec"][0]), 1]), t * np.abs(d * 3600).max(), "numerical and analytic linearisation disagree", name="approx")
        ctx.close(f.all_world2pix(w.cat["ra"], w.cat["dec"]), want.T, 1e-9, "wrapped WCS")
        ctx.count("positions", len(w.cat))
        # any number of positions near the first source
        m = int(rng.integers(1, 9))
        if m == len(w.cat):
            m += 1
        ra = w.cat["ra"][0] + rng.uniform(-2, 2, m) * w.scale / 3600 / cosd_of(w.cat["dec"][0])
        dec = w.cat["dec"][0] + rng.uniform(-2, 2, m) * w.scale / 3600
        want = np.array(wcs.world_to_pixel_values(ra, dec)).T
        ctx.close(sky_to_pix(ra, dec, exp=exp, ref_coords=np.array(zero)), want, 0.01, "sky_to_pix of other positions", name="sky_to_pix_other")
        # steps of other sizes, other code paths and other kinds of WCS objects give the same linear terms
        sky = (float(w.cat["ra"][0]), float(w.cat["dec"][0]))
        T = derivative(wcs, *sky, 0.5 * w.scale / 3600) @ np.diag([1 / cosd_of(sky[1]), 1])
        wrapped = FWCS()
        wrapped.from_image(str(ep))
        for fn, obj, kind in ((scale_at_sky, wcs, "astropy"), (slow_scale, wcs, "slow"), (scale_at_sky, Other(wcs), "other"), (scale_at_sky, FWCS(Other(wcs)), "wrapped other"), (scale_at_sky, wrapped, "from image")):
            dpix = float(rng.choice([0.1, 0.5, 2.0, 5.0]))
            CW, D = fn(sky, obj, dpix=dpix, make_approx=bool(rng.random() < 0.7))
            t2 = t + (1.2e-3 * dpix if wcs.has_distortion else 0)
            ctx.close(D * 3600, T, t2 * np.abs(T).max(), "local scale of the WCS", name="scale", dpix=dpix, object=kind, center=cen)
            ctx.close(CW @ np.diag([1 / cosd_of(sky[1]), 1]), T, t2 * np.abs(T).max(), "local derivatives of the WCS", name="scale", dpix=dpix, object=kind, center=cen)
        ctx.count("scales", 5)
    # chains hold offsets; catalogs made from them are absolute again
    n = len(w.cat)
    q = patch.scene_used.get_all_source_params()
    chain = q[None, :] + rng.normal(0, 1e-7, (4, len(q)))
    cc = make_chaincat(chain, patch.bandlist, w.cat, zero)
    nb = len(patch.bandlist)
    per = chain.reshape(4, n, -1)
    for it in range(4):
        s = get_sample_cat(cc, it, w.cat)
        ctx.close(s["ra"], per[it, :, nb] + zero[0], 1e-11, "RA of a sample is not absolute")
        ctx.close(s["dec"], per[it, :, nb + 1] + zero[1], 1e-11, "Dec of a sample is not absolute")
        ctx.close(s["ra"], w.cat["ra"], 2e-6, "RA of a sample is not near its source")
        ctx.count("roundtrips", n)
    ctx.sig("utils", round(cen[1]), round(cen[0]), n, e[str(patch.epaths[0])]["kind"])


def case(ctx, i):
    (case_pack, case_centroid, case_pack, case_utils)[i % 4](ctx)

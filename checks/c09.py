"""C09: regions contain exactly the pixels inside their sky footprint."""
import os

import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord
from astropy.wcs import WCS
from scipy.optimize import linprog

from fpv.world import make_header
from checks.c04 import separation

PROPERTY = "C09"
TECHNIQUE = "runtime monitor: per-cell sky-geometry oracle (great-circle separation, half-planes, linear programming) over random regions, WCSs and grids"
RULE = "distinct (region kind, WCS kind, declination, grid kind, partly inside) and polygon situations"
ASSUMPTIONS = ["circular regions are used with square pixels, as the code documents", "RA of one region is on a continuous branch", "cells whose corners fall in a thin band around the edge (2e-5 of the radius, 2e-2 with distortion) are not judged"]
CASES = {"quick": 640, "thorough": 8000}
MIN = {"cells_judged": 20000, "points_judged": 2000, "polygon_pairs": 500, "boxes": 100}


def case_grid(ctx):
    from forcepho.region import CircularRegion, RectangularRegion
    rng = ctx.rng
    cen = np.array([(53.1625, -27.79), (187.7, 62.2), (150.1, 0.0), (12.0, -75.0), (1.0, 30.0), (359.0, -30.0), (200.0, 84.0), (80.0, -86.5)][int(rng.integers(8))])
    cosd = np.cos(np.deg2rad(cen[1]))
    nx, ny = [int(v) for v in rng.integers(4, 60, 2)]
    scale = float(rng.choice([0.03, 0.06, 0.2]))
    kind = str(rng.choice(["circle", "circle", "rect"]))
    wk = str(rng.choice(["plain", "rot", "flip", "sip"] + (["rect", "shear"] if kind == "rect" else [])))
    hdr, _ = make_header(rng, cen, nx, ny, scale=scale, kind=wk)
    wcs = WCS(hdr)
    # cells: pixels or super pixels, any shape of leading dimensions
    s = int(rng.choice([1, 1, 2, 5]))
    x0, y0 = np.meshgrid(np.arange(0, nx, s), np.arange(0, ny, s), indexing="ij")
    if rng.random() < 0.4:
        k = rng.permutation(x0.size)[:max(1, x0.size // 2)]
        x0, y0 = x0.reshape(-1)[k], y0.reshape(-1)[k]
    off = s if rng.random() < 0.5 else max(s - 1, 0)
    cx = np.stack([x0, x0 + off, x0 + off, x0], axis=-1).astype(float)
    cy = np.stack([y0, y0, y0 + off, y0 + off], axis=-1).astype(float)
    p = rng.uniform(-0.3, 1.3, 2) * [nx, ny]
    c = np.array(wcs.pixel_to_world_values(*p), float)
    ra, dec = [np.asarray(v) for v in wcs.pixel_to_world_values(cx, cy)]
    r = scale / 3600 * 10 ** rng.uniform(-0.3, 1.6)
    if kind == "circle":
        reg = CircularRegion(c[0], c[1], r)
        d = separation(ra, dec, *c)
        tol = r * (2e-2 if wk == "sip" else 2e-5) + 1e-5 * scale / 3600
        inn, out = d < r - tol, d > r + tol
    else:
        h = r * rng.uniform(0.3, 2, 2) / np.array([cosd, 1])
        lim = (c[0] - h[0], c[0] + h[0], c[1] - h[1], c[1] + h[1])
        reg = RectangularRegion(*lim)
        t = 1e-10
        inn = (ra > lim[0] + t) & (ra < lim[1] - t) & (dec > lim[2] + t) & (dec < lim[3] - t)
        out = (ra < lim[0] - t) | (ra > lim[1] + t) | (dec < lim[2] - t) | (dec > lim[3] + t)
    must, mustnot = inn.any(axis=-1), out.all(axis=-1)
    # the same region is asked about several images
    for k in range(int(rng.integers(0, 3))):
        h2, _ = make_header(rng, cen, int(rng.integers(4, 60)), int(rng.integers(4, 60)), scale=float(rng.choice([0.03, 0.06, 0.2])), kind="rot")
        reg.contains(cx, cy, WCS(h2))
        reg.overlaps(h2)
    kx, ky = cx.copy(), cy.copy()
    got = reg.contains(cx, cy, wcs)
    ctx.check(np.array_equal(cx, kx) and np.array_equal(cy, ky), "asking a region changes the coordinates given")
    ctx.check(len(got) == x0.ndim, "number of index arrays")
    m = np.zeros(x0.shape, int)
    np.add.at(m, got, 1)
    ctx.check(m.max() <= 1 if m.size else True, "a cell is returned twice")
    flat = np.ravel_multi_index(got, x0.shape)
    ctx.check(np.all(np.diff(flat) > 0), "cells are not in the order of the grid")
    ctx.check(np.all(m[must] == 1), "a cell with a corner inside the region is missing", kind=kind, wcs=wk, n=int((m[must] == 0).sum()))
    ctx.check(np.all(m[mustnot] == 0), "a cell outside the region is returned", kind=kind, wcs=wk, n=int(m[mustnot].sum()))
    ctx.count("cells_judged", (must | mustnot).sum())
    # --- bounding box encloses the region; image overlap is never missed
    bb = np.asarray(reg.bounding_box)
    ctx.check(bb.shape == (2, 4), "shape of the bounding box")
    if kind == "circle":
        edge = SkyCoord(c[0], c[1], unit="deg").directional_offset_by(np.linspace(0, 360, 25) * u.deg, r * u.deg)
        era, edec = (edge.ra.deg - c[0] + 180) % 360 - 180 + c[0], edge.dec.deg
        slack = 1e-4 * r
    else:
        era, edec, slack = np.array([lim[0], lim[1]]), np.array([lim[2], lim[3]]), 1e-12
    ctx.check(bb[0].min() <= era.min() + slack / cosd and bb[0].max() >= era.max() - slack / cosd and bb[1].min() <= edec.min() + slack and bb[1].max() >= edec.max() - slack,
              "the bounding box does not enclose the region", kind=kind, bb=bb, ra=(era.min(), era.max()), dec=(edec.min(), edec.max()))
    ctx.check(bb[0].max() - bb[0].min() <= (era.max() - era.min()) * 1.01 + 1e-12 and bb[1].max() - bb[1].min() <= (edec.max() - edec.min()) * 1.01 + 1e-12, "the bounding box is much larger than the region")
    # corners go around
    ctr = bb.mean(axis=1, keepdims=True)
    a = np.unwrap(np.arctan2(*(bb - ctr)[::-1]))
    ctx.check(np.all(np.diff(a) > 0) or np.all(np.diff(a) < 0), "corners of the bounding box are not in order")
    ira, idec = wcs.pixel_to_world_values([0, nx, nx, 0], [0, 0, ny, ny])
    gap = max(bb[0].min() - np.max(ira), np.min(ira) - bb[0].max()) * cosd, max(bb[1].min() - np.max(idec), np.min(idec) - bb[1].max())
    ov = bool(reg.overlaps(hdr))
    if max(gap) < -1e-9:
        ctx.check(ov, "an image whose box intersects that of the region is not considered", gap=gap)
    elif max(gap) > 1e-9:
        ctx.check(not ov, "an image disjoint from the region is considered", gap=gap)
    if must.any() and s == 1 and off <= 1:
        ctx.check(ov, "an image with pixels in the region is not considered", kind=kind, wcs=wk)
    ctx.count("boxes")
    part = "part" if must.any() and mustnot.any() else "all" if must.any() else "none"
    ctx.sig(kind, wk, round(cen[1]), s, x0.ndim, part, ov)
    ctx.sample(kind=kind, wcs=wk, cells=int(x0.size), inside=int(must.sum()), outside=int(mustnot.sum()), overlaps=ov)


def case_store(ctx):
    """Superpixels of a pixel store: those with a corner pixel inside the region."""
    from forcepho.patches.storage import PixelStore
    from forcepho.region import CircularRegion
    rng = ctx.rng
    cen = np.array([(53.1625, -27.79), (150.1, 0.0), (12.0, -75.0), (200.0, 84.0)][int(rng.integers(4))])
    s = int(rng.choice([1, 2, 3, 4, 5, 8]))
    nx, ny = [int(v) * s for v in rng.integers(1, 12, 2)]
    scale = float(rng.choice([0.03, 0.06, 0.2]))
    hdr, _ = make_header(rng, cen, nx, ny, scale=scale, kind=str(rng.choice(["plain", "rot", "flip"])))
    wcs = WCS(hdr)
    store = PixelStore(os.path.join(ctx.tmp, "s%d.h5" % ctx.case), nside_full=np.array([nx, ny]), super_pixel_size=s)
    corners = np.asarray(store.superpixel_corners())
    ctx.check(corners.shape == (nx // s, ny // s, 4, 2), "shape of the corners of the superpixels", got=corners.shape)
    xs, ys = np.asarray(store.xpix), np.asarray(store.ypix)
    ctx.check(np.array_equal(np.sort((xs.astype(int) * ny + ys).reshape(-1)), np.arange(nx * ny)), "the superpixels do not have every pixel once")
    p = rng.uniform(-0.2, 1.2, 2) * [nx, ny]
    c = np.array(wcs.pixel_to_world_values(*p), float)
    r = scale / 3600 * 10 ** rng.uniform(-0.3, 1.8)
    ra, dec = [np.asarray(v) for v in wcs.pixel_to_world_values(xs, ys)]
    d = separation(ra, dec, *c)
    tol = r * 2e-5 + 1e-5 * scale / 3600
    ext = ((xs == xs.min(-1, keepdims=True)) | (xs == xs.max(-1, keepdims=True))) & ((ys == ys.min(-1, keepdims=True)) | (ys == ys.max(-1, keepdims=True)))
    must, mustnot = np.any(ext & (d < r - tol), axis=-1), np.all(~ext | (d > r + tol), axis=-1)
    got = CircularRegion(c[0], c[1], r).contains(corners[..., 0], corners[..., 1], wcs)
    m = np.zeros(must.shape, int)
    np.add.at(m, got, 1)
    ctx.check(np.all(m[must] == 1) and np.all(m[mustnot] == 0) and m.max() <= 1, "superpixels selected are not those with a corner pixel inside the region", size=s, missing=int((m[must] == 0).sum()), extra=int(m[mustnot].sum()))
    ctx.count("superpixels_judged", (must | mustnot).sum())
    ctx.sig("store", s, bool(must.any()), bool(mustnot.any()))


def halfplanes(poly):
    """A, b with A x <= b inside the convex polygon (unit normals)."""
    n = len(poly)
    A, b = [], []
    c = poly.mean(axis=0)
    for k in range(n):
        e = poly[(k + 1) % n] - poly[k]
        nrm = np.array([e[1], -e[0]]) / np.hypot(*e)
        if nrm @ (c - poly[k]) > 0:
            nrm = -nrm
        A.append(nrm)
        b.append(nrm @ poly[k])
    return np.array(A), np.array(b)


def convex(rng, n=None):
    n = n or int(rng.integers(3, 7))
    while True:
        a = np.sort(rng.uniform(0, 2 * np.pi, n))
        if np.diff(np.append(a, a[0] + 2 * np.pi)).max() < np.pi * 0.95 and np.diff(a).min() > 0.15:
            break
    p = np.array([np.cos(a), np.sin(a)]).T * 10 ** rng.uniform(-1, 0.5, 2)
    th = rng.uniform(0, 6.28)
    p = p @ np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]]) + rng.uniform(-1.5, 1.5, 2)
    if rng.random() < 0.5:
        p = p[::-1]
    return p


class Poly:
    def __init__(self, p):
        self.bounding_box = p.T


def case_poly(ctx):
    from forcepho.region import RectangularRegion, polygon_contains, polygons_overlap
    rng = ctx.rng
    for _ in range(12):
        p, q = convex(rng), convex(rng)
        if rng.random() < 0.5:
            # nearly touching: a vertex of one close to an edge of the other
            A, b = halfplanes(p)
            k = int(rng.integers(len(p)))
            e = next(j for j in range(len(A)) if np.allclose(A[j] @ p[[k, (k + 1) % len(p)]].T, b[j]))
            m = rng.uniform(0.05, 0.95)
            at = m * p[k] + (1 - m) * p[(k + 1) % len(p)] + A[e] * rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -1)
            q = q - q[np.argmin(q @ A[e])] + at
        pts = np.concatenate([rng.uniform(-4, 4, (20, 2)), p.mean(axis=0) + (p[rng.integers(0, len(p), 20)] - p.mean(axis=0)) * rng.uniform(0.5, 1.3, (20, 1))])
        A, b = halfplanes(p)
        m = (pts @ A.T - b).max(axis=1)
        got = np.asarray(polygon_contains(p, pts))
        ctx.check(got.shape == (len(pts),), "one answer per point")
        ctx.check(np.all(got[m < -1e-9]), "a point inside the polygon is not contained", n=int((~got[m < -1e-9]).sum()))
        ctx.check(not np.any(got[m > 1e-9]), "a point outside the polygon is contained", n=int(got[m > 1e-9].sum()))
        ctx.count("points_judged", len(pts))
        B, c = halfplanes(q)
        M = np.vstack([np.hstack([A, np.ones((len(A), 1))]), np.hstack([B, np.ones((len(B), 1))])])
        r = linprog([0, 0, -1], A_ub=M, b_ub=np.concatenate([b, c]), bounds=[(None, None)] * 3, method="highs")
        t = r.x[2]
        if abs(t) > 1e-7:
            # both in the same sense
            pp = p if area(p) > 0 else p[::-1]
            qq = q if area(q) > 0 else q[::-1]
            if rng.random() < 0.5:
                pp, qq = pp[::-1], qq[::-1]
            for g, h in ((pp, qq), (qq, pp)):
                ctx.check(bool(polygons_overlap(Poly(g), Poly(h))) == (t > 0), "overlap of two convex polygons is wrong", margin=t, a=g, b=h)
            ctx.count("polygon_pairs")
            inside = "contained" if np.all(q @ A.T - b < 0) or np.all(p @ B.T - c < 0) else "cross"
            ctx.sig("poly", len(p), len(q), t > 0, inside)
    for _ in range(10):
        l = rng.uniform(0, 2, (2, 2))
        h = l + rng.uniform(0.05, 1, (2, 2))
        if rng.random() < 0.5:
            j = int(rng.integers(2))
            d = h[0, j] - l[1, j] + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2)
            l[1, j] += d
            h[1, j] += d
        want = np.all(np.minimum(h[0], h[1]) > np.maximum(l[0], l[1]))
        a, b = [RectangularRegion(l[k, 0], h[k, 0], l[k, 1], h[k, 1]) for k in range(2)]
        ctx.check(bool(polygons_overlap(a, b)) == bool(want) == bool(polygons_overlap(b, a)), "overlap of two rectangles is wrong", l=l, h=h)
        ctx.count("polygon_pairs")
        ctx.sig("rects", bool(want))


def area(p):
    x, y = p.T
    return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)


def case(ctx, i):
    if i % 8 == 7:
        return case_store(ctx)
    (case_grid, case_grid, case_grid, case_poly)[i % 4](ctx)

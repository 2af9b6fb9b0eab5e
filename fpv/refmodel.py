"""Independent float64 reference for the forcepho image model.

Written from the published model (docs and the kernel comments), sharing no code with forcepho:
a source is a sum of Gaussians of tabulated radii with spline interpolated amplitudes, sheared by
(q, pa), mapped to the detector by the local linear WCS, convolved with a per-band Gaussian mixture
PSF, and integrated over the pixel with the second order correction."""
import h5py
import numpy as np
from scipy.interpolate import RectBivariateSpline

EPS = float(np.finfo(np.float32).eps)
SHAPES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
_cache = {}


def load_spline(path):
    if path in _cache:
        return _cache[path]
    with h5py.File(path, "r") as f:
        n, r, A, radii = f["nsersic"][:], f["rh"][:], f["amplitudes"][:], f["radii"][:]
    ng, rg = np.unique(n), np.unique(r)
    out = [RectBivariateSpline(ng, rg, A[:, i].reshape(len(ng), len(rg))) for i in range(A.shape[1])], radii.astype(float)
    _cache[path] = out
    return out


def local_wcs(wcs, ra, dec):
    """(x, y), CW (pix per degree of coordinate), D (pix per arcsec on the sky)."""
    x, y = wcs.world_to_pixel_values(ra, dec)
    cosd = np.cos(np.deg2rad(dec))
    if wcs.has_distortion:
        p = np.array([x, y], float)
        d = 1.0
        s0 = np.array([ra, dec])
        S = np.array([np.array(wcs.pixel_to_world_values(p[0] + d, p[1])) - s0,
                      np.array(wcs.pixel_to_world_values(p[0], p[1] + d)) - s0]).T   # columns: dsky for dx, dy
        S[0] = (S[0] + 180) % 360 - 180
        CW = np.linalg.inv(S / d)
        D = CW @ np.diag([1 / cosd, 1]) / 3600.0
    else:
        D = np.linalg.inv(wcs.pixel_scale_matrix * 3600.0)
        CW = D @ np.diag([cosd, 1]) * 3600.0
    return np.array([float(x), float(y)]), CW, D


class Ref:
    def __init__(self, world):
        self.w = world
        self.splines, self.radii = load_spline(world.spline)
        self._astro = {}

    def astro(self, e, row, key):
        k = (id(e), key)
        if key is None or k not in self._astro:
            self._astro[k] = local_wcs(e["wcs"], float(row["ra"]), float(row["dec"]))
        return self._astro[k]

    def amplitudes(self, n, r):
        return np.array([float(s(n, r)[0, 0]) for s in self.splines])

    def gaussians(self, e, row, anchor=None, key=None, psf=None, G=1.0):
        """List of arrays: amp, cx, cy, F(ng,2,2), cond for one source in one exposure.
        anchor: catalog row about which the WCS is linearised (default: the row itself)."""
        anchor = row if anchor is None else anchor
        xy, CW, D = self.astro(e, anchor, key)
        dsky = np.array([float(row["ra"]) - float(anchor["ra"]), float(row["dec"]) - float(anchor["dec"])])
        xy = xy + CW @ dsky
        q, pa = float(row["q"]), float(row["pa"])
        R = np.array([[np.cos(pa), -np.sin(pa)], [np.sin(pa), np.cos(pa)]])
        T = D @ R @ np.diag([1 / q, q])
        TT = T @ T.T
        a = self.amplitudes(float(row["sersic"]), float(row["rhalf"]))
        psf = np.array(psf if psf is not None else self.w.psfs[e["band"]], float)
        s = psf[:, 6].astype(int)
        cov = self.radii[s][:, None, None] ** 2 * TT[None]
        cov = cov + np.array([[psf[:, 3], psf[:, 5]], [psf[:, 5], psf[:, 4]]]).transpose(2, 0, 1)
        F = np.linalg.inv(cov)
        tr, det = np.trace(cov, axis1=1, axis2=2), np.linalg.det(cov)
        lam = 0.5 * tr + np.sqrt(np.maximum(0.25 * tr ** 2 - det, 0))
        cond = lam ** 2 / det
        amp = float(row[e["band"]]) * G * a[s] * psf[:, 0] / (2 * np.pi * np.sqrt(det))
        return amp, xy[0] + psf[:, 1], xy[1] + psf[:, 2], F, cond

    def image(self, e, cat, x, y, anchors=None, want_tol=True, G=1.0, sources=None):
        """Model and a float32 error scale for each pixel."""
        x, y = np.asarray(x, float), np.asarray(y, float)
        model = np.zeros(len(x))
        tol = np.zeros(len(x))
        for i, row in enumerate(cat):
            if sources is not None and i not in sources:
                continue
            anchor = None if anchors is None else anchors[i]
            amp, cx, cy, F, cond = self.gaussians(e, row, anchor=anchor, key=None if anchors is None else ("a", i), G=G)
            ulp = EPS * (np.abs(cx).max() + np.abs(cy).max() + 32)
            for g in range(len(amp)):
                dx, dy = x - cx[g], y - cy[g]
                vx = F[g, 0, 0] * dx + F[g, 0, 1] * dy
                vy = F[g, 1, 1] * dy + F[g, 0, 1] * dx
                arg = dx * vx + dy * vy
                Gp = np.exp(-0.5 * arg)
                H = 1 + (vx ** 2 + vy ** 2 - F[g, 0, 0] - F[g, 1, 1]) / 24.0
                C = amp[g] * Gp * H
                model += C
                if want_tol:
                    Habs = 1 + (vx ** 2 + vy ** 2 + F[g, 0, 0] + F[g, 1, 1]) / 24.0
                    B = np.abs(amp[g]) * Gp * Habs
                    far = arg > 35.9
                    tol += np.where(far, B * 2, B * (EPS * (8 + (4 + 3 * cond[g]) * (1 + arg)) + 2 * ulp * (np.abs(vx) + np.abs(vy) + 0.3)))
        return model, tol

    def shifted(self, cat, i, p, h, band=None):
        c = cat.copy()
        c[band if p == "flux" else p][i] += h
        return c


def fd_steps(row, p, scale, band=None):
    if p == "flux":
        return max(1e-3 * abs(float(row[band])), 1e-3)
    if p in ("ra", "dec"):
        return 2e-4 * scale / 3600.0 * (1.0 / np.cos(np.deg2rad(float(row["dec"]))) if p == "ra" else 1.0)
    return 2e-5


PARAMS = ["flux", "ra", "dec", "q", "pa", "sersic", "rhalf"]


def dimage(ref, e, cat, i, p, x, y, anchors, scale, G=1.0):
    """d(model)/d(param p of source i) per pixel by central differences of the float64 model,
    with a float32 error scale for the analytic derivative."""
    row = cat[i]
    band = e["band"]
    h = fd_steps(row, p, scale, band)
    c = cat[i:i + 1].copy()
    an = anchors[i:i + 1]
    col = band if p == "flux" else p
    vals = []
    sub = Ref(ref.w)
    for k in (2, 1, -1, -2):
        c2 = c.copy()
        c2[col] += k * h
        vals.append(sub.image(e, c2, x, y, anchors=an, want_tol=False, G=G)[0])
    dM = (-vals[0] + 8 * vals[1] - 8 * vals[2] + vals[3]) / (12 * h)
    # error scale
    amp, cx, cy, F, cond = sub.gaussians(e, row, anchor=anchors[i], G=G)
    a = ref.amplitudes(float(row["sersic"]), float(row["rhalf"]))
    psf = np.array(ref.w.psfs[band], float)
    s = psf[:, 6].astype(int)
    flux = float(row[band])
    if p == "sersic":
        da = np.array([float(sp(float(row["sersic"]), float(row["rhalf"]), dx=1)[0, 0]) for sp in ref.splines])
    elif p == "rhalf":
        da = np.array([float(sp(float(row["sersic"]), float(row["rhalf"]), dy=1)[0, 0]) for sp in ref.splines])
    xy, CW, D = local_wcs(e["wcs"], float(anchors[i]["ra"]), float(anchors[i]["dec"]))
    ulp = EPS * (np.abs(xy).max() + 40)
    q = float(row["q"])
    tol = np.zeros(len(x))
    det = np.linalg.det(F)
    unit = np.abs(psf[:, 0]) * np.sqrt(det) / (2 * np.pi) * G
    for g in range(len(amp)):
        dx, dy = x - cx[g], y - cy[g]
        vx = F[g, 0, 0] * dx + F[g, 0, 1] * dy
        vy = F[g, 1, 1] * dy + F[g, 0, 1] * dx
        arg = dx * vx + dy * vy
        Habs = 1 + (vx ** 2 + vy ** 2 + F[g, 0, 0] + F[g, 1, 1]) / 24.0
        base = unit[g] * np.exp(-0.5 * arg) * Habs
        rel = EPS * (8 + (4 + 3 * cond[g]) * (1 + arg)) + 2 * ulp * (np.abs(vx) + np.abs(vy) + 0.3)
        rel = np.where(arg > 35.9, 2.0, rel)
        if p == "flux":
            f = np.abs(a[s[g]])
        elif p in ("sersic", "rhalf"):
            f = np.abs(flux * da[s[g]])
        elif p in ("ra", "dec"):
            k = 0 if p == "ra" else 1
            f = np.abs(flux * a[s[g]]) * (np.abs(vx * CW[0, k]) + np.abs(vy * CW[1, k]) + 0.3 * np.abs(CW).max())
        else:
            f = np.abs(flux * a[s[g]]) * (2 / q + 2) * (2 + arg) * (1 + 0.3 * cond[g])
        tol += base * f * rel
    return dM, tol

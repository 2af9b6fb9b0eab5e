"""Random but fully specified observations: images, noise, WCS, PSF mixtures, Sersic tables, catalogs."""
import os

import h5py
import numpy as np
from astropy.io import fits
from astropy.wcs import WCS

REPO = os.environ.get("FPV_REPO", "/repo")
DEMO_SPLINE = os.path.join(REPO, "demo", "data", "sersic_splinedata_large.h5")
# 31 names; every second one is the one before it plus a letter, as when bands are split by detector
ALLBANDS = [("F%03dW" % n) + d for n in range(90, 410, 20) for d in ("", "B")][:31]
PSF_FIELDS = ["amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy"]
SHAPES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


# --------------------------------------------------------------------------- splines
def write_spline(path, rng, n_radii=None):
    """A synthetic but smooth table of mixture amplitudes on an (n, rh) grid."""
    n_radii = n_radii or int(rng.integers(2, 10))
    radii = np.sort(10 ** rng.uniform(-2.0, -0.1, n_radii))
    if rng.random() < 0.5:
        radii[0] = 0.0
    ngrid = np.linspace(0.8, 6.0, int(rng.integers(5, 9)))
    rgrid = np.linspace(0.02, 0.40, int(rng.integers(6, 11)))
    nn, rr = np.meshgrid(ngrid, rgrid, indexing="ij")
    A = []
    for j in range(n_radii):
        c = rng.normal(size=4)
        A.append(np.exp(-0.5 * ((np.log(rr) - np.log(max(radii[j], 0.01))) / (0.6 + 0.15 * nn)) ** 2)
                 * (1 + 0.1 * np.tanh(c[0] + c[1] * nn)) + 0.02)
    A = np.array(A).reshape(n_radii, -1)
    A /= A.sum(axis=0)
    with h5py.File(path, "w") as f:
        f["nsersic"] = nn.reshape(-1)
        f["rh"] = rr.reshape(-1)
        f["amplitudes"] = A.T
        f["radii"] = radii
    return path


def spline_range(path):
    with h5py.File(path, "r") as f:
        n, r = f["nsersic"][:], f["rh"][:]
        return (n.min(), n.max()), (r.min(), r.max()), len(f["radii"][:])


# --------------------------------------------------------------------------- WCS
def make_header(rng, center, nx, ny, scale=0.03, kind=None, offset=None):
    """A celestial header.  kind: plain | rot | flip | rect | sip | shear"""
    kind = kind or rng.choice(["plain", "rot", "rot", "flip", "rect", "sip"])
    s = scale / 3600.0
    base = np.array([[-s, 0], [0, s]])
    if kind == "flip":
        base = np.array([[s, 0], [0, s]])
    if kind == "rect":
        base = np.array([[-s, 0], [0, s * rng.uniform(0.6, 1.5)]])
    if kind in ("plain",):
        th = 0.0
    else:
        th = rng.uniform(-np.pi, np.pi)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    cd = R @ base
    if kind == "shear":
        cd = cd @ np.array([[1, rng.uniform(-.2, .2)], [0, 1]])
    hdr = fits.Header()
    hdr["NAXIS"] = 2
    hdr["NAXIS1"] = int(nx)
    hdr["NAXIS2"] = int(ny)
    suff = "-SIP" if kind == "sip" else ""
    hdr["CTYPE1"], hdr["CTYPE2"] = "RA---TAN" + suff, "DEC--TAN" + suff
    off = rng.uniform(-3, 3, 2) if offset is None else np.asarray(offset)
    hdr["CRPIX1"], hdr["CRPIX2"] = nx / 2.0 + 0.5 + off[0], ny / 2.0 + 0.5 + off[1]
    hdr["CRVAL1"], hdr["CRVAL2"] = float(center[0]), float(center[1])
    hdr["CUNIT1"] = hdr["CUNIT2"] = "deg"
    hdr["CD1_1"], hdr["CD1_2"], hdr["CD2_1"], hdr["CD2_2"] = [float(v) for v in cd.reshape(-1)]
    hdr["RADESYS"] = "ICRS"
    if kind == "sip":
        hdr["A_ORDER"] = hdr["B_ORDER"] = 2
        hdr["AP_ORDER"] = hdr["BP_ORDER"] = 2
        for k in ("2_0", "0_2", "1_1"):
            a, b = rng.uniform(-1, 1, 2) * 2e-4
            hdr["A_" + k], hdr["B_" + k] = float(a), float(b)
            hdr["AP_" + k], hdr["BP_" + k] = float(-a), float(-b)
    return hdr, kind


# --------------------------------------------------------------------------- PSF
def make_psf(rng, n_radii, ng=None, variable=None):
    """PSF mixture convolved with each radius bin: list of (amp,x,y,cxx,cyy,cxy,bin)."""
    rows = []
    ng = ng or int(rng.integers(1, 4))
    variable = rng.random() < 0.3 if variable is None else variable
    for s in range(n_radii):
        n = int(rng.integers(1, ng + 1)) if variable else ng
        amps = rng.dirichlet(np.ones(n)) * rng.uniform(0.9, 1.0)
        if n > 1 and rng.random() < 0.2:
            amps = amps * np.where(np.arange(n) == n - 1, -0.3, 1.2)
        for k in range(n):
            sx, sy = 10 ** rng.uniform(-0.1, 0.5, 2)
            rho = rng.uniform(-0.6, 0.6)
            rows.append((amps[k], rng.normal(0, .2), rng.normal(0, .2), sx * sx, sy * sy, rho * sx * sy, s))
    return [tuple(float(np.float32(v)) for v in r[:6]) + (r[6],) for r in rows]


def write_psfstore(path, psfs, nloc=1):
    dt = np.dtype([(c, np.float32) for c in PSF_FIELDS] + [("sersic_bin", np.int32)])
    with h5py.File(path, "w") as f:
        for band, rows in psfs.items():
            arr = np.zeros((nloc, len(rows)), dtype=dt)
            for l in range(nloc):
                arr[l] = np.array(rows, dtype=dt)
            d = f.create_dataset(band + "/parameters", data=arr)
            f[band].attrs["n_psf_per_source"] = len(rows)
            f[band].create_dataset("detector_locations", data=np.zeros((nloc, 2)))
    return path


# --------------------------------------------------------------------------- catalogs
def cat_dtype(bands, extra=()):
    return np.dtype([("id", "<i4"), ("source_index", "<i4")] + [(c, "<f8") for c in SHAPES] + [(b, "<f8") for b in bands]
                    + [(e, "<f8") for e in extra])


def make_catalog(rng, n, center, half_arcsec, bands, srange, rrange, flux=(0.5, 20.0), negative=0.1, extreme=False, start_id=0):
    cat = np.zeros(n, dtype=cat_dtype(bands))
    cat["id"] = np.arange(n) + start_id
    cat["source_index"] = np.arange(n) + start_id
    cosd = np.cos(np.deg2rad(center[1]))
    cat["ra"] = center[0] + rng.uniform(-1, 1, n) * half_arcsec / 3600.0 / cosd
    cat["dec"] = center[1] + rng.uniform(-1, 1, n) * half_arcsec / 3600.0
    if extreme:
        cat["q"] = rng.choice([0.25, 0.4, 0.999, 1.0, 0.7], n)
        cat["pa"] = rng.choice([0, np.pi / 2, -np.pi / 2, np.pi / 4, 3.0, -2.0], n)
    else:
        cat["q"] = rng.uniform(0.45, 1.0, n)
        cat["pa"] = rng.uniform(-np.pi / 2, np.pi / 2, n)
    cat["sersic"] = rng.uniform(srange[0], srange[1], n)
    cat["rhalf"] = rng.uniform(rrange[0], rrange[1], n)
    for b in bands:
        f = 10 ** rng.uniform(np.log10(flux[0]), np.log10(flux[1]), n)
        f[rng.random(n) < negative] *= -1
        cat[b] = f
    return cat


# --------------------------------------------------------------------------- world
class World:
    """Everything a user supplies for a fit, plus the truth about it."""

    def __init__(self, rng, tmp, n_bands=None, n_exp=None, n_src=None, size=None, n_radii=None, spline=None, kinds=None,
                 center=None, psf_ng=None, extreme=None, masked=True, half=None, nonsquare=True, negative=0.1, name="w",
                 center_jitter=0.15, noise=0.05):
        self.tmp = tmp
        n_bands = n_bands or int(rng.integers(1, 4))
        bsel = np.sort(rng.choice(len(ALLBANDS) - 1, n_bands, replace=False)) if n_bands < 30 else np.arange(n_bands)
        if 2 <= n_bands < 30 and rng.random() < 0.35:
            # a name contained in another one
            k = 2 * int(rng.integers(0, 15))
            rest = [j for j in bsel if j not in (k, k + 1)][:n_bands - 2]
            bsel = np.sort([k, k + 1] + rest)
        # the order of the bands is the user's choice, not alphabetical
        self.allbands = list(ALLBANDS)
        if rng.random() < 0.6:
            self.allbands = [ALLBANDS[i] for i in rng.permutation(len(ALLBANDS))]
        chosen = set(ALLBANDS[i] for i in bsel)
        self.bands = [b for b in self.allbands if b in chosen]
        if center is None:
            center = [(53.1625, -27.79), (0.0002, 2.3), (359.9997, -61.0), (187.7, 62.2), (150.1, 0.0)][int(rng.integers(5))]
        self.center = np.array(center, float)
        if spline is None:
            spline = DEMO_SPLINE if rng.random() < 0.35 else write_spline(os.path.join(tmp, name + "_spl.h5"), rng, n_radii)
        self.spline = spline
        self.srange, self.rrange, self.n_radii = spline_range(spline)
        self.psfs = {b: make_psf(rng, self.n_radii, ng=psf_ng) for b in self.bands}
        self.psfstore = write_psfstore(os.path.join(tmp, name + "_psf.h5"), self.psfs)
        self.scale = float(rng.choice([0.03, 0.06]))
        n_src = n_src or int(rng.integers(1, 6))
        size = size or int(rng.integers(14, 30))
        self.half = half or size * self.scale * 0.38
        extreme = (rng.random() < 0.3) if extreme is None else extreme
        # stay away from the edge of the spline table so that one can take derivatives
        sr = (self.srange[0] + 0.02 * np.ptp(self.srange), self.srange[1] - 0.02 * np.ptp(self.srange))
        rr = (self.rrange[0] + 0.02 * np.ptp(self.rrange), self.rrange[1] - 0.02 * np.ptp(self.rrange))
        self.sr, self.rr = sr, rr
        self.cat = make_catalog(rng, n_src, self.center, self.half, self.bands, sr, rr, extreme=extreme, negative=negative)
        # exposures, shuffled on disk so that band order is not file order
        self.exps = []
        for b in self.bands:
            ne = n_exp or int(rng.integers(1, 4))
            for e in range(ne):
                nx = size + int(rng.integers(0, 9) if nonsquare else 0)
                ny = size + int(rng.integers(0, 9) if nonsquare else 0)
                c = self.center + rng.uniform(-1, 1, 2) * self.half * center_jitter / 3600.0 / np.array([np.cos(np.deg2rad(self.center[1])), 1])
                hdr, kind = make_header(rng, c, nx, ny, scale=self.scale, kind=None if kinds is None else rng.choice(kinds))
                hdr["FILTER"] = b
                hdr["BKGOFF"] = float(np.round(rng.normal(0, 0.1), 4))
                self.exps.append(dict(band=b, hdr=hdr, kind=str(kind), nx=nx, ny=ny, idx=e))
        for k, e in enumerate(self.exps):
            shape = (e["ny"], e["nx"])
            e["data"] = rng.normal(0, noise, shape).astype(np.float32)
            e["err"] = (noise * rng.uniform(0.5, 2.0, shape)).astype(np.float32)
            # pixels of no flux at all are pixels like any other
            own = np.random.default_rng(abs(int(1e6 * float(e["data"].flat[0]) / noise)))
            if own.random() < 0.5:
                e["data"][own.random(shape) < 0.02] = 0.0
            e["wcs"] = WCS(e["hdr"])
            if masked and rng.random() < 0.6:
                m = rng.random(shape) < 0.05
                what = rng.integers(0, 5, shape)
                e["data"][m & (what == 0)] = np.nan
                e["err"][m & (what == 1)] = np.nan
                e["err"][m & (what == 2)] = 0.0
                e["err"][m & (what == 3)] = np.inf
                e["err"][m & (what == 4)] = -1.0
            e["path"] = os.path.join(tmp, "%s_%s_%d.fits" % (name, e["band"], e["idx"]))
        self.rng_state = None

    def write(self, rng=None):
        for e in self.exps:
            h = e["hdr"].copy()
            hdul = fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(e["data"], header=h, name="SCI"), fits.ImageHDU(e["err"], header=h, name="ERR")])
            hdul.writeto(e["path"], overwrite=True)
        self.files = [e["path"] for e in self.exps]
        if rng is not None:
            rng.shuffle(self.files)
        return self.files

    def add_model(self, factor=1.0):
        """Put the reference model of the catalog into the images (so that residuals are small)."""
        from . import refmodel
        ref = refmodel.Ref(self)
        for e in self.exps:
            yy, xx = np.mgrid[0:e["ny"], 0:e["nx"]]
            m, _ = ref.image(e, self.cat, xx.reshape(-1), yy.reshape(-1))
            e["data"] = (e["data"] + factor * m.reshape(e["data"].shape)).astype(np.float32)

    def narrow(self, factor):
        """PSFs much narrower than a pixel."""
        f = lambda v: float(np.float32(v * factor))
        for b in self.bands:
            self.psfs[b] = [(p[0], p[1], p[2], f(p[3]), f(p[4]), f(p[5]), p[6]) for p in self.psfs[b]]
        write_psfstore(self.psfstore, self.psfs)

    def units(self, factor):
        """The same observation in other flux units (call before add_model)."""
        for e in self.exps:
            e["data"] = (e["data"] * np.float32(factor)).astype(np.float32)
            neg = e["err"] == -1.0
            e["err"] = np.where(neg, np.float32(-1), e["err"] * np.float32(factor)).astype(np.float32)
        for b in self.bands:
            self.cat[b] *= factor

    def blank(self, rng):
        """Images that are exactly zero in places, or everywhere."""
        for e in self.exps:
            if rng.random() < 0.5:
                e["data"][:] = 0
            else:
                e["data"][rng.random(e["data"].shape) < rng.uniform(0.1, 0.9)] = 0

    def widen(self, rng):
        """Images of thousands of pixels on a side (the added ones without weight)."""
        for e in self.exps:
            ax = int(rng.integers(2))
            n = int(rng.integers(2100, 2600))
            if n == 0:
                continue
            e["hdr"]["CRPIX%d" % (ax + 1)] += n
            e["hdr"]["NAXIS%d" % (ax + 1)] += n
            e["nx" if ax == 0 else "ny"] += n
            shape = (e["ny"], e["nx"])
            data, err = np.zeros(shape, np.float32), np.full(shape, np.inf, np.float32)
            sl = (slice(None), slice(n, None)) if ax == 0 else (slice(n, None), slice(None))
            data[sl], err[sl] = e["data"], e["err"]
            e["data"], e["err"] = data, err
            e["wcs"] = WCS(e["hdr"])

    def describe(self):
        return dict(bands=self.bands, n_exp=len(self.exps), kinds=[e["kind"] for e in self.exps], shapes=[(e["nx"], e["ny"]) for e in self.exps],
                    n_src=len(self.cat), n_radii=self.n_radii, n_psf=[len(self.psfs[b]) for b in self.bands], center=list(self.center), scale=self.scale)


def cpu_patch(world, region=None, cls=None, sourcecat="own", build=True, files=None, **kw):
    """A CPU patch of FITS images, as a user builds it."""
    from forcepho.patches import FITSPatch, CPUPatchMixin

    class Patcher(FITSPatch, CPUPatchMixin):
        pass

    patch = Patcher(fitsfiles=list(files if files is not None else world.files), psfstore=world.psfstore, splinedata=world.spline, **kw)
    if build:
        cat = world.cat if isinstance(sourcecat, str) else sourcecat
        # the sources can be given with the region or afterwards
        together = cat is not None and (len(cat) + len(world.exps)) % 3 == 0
        patch.build_patch(region=region, sourcecat=cat if together else None, allbands=world.allbands)
        patch.scene_used = getattr(patch, "scene", None) if together else None
        if cat is not None and patch.scene_used is None:
            scene = patch.set_scene(cat)
            patch.pack_meta(scene)
            patch.scene_used = scene
    return patch

"""C19: saved results reproduce the run that produced them."""
import argparse
import hashlib
import json
import os

import numpy as np

from checks.c18 import catalog_of, patch_problem, same_catalog
from fpv.world import SHAPES, cpu_patch

PROPERTY = "C19"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: every attribute of results compared before and after writing, re-reading and re-writing; chain catalogs rebuilt by position"
RULE = "distinct (kind of value, shape class, written, read class, generation) combinations of attributes that went through a file"
ASSUMPTIONS = ["values HDF5 cannot hold (None, objects, unicode arrays) may be left out if the writer reports them", "the file is not written by two processes at once"]
CASES = {"quick": 400, "thorough": 8000}
MIN = {"attributes": 4000, "chaincats": 100, "real_results": 30, "unsavable": 100, "generations": 200}


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest(), os.stat(path).st_mtime_ns


def random_value(rng):
    k = str(rng.choice(["int", "float", "bool", "str", "bytes", "arr", "arr32", "int_arr", "bool_arr", "S_arr", "empty", "zero_d", "struct", "sub", "list",
                        "strlist", "npint", "npfloat", "tuple", "none", "U_arr", "obj", "nan", "big", "struct0", "fortran", "strided", "listarr"]))
    n = int(rng.integers(1, 6))
    v = {
        "int": lambda: int(rng.integers(-2 ** 40, 2 ** 40)), "float": lambda: float(rng.normal()), "bool": lambda: bool(rng.integers(2)),
        "str": lambda: "é run " * n, "bytes": lambda: b"abc" * n, "arr": lambda: rng.normal(size=(n, 3)), "arr32": lambda: rng.normal(size=n).astype("f4"),
        "int_arr": lambda: rng.integers(0, 9, (2, n)), "bool_arr": lambda: rng.random(n) < 0.5, "S_arr": lambda: np.array(["F%d" % i * (i + 1) for i in range(n)], dtype="S"),
        "empty": lambda: np.zeros((0, n)), "zero_d": lambda: np.array(rng.normal()), "list": lambda: [float(x) for x in rng.normal(size=n)],
        "struct": lambda: np.array([(i, rng.normal(), i % 2 == 0) for i in range(n)], dtype=[("a", "i4"), ("b", "f8"), ("tune", "?")]),
        "sub": lambda: np.array([(i, rng.normal(size=2)) for i in range(n)], dtype=[("a", "i4"), ("F1", "f8", (2,))]),
        "struct0": lambda: np.zeros(0, dtype=[("a", "i4"), ("ra", "f8")]),
        "strlist": lambda: ["a%d" % i for i in range(n)], "npint": lambda: np.int32(n), "npfloat": lambda: np.float32(rng.normal()),
        "tuple": lambda: (1, 2, n), "none": lambda: None, "U_arr": lambda: np.array(["x", "yy"]), "obj": lambda: argparse.Namespace(a=1), "nan": lambda: float("nan"),
        "big": lambda: rng.normal(size=(60, 40)), "fortran": lambda: np.asfortranarray(rng.normal(size=(n, 4))), "strided": lambda: rng.normal(size=(2 * n, 4))[::2, ::-1],
        "listarr": lambda: [rng.normal(size=(n, n)) for _ in range(2)],
    }[k]()
    return k, v


SAVABLE_NOT = ("none", "obj", "U_arr")


def text(x):
    return x.decode("utf-8") if isinstance(x, bytes) else str(x)


def same(a, b):
    if isinstance(a, bytes):
        # scalar text comes back as text, whatever it was
        return text(a) == text(b)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "UO" or y.dtype.kind in "UO":
        return [text(i) for i in x.reshape(-1)] == [text(i) for i in y.reshape(-1)]
    if x.dtype.kind == "f":
        return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y))))
    return bool(np.all(x == y)) if x.size else True


def case_values(ctx):
    from forcepho.fitting import Result
    from forcepho.postprocess import Samples
    rng = ctx.rng
    r = Result()
    vals = {}
    for j in range(int(rng.integers(1, 25))):
        k, v = random_value(rng)
        name = "%s_%d" % (k, j)
        vals[name] = (k, v)
        setattr(r, name, v)
    sub = os.path.join(ctx.tmp, "v%d" % ctx.case)
    os.makedirs(sub)
    how = str(rng.choice(["abs", "nested", "bare"]))
    path = os.path.join(sub, "deep", "er", "x_samples.h5") if how == "nested" else os.path.join(sub, "x_samples.h5")
    old = os.getcwd()
    try:
        if how == "bare":
            os.chdir(sub)
            msgs = r.dump_to_h5("x_samples.h5")
        else:
            msgs = r.dump_to_h5(path)
    finally:
        os.chdir(old)
    gen = [path]
    for g in range(2):
        before = digest(gen[-1])
        cls = [Result, Samples][int(rng.integers(2))]
        back = cls(gen[-1])
        ctx.check(digest(gen[-1]) == before, "reading changes the file")
        for name, (k, v) in vals.items():
            if k in SAVABLE_NOT:
                if not hasattr(back, name):
                    if g == 0:
                        ctx.check(any(name in m for m in msgs), "an attribute is dropped without a word", name=name)
                    ctx.count("unsavable")
                else:
                    ctx.check(same(v, getattr(back, name)), "an attribute comes back with another value", name=name)
                continue
            ctx.check(hasattr(back, name), "an attribute is lost", name=name, value=v)
            w = getattr(back, name)
            ctx.check(same(v, w), "an attribute comes back with another value", name=name, wrote=v, read=w)
            if type(v) is np.ndarray:
                ctx.check(np.asarray(w).dtype == v.dtype or v.dtype.kind == "O", "an array comes back with another type", name=name, wrote=str(v.dtype), read=str(np.asarray(w).dtype))
            ctx.count("attributes")
            ctx.sig(k, np.shape(v) if not isinstance(v, str) else "", how, cls.__name__, g)
        extra = [n for n in vars(back) if n not in vals and n not in ("bands", "shape_cols", "region", "chaincat")]
        ctx.check(not extra, "attributes appear that were never written", extra=extra)
        # what was read can be written again
        p2 = os.path.join(sub, "again%d.h5" % g)
        back.dump_to_h5(p2)
        gen.append(p2)
        ctx.count("generations")
    kw = {"patchID": 3, "note": "x"}
    r3 = Result(path, **kw)
    ctx.check(r3.patchID == 3 and r3.note == "x", "keyword values")


def case_chaincat(ctx):
    from forcepho.utils import get_sample_cat, make_chaincat, make_statscat
    rng = ctx.rng
    ns, nb, ni = int(rng.integers(1, 9)), int(rng.integers(1, 5)), int(rng.integers(1, 12))
    if rng.random() < 0.15:     # a big fit
        ns, nb, ni = int(rng.integers(10, 41)), int(rng.integers(5, 31)), int(rng.choice([3, 300, 1100]))
    bands = ["F%03dW" % x for x in rng.permutation(200)[:nb]]
    shapes = list(SHAPES) if rng.random() < 0.6 else [SHAPES[k] for k in rng.permutation(6)]
    n = nb + 6
    chain = rng.normal(size=(ni, ns * n))
    if rng.random() < 0.3:
        chain = np.asfortranarray(chain)
    dt = [("id", "i4"), ("source_index", "i4"), ("n_iter", "i4"), ("roi", "f8")] + [(c, "f8") for c in rng.permutation(shapes + bands + ["OTHER"])]
    active = np.zeros(ns, dtype=dt)
    for c in active.dtype.names:
        active[c] = rng.integers(0, 1000, ns)
    active["source_index"] = rng.permutation(5000)[:ns] * int(rng.choice([1, 400000]))
    ref = rng.uniform(-90, 90, 2)
    c0, a0 = chain.copy(), active.copy()
    b = np.array(bands, dtype="S") if rng.random() < 0.4 else bands if rng.random() < 0.5 else np.array(bands)
    s = np.array(shapes, dtype="S") if rng.random() < 0.4 else shapes
    kw = {} if shapes == list(SHAPES) and rng.random() < 0.5 else dict(shapes=s)
    cat = make_chaincat(chain, b, active, ref, **kw)
    ctx.equal(chain, c0, "making the chain catalog changes the chain")
    ctx.check(active.tobytes() == a0.tobytes(), "making the chain catalog changes the sources")
    ctx.check(len(cat) == ns and set(cat.dtype.names) == set(["source_index"] + bands + shapes), "columns of the chain catalog", got=cat.dtype.names)
    ctx.equal(cat["source_index"], active["source_index"], "sources of the chain catalog")
    for j in range(ns):
        for k, c in enumerate(bands + shapes):
            off = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
            ctx.close(np.atleast_1d(cat[c][j]), chain[:, j * n + k] + off, 1e-12 * (1 + abs(off)), "a chain column is assigned to the wrong source or parameter", source=j, column=c)
    for it in sorted(set([0, -1, ni - 1, int(rng.integers(ni)), -ni])):
        sc = get_sample_cat(cat, it, active)
        ctx.check(sc.dtype == active.dtype, "type of the sample catalog")
        for c in active.dtype.names:
            want = cat[c][:, it] if c in bands + shapes else active[c]
            ctx.equal(sc[c], want, "sample catalog column %s" % c, iteration=it)
        ctx.check(active.tobytes() == a0.tobytes(), "taking a sample changes the sources")
    # the wrong number of sources is refused
    if ns > 1:
        ctx.raises(lambda: make_chaincat(chain, b, active[:-1], ref, **kw), "a chain catalog for the wrong number of sources is accepted")
    ctx.raises(lambda: make_chaincat(chain[:, :-1], b, active, ref, **kw), "a chain of the wrong size is accepted")
    # sampler statistics

    class Step:
        stats_dtypes = [{"depth": np.int64, "tune": bool, "model_logp": np.float64}]
    st = [dict(depth=int(rng.integers(9)), tune=bool(rng.integers(2)), model_logp=float(rng.normal())) for _ in range(ni)]
    sc = make_statscat(st, Step())
    for c in ("depth", "tune", "model_logp"):
        ctx.equal(sc[c], np.array([x[c] for x in st]), "statistics column %s" % c)
    ctx.count("chaincats")
    ctx.sig("chaincat", ns > 1, nb, type(b).__name__, kw == {}, ni == 1)


def case_real(ctx):
    from forcepho.fitting import run_lmc, run_opt
    from forcepho.postprocess import Residuals, Samples
    from forcepho.utils import write_to_disk
    rng = ctx.rng
    w, region, active, fixed, bounds = patch_problem(ctx)
    patch = cpu_patch(w, region=region, sourcecat=None)
    model, q = patch.prepare_model(active=active, fixed=fixed, bounds=bounds)
    opt = bool(rng.random() < 0.3)
    if opt:
        out, _ = run_opt(model, q.copy(), gtol=1.0)
        step = stats = None
    else:
        out, step, stats = run_lmc(model, q.copy(), n_draws=int(rng.integers(1, 5)), warmup=[int(rng.integers(0, 5))], full=bool(rng.integers(2)),
                                   discard_tuned_samples=bool(rng.integers(2)), max_treedepth=4)
    final, covs = out.fill(region, active, fixed, model, bounds=bounds, step=step, stats=stats, patchID=int(rng.integers(100)))
    root = os.path.join(ctx.tmp, "r%d" % ctx.case, str(rng.choice(["patches", "v2.1_patches"])), str(rng.choice(["patch3", "patch3.b"])))
    cfg = argparse.Namespace(write_residuals=int(rng.integers(2)), bandlist=list(w.bands), gtol=1e-5, name="é")
    if rng.random() < 0.4:
        cfg.warmup, cfg.pix_dtype, cfg.n = np.arange(3), np.float32, np.int64(3)
    if not cfg.write_residuals and rng.random() < 0.5:
        del cfg.write_residuals     # not asked for
    snap = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(out).items()}
    lnp0 = float(model.lnprob(model.transform.inverse_transform(q)))
    write_to_disk(out, root, model, cfg)
    ctx.check(os.path.exists(root + "_samples.h5") and os.path.exists(root + "_residuals.h5") == bool(getattr(cfg, "write_residuals", 0)), "files written")
    before = digest(root + "_samples.h5")
    s = Samples(root + "_samples.h5")
    for k, v in snap.items():
        if v is None:
            ctx.check(not hasattr(s, k) or getattr(s, k) is None, "a missing item turns into a value", name=k)
            continue
        ctx.check(hasattr(s, k), "an item of the result is lost", name=k)
        ctx.check(same(v, getattr(s, k)), "an item of the result comes back different", name=k, wrote=v, read=getattr(s, k))
        if isinstance(v, np.ndarray) and v.dtype.names:
            ctx.check(getattr(s, k).dtype.names == v.dtype.names, "columns of an item", name=k)
        if isinstance(v, np.ndarray) and v.dtype.kind != "O":
            ctx.check(np.asarray(getattr(s, k)).dtype == v.dtype, "an array of the result comes back with another type", name=k, wrote=str(v.dtype), read=str(np.asarray(getattr(s, k)).dtype))
        ctx.count("attributes")
    stored = json.loads(s.config)
    for k, v in vars(cfg).items():
        ctx.check(isinstance(v, type) or stored.get(k) == (v.tolist() if isinstance(v, (np.ndarray, np.generic)) else v), "configuration stored with the result", key=k, got=stored.get(k))
    bl = [str(b) for b in patch.bandlist]
    ctx.check(list(s.bands) == bl and list(s.shape_cols) == SHAPES, "bands of the result read back", got=list(s.bands))
    ctx.check((s.region.ra, s.region.dec, s.region.radius) == (region.ra, region.dec, region.radius), "region of the result read back")
    ref = np.array(patch.patch_reference_coordinates)
    for k in sorted(set([0, len(s.chain) - 1])):
        same_catalog(ctx, s.get_sample_cat(k), catalog_of(active, bl, ref, s.chain[k]), "catalog of a draw read back")
    same_catalog(ctx, np.array(s.final), catalog_of(active, bl, ref, s.chain[-1]), "final catalog read back")
    if not opt:
        tuned = sum(bool(x["tune"]) for x in stats)
        ctx.check(int(s.n_tune) == tuned and int(s.n_sample) == len(s.chain) - tuned, "numbers of tuning and kept draws read back", tune=int(s.n_tune), sample=int(s.n_sample), want=(tuned, len(s.chain)))
        best = int(np.argmax([x["model_logp"] for x in stats]))
        ctx.equal(np.asarray(s.get_map()).reshape(-1), out.chain[best], "highest probability draw read back")
        same_catalog(ctx, s.get_map(structured=True), catalog_of(active, bl, ref, out.chain[best]), "catalog of the highest probability draw read back")
    if fixed is not None:
        ctx.check(s.fixed.tobytes() == fixed.tobytes(), "fixed sources read back")
    for c in bounds.dtype.names:
        ctx.equal(s.bounds[c], bounds[c], "bounds read back")
    ctx.check(digest(root + "_samples.h5") == before, "reading changes the file")
    ctx.check([e.decode() for e in s.exposures] == [str(e) for e in patch.epaths], "exposures read back")
    if getattr(cfg, "write_residuals", 0):
        r = Residuals(root + "_residuals.h5")
        ctx.check(r.exposures == [str(e) for e in patch.epaths], "exposures of the residual file")
        model.residuals(out.chain[-1])
        for e, res in zip(r.exposures, model._residuals):
            ctx.equal(r.handle[e]["residual"][:], res, "residuals written are not those of the last position")
        r.handle.close()
    ctx.close(float(model.lnprob(model.transform.inverse_transform(q))), lnp0, 1e-9 * (1 + abs(lnp0)), "writing changes the model")
    # without the stored chain catalog one is made from the chain
    if rng.random() < 0.5:
        import h5py
        with h5py.File(root + "_samples.h5", "a") as f:
            del f["chaincat"]
        s2 = Samples(root + "_samples.h5")
        ctx.check(s2.chaincat.tobytes() == np.array(out.chaincat).tobytes() and s2.chaincat.dtype == out.chaincat.dtype, "chain catalog made on reading")
    ctx.count("real_results")
    ctx.sig("real", opt, fixed is None, len(bl), len(active), bool(getattr(cfg, "write_residuals", 0)))


def case(ctx, i):
    if i % 8 == 0:
        return case_real(ctx)
    if i % 8 in (1, 2, 3):
        return case_chaincat(ctx)
    return case_values(ctx)

"""C26: the CUDA evaluator and its driver, run on an emulated device that checks every access."""
import gc
import os

import numpy as np

from fpv import fakecuda
fakecuda.install()      # before forcepho looks for pycuda

from checks.c01 import as_vector, compare, observe, perturb, world_for
from checks.c02 import ref_gradients
from checks.c07 import Sub, setup
from fpv import refmodel
from fpv.refmodel import EPS
from fpv.world import SHAPES, World, cpu_patch, make_catalog, write_spline

PROPERTY = "C26"
NEEDS_KERNEL = True
CASES = {"quick": 132, "thorough": 3000}
RULE = ("The CUDA source of the working tree is compiled for the host with every load and store instrumented and run by fpv/cuda/emu.cc: one fiber per CUDA thread, blocks and threads in random order, "
        "32-1024 threads per block. (a) random worlds evaluated on the device: residuals, chi-squares and derivatives against the float64 model and the C++ evaluator, again under other schedules and block sizes; "
        "(b) histories of prepare/evaluate/residuals/design matrix/rebuild/free with fixed and big sources in blocks against the model of data minus all of them and against a CPU patch; (c) scenes at and one over the limits of the kernel and of its shared memory, "
        "(d) patches of the pixel store, rendering and the struct self-test. On every launch: bounds, freed and uninitialised memory, races between barriers, shuffles and barriers not reached by all, shared memory; device buffers are counted. "
        "Signature = (kind, block size, sources, bands, exposures).")
ASSUMPTIONS = ["the emulated device (fpv/cuda/emu.cc, fpv/fakecuda.py) stands for a GPU and pycuda: no nvcc or GPU here, so code generation and performance are not covered", "float32 tolerance model of fpv/refmodel.py",
               "a thread switches only at barriers, shuffles and its end; races are found from the ordering of accesses, not from their effect"]
TECHNIQUE = "emulated CUDA device with instrumented loads/stores: bounds, lifetime, initialisation, race and barrier-divergence monitors under random thread schedules; model and C++ oracle on the results; device buffer accounting"
MIN = {"launches": 150, "accesses": 10000000, "barriers": 200000, "shuffles": 1000000, "gradients_compared": 300, "prepared": 30, "refused": 6, "freed": 60}


def prepare(top):
    """Build the emulator and the kernel once, before the workers start."""
    fakecuda._tmp = os.path.join(top, "cuda")
    os.makedirs(fakecuda._tmp, exist_ok=True)
    from forcepho.proposal import GPUProposer
    try:
        GPUProposer()
    except fakecuda.Illegal:
        pass            # the cases will say so


def gpu_class():
    from forcepho.patches import FITSPatch, GPUPatchMixin, SimplePatch

    class Patcher(FITSPatch, GPUPatchMixin):
        pass
    return SimplePatch, Patcher


def gpu_patch(ctx, w, cls=None):
    cls = cls or gpu_class()[int(ctx.rng.integers(2))]
    p = cls(fitsfiles=list(w.files), psfstore=w.psfstore, splinedata=w.spline)
    p.build_patch(region=None, sourcecat=None, allbands=w.allbands)
    return p


def watch(ctx, before):
    now = fakecuda.counters()
    for k in ("accesses", "atomics", "barriers", "shuffles", "blocks", "threads", "launches"):
        ctx.count(k, now[k] - before[k])
    ctx.sig("schedule", now["schedule"])
    ctx.maximum("shared_bytes", now["max_shared"])


def needs(p):
    """Shared memory of the kernel: accumulators and the Gaussians of all sources."""
    from forcepho.kernel_limits import MAXSOURCES, NPARAMS, NUMACCUMS
    return NUMACCUMS * (8 + 4 * NPARAMS * MAXSOURCES) + 84 * p.n_sources * int(np.max(p.n_psf_per_source))


def inputs(p):
    return {n: getattr(p, n).tobytes() for n in p.patch_struct_dtype.names if n != "residual" and isinstance(getattr(p, n, None), np.ndarray)}


def released(ctx, base, p):
    """Every device buffer of a patch is given back, once."""
    p.free()
    ctx.check(fakecuda.live() == base, "device buffers of a patch that was freed are still held", held=fakecuda.live() - base)
    p.free()
    ctx.count("freed")


def case_evaluate(ctx, i):
    from forcepho.proposal import CPUProposer, GPUProposer, Proposer
    rng = ctx.rng
    w = world_for(ctx, i)
    observe(ctx, w, 0.6, 0.3, 1.7)
    anchors = w.cat.copy()
    cat = perturb(rng, w, w.cat) if rng.random() < 0.7 else w.cat
    base = fakecuda.live()
    g = gpu_patch(ctx, w)
    c = cpu_patch(w, sourcecat=None)
    scenes = []
    for p in (g, c):
        s = p.set_scene(w.cat)
        p.pack_meta(s)
        p.return_residual = True
        p.send_to_device()
        s.set_all_source_params(as_vector(cat, p.bandlist, p.patch_reference_coordinates))
        scenes.append(s)
    nb, ns = len(w.bands), len(cat)
    block = int(rng.choice([32, 64, 128, 160, 256, 512, 1024, 1024]))
    cls = Proposer if rng.random() < 0.2 else GPUProposer
    pr = (cls() if block == 1024 else cls(thread_block=block))
    prop = scenes[0].get_proposal()
    keep, raw = inputs(g), prop.tobytes()
    if needs(g) > 48000:
        n = fakecuda.counters()["launches"]
        ctx.raises(lambda: pr.evaluate_proposal(prop, patch=g), "a scene that does not fit into shared memory was evaluated", kinds=(ValueError,), need=needs(g))
        ctx.check(fakecuda.counters()["launches"] == n, "a refused scene was launched")
        ctx.count("refused")
        released(ctx, base, g)
        return
    out = pr.evaluate_proposal(prop, patch=g)
    chi2, der, res = out
    der = np.array(der, float)
    ctx.check(len(chi2) == nb and der.shape == (nb, ns, 7), "shapes of the answer", got=[np.shape(chi2), der.shape])
    ref = refmodel.Ref(w)
    compare(ctx, w, ref, g, cat, anchors, np.array(chi2, float), res, None, "gpu")
    # derivatives
    srcs = list(rng.permutation(ns)[:3 if len(w.exps) < 8 else 1])
    want, tol = ref_gradients(ctx, w, ref, g, cat, anchors, srcs)
    ctx.close(der[:, srcs, :], want, tol, "derivative of chi-square differs on the device", name="dchi2", sources=srcs)
    ctx.count("gradients_compared", want.size)
    # the C++ evaluator
    if rng.random() < 0.5:
        cc, cd, cr = c.get_proposer().evaluate_proposal(scenes[1].get_proposal(), patch=c)
    else:
        cc, cd, cr = CPUProposer(patch=c).evaluate_proposal(scenes[1].get_proposal())
    rr, cr = np.concatenate(res).astype(float), np.concatenate(cr).astype(float)
    scale = np.abs(cr) + np.abs(g.data) + np.abs(g.data - cr)
    ctx.close(rr, cr, 40 * EPS * scale + 1e-30, "residuals of device and C++ evaluator", name="residual_cpu")
    ie2 = g.ierr.astype(float) ** 2
    ctx.close(np.sum(chi2), np.sum(cc), 100 * EPS * np.sum(ie2 * scale ** 2) + 1e-30, "chi-square of device and C++ evaluator", name="chi2_cpu")
    if np.array_equal(rr, cr):
        # nothing is lost in the sums either
        ctx.close(np.asarray(chi2, float), np.asarray(cc, float), 3e-8 * np.sum(ie2 * (rr ** 2 + g.data.astype(float) ** 2)) + 1e-30, "sums of device and C++ evaluator", name="chi2_sum")
        ctx.count("sums_compared")
    ctx.close(der[:, srcs, :], np.asarray(cd, float)[:, srcs, :], 2 * tol, "derivatives of device and C++ evaluator", name="dchi2_cpu")
    # another schedule, another block size, the same answer
    pr2 = pr if rng.random() < 0.5 else GPUProposer(thread_block=int(rng.choice([32, 96, 224, 1024])), patch=g)
    c2, d2, r2 = pr2.evaluate_proposal(prop, patch=g) if pr2 is pr else pr2.evaluate_proposal(prop)
    ctx.equal(np.concatenate(r2), np.concatenate(res), "residuals depend on the schedule")
    ctx.close(c2, chi2, 1e-11 * np.sum(ie2 * (cr ** 2 + g.data.astype(float) ** 2)) + 1e-30, "chi-square depends on the schedule")
    ctx.close(np.asarray(d2, float)[:, srcs, :], der[:, srcs, :], tol, "derivatives depend on the schedule")
    ctx.check(inputs(g) == keep and prop.tobytes() == raw, "an evaluation on the device changed its inputs")
    held = fakecuda.live() - base
    g.return_residual = False
    if rng.random() < 0.5:
        g.send_to_device()
    o = pr.evaluate_proposal(prop, patch=g)
    ctx.check(len(o) == 2, "residuals that nobody asked for")
    ctx.close(o[0], chi2, 1e-11 * np.sum(ie2 * (cr ** 2 + g.data.astype(float) ** 2)) + 1e-30, "chi-square depends on whether residuals are kept")
    ctx.check(fakecuda.live() - base <= held, "device buffers grow with the number of evaluations", held=fakecuda.live() - base, before=held)
    released(ctx, base, g)
    ctx.sig("evaluate", block, min(ns, 8), min(nb, 8), min(len(w.exps), 8))
    ctx.sample(block=block, sources=ns, bands=nb, exposures=len(w.exps), device=fakecuda.counters())


def case_prepared(ctx):
    rng = ctx.rng
    w = setup(ctx)
    room = max(1, int((48000 - 848) // (84 * max(len(w.psfs[b]) for b in w.bands))))
    if len(w.cat) > room:
        return
    block = min(int(rng.choice([1, 2, 3, 5, 15])), room)
    nf, nb = [int(rng.choice([0, 1, block, block + 1, 2 * block + 1])) for _ in range(2)]
    nf, nb = min(nf, 8), min(nb, 8)
    mk = lambda n, s: make_catalog(rng, n, w.center, w.half * 1.3, w.bands, w.sr, w.rr, start_id=s)
    fixed, big = mk(nf, 100), mk(nb, 200)
    ref = refmodel.Ref(w)
    base = fakecuda.live()
    g, c = gpu_patch(ctx, w), cpu_patch(w, sourcecat=None)
    sub = Sub(w)
    nblocks = -(-nf // block) - (-nb // block) + 1
    want, tol, ie, use, _ = sub.data(g, [(fixed, ref), (big, ref)], nblocks)
    aw, at, _, _, _ = sub.data(g, [(fixed, ref), (big, ref), (w.cat, ref)], nblocks + 1)
    sel = use & (ie > 0)
    ctx.desc = dict(w=w.describe(), nf=nf, nb=nb, block=block)
    bounds = None
    if rng.random() < 0.5:
        bounds = np.zeros(len(w.cat), dtype=[(n, float, (2,)) for n in SHAPES + list(w.bands)])
        for n in bounds.dtype.names:
            pad = 1e-5 if n in ("ra", "dec") else 0.3
            bounds[n][:, 0], bounds[n][:, 1] = w.cat[n] - pad, w.cat[n] + pad
    for k in range(int(rng.integers(1, 4))):
        args = dict(fixed=fixed if nf else None, big=big if nb else None, maxactive=block, bounds=bounds)
        mg, qg = g.prepare_model(active=w.cat, **args)
        mc, qc = c.prepare_model(active=w.cat, **args)
        ctx.equal(qg, qc, "start of the fit on the device")
        d = g.retrieve_array("data").astype(float)
        ctx.close(d[sel], want[sel], tol[sel], "working data on the device are not the data minus all fixed and big sources", name="data", n_fixed=nf, n_big=nb, block=block)
        # one buffer for every array of the patch, one for its struct
        npt = sum(g.patch_struct_dtype[n] == g.ptr_dtype for n in g.patch_struct_dtype.names)
        ctx.check(fakecuda.live() - base <= npt + 1, "device buffers that no patch uses are held", held=fakecuda.live() - base, arrays=npt)
        q = qg if bounds is None else np.asarray(mg.transform.inverse_transform(qg) if hasattr(mg.transform, "inverse_transform") else qg)
        for _ in range(int(rng.integers(1, 4))):
            z = q + (rng.normal(0, 0.3, len(q)) if bounds is not None else 0)
            lg, gg = mg.lnprob_and_grad(z.copy())
            lc, gc_ = mc.lnprob_and_grad(z.copy())
            big_ = np.sum(ie[sel] ** 2 * (want[sel] ** 2 + aw[sel] ** 2))
            ctx.close(lg, lc, 1e-5 * big_ + 1e-9, "log-probability on the device and the CPU", name="lnp")
            s_ = np.abs(gc_)
            ctx.close(gg, gc_, 2e-3 * s_ + 2e-4 * np.max(s_), "gradient on the device and the CPU", name="grad")
        if bounds is None:
            r = np.concatenate(mg.residuals(qg))
            ctx.close(r[sel], aw[sel], at[sel], "residual after preparation is not data minus all sources", name="residual")
        ctx.equal(g.retrieve_array("data").astype(float), d, "evaluating changed the working data on the device")
        if rng.random() < 0.6:
            Xg, yg = g.design_matrix(active=w.cat)
            Xc, yc = c.design_matrix(active=w.cat)
            for a, b, y, z in zip(Xg, Xc, yg, yc):
                ctx.equal(np.shape(a), np.shape(b), "shape of the design matrix")
                ctx.close(y, z, 40 * EPS * nblocks * (np.abs(z) + np.abs(z).max()), "target of the design matrix on the device")
                flux = np.array([w.cat[bb] for bb in w.bands])
                ctx.close(a, b, 1e-4 * np.abs(b).max() + 8 * EPS * np.abs(z).max() / max(1e-3, np.abs(flux).min()), "design matrix on the device")
            ctx.equal(g.retrieve_array("data").astype(float), d, "the design matrix changed the working data on the device")
            l2 = mg.lnprob(z_ := q.copy())
            ctx.close(l2, mc.lnprob(z_.copy()), 1e-5 * big_ + 1e-9, "log-probability after the design matrix", name="lnp")
            ctx.check(fakecuda.live() - base <= npt + 1, "device buffers grow with the design matrix", held=fakecuda.live() - base)
        ctx.count("prepared")
        act = rng.random()
        if act < 0.3:
            g.free()
            ctx.check(fakecuda.live() == base, "device buffers of a patch that was freed are still held")
        for p in (g, c):
            p.build_patch(region=None, sourcecat=None, allbands=w.allbands)
    if nf + nb and rng.random() < 0.4:
        g.subtract_fixed(fixed if nf else None, active=None, big=big if nb else None, maxactive=block, swap_local=True)
        d = g.retrieve_array("data").astype(float)
        ctx.close(d[sel], want[sel], tol[sel], "working data without active sources", name="data")
    ctx.sig("prepared", block, min(nf, 9), min(nb, 9), len(w.bands), bounds is not None)
    if rng.random() < 0.5:
        released(ctx, base, g)
    else:
        mg = None
        if nf + nb == 0 or True:
            del g, mg
        p = None
        gc.collect()
        ctx.check(fakecuda.live() == base, "device buffers of a patch that is gone are still held", held=fakecuda.live() - base)
        ctx.count("freed")


def case_limits(ctx):
    from forcepho.kernel_limits import MAXBANDS, MAXSOURCES
    from forcepho.proposal import GPUProposer
    rng = ctx.rng
    spl = write_spline(os.path.join(ctx.tmp, "s.h5"), rng, 3)
    over = rng.random() < 0.5
    n = MAXSOURCES + int(over)
    w = World(rng, ctx.tmp, n_bands=int(rng.integers(1, 3)), n_exp=1, n_src=n, size=12, psf_ng=1, spline=spl)
    w.write(rng)
    base = fakecuda.live()
    g = gpu_patch(ctx, w)
    s = g.set_scene(w.cat)
    g.pack_meta(s)
    g.return_residual = True
    g.send_to_device()
    prop = s.get_proposal()
    k = fakecuda.counters()["launches"]
    if over:
        ctx.raises(lambda: GPUProposer().evaluate_proposal(prop, patch=g), "more sources than the kernel holds were evaluated", kinds=(ValueError,), sources=n)
        ctx.check(fakecuda.counters()["launches"] == k, "a refused scene was launched")
        ctx.count("refused")
    else:
        need = needs(g)
        # exactly what it needs is enough, less is refused
        small = int(rng.choice([need, need - 4, need // 2]))
        pr = GPUProposer(shared_size=small, thread_block=64)
        if small < need:
            ctx.raises(lambda: pr.evaluate_proposal(prop, patch=g), "a scene that does not fit into shared memory was evaluated", kinds=(ValueError,), need=need, shared=small)
            ctx.count("refused")
        else:
            chi2, der, res = pr.evaluate_proposal(prop, patch=g)
            c = cpu_patch(w)
            c.return_residual = True
            c.send_to_device()
            cc, cd, cr = c.get_proposer().evaluate_proposal(c.scene_used.get_proposal(), patch=c)
            ctx.close(np.concatenate(res), np.concatenate(cr), 60 * EPS * (np.abs(np.concatenate(cr)) + np.abs(g.data)), "residuals of a full scene")
            ctx.count("full_scenes")
    ctx.sig("limits", over, len(w.bands))
    released(ctx, base, g)


def case_store(ctx):
    """Patches of a pixel store, images rendered on the device, the self-test of the struct."""
    from checks.c20 import build
    from forcepho.patches import GPUPatchMixin, JadesPatch
    rng = ctx.rng
    w, c, truth, regs, meta = build(ctx, "store")
    base = fakecuda.live()
    g = JadesPatch(pixelstore=os.path.join(ctx.tmp, "pix.h5"), metastore=meta, psfstore=w.psfstore, splinedata=w.spline)
    for reg in regs:
        try:
            c.build_patch(region=reg, sourcecat=None, allbands=w.allbands)
        except ValueError:
            ctx.raises(lambda: g.build_patch(region=reg, sourcecat=None, allbands=w.allbands), "a region without data", kinds=(ValueError,))
            continue
        g.build_patch(region=reg, sourcecat=None, allbands=w.allbands)
        for n in ("data", "ierr", "xpix", "ypix"):
            ctx.equal(getattr(g, n), getattr(c, n), "pixels packed for the device", array=n)
        if 848 + 84 * len(w.cat) * max(len(w.psfs[b]) for b in w.bands) > 48000:
            continue
        ig, ic = g.render(w.cat), c.render(w.cat)
        ctx.check(len(ig) == len(ic), "number of rendered images")
        for a, b, d in zip(ig, ic, g.split_pix("data")):
            ctx.close(a, b, 40 * EPS * (np.abs(b) + np.abs(d)), "image rendered on the device", name="render")
        if rng.random() < 0.5:
            g.test_struct_transfer(g.device_patch, psf_index=int(rng.integers(0, len(g.psfgauss))))
            ctx.count("struct_tests")
        ctx.count("rendered", len(ig))
        ctx.sig("store", len(ig), len(w.cat))
    released(ctx, base, g)


def case(ctx, i):
    before = fakecuda.counters()
    gc.collect()
    fakecuda.seed[0] = int(ctx.rng.integers(1, 2 ** 31))
    k = i % 12
    if k in (0, 1, 2, 3, 4, 5):
        case_evaluate(ctx, i)
    elif k in (6, 7, 8, 9):
        case_prepared(ctx)
    elif k == 10:
        case_limits(ctx)
    else:
        case_store(ctx)
    watch(ctx, before)

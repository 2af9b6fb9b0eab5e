"""C25: the dispatcher hands out every patch once and merges every result once."""
import argparse
import contextlib
import json
import os
import sys

import numpy as np
from astropy.io import fits

from fpv import fakempi
from fpv.world import DEMO_SPLINE, SHAPES, World

PROPERTY = "C25"
NEEDS_KERNEL = True
TECHNIQUE = "runtime monitor: parent and children run under an in-memory MPI with a seeded scheduler; message traces and the scene and logs written are checked offline"
RULE = "distinct (ranks, sources, order of hand-out and completion of tasks) histories of the dispatcher"
ASSUMPTIONS = ["workers return for every task they receive (a worker that dies takes its task with it)", "the configured mode is optimization or sampling"]
CASES = {"quick": 260, "thorough": 6000}
MIN = {"tasks": 1000, "queue_ops": 1500, "switches": 10000, "waits": 300, "real_tasks": 20}


class Answer:
    """What a pretend fit returns: behaves like a filled result."""

    def __init__(self, final, covs):
        self._final, self._covs = final, covs

    def fill(self, region, active, fixed, *args, patchID=None, **kwargs):
        self.patchID = patchID
        self.active = np.array(active)
        self.fixed = None if fixed is None else np.array(fixed)
        self.final = self._final
        for k, v in vars(region).items():
            setattr(self, k, v)
        return self._final, self._covs


class Patcher:
    def __init__(self, *args, **kwargs):
        pass

    def free(self):
        pass


SCENES = []      # the scenes made in the run being watched


@contextlib.contextmanager
def installed(work=None, patcher=Patcher, cwd=None):
    """The dispatcher under the in-memory MPI, with pretend or real work."""
    pkg, mpi = fakempi.module()
    old = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI")}
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, mpi
    import forcepho.dispatcher as D
    import forcepho.patches as P
    import forcepho.tasks as T
    saved = []

    def put(obj, name, v):
        saved.append((obj, name, getattr(obj, name, None), hasattr(obj, name)))
        setattr(obj, name, v)
    put(D, "MPI", mpi)
    from forcepho.superscene import SuperScene
    del SCENES[:]
    init = SuperScene.__init__

    def made(self, *a, **k):
        SCENES.append(self)
        return init(self, *a, **k)
    put(SuperScene, "__init__", made)
    put(P, "JadesPatch", patcher)
    if hasattr(D, "JadesPatch"):
        put(D, "JadesPatch", patcher)
    if work is not None:
        for n in ("sample", "optimize"):
            put(T, n, work)
            if hasattr(D, n):
                put(D, n, work)
    here = os.getcwd()
    try:
        if cwd:
            os.chdir(cwd)
        yield D
    finally:
        os.chdir(here)
        for obj, name, v, had in reversed(saved):
            setattr(obj, name, v) if had else delattr(obj, name)
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def case_queue(ctx):
    """Random histories of submit/collect/closeout on the queue alone."""
    rng = ctx.rng
    nc = int(rng.integers(1, 7))
    net = fakempi.Net(nc + 1, rng, delay=float(rng.choice([0, 0.5, 0.9])))
    err = []
    told = {r: 0 for r in range(1, nc + 1)}

    def child(comm):
        while True:
            st = fakempi.Status()
            t = comm.recv(source=0, tag=fakempi.ANY_TAG, status=st)
            if t is None:
                told[comm.rank] += 1
                return
            comm.send(("done", t, comm.rank), 0, st.tag)

    def parent(comm):
        q = D.MPIQueue(comm, nc)
        out = {}          # child -> payload
        got = []
        sent = 0

        def need(ok, msg, **kw):
            if not ok:
                err.append((msg, kw))
                raise fakempi.Deadlock()

        def take(res, what):
            for r in res:
                kind, t, c = r
                need(c in out and out[c] == t, "a result is collected that is not outstanding, or twice", result=repr(r), outstanding=repr(out))
                del out[c]
                got.append(t)
            need(sorted(q.idle) == sorted(set(range(1, nc + 1)) - set(out)), "idle children", idle=list(q.idle), outstanding=sorted(out))
        ops = int(rng.integers(5, 60))
        for _ in range(ops):
            op = str(rng.choice(["submit", "submit", "submit", "poll", "wait", "all", "close"], p=[0.2, 0.2, 0.1, 0.25, 0.15, 0.05, 0.05]))
            ctx.count("queue_ops")
            if op == "submit":
                payload = ("task", sent, "x" * int(rng.integers(0, 3000)))
                if len(out) == nc:
                    n0 = len(net.trace)
                    try:
                        q.submit(payload, tag=sent)
                        need(False, "a task is accepted while every child is busy")
                    except RuntimeError:
                        pass
                    need(len(net.trace) == n0, "a refused task is sent")
                    continue
                if rng.random() < 0.3:
                    c = q.submit(payload)
                else:
                    c = q.submit(payload, tag=int(rng.choice([sent, 0, 7])))
                need(c not in out, "a task is sent to a busy child", child=c)
                out[c] = payload
                sent += 1
                need(sorted(q.idle) == sorted(set(range(1, nc + 1)) - set(out)), "idle children", idle=list(q.idle), outstanding=sorted(out))
            elif op == "poll":
                take(q.collect() if rng.random() < 0.5 else q.collect(blocking=False), op)
            elif op == "wait":
                if not out:
                    try:
                        q.collect(blocking=True)
                        need(False, "waiting for a result when there is nothing to wait for")
                    except RuntimeError:
                        pass
                    continue
                n0 = len(got)
                take(q.collect(blocking=True), op)
                need(len(got) > n0, "waiting for a result returns without one")
            elif op == "all":
                take(q.collect(blocking="all"), op)
                need(not out, "results are still outstanding after waiting for all", outstanding=repr(out))
            elif out:
                n0 = len(net.trace)
                try:
                    q.closeout()
                    need(False, "the queue closes while children are busy")
                except RuntimeError:
                    pass
                need(len(net.trace) == n0, "children are told to stop while one is busy")
        take(q.collect(blocking="all"), "end")
        need(sorted(t[1] for t in got) == list(range(sent)), "tasks and results do not match one to one", sent=sent, got=sorted(t[1] for t in got))
        q.closeout()
        ctx.count("tasks", sent)

    with installed() as D:
        fns = {r: child for r in range(1, nc + 1)}
        fns[0] = parent
        ok = net.run(fns)
    for msg, kw in err:
        ctx.check(False, msg, **kw)
    ends(ctx, net, nc, ok, told)
    ctx.count("switches", net.switches)
    ctx.sig("queue", nc, hash(tuple((e[0], e[1], e[2]) for e in net.trace if e[0] != "error")))


def ends(ctx, net, nc, ok, told=None):
    real = [e for e in net.trace if e[0] == "error" and "Deadlock" not in e[2]]
    ctx.check(not real, "a rank ends with an error", errors=[e[2] for e in real], trace=real[0][3][-1500:] if real else "")
    ctx.check(ok and not net.dead, "the ranks wait for each other forever", waiting=[e[1] for e in net.trace if e[0] == "error"])
    if told is not None:
        ctx.check(all(v == 1 for v in told.values()), "children that were told to stop", got=told)
    ctx.check(all(not b for b in net.box.values()), "messages that nobody received", left={r: len(b) for r, b in net.box.items()})


def sky(rng, ns, bands):
    from forcepho.superscene import sourcecat_dtype
    cat = np.zeros(ns, dtype=sourcecat_dtype(bands=bands))
    cat["id"] = rng.permutation(10000)[:ns]
    w = float(rng.choice([2, 15, 60])) / 3600
    cat["ra"], cat["dec"] = 53.16 + rng.uniform(-w, w, ns), -27.79 + rng.uniform(-w, w, ns)
    cat["rhalf"], cat["sersic"], cat["q"], cat["pa"] = rng.uniform(0.06, 0.25, ns), rng.uniform(1.1, 4.5, ns), rng.uniform(0.5, 0.95, ns), rng.uniform(-1, 1, ns)
    for b in bands:
        cat[b] = rng.uniform(1, 100, ns)
    return cat


def run_ranks(ctx, cat, bands, config, nc, work, patcher, delay):
    rng = ctx.rng
    root = os.path.join(ctx.tmp, "d%d" % ctx.case)
    os.makedirs(root, exist_ok=True)
    hdr = fits.Header()
    hdr["FILTERS"] = ",".join(bands)
    config.raw_catalog, config.scene_catalog = os.path.join(root, "in.fits"), os.path.join(root, "outscene.fits")
    fits.HDUList([fits.PrimaryHDU(header=hdr), fits.BinTableHDU(cat)]).writeto(config.raw_catalog)
    np.random.seed(int(rng.integers(2 ** 31)))
    net = fakempi.Net(nc + 1, rng, delay=delay)
    with installed(work, patcher, cwd=root) as D:
        fns = {r: (lambda comm: D.do_child(comm, config=config)) for r in range(1, nc + 1)}
        fns[0] = lambda comm: D.do_parent(comm, config=config)
        ok = net.run(fns)
    return root, net, ok


def judge(ctx, root, net, ok, cat, bands, config, nc, tol=0.0):
    """Offline checks over the trace and the files the run left."""
    ends(ctx, net, nc, ok)
    ns = len(cat)
    state = {c: cat[c].copy() for c in bands + SHAPES}       # the scene as the parent has to know it
    covs = {}
    out, sent, order, stopped = {}, {}, [], {r: 0 for r in range(1, nc + 1)}
    maxout = 0
    for e in net.trace:
        if e[0] == "send" and e[1] == 0:
            _, _, dest, tag, task = e
            ctx.check(stopped[dest] == 0, "a child gets a message after it was told to stop", child=dest)
            if task is None:
                stopped[dest] += 1
                ctx.check(not out, "children are told to stop while results are outstanding", outstanding=sorted(out))
                continue
            ctx.check(dest not in out, "a child receives a second task before returning the first", child=dest)
            act = [int(i) for i in task["active"]["source_index"]]
            fix = [] if task["fixed"] is None else [int(i) for i in task["fixed"]["source_index"]]
            ctx.check(len(act) > 0 and len(act) == len(set(act)) and not set(act) & set(fix), "sources of a task", active=act, fixed=fix)
            held = [set(v[1]) for v in out.values()]
            ctx.check(not any(set(act) & h for h in held), "a source is active in two outstanding patches", active=act, held=[sorted(h) for h in held])
            ctx.check(not any(set(fix) & h for h in held), "a source is fixed in a patch while another patch changes it", fixed=fix)
            ctx.check(tag not in sent, "two tasks have the same number", tag=tag)
            for c in bands + SHAPES:
                ctx.close(task["active"][c], state[c][act], tol, "a task does not have the latest parameters of its sources", column=c, task=tag)
                if fix:
                    ctx.close(task["fixed"][c], state[c][fix], tol, "a task does not have the latest parameters of its fixed sources", column=c, task=tag)
            n = len(bands) + 6
            for j, i in enumerate(act):
                blk = np.asarray(task["cov"])[j * n:(j + 1) * n, j * n:(j + 1) * n]
                ctx.close(blk, covs.get(i, np.eye(n)), 1e-12 * np.abs(blk).max(), "a task does not have the latest covariances of its sources", source=i)
            ctx.check([int(i) for i in task["bounds"]["source_index"]] == act if "source_index" in task["bounds"].dtype.names else len(task["bounds"]) == len(act), "bounds of a task")
            ctx.check(list(task["bands"]) == bands, "bands of a task")
            out[dest] = (tag, act, fix)
            sent[tag] = (act, task["region"])
            maxout = max(maxout, len(out))
        elif e[0] == "collect" and e[1] == 0:
            _, _, src, tag, ans = e
            ctx.check(src in out and out[src][0] == tag, "a result is collected for a task that is not outstanding", child=src, tag=tag)
            _, act, fix = out.pop(src)
            ctx.check([int(i) for i in ans["final"]["source_index"]] == act, "a result is for other sources than the task", tag=tag)
            for c in bands + SHAPES:
                state[c][act] = ans["final"][c]
            if ans["covs"] is not None:
                for j, i in enumerate(act):
                    covs[i] = np.array(ans["covs"][j])
            order.append(tag)
    ctx.check(not out, "a result was never collected", tasks=[v[0] for v in out.values()])
    ctx.check(all(v == 1 for v in stopped.values()), "every child is told to stop, once", got=stopped)
    # what the run left
    fin = fits.getdata(os.path.join(root, "outscene.fits"))
    with open(os.path.join(root, "outscene_log.json")) as f:
        log = json.load(f)
    with open(os.path.join(root, "patchlog.dat")) as f:
        plog = json.load(f)
    ctx.check(sorted(int(p) for p in log["patchlog"]) == sorted(sent), "patches logged are not those that were handed out", logged=log["patchlog"], sent=sorted(sent))
    times = np.zeros(ns, int)
    for tag, (act, _) in sent.items():
        times[act] += 1
    ctx.equal(np.array(fin["n_iter"]), times * config.sampling_draws, "iterations of each source: a result was lost or merged twice", patches=times)
    ctx.equal(np.array(fin["n_patch"]), times, "patches of each source")
    want = {str(i): sorted(t for t, (a, _) in sent.items() if i in a) for i in range(ns) if times[i]}
    ctx.check({k: sorted(int(x) for x in v) for k, v in log["sourcelog"].items()} == want, "a source is logged with patches it was not in", logged=log["sourcelog"], want=want)
    for c in bands + SHAPES:
        ctx.close(np.array(fin[c]), state[c], tol, "final parameters of the sources are not those of their last results", column=c)
    ctx.check(not np.any(fin["is_active"]) and np.all(fin["is_valid"]), "sources are still checked out at the end")
    n = len(bands) + 6
    for sc in SCENES[-1:]:
        for i in range(ns):
            _, blk = sc.bounds_and_covs([i])
            if blk is None and i not in covs:
                continue
            ctx.check(blk is not None, "covariances of a result are lost", source=i)
            ctx.close(blk, covs.get(i, np.eye(n)), 1e-12 * np.abs(blk).max(), "covariances of a source at the end are not those of its last result", source=i)
            ctx.count("final_covariances")
    ctx.check(np.all(np.abs(fin["n_iter"]) >= config.target_draws), "the run ends before every source is done")
    ctx.check(sorted(int(k) for k in plog) == sorted(sent), "patches of the patch log")
    for k, v in plog.items():
        act, reg = sent[int(k)]
        ctx.check(list(v["sources"]) == act and (v["ra"], v["dec"], v["radius"]) == (reg.ra, reg.dec, reg.radius), "entry of the patch log", patch=k)
    ctx.count("tasks", len(sent))
    ctx.count("switches", net.switches)
    ctx.count("waits", sum(a != b for a, b in zip(order, sorted(order))))
    ctx.maximum("outstanding", maxout)
    ctx.sig("run", nc, ns, tuple(order))
    ctx.sample(children=nc, sources=ns, tasks=len(sent), order=order[:12], most_outstanding=maxout)
    return sent


def case_run(ctx):
    rng = ctx.rng
    bands = ["F%03dW" % x for x in rng.permutation(300)[:int(rng.integers(1, 4))] + 100]
    ns, nc = int(rng.integers(1, 30)), int(rng.integers(1, 7))
    cat = sky(rng, ns, bands)
    n = len(bands) + 6
    wrng = np.random.default_rng(int(rng.integers(2 ** 32)))
    nocov = bool(rng.random() < 0.3)

    def work(patcher, scene, config, logger, *args, **kwargs):
        region, active, fixed, bounds = scene
        final = np.array(active)
        for c in bands:
            final[c] = wrng.uniform(1, 1000, len(final))
        final["rhalf"], final["sersic"], final["q"], final["pa"] = [wrng.uniform(a, b, len(final)) for a, b in ((0.06, 0.25), (1, 4), (0.5, 0.9), (-1, 1))]
        covs = None if nocov else np.array([np.diag(wrng.uniform(0.1, 2, n)) for _ in range(len(final))])
        return (Answer(final, covs), None, None), (region, active, fixed, bounds), None

    config = argparse.Namespace(maxactive_per_patch=int(rng.integers(1, 12)), patch_maxradius=float(rng.choice([1.5, 6, 15])), target_draws=int(rng.choice([1, 20, 45])), sampling_draws=int(rng.choice([10, 20, 64])),
                                ntry_checkout=int(rng.choice([2, 6])), mode=str(rng.choice(["sampling", "optimization"])), metastorefile="", psfstorefile="", pixelstorefile="", splinedatafile="", bands=bands)
    root, net, ok = run_ranks(ctx, cat, bands, config, nc, work, Patcher, float(rng.choice([0, 0.5, 0.95])))
    judge(ctx, root, net, ok, cat, bands, config, nc)


def case_real(ctx):
    """The whole stack: pixel store, patches, real optimisation and sampling in the children."""
    from forcepho.patches import CPUPatchMixin, StorePatch
    from forcepho.patches.storage import ImageSet, MetaStore, PixelStore
    from forcepho.superscene import sourcecat_dtype
    rng = ctx.rng
    w = World(rng, ctx.tmp, n_bands=int(rng.integers(1, 3)), n_exp=1, n_src=int(rng.integers(2, 6)), size=24, spline=DEMO_SPLINE, center=(53.1625, -27.79), extreme=False, negative=0.0, masked=False, nonsquare=False)
    cat = np.zeros(len(w.cat), dtype=sourcecat_dtype(bands=w.bands))
    for c in w.bands + SHAPES + ["id"]:
        cat[c] = w.cat[c]
    n = len(cat)
    cat["rhalf"], cat["sersic"], cat["q"], cat["pa"] = [rng.uniform(a, b, n) for a, b in ((0.06, 0.25), (1.2, 4.5), (0.5, 0.95), (-1, 1))]
    for c in ("rhalf", "sersic", "q", "pa"):
        w.cat[c] = cat[c]
    w.add_model()
    pixfile, metafile = os.path.join(ctx.tmp, "p%d.h5" % ctx.case), os.path.join(ctx.tmp, "m%d.json" % ctx.case)
    store, meta = PixelStore(pixfile, nside_full=np.array([24, 24]), super_pixel_size=4), MetaStore()
    for k, e in enumerate(w.exps):
        ims = ImageSet(im=e["data"].T.copy(), ierr=(1 / e["err"]).T.copy(), mask=None, bkg=None, hdr=e["hdr"], band=e["band"], expID="exp%d" % k, names=None)
        store.add_exposure(ims)
        meta.add_exposure(ims)
    store.close()
    meta.write_to_file(metafile)

    class Local(StorePatch, CPUPatchMixin):
        pass
    mode = str(rng.choice(["sampling", "optimization"]))
    config = argparse.Namespace(maxactive_per_patch=int(rng.integers(1, 4)), patch_maxradius=6.0, target_draws=int(rng.choice([2, 4])), sampling_draws=2, warmup=[2], max_treedepth=3, progressbar=False, gtol=10.0,
                                add_barriers=0, linear_optimize=0, flux_prior_expansion=5.0, ntry_checkout=5, mode=mode, metastorefile=metafile, psfstorefile=w.psfstore, pixelstorefile=pixfile, splinedatafile=w.spline, bands=w.bands)
    nc = int(rng.integers(1, 4))
    root, net, ok = run_ranks(ctx, cat, w.bands, config, nc, None, Local, 0.5)
    sent = judge(ctx, root, net, ok, cat, w.bands, config, nc)
    given = {e[3]: e[4] for e in net.trace if e[0] == "send" and e[1] == 0 and e[4] is not None}
    for e in net.trace:
        if e[0] == "collect" and e[1] == 0:
            out = e[4]["out"]
            t = given[e[3]]
            for c in w.bands + SHAPES:
                if mode == "sampling":
                    ctx.equal(np.array(out.bounds[c]), np.array(t["bounds"][c]), "bounds in the record of a result are not those of the task", column=c, task=e[3])
                    ctx.equal(np.array(out.active[c]), np.array(t["active"][c]), "starting sources in the record of a result are not those of the task", column=c, task=e[3])
            ctx.check([int(i) for i in out.active["source_index"]] == [int(i) for i in t["active"]["source_index"]], "sources in the record of a result", task=e[3])
            fx = None if t["fixed"] is None or not len(t["fixed"]) else [int(i) for i in t["fixed"]["source_index"]]
            ctx.check(fx == (None if out.fixed is None or not len(out.fixed) else [int(i) for i in out.fixed["source_index"]]), "fixed sources in the record of a result", task=e[3])
            ctx.check((out.ra, out.dec, out.radius) == (t["region"].ra, t["region"].dec, t["region"].radius), "region in the record of a result", task=e[3])
            if mode == "sampling":
                ctx.check(len(out.stats) == len(out.chain) and out.n_tune + out.n_sample == len(out.chain) and out.n_sample == config.sampling_draws, "statistics in the record of a result", task=e[3])
            ctx.check(int(out.patchID) == e[3], "number of the patch in a result", got=out.patchID, want=e[3])
            ctx.check(len(out.chain) >= 1 and np.all(np.isfinite(out.chain)), "chain of a result")
    ctx.count("real_tasks", len(sent))
    ctx.sig("real", mode, nc, n)


def case(ctx, i):
    if i % 13 == 5:
        return case_real(ctx)
    if i % 3 == 0:
        return case_queue(ctx)
    return case_run(ctx)

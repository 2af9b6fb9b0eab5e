"""C03: the compiled evaluator under AddressSanitizer + UBSan, allocation perturbation and read-only monitors."""
import ctypes
import gc
import hashlib
import json
import os
import subprocess
import sys
import tempfile

import numpy as np

from fpv import kernel
from fpv.harness import Skip, VERIF, REPO, Violation
from fpv.world import World, cpu_patch, make_catalog

PROPERTY = "C03"
NEEDS_KERNEL = True
CASES = {"quick": 64, "thorough": 2000}
RULE = ("(a) sub-processes with the kernel compiled -fsanitize=address,undefined and every numpy buffer on the sanitized heap evaluate random worlds up to the compiled limits "
        "(30 sources, 30 bands, 10 radii), swaps, fixed-source blocks and design matrices, and scenes one beyond each limit which must be refused; "
        "(b) the same workload with the plain kernel under different malloc fill patterns must give bit-identical outputs; "
        "(c) the bytes in use by the process do not grow with the number of evaluations; (d) in-process histories: every input array is hashed around each evaluation, and a repeated evaluation after unrelated evaluations must be bit-identical. "
        "Signatures: world shapes reached under the sanitizer, limits refused, and (sources, bands, exposures, history) of the in-process cases.")
ASSUMPTIONS = ["gcc ASan/UBSan runtime", "the CUDA variant of the kernel is watched by C26", "MSan is not usable under CPython: uninitialised reads are sought by differing heap fill patterns"]
MIN = {"san_evaluations": 40, "san_refused": 3, "hash_checks": 100, "perturb_runs": 2, "growth_evaluations": 1000}


def _asan_lib():
    return subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()


def _env(**kw):
    env = dict(os.environ)
    env.update(kw)
    return env


def parent(ctx, so):
    san = kernel.build(ctx.tmp, sanitize=True)
    child = os.path.join(VERIF, "fpv", "san_child.py")
    n = 14 if ctx.tier == "quick" else 140
    budget = 150 if ctx.tier == "quick" else 3000
    jobs = []
    asan = dict(LD_PRELOAD=_asan_lib(), PYTHONMALLOC="malloc",
                ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:verify_asan_link_order=0",
                UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")
    for k in range(3):
        jobs.append(("san%d" % k, san, ctx.seed * 100 + k, "valid", n, asan))
    jobs.append(("beyond", san, ctx.seed * 100 + 50, "beyond", 6 if ctx.tier == "quick" else 30, asan))
    for k, p in enumerate(["0", "85", "170"]):
        jobs.append(("perturb" + p, so, ctx.seed * 100 + 77, "valid", n, dict(MALLOC_PERTURB_=p, PYTHONMALLOC="malloc")))
    procs = []
    for name, lib, seed, mode, nc, env in jobs:
        tmp = tempfile.mkdtemp(dir=ctx.tmp)
        fo, fe = open(os.path.join(tmp, "out"), "w+"), open(os.path.join(tmp, "err"), "w+")
        p = subprocess.Popen([sys.executable, child, lib, str(seed), mode, str(nc), str(budget)], stdout=fo, stderr=fe, cwd=tmp,
                             env=_env(TMPDIR=tmp, **env))
        procs.append((name, p, fo, fe, seed, mode))
    digests = {}
    for name, p, fo, fe, seed, mode in procs:
        try:
            rc = p.wait(timeout=budget + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Violation("sanitizer workload %s did not finish" % name)
        fo.seek(0), fe.seek(0)
        out, err = fo.read(), fe.read()
        if "CHILD-READY" not in out:
            raise RuntimeError("sanitizer child %s could not start: rc=%s %s" % (name, rc, err[-800:]))
        bad = [l for l in err.splitlines() if "AddressSanitizer" in l or "runtime error:" in l]
        last = [l for l in out.splitlines() if l.startswith("CASE")][-1:]
        if bad:
            at = err.find(bad[0])
            raise Violation("sanitizer report in %s (seed %d, %s): %s" % (name, seed, last, err[at:at + 1500]))
        for l in out.splitlines():
            if l.startswith("BEYOND-ACCEPTED"):
                raise Violation("a scene beyond the compiled limits was not refused: " + l)
        res = [l for l in out.splitlines() if l.startswith("RESULT ")]
        if rc != 0 or not res:
            raise Violation("%s workload (seed %d, %s) ended with status %s: %s" % (name, seed, last, rc, err[-1200:]))
        r = json.loads(res[0][7:])
        if name.startswith("san"):
            ctx.count("san_evaluations", r["count"]["evaluations"])
            ctx.count("san_pixels", r["count"]["pixels"])
            ctx.count("san_swaps", r["count"]["swaps"])
            ctx.counters["san_max_sources"] = max(ctx.counters.get("san_max_sources", 0), r["count"]["max_sources"])
            ctx.counters["san_max_bands"] = max(ctx.counters.get("san_max_bands", 0), r["count"]["max_bands"])
            ctx.counters["san_max_gauss_per_source"] = max(ctx.counters.get("san_max_gauss_per_source", 0), r["count"]["max_gauss"])
            for s in r["sigs"]:
                ctx.sig("san", s)
        elif name == "beyond":
            ctx.count("san_refused", r["count"]["refused"])
            for s in r["sigs"]:
                ctx.sig(s)
        else:
            ctx.count("perturb_runs")
            digests[name] = r["digest"], r["count"]["evaluations"]
    ctx.check(len(set(digests.values())) == 1, "results depend on the contents of uninitialised memory", digests=digests)
    ctx.sample(sanitizer_jobs=[(a, c, d) for a, b, c, d, e, f in jobs], digests=digests)


class _Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def in_use():
    """Bytes handed out by malloc and not yet given back."""
    gc.collect()
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = _Mallinfo2
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def growth(ctx):
    """Many evaluations hold no more memory than a few."""
    rng = ctx.rng
    w = World(rng, ctx.tmp, n_src=int(rng.integers(1, 31)), size=8, n_bands=2, n_exp=2)
    w.write(rng)
    p = cpu_patch(w)
    p.return_residual = bool(rng.integers(2))
    p.send_to_device()
    pr, prop = p.get_proposer(), p.scene_used.get_proposal()
    n = 150

    def run():
        for _ in range(n):
            out = pr.evaluate_proposal(prop, patch=p)
        del out
        return in_use()
    run()
    got = [run() for _ in range(4)]
    # every round adds the same amount if something is not given back at each evaluation
    per = min(np.diff(got)) / n
    ctx.check(per < 64, "memory of an evaluation is not given back", bytes_per_evaluation=float(per), in_use=got)
    ctx.maximum("bytes_per_evaluation", per)
    ctx.count("growth_evaluations", 5 * n)


ARRAYS = ["data", "ierr", "xpix", "ypix", "exposure_start", "exposure_N", "band_start", "band_N", "rad2", "D", "crpix", "crval", "CW", "G",
          "n_psf_per_source", "psfgauss", "psfgauss_start"]


def digest(patch, prop):
    h = {}
    for a in ARRAYS:
        h[a] = hashlib.md5(np.ascontiguousarray(getattr(patch, a)).tobytes()).hexdigest()
    h["proposal"] = hashlib.md5(prop.tobytes()).hexdigest()
    h["n_sources"] = int(patch.n_sources)
    return h


def case(ctx, i):
    rng = ctx.rng
    if i % 8 == 5:
        return growth(ctx)
    ws = [World(rng, ctx.tmp, name="w%d" % k, size=int(rng.integers(6, 16)), n_src=[None, 30, 1][i % 3] if k == 0 else None) for k in range(2)]
    pats = []
    for w in ws:
        w.write(rng)
        p = cpu_patch(w)
        p.return_residual = True
        p.send_to_device()
        pats.append((p, p.get_proposer(), p.scene_used))
    first = {}
    hist = []
    for t in range(8):
        k = int(rng.integers(2)) if t > 1 else t
        p, pr, sc = pats[k]
        prop = sc.get_proposal()
        # leave garbage of the kernel's own buffer sizes in the allocator caches
        junk = [np.full(210, np.nan, np.float32) for _ in range(6)] + [np.full(p.npix, np.nan, np.float32)]
        del junk
        p.residual[:] = np.float32(rng.normal() * 1e6)
        before = digest(p, prop)
        chi2, der, res = pr.evaluate_proposal(prop, patch=p)
        after = digest(p, prop)
        ctx.check(before == after, "evaluation modified its inputs", changed=[a for a in before if before[a] != after[a]])
        ctx.count("hash_checks")
        out = hashlib.md5(np.asarray(chi2).tobytes() + np.ascontiguousarray(der).tobytes() + np.concatenate(res).tobytes()).hexdigest()
        ctx.check(np.all(np.isfinite(chi2)) and np.all(np.isfinite(der)), "non-finite output", chi2=chi2)
        if k in first:
            ctx.check(out == first[k], "repeating an evaluation gives a different result", step=t, history=hist)
        first[k] = out
        hist.append(k)
    ctx.sig(len(ws[0].cat), len(ws[0].bands), len(ws[0].exps), "".join(map(str, hist)))
    ctx.sample(history=hist, world=ws[0].describe())

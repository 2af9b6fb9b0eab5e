"""Case runner: forks workers, runs monitored cases, collects observations, writes evidence.

A check module provides
    PROPERTY, RULE, ASSUMPTIONS (list of str)
    CASES = {"quick": n, "thorough": n}
    case(ctx, i)           run case number i (deterministic given VERIF_SEED and i)
and optionally
    NEEDS_KERNEL = True    compile and inject the evaluator first
    parent(ctx, build)     runs once in the parent before the cases (sub-process monitors, ...)
    MIN = {"counter": n}   counters which must reach n or the run is inconclusive (exit 2)
"""
import contextlib
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FPV_REPO", "/repo")


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain."""


def plain(x, depth=0):
    """Something json can write, kept short."""
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in list(x)[:24]]
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return dict(shape=list(x.shape), head=plain(x.reshape(-1)[:8]))
        return plain(x.tolist())
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else str(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)[:200]


class Ctx:
    def __init__(self, prop, tier, seed, case, known=()):
        self.prop, self.tier, self.seed, self.case = prop, tier, seed, case
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), case if case >= 0 else 2**31])
        self.counters = {}
        self.sigs = set()
        self.maxima = {}
        self.samples = []
        self.desc = {}
        self.tmp = None
        self.thorough = tier == "thorough"
        self.known = known
        self.known_hits = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def maximum(self, name, v):
        """Record the closest approach to a tolerance (for calibration and evidence)."""
        v = float(v)
        if not (v <= self.maxima.get(name, -1)):
            self.maxima[name] = v

    def sig(self, *parts):
        """A distinct non-trivial situation observed by a monitor."""
        self.sigs.add("|".join(str(p) for p in parts))

    def sample(self, **kw):
        if len(self.samples) < 1:
            self.samples.append(plain(kw))

    def check(self, cond, msg, /, **info):
        self.count("assertions")
        if not bool(cond):
            info = {k: plain(v) for k, v in info.items()}
            raise Violation(msg + (" " + json.dumps(info)[:1500] if info else ""))

    def close(self, got, want, tol, msg, /, name=None, **info):
        """|got - want| <= tol elementwise (nan never passes)."""
        got, want, tol = np.broadcast_arrays(np.asarray(got, float), np.asarray(want, float), np.asarray(tol, float))
        self.count("assertions")
        if got.size == 0:
            return
        with np.errstate(all="ignore"):
            diff = np.abs(got - want)
            same = (got == want)
            ok = same | (diff <= tol)
            if name is not None:
                r = np.where(same, 0.0, diff / np.where(tol > 0, tol, 1e-300))
                self.maximum(name, r.max() if np.isfinite(r).all() else np.inf)
        if not ok.all():
            k = np.argwhere(~ok)[0]
            k = tuple(int(a) for a in k)
            d = dict(index=list(k), got=float(got[k]), want=float(want[k]), tol=float(tol[k]), nbad=int((~ok).sum()), n=int(ok.size))
            d.update({a: plain(b) for a, b in info.items()})
            raise Violation(msg + " " + json.dumps(d)[:1500])

    def equal(self, got, want, msg, /, **info):
        self.count("assertions")
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape and (bool(np.all(g == w)) if g.size else True)
        if not ok and g.shape == w.shape and g.dtype.kind == "f" and w.dtype.kind == "f":
            ok = bool(np.all((g == w) | (np.isnan(g) & np.isnan(w))))
        if not ok:
            d = dict(got=plain(got), want=plain(want))
            d.update({a: plain(b) for a, b in info.items()})
            raise Violation(msg + " " + json.dumps(d)[:1500])

    def raises(self, fn, msg, kinds=(Exception,), **info):
        self.count("assertions")
        try:
            fn()
        except kinds:
            return
        raise Violation(msg + " " + json.dumps(plain(info))[:800])


def _worker(mod, prop, tier, seed, idxs, outfile, tmp, deadline, known):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out = open(outfile, "w", buffering=1)
    for i in idxs:
        if time.time() > deadline:
            out.write(json.dumps(dict(ev="budget", case=i)) + "\n")
            continue
        out.write(json.dumps(dict(ev="start", case=i, t=time.time())) + "\n")
        ctx = Ctx(prop, tier, seed, i, known)
        ctx.tmp = tempfile.mkdtemp(dir=tmp)
        cwd = os.getcwd()
        os.chdir(ctx.tmp)
        rec = dict(ev="done", case=i)
        try:
            np.random.seed((seed * 1000003 + i * 7919) % (2**32))
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mod.case(ctx, i)
            rec["status"] = "ok"
        except Skip as e:
            rec["status"] = "skip"
            rec["msg"] = str(e)
        except Violation as e:
            rec["status"] = "violation"
            rec["msg"] = str(e)
        except MemoryError as e:
            rec["status"] = "error"
            rec["msg"] = repr(e)
        except BaseException as e:  # an exception on a valid input is a violation
            rec["status"] = "violation"
            rec["msg"] = "unexpected exception on a valid input: " + repr(e)[:600]
            rec["trace"] = traceback.format_exc()[-3000:]
            if isinstance(e, (OSError,)) and getattr(e, "errno", None) in (28, 12):
                rec["status"] = "error"
        os.chdir(cwd)
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        rec.update(counters=ctx.counters, sigs=sorted(ctx.sigs)[:4000], samples=ctx.samples, maxima=ctx.maxima,
                   desc=plain(ctx.desc), known=ctx.known_hits)
        out.write(json.dumps(rec) + "\n")
        if rec["status"] in ("violation", "error"):
            break
    out.close()
    os._exit(0)


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def main(prop, tier, seed, replay=None, nproc=None, only=None):
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    known = [k for k in known_findings() if k["property"] == prop]
    budget = float(os.environ.get("FPV_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 6 * 3600)))
    case_limit = float(getattr(mod, "CASE_LIMIT", 240))
    nproc = nproc or min(8, os.cpu_count() or 1)
    top = tempfile.mkdtemp(prefix="fpv_%s_" % prop)
    viol, errors = [], []
    agg = dict(counters={}, sigs=set(), samples=[], maxima={}, ok=0, skip=0, budget=0, known={})

    def merge(rec):
        for k, v in rec.get("counters", {}).items():
            agg["counters"][k] = agg["counters"].get(k, 0) + v
        for k, v in rec.get("maxima", {}).items():
            agg["maxima"][k] = max(agg["maxima"].get(k, -1), v)
        agg["sigs"].update(rec.get("sigs", []))
        if len(agg["samples"]) < 5:
            agg["samples"].extend(rec.get("samples", []))
        for k in rec.get("known", []):
            agg["known"][k] = agg["known"].get(k, 0) + 1

    try:
        so = None
        if getattr(mod, "NEEDS_KERNEL", False):
            from . import kernel
            so = kernel.build(top)
            kernel.inject(so)
        if hasattr(mod, "prepare"):
            with contextlib.redirect_stdout(io.StringIO()):
                mod.prepare(top)
        ncases = mod.CASES[tier]
        idxs = list(range(ncases))
        if only is not None:
            idxs = list(only)
            nproc = min(nproc, len(idxs))
        if replay:
            with open(replay) as f:
                r = json.load(f)
            seed, idxs, nproc = r["seed"], [c for c in [r["case"]] if c >= 0], 1
            tier = r.get("tier", tier)
        # --- parent stage (own sub-processes) ---
        if hasattr(mod, "parent") and only is None and not (replay and idxs):
            ctx = Ctx(prop, tier, seed, -1, known)
            ctx.tmp = tempfile.mkdtemp(dir=top)
            try:
                mod.parent(ctx, so)
            except Violation as e:
                viol.append(dict(case=-1, msg=str(e)))
            except Skip as e:
                errors.append(str(e))
            except Exception as e:
                errors.append("parent stage: " + traceback.format_exc()[-2000:])
            merge(dict(counters=ctx.counters, sigs=ctx.sigs, samples=ctx.samples, maxima=ctx.maxima, known=ctx.known_hits))
        # --- cases ---
        deadline = t0 + budget
        procs = {}
        for w in range(nproc):
            mine = idxs[w::nproc]
            if not mine:
                continue
            outfile = os.path.join(top, "w%d.jsonl" % w)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    _worker(mod, prop, tier, seed, mine, outfile, top, deadline, known)
                except BaseException:
                    with open(outfile, "a") as f:
                        f.write("\n" + json.dumps(dict(ev="died", msg=traceback.format_exc()[-2000:])) + "\n")
                finally:
                    os._exit(3)
            procs[pid] = outfile

        def last_start(fn):
            last, done = None, set()
            with open(fn) as f:
                for line in f:
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if r["ev"] == "start":
                        last = r
                    if r["ev"] == "done":
                        done.add(r["case"])
            if last is not None and last["case"] in done:
                return None
            return last

        live = dict(procs)
        stop_early = False
        while live:
            time.sleep(0.05)
            for pid in list(live):
                p, st = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    continue
                fn = live.pop(pid)
                if os.WIFSIGNALED(st):
                    sg = os.WTERMSIG(st)
                    ls = last_start(fn)
                    if sg in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                        viol.append(dict(case=ls["case"] if ls else -1, msg="process died with signal %d while running the case" % sg))
                    else:
                        errors.append("worker killed by signal %d" % sg)
                elif os.WEXITSTATUS(st) != 0:
                    errors.append("worker exit status %d" % os.WEXITSTATUS(st))
            now = time.time()
            for pid, fn in list(live.items()):
                ls = last_start(fn) if os.path.exists(fn) else None
                if ls and now - ls["t"] > case_limit:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    live.pop(pid)
                    viol.append(dict(case=ls["case"], msg="case did not finish within %g s" % case_limit))
        for fn in procs.values():
            if not os.path.exists(fn):
                continue
            with open(fn) as f:
                for line in f:
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if r["ev"] == "budget":
                        agg["budget"] += 1
                    elif r["ev"] == "died":
                        errors.append(r["msg"])
                    elif r["ev"] == "done":
                        merge(r)
                        if r["status"] == "ok":
                            agg["ok"] += 1
                        elif r["status"] == "skip":
                            agg["skip"] += 1
                        elif r["status"] == "violation":
                            viol.append(dict(case=r["case"], msg=r["msg"], trace=r.get("trace"), desc=r.get("desc")))
                        else:
                            errors.append(r["msg"])
    except Exception:
        errors.append(traceback.format_exc()[-3000:])
    finally:
        shutil.rmtree(top, ignore_errors=True)

    if replay is None and only is None:
        for name, n in getattr(mod, "MIN", {}).items():
            if agg["counters"].get(name, 0) < n and not viol:
                errors.append("monitor counter %s=%d is below %d: nothing was observed" % (name, agg["counters"].get(name, 0), n))
    wall = time.time() - t0
    cov = dict(evaluations=agg["ok"] + len([v for v in viol if v["case"] >= 0]),
               distinct_nontrivial=len(agg["sigs"]), rule=mod.RULE, samples=agg["samples"][:5] or [dict(note="no sample")],
               skipped_out_of_domain=agg["skip"], not_run_time_budget=agg["budget"],
               monitor_counters=agg["counters"],
               largest_fraction_of_tolerance={k: round(v, 6) for k, v in agg["maxima"].items()},
               known_finding_hits=agg["known"])
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=plain_deep(cov),
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(viol))
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if only is None:
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    rc = 0
    for k in known:
        if agg["known"].get(k["id"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        v = viol[0]
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, case=v["case"], msg=v["msg"], trace=v.get("trace"), desc=v.get("desc"),
                           cmd="/opt/venv/bin/python checks/run.py %s --replay %s" % (prop, path)), f, indent=1)
        for v in viol[:5]:
            print("case %s: %s" % (v["case"], v["msg"]))
            if v.get("trace"):
                print(v["trace"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif errors:
        for e in errors[:5]:
            print("ERROR " + e)
        rc = 2
    print("%s %s seed=%d: %d cases ok, %d skipped, %d over budget, %d distinct, %.1f s, rc=%d %s"
          % (prop, tier, seed, agg["ok"], agg["skip"], agg["budget"], len(agg["sigs"]), wall, rc, json.dumps(cov["largest_fraction_of_tolerance"])))
    return rc


def plain_deep(x):
    if isinstance(x, dict):
        return {k: plain_deep(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain_deep(v) for v in x]
    return plain(x)

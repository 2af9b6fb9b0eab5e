"""Stand-ins for jax and numpyro (neither is installed here).

jax.numpy is numpy; numpyro.sample draws from the distribution it is given
(at its limits when asked) and records what happened, MCMC draws from the
prior.  Nothing of forcepho is replaced: its models and predictions run as
they are.
"""
import sys
import types

import numpy as np


class Dist:
    def draw(self, rng, mode):
        raise NotImplementedError


class Uniform(Dist):
    def __init__(self, low=0.0, high=1.0, **kw):
        self.low, self.high = np.asarray(low, float), np.asarray(high, float)

    def draw(self, rng, mode):
        lo, hi = np.broadcast_arrays(self.low, self.high)
        u = {"lo": 0.0, "hi": 1.0}.get(mode)
        u = rng.random(lo.shape) if u is None else u
        return lo + (hi - lo) * u

    def lnp(self, v):
        return np.zeros(np.shape(v))


class Normal(Dist):
    def __init__(self, loc=0.0, scale=1.0, **kw):
        self.loc, self.scale = np.asarray(loc, float), np.asarray(scale, float)

    def draw(self, rng, mode):
        m, s = np.broadcast_arrays(self.loc, self.scale)
        u = {"lo": -1.0, "hi": 1.0}.get(mode)
        u = rng.normal(size=m.shape) if u is None else u
        return m + s * u

    def lnp(self, v):
        return -0.5 * ((v - self.loc) / self.scale) ** 2 - np.log(self.scale)


class Dirichlet(Dist):
    def __init__(self, concentration, **kw):
        self.c = np.asarray(concentration, float)

    def draw(self, rng, mode):
        return rng.dirichlet(self.c)

    def lnp(self, v):
        return np.sum((self.c - 1) * np.log(v))


class MultivariateNormal(Dist):
    def __init__(self, loc=0.0, covariance_matrix=None, **kw):
        self.loc, self.cov = np.asarray(loc, float), np.asarray(covariance_matrix, float)

    def draw(self, rng, mode):
        return rng.multivariate_normal(self.loc, self.cov, check_valid="ignore")

    def lnp(self, v):
        d = v - self.loc
        return -0.5 * d @ np.linalg.solve(self.cov, d)


class State:
    rng = np.random.default_rng(0)
    mode = None
    trace = {}
    log = []


def sample(name, fn, obs=None, **kw):
    v = fn.draw(State.rng, State.mode) if obs is None else obs
    if name in State.trace:
        raise RuntimeError("site sampled twice: " + name)
    State.trace[name] = (fn, np.array(v), obs is not None)
    return v


def run_model(model, rng, mode=None, **kw):
    """{site: (distribution, value, observed)} of one evaluation of the model."""
    State.rng, State.mode, State.trace = rng, mode, {}
    model(**kw)
    t, State.trace = State.trace, {}
    return t


class NUTS:
    def __init__(self, model, **kw):
        self.model, self.kw = model, kw


class MCMC:
    """Draws from the prior, with the potential energy of each draw."""

    def __init__(self, kernel, num_warmup=0, num_samples=1, **kw):
        self.kernel, self.num_samples = kernel, num_samples
        State.log.append(self)

    def run(self, key, extra_fields=(), **kw):
        self.model_args, self.extra_fields = kw, extra_fields
        s, e = {}, []
        for _ in range(self.num_samples):
            t = run_model(self.kernel.model, State.rng, **kw)
            for k, (d, v, o) in t.items():
                if not o:
                    s.setdefault(k, []).append(v)
            e.append(-sum(np.sum(d.lnp(v)) for d, v, o in t.values()))
        self.samples = {k: np.array(v) for k, v in s.items()}
        self.energy = np.array(e)

    def get_samples(self, *a, **kw):
        return self.samples

    def get_extra_fields(self, *a, **kw):
        return {k: self.energy if k == "potential_energy" else np.ones(self.num_samples) for k in self.extra_fields}


class Unused:
    def __init__(self, *a, **kw):
        raise NotImplementedError


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        m.__path__ = []
        sys.modules[name] = m
        if "." in name:
            setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        return m
    mod("jax", jit=lambda f, **k: f)
    sys.modules["jax.numpy"] = sys.modules["jax"].numpy = np
    mod("jax.random", PRNGKey=lambda s: np.array([0, s]), split=lambda k, num=2: [k] * num)
    mod("jax.lax")
    mod("numpyro", sample=sample)
    mod("numpyro.distributions", Uniform=Uniform, Normal=Normal, Dirichlet=Dirichlet, MultivariateNormal=MultivariateNormal)
    mod("numpyro.infer", MCMC=MCMC, NUTS=NUTS, SVI=Unused, Trace_ELBO=Unused)
    mod("numpyro.infer.autoguide", AutoLaplaceApproximation=Unused, AutoDelta=Unused)
    mod("numpyro.optim", Adam=Unused)

"""C36: the random variate helpers draw from the law they are given."""
import importlib

import numpy as np
from scipy import stats
from pv import models as M  # noqa: F401  (puts the tree under test on the path)

RULE = ("the categorical (Gumbel), rejection and normal-inverse-Wishart "
        "samplers of pyrichlet.mixture_models._utils, over random laws "
        "(impossible outcomes, unnormalized and far-off-scale log "
        "probabilities, intervals away from the unit one, loose envelopes, "
        "one to four features in unlike units, fractional degrees of freedom) "
        "in their scalar and vector forms; draws are judged by (randomized) "
        "probability integral transforms")
ASSUMPTIONS = []


def helper(ctx, name):
    mod = importlib.import_module("pyrichlet.mixture_models._utils")
    f = getattr(mod, name, None)
    if f is None:
        ctx.count("absent:" + name)
    return f


def gumbel(ctx):
    f = helper(ctx, "gumbel_max_sampling")
    if f is None:
        return
    k = int(ctx.rng.integers(1, 9))
    n = int(ctx.rng.integers(1, 60))
    shift = float(ctx.pick((0, -800, 900, 1e5)))
    scale = float(ctx.pick((0.3, 1, 4)))
    form = ctx.pick(("columns", "size", "one"))
    rng = ctx.gen()
    if form == "columns":
        logp = ctx.rng.normal(size=(k, n)) * scale
        # each column on its own scale
        logp += ctx.rng.normal(size=n) * ctx.pick((0, 0, 500, 1e4))
    else:
        logp = np.repeat(ctx.rng.normal(size=(k, 1)) * scale, n, axis=1)
    if k > 1 and ctx.rng.uniform() < .5:
        if form == "columns":
            z = ctx.rng.uniform(size=(k, n)) < .3
            z[ctx.rng.integers(k, size=n), np.arange(n)] = False
        else:
            z = np.repeat(np.arange(k)[:, None] == ctx.rng.integers(k), n, 1)
        logp[z] = -np.inf
    p = np.exp(logp - logp.max(0))
    p /= p.sum(0)
    ctx.case(("gumbel", form, shift, k, n, p[:, 0].tolist()))
    given = logp + shift
    held = given.copy()
    if form == "columns":
        x = f(given, rng=rng)
    elif form == "size":
        x = f(given[:, 0], size=n, rng=rng)
    else:
        x = np.array([int(f(given[:, 0], rng=rng)) for _ in range(n)])
    ctx.check(np.array_equal(held, given), "argument-unaltered")
    x = np.asarray(x)
    if not ctx.check(x.shape == (n,), "one-label-per-column",
                     shape=list(x.shape), n=n):
        return
    if not ctx.check(np.all((x >= 0) & (x < k)), "label-range", x=x):
        return
    i = np.arange(n)
    ctx.check(np.all(p[x, i] > 0), "impossible-label", x=x)
    c = np.concatenate([np.zeros((1, n)), np.cumsum(p, 0)])
    ctx.groups = (form, "shift=%g" % shift)
    u = np.clip(c[x, i] + ctx.rng.uniform(size=n) * p[x, i], 0, 1)
    ctx.pit("label", u)
    if n > 1:
        ctx.pit("label-pairs", (u[1::2] - u[:len(u[1::2]) * 2:2]) % 1)
    ctx.count("gumbel:" + form, n)


def rejection(ctx):
    f = helper(ctx, "rejection_sample")
    if f is None:
        return
    a, b = ctx.pick(((0, 1), (0, 1), (-2.5, 1.5), (10, 10.25), (0, 200)))
    kind = ctx.pick(("ramp", "beta", "step", "u-shape"))
    s = float(ctx.pick((1, 1e-6, 300)))         # unnormalized densities
    if kind == "ramp":
        law = stats.beta(2, 1)
    elif kind == "beta":
        law = stats.beta(float(ctx.pick((1, 2, 5))), float(ctx.pick((1, 3))))
    elif kind == "u-shape":
        law = None
    else:
        law = None
    t = float(ctx.rng.uniform(.1, .9))

    def pdf(z):
        z = np.asarray(z, float)
        if law is not None:
            return law.pdf(z)
        if kind == "step":                # impossible below t
            return np.where(z < t, 0., 1.)
        return 12 * (z - .5) ** 2

    def cdf(z):
        if law is not None:
            return law.cdf(z)
        if kind == "step":
            return np.clip((z - t) / (1 - t), 0, 1)
        return 4 * (z - .5) ** 3 + .5

    top = float(pdf(np.linspace(0, 1, 20001)).max()) * s * float(
        ctx.pick((1.001, 1.5, 6)))
    n = int(ctx.pick((1, 7, 200, 3000)))
    form = ctx.pick(("size", "size", "one"))

    def dens(x):
        return s * pdf((np.asarray(x) - a) / (b - a))
    ctx.case(("rejection", kind, a, b, form, n, top, t))
    rng = ctx.gen()
    args = {} if (a, b) == (0, 1) and ctx.rng.uniform() < .5 else {
        "a": a, "b": b}
    if form == "size":
        x = np.asarray(f(dens, top, size=n, rng=rng, **args))
        if not ctx.check(x.shape == (n,), "requested-number",
                         shape=list(x.shape)):
            return
    else:
        n = min(n, 40)
        x = np.array([float(f(dens, top, rng=rng, **args)) for _ in range(n)])
    if not ctx.check(np.all((x >= a) & (x <= b)), "in-the-interval", x=x):
        return
    z = (x - a) / (b - a)
    ctx.check(np.all(pdf(z) > 0), "impossible-value", z=z)
    ctx.groups = (form, kind)
    u = np.clip(cdf(z), 0, 1)
    ctx.pit("value", u)
    if n > 1:
        ctx.pit("value-pairs", (u[1::2] - u[:len(u[1::2]) * 2:2]) % 1)
    ctx.count("rejection:" + form, n)


def normal_invw(ctx):
    f = helper(ctx, "random_normal_invw")
    if f is None:
        return
    d = int(ctx.rng.integers(1, 5))
    unit = 10.0 ** ctx.rng.uniform(-3, 3, d)
    q = ctx.rng.normal(size=(d, d + 2))
    psi = (q @ q.T) * np.outer(unit, unit)
    nu = d - 1 + float(ctx.pick((0.6, 1, 2.5, 9, 40.25)))
    lam = float(ctx.pick((0.05, 0.7, 1, 12)))
    mu = ctx.rng.normal(size=d) * unit * 3
    ctx.case(("niw", d, nu, lam, mu.tolist()))
    rng = ctx.gen()
    ctx.groups = ("dim=%d" % d, "nu-d=%g" % (nu - d), "lam=%g" % lam)
    m0, p0 = mu.copy(), psi.copy()
    last = None
    for _ in range(12):
        m, s = f(mu, lam, psi, nu, rng=rng)
        m, s = np.atleast_1d(np.asarray(m, float)), np.atleast_2d(s)
        if not ctx.check(m.shape == (d,) and s.shape == (d, d), "shapes",
                         m=list(m.shape), s=list(s.shape)):
            return
        sd = np.sqrt(np.diag(s))
        corr = s / np.outer(sd, sd)
        ctx.check(np.allclose(corr, corr.T, atol=1e-9) and
                  np.linalg.eigvalsh(corr)[0] > -1e-9, "covariance", s=s)
        # the marginal of a coordinate, and of the whole matrix
        j = int(ctx.rng.integers(d))
        ctx.pit("variance", stats.chi2.cdf(psi[j, j] / s[j, j], nu - d + 1))
        # the distance of the mean given the drawn covariance
        if np.linalg.cond(corr) < 1e10:
            z = np.linalg.solve(np.linalg.cholesky(corr),
                                (m - mu) / sd) * np.sqrt(lam)
            ctx.pit("mean", stats.norm.cdf(z))
            # Bartlett: with the Cholesky factor of the precision scaled by
            # psi, the squared diagonal are independent chi squares
            pc = np.linalg.cholesky(psi / np.outer(unit, unit))
            a = pc.T @ np.linalg.inv(s / np.outer(unit, unit)) @ pc
            dets = [np.linalg.slogdet(a[:i, :i])[1] for i in range(1, d + 1)]
            r = np.exp(np.diff([0.] + dets))
            ctx.pit("bartlett", stats.chi2.cdf(r, nu - np.arange(d)))
        ctx.check(last is None or not np.array_equal(last, m), "fresh-draws")
        last = m
    ctx.check(np.array_equal(m0, mu) and np.array_equal(p0, psi),
              "argument-unaltered")
    ctx.count("niw", 12)


SCALE = 4     # of the quick tier
SCENARIOS = [("gumbel", gumbel, 400, 6000), ("rejection", rejection, 400, 6000),
             ("normal-invw", normal_invw, 250, 4000)]
REQUIRE = {}

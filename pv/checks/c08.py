"""C08 variational weight expectations / C09 evidence bound terms."""
import numpy as np
from pv import models as M

RULE = ("random responsibility matrices (soft, hard, empty components, one "
        "component, no observations) on the six models with variational "
        "support and random parameters; every reported expectation is "
        "compared with the closed form of the optimal factor; a case is "
        "(model, parameters, responsibilities)")
ASSUMPTIONS = ["the mode of a Dirichlet weight is the mode of its marginal "
               "Beta, of a stick-breaking weight the product of the modes of "
               "the fractions; where a factor has no unique mode ValueError "
               "is accepted"]


def responsibilities(ctx, K=None):
    rng = ctx.rng
    K = K or ctx.pick((1, 2, 2, 3, 4, 6, 12, 25))
    N = ctx.pick((1, 2, 5, 17, 60, 60, 400, 1500))
    kind = ctx.pick(("soft", "hard", "peaked", "uniform", "empty", "last"))
    if kind == "soft":
        r = rng.dirichlet(np.ones(K), N).T
    elif kind == "hard":
        r = np.zeros((K, N))
        r[rng.integers(K, size=N), np.arange(N)] = 1
    elif kind == "peaked":
        r = rng.dirichlet(np.full(K, .05), N).T
        r = (r + 1e-12) / (r + 1e-12).sum(0)
    elif kind == "uniform":
        r = np.full((K, N), 1 / K)
    elif kind == "last":
        r = np.zeros((K, N))
        r[-1] = 1
    else:
        r = rng.dirichlet(np.ones(K), N).T
        r[int(rng.integers(K))] = 0
        r[0] += r.sum(0) == 0
        r = r / r.sum(0)
    return r, kind


def setup(ctx, name=None):
    name = name or ctx.pick(M.VAR)
    kw = M.config(ctx.rng, name, tails=False)
    r, kind = responsibilities(ctx, kw.get("n"))
    wm = M.make(name, kw, ctx.gen())
    if ctx.rng.uniform() < .3:      # a previous fit must not matter
        r0, _ = responsibilities(ctx, r.shape[0] if "n" in kw else None)
        wm.fit_variational(r0)
    if ctx.rng.uniform() < .2:      # nor a Gibbs fit of the same object
        wm.fit(M.labels(ctx.rng, kw.get("n", 5), 6))
        wm.random()
    if ctx.rng.uniform() < .15:
        r = np.asfortranarray(r)
    ctx.case((name, str(kw), kind, r.shape, float(r[0].sum())))
    wm.fit_variational(r)
    return name, kw, r, kind, wm, M.VarRef(name, kw, r)


def expectations(ctx):
    for _ in range(10):
        name, kw, r, kind, wm, ref = setup(ctx)
        K = r.shape[0]
        mean = np.array([wm.variational_mean_w_j(j) for j in range(K)], float)
        mlog = np.array([wm.variational_mean_log_w_j(j) for j in range(K)],
                        float)
        ctx.close(mean, ref.mean(), "mean:" + name, 1e-8, 1e-10)
        ctx.close(mlog, ref.mean_log(), "mean-log:" + name, 1e-8, 1e-10)
        ctx.check(np.all(mean >= 0), "mean-nonnegative", mean=mean)
        ctx.close(mean.sum(), 1, "mean-sums-to-1", 1e-9)
        ctx.check(np.all(np.exp(mlog) <= mean + 1e-9), "jensen", mean=mean,
                  mlog=mlog)
        for j in range(K):
            want = ref.mode(j)
            if want is None:
                ctx.count("multimodal")
                try:
                    wm.variational_mode_w_j(j)
                except ValueError:
                    pass
                continue
            try:
                got = wm.variational_mode_w_j(j)
            except ValueError as e:
                ctx.check(False, "mode-refused:" + name, j=j, want=want,
                          error=str(e))
                continue
            ctx.close(got, want, "mode:" + name, 1e-8, 1e-10, j=j)
            ctx.check(0 <= got <= 1, "mode-in-unit-interval", got=got)
        for j in (K, K + 1, K + 7):
            ctx.close(wm.variational_mean_w_j(j), 0, "beyond-mean", 0, 0)
            ctx.close(wm.variational_mode_w_j(j), 0, "beyond-mode", 0, 0)
            ctx.close(wm.variational_mean_log_w_j(j), -np.inf, "beyond-log",
                      0, 0)
        ctx.count("factors")
        ctx.count("factors:" + name)
        ctx.count("kind:" + kind)


def monte_carlo(ctx):
    """The closed forms of the reference itself, against simulation of the
    stated factor by the harness"""
    for name in ("DirichletDistribution", "DirichletProcess",
                 "PitmanYorProcess", "GeometricProcess"):
        _, kw, r, kind, wm, ref = setup(ctx, name)
        K = r.shape[0]
        n = 4000
        if name == "DirichletDistribution":
            w = ctx.rng.dirichlet(ref.par, n)
        else:
            if name == "GeometricProcess":
                v = np.repeat(ctx.rng.beta(ref.A, ref.B, (n, 1)), K, 1)
            else:
                v = np.ones((n, K))
                v[:, :K - 1] = ctx.rng.beta(ref.A, ref.B, (n, K - 1))
            v[:, -1] = 1
            w = v * np.cumprod(np.hstack([np.ones((n, 1)), 1 - v[:, :-1]]), 1)
        for j in range(K):
            s = w[:, j].std() / np.sqrt(n)
            if max(w[:, j].mean(), wm.variational_mean_w_j(j)) < .01:
                continue        # too rare for the simulation
            ctx.check(abs(w[:, j].mean() - wm.variational_mean_w_j(j)) <=
                      8 * s + 1e-9, "simulated-mean", j=j, sim=w[:, j].mean())
            if w[:, j].min() > 0:
                lw = np.log(w[:, j])
                s = lw.std() / np.sqrt(n)
                if s < .05:
                    ctx.check(abs(lw.mean() - wm.variational_mean_log_w_j(j))
                              <= 9 * s + 1e-9, "simulated-mean-log", j=j,
                              sim=lw.mean())
        ctx.count("simulated")


SCALE = 12     # of the quick tier
SCENARIOS = [("expectations", expectations, 120, 3000),
             ("simulation", monte_carlo, 24, 300)]
REQUIRE = {"factors": 1000, "simulated": 80}
REQUIRE.update({"factors:" + n: 100 for n in M.VAR})

"""C11: each Gibbs step draws from the exact full conditionals (trace
monitor over consecutive saved states)."""
import numpy as np
from pv import models as M
from pv import mix as X

RULE = ("Gibbs runs with burn_in=0 and subsample_steps=1 over random data, "
        "priors, dimensions and weighting models; each pair of consecutive "
        "states gives exact probability integral transforms of the component "
        "parameters, weights, slices and labels; a case is one run")
ASSUMPTIONS = ["the weights of hierarchical models are judged by C05, here "
               "only those with a closed-form posterior",
               "the step order is components, weights, slices, labels"]


def conjugate(name, kw):
    return (name in M.FIN or name in ("DirichletProcess", "PitmanYorProcess",
                                      "GeometricProcess") or
            (name == "BetaInBeta" and kw["x"] in (0, 1)) or
            (name == "BetaBernoulli" and kw["p"] in (0, 1)) or
            (name == "BetaBinomial" and kw["n"] == 0) or
            (name == "BetaInDirichlet" and kw["a"] == 0))


def trace_monitor(ctx, name, kw, y, par, states, tag=""):
    far = np.abs((y.mean(0) - par[0]) / np.sqrt(np.diag(par[2]))).max()
    ctx.group({"lambda": par[1]}, "far" if far > 1 else "near")
    n, D = y.shape
    for prev, cur in zip(states[:-1], states[1:]):
        dp = np.asarray(prev["d"])
        w, th, u, d = (np.asarray(cur["w"], float), cur["theta"],
                       np.asarray(cur["u"], float), np.asarray(cur["d"]))
        occ = np.unique(dp)
        # components
        for j in occ:
            X.niw_pits(ctx, "theta%s:D%d" % (tag, D), th[j][0], th[j][1],
                       X.niw_posterior(y[dp == j], *par))
            old = prev["theta"].get(j)
            # (two draws of a continuous law never agree)
            ctx.check(old is None or not (np.array_equal(old[0], th[j][0]) and
                                          np.array_equal(old[1], th[j][1])),
                      "occupied-redrawn", j=j, n=int((dp == j).sum()))
            ctx.count("occupied")
        for j in range(len(w)):
            if j in occ:
                continue
            old = prev["theta"].get(j)
            if old is not None and np.array_equal(
                    old[0], th[j][0]) and np.array_equal(old[1], th[j][1]):
                ctx.count("kept")
                continue
            X.niw_pits(ctx, "new%s:D%d" % (tag, D), th[j][0], th[j][1], par)
            ctx.count("fresh")
        # weights
        if conjugate(name, kw):
            M.posterior_pits(ctx, "w:" + name, name, kw, w, dp)
            ctx.count("weights")
        # slices
        up = u / w[dp]
        ctx.check(np.all((u > 0) & (up <= 1 + 1e-6 + 1e-15 / w[dp])),
                  "slice-below-weight", u=u, w=w[dp])
        ctx.pit("slice", np.clip(up[w[dp] > 1e-8], 0, 1))
        if n > 1:
            ok = np.flatnonzero(w[dp] > 1e-8)
            k = len(ok) // 2 * 2
            ctx.pit("slice-pairs", (np.clip(up[ok[:k:2]], 0, 1) -
                                    np.clip(up[ok[1:k:2]], 0, 1)) % 1)
        ctx.check(w.sum() >= 1 - u.min() - 1e-9, "weights-cover-slices",
                  s=w.sum(), umin=u.min())
        # labels
        lg = np.empty((n, len(w)))
        for j in range(len(w)):
            lg[:, j] = X.logpdf(y, *th[j])
        lg[~(w[None, :] > u[:, None])] = -np.inf
        p = np.exp(lg - lg.max(1)[:, None])
        p /= p.sum(1)[:, None]
        ctx.check(np.all(w[d] > u), "label-above-slice", d=d)
        c = np.hstack([np.zeros((n, 1)), np.cumsum(p, 1)])
        i = np.arange(n)
        if np.all(d < len(w)):
            uu = np.clip(c[i, d] + ctx.rng.uniform(size=n) * p[i, d], 0, 1)
            free = (p > 1e-6).sum(1) > 1
            ctx.pit("label", uu[free])
            ctx.count("free-labels", free.sum())
            if free.sum() > 1:
                v = uu[free]
                k = len(v) // 2 * 2
                ctx.pit("label-pairs", (v[:k:2] - v[1:k:2]) % 1)
            ctx.check(np.all(p[i, d] > 1e-13), "label-possible")
        ctx.count("steps")


def well_conditioned(par):
    d = np.sqrt(np.diag(par[2]))
    return np.linalg.cond(par[2] / np.outer(d, d)) < 1e6


def one(ctx, names=None):
    y = X.data(ctx.rng)
    pk, par = X.priors(ctx.rng, y)
    if not well_conditioned(par):
        ctx.count("skipped-singular")
        return
    name, kw = X.mix_config(ctx, names)
    total = ctx.pick((6, 12, 25))
    init = X.init_kw(ctx, name, len(y))
    ctx.case((name, str(kw), y.shape, str(sorted(pk)), total, str(init),
              float(y[0, 0])))
    mm = X.run_gibbs(ctx, name, kw, y, pk, total, init=init)
    states = list(mm.sim_params)
    trace_monitor(ctx, name, kw, y, par, states)
    ctx.count("runs")
    if ctx.rng.uniform() < .4:
        k = len(states)
        mm.fit_gibbs(y, warm_start=True)
        trace_monitor(ctx, name, kw, y, par, list(mm.sim_params)[k - 1:])
        ctx.count("warm-runs")


def single(ctx):
    """Few observations, explicit priors: singletons everywhere"""
    D = ctx.pick((1, 2, 3))
    n = ctx.pick((1, 2, 3))
    y = X.data(ctx.rng, D, n)
    pk, par = X.priors(ctx.rng, y, explicit=True)
    name, kw = X.mix_config(ctx)
    ctx.case((name, str(kw), y.tolist(), "few"))
    mm = X.run_gibbs(ctx, name, kw, y, pk, 20, init={
        "init_method": ctx.pick(("kmeans", "random")), "init_groups": 1})
    trace_monitor(ctx, name, kw, y, par, list(mm.sim_params))
    ctx.count("runs")


def overlapping(ctx):
    """Strongly overlapping components: the labels are really random"""
    D = ctx.pick((1, 2))
    y = ctx.rng.normal(size=(ctx.pick((6, 12)), D))
    pk = {"mu_prior": np.zeros(D), "psi_prior": np.eye(D) * 2,
          "nu_prior": D + 4, "lambda_prior": 1.0}
    par = X.effective(pk, y)
    name, kw = X.mix_config(ctx, ("DirichletProcess", "PitmanYorProcess",
                                  "DirichletDistribution", "BetaInDirichlet",
                                  "BetaBernoulli", "BetaBinomial",
                                  "EqualWeighting", "GeometricProcess"))
    ctx.case((name, str(kw), y.tolist(), "overlap"))
    mm = X.run_gibbs(ctx, name, kw, y, pk, 40)
    trace_monitor(ctx, name, kw, y, par, list(mm.sim_params))
    ctx.count("runs")


def unsaved(ctx):
    """Consecutive states seen only through warm starts of one step each"""
    y = X.data(ctx.rng, n=8)
    pk, par = X.priors(ctx.rng, y, explicit=True)
    if not well_conditioned(par):
        return
    name, kw = X.mix_config(ctx)
    mm = X.run_gibbs(ctx, name, kw, y, pk, 1)
    ctx.case((name, str(kw), y.tolist(), "one-step warm starts"))
    for _ in range(8):
        mm.fit_gibbs(y, warm_start=True)
    ctx.check(len(mm.sim_params) == 9, "one-state-per-step")
    trace_monitor(ctx, name, kw, y, par, list(mm.sim_params))
    ctx.count("warm-runs")


def populous(ctx):
    """Hundreds of observations with groups of all sizes down to one"""
    D = int(ctx.pick((1, 2, 3)))
    n = int(ctx.rng.integers(150, 320))
    k = int(ctx.pick((3, 8)))
    y = ctx.rng.normal(size=(k, D))[ctx.rng.choice(
        k, n, p=ctx.rng.dirichlet(np.ones(k)))] * 6 + ctx.rng.normal(
            size=(n, D))
    far = int(ctx.rng.integers(1, 5))
    y[-far:] = ctx.rng.normal(size=(far, D)) * 60
    y = y[ctx.rng.permutation(n)]
    pk = {"mu_prior": np.zeros(D), "psi_prior": np.eye(D),
          "nu_prior": D + 2.5, "lambda_prior": float(ctx.pick((.003, .05)))}
    par = X.effective(pk, y)
    name, kw = X.mix_config(ctx, ("DirichletProcess", "PitmanYorProcess",
                                  "DirichletDistribution", "EqualWeighting",
                                  "GeometricProcess"))
    if "n" in kw:
        kw = {"n": 15, **({"alpha": .4} if "alpha" in kw else {})}
    mm = X.run_gibbs(ctx, name, kw, y, pk, 6, init={
        "init_method": "kmeans", "init_groups": k + far})
    ctx.case((name, str(kw), y.shape, float(y[0, 0]), "populous"))
    states = list(mm.sim_params)
    trace_monitor(ctx, name, kw, y, par, states)
    ctx.count("singletons", sum((np.bincount(s["d"]) == 1).sum()
                                for s in states[:-1]))
    ctx.count("runs")


SCENARIOS = [("runs", one, 500, 6000), ("few", single, 200, 2400),
             ("overlap", overlapping, 100, 1500),
             ("warm", unsaved, 60, 600), ("populous", populous, 60, 600)]
REQUIRE = {"runs": 180, "steps": 2500, "occupied": 5000, "fresh": 1000,
           "free-labels": 5000, "warm-runs": 40, "weights": 1000,
           "singletons": 200}

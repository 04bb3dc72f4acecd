"""C35: a cold start begins from the documented initial state."""
import numpy as np

from pv import models as M
from pv import mix as X

RULE = ("cold starts on far apart groups of distinct sizes, whose k-means "
        "partition is known; the labels after one step, the variational "
        "clustering, and (softly, if the stepping method is there to be "
        "observed) the labels, weights, slices and atoms the first step starts "
        "from, for every initialization method and number of groups; a case is "
        "one model, data set, method and number of groups")
ASSUMPTIONS = ["an exchange of groups in one step has negligible probability "
               "when they are 10^4 standard deviations apart (three exchanges "
               "in ten runs are a violation)"]


def groups(ctx, k, D):
    """Far apart groups of distinct sizes, mostly shuffled: data, rank by size"""
    top = int(ctx.pick((4,) * 9 + (120,)))
    sizes = ctx.rng.permutation(
        np.cumsum(ctx.rng.integers(1, top, size=k)) + 1)
    dirs = ctx.rng.normal(size=D)
    if ctx.rng.uniform() < .3:
        # only one feature tells them apart
        dirs *= np.arange(D) == ctx.rng.integers(D)
    dirs /= np.linalg.norm(dirs)
    at = ctx.rng.permutation(k)[:, None] * 1e4 * dirs
    lab = np.repeat(np.arange(k), sizes)
    if ctx.rng.uniform() < .8:
        lab = ctx.rng.permutation(lab)
    y = at[lab] + ctx.rng.normal(size=(len(lab), D))
    rank = np.argsort(np.argsort(-sizes))
    return y, rank[lab]


def observed(mm, y, **init):
    """The state at the entry of the first step, or None"""
    step = getattr(mm, "_gibbs_step", None)
    seen = []
    if step is not None:
        def wrapped(*a, **k):
            if not seen:
                try:
                    seen.append({
                        "d": np.array(mm.d), "u": np.array(mm.u, float),
                        "w": np.array(mm.weight_model.get_weights(), float),
                        "theta": {int(j): (np.array(t[0]), np.array(t[1]))
                                  for j, t in dict(mm.theta).items()}})
                except AttributeError:
                    seen.append(None)
            return step(*a, **k)
        mm._gibbs_step = wrapped
    mm.fit_gibbs(y, **init)
    return seen[0] if seen else None


def separated(ctx):
    """k-means labels, numbered by decreasing size"""
    k, D = int(ctx.pick((2, 3))), int(ctx.pick((1, 2, 3, 3, 7)))
    name = ctx.pick(M.ALL)
    kw = M.config(ctx.rng, name, True)
    if "p_method" in kw:
        kw["p_method"] = "geometric"
    if name in ("GeometricProcess", "BetaInBeta"):
        kw["a"] = max(kw["a"], 1)
    if name in M.FIN:
        kw = {"n": k, **({"alpha": 1.5} if "alpha" in kw else {})}
    if name == "PitmanYorProcess":
        kw = {"pyd": .1, "alpha": 1}
    bad = runs = 0
    ctx.case((name, str(kw), k, D, ctx.index))
    for _ in range(10):
        y, rank = groups(ctx, k, D)
        mm = M.make_mix(name, kw, ctx.gen(), total_iter=1, burn_in=0,
                        mu_prior=y.mean(0), psi_prior=np.eye(D),
                        lambda_prior=1e-10, nu_prior=D + 3)
        # without the number of groups, the model's own or else two
        g = None if name in M.FIN or k == 2 else k
        s0 = observed(mm, y, init_method="kmeans", init_groups=g)
        if s0 is not None:
            ctx.check(np.array_equal(s0["d"], rank), "kmeans-labels",
                      got=s0["d"], want=rank, groups=g, model=name)
            ctx.count("kmeans-observed")
        s = mm.get_sim_params()[0]
        bad += not np.array_equal(s["d"], rank)
        runs += 1
        ctx.count("kmeans-steps")
    ctx.check(bad < 3, "labels-after-one-step", exchanged=bad, runs=runs,
              model=name)


def at_most(ctx):
    """No more initial groups than asked for, by any method"""
    k, D = 4, int(ctx.pick((1, 2)))
    y, rank = groups(ctx, k, D)
    name, kw = X.mix_config(ctx)
    if name in M.FIN:
        kw["n"] = max(kw["n"], 2)
        if np.ndim(kw.get("alpha", 0)):
            kw["alpha"] = 1.0
    g = int(ctx.pick((1, 2, 3)))
    ctx.case((name, str(kw), g, D, len(y)))
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=1, burn_in=0,
                    psi_prior=np.eye(D))
    s0 = observed(mm, y, init_method="kmeans", init_groups=g)
    if s0 is None:
        return
    n = kw["n"] if name in M.FIN else g
    ctx.check(len(np.unique(s0["d"])) <= n, "too-many-initial-groups",
              got=len(np.unique(s0["d"])), want=n, model=name)
    # groups of whole clusters, larger ones first
    if n == k:
        ctx.check(np.array_equal(s0["d"], rank), "kmeans-labels",
                  got=s0["d"], want=rank)
    c = np.bincount(s0["d"])
    ctx.check(np.all(np.diff(c) <= 0), "decreasing-sizes", sizes=c)
    ctx.check(all(len(np.unique(s0["d"][rank == j])) == 1
                  for j in range(k)) or n > k, "whole-clusters", d=s0["d"],
              rank=rank)
    ctx.count("bounded-observed")


def random_start(ctx):
    """Labels from the weights of a prior draw"""
    name, kw = X.mix_config(ctx)
    y, pk, par = X.problem(ctx, n=ctx.pick((5, 15, 30) * 8 + (140,)))
    g = ctx.pick((1, 2, 4, None)) if name not in M.FIN else None
    ctx.case((name, str(kw), g, y.shape))
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=1, burn_in=0, **pk)
    s0 = observed(mm, y, init_method="random", init_groups=g)
    if s0 is None:
        return
    w, d = s0["w"], s0["d"]
    if not ctx.check(d.shape == (len(y),) and len(w) >= (g or 1),
                     "initial-shapes", d=d.shape, w=w.shape):
        return
    if g is not None:
        ctx.check(len(w) == g, "initial-groups", got=len(w), want=g)
        if name != "FrequencyWeighting":
            M.prior_pits(ctx, "initial:" + name, name, kw, w)
    else:
        # enough of the prior's weights for every slice
        ctx.check(1 - w.sum() <= s0["u"].min() + 1e-12,
                  "initial-weights-cover", left=1 - w.sum(),
                  slice=s0["u"].min(), model=name)
        ctx.count("open-starts")
    p = w / w.sum()
    # (the state's labels: categorical in the held weights)
    for j in range(min(3, len(w))):
        ctx.z("initial-label-%d" % j, d == j, p[j])
    c = np.cumsum(p)
    ctx.dpit("initial-labels", c[d] - p[d], p[d])
    ctx.pit("initial-slices", s0["u"])
    ctx.count("random-observed")


def variational_start(ctx):
    """The clustering of the variational fit, which is left fitted"""
    name, kw = X.mix_config(ctx, M.VAR)
    y, pk, par = X.problem(ctx, n=ctx.pick((5, 8, 15) * 8 + (90,)))
    g = int(ctx.pick((1, 2, 3)))
    T = int(ctx.pick((1, 5, 40)))
    ctx.case((name, str(kw), g, y.shape, T))
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=T, burn_in=0, **pk)
    s0 = observed(mm, y, init_method="variational", init_groups=g)
    K = kw["n"] if name in M.FIN else g
    ctx.check(bool(mm.var_fitted) and np.shape(mm.var_d) == (K, len(y)),
              "variational-left-fitted", shape=np.shape(mm.var_d), want=K)
    c = mm.var_map_cluster()
    ctx.count("variational-starts")
    if s0 is not None:
        ctx.check(np.array_equal(s0["d"], c), "starts-from-the-clustering",
                  got=s0["d"], want=c)
        ctx.count("variational-observed")


def far_variational(ctx):
    """Variational k-means start on far apart groups"""
    k, D = int(ctx.pick((2, 3))), int(ctx.pick((1, 2)))
    name = ctx.pick(M.VAR)
    kw = M.config(ctx.rng, name, True)
    if name in M.FIN:
        kw = {"n": k, **({"alpha": 1.5} if "alpha" in kw else {})}
    y, rank = groups(ctx, k, D)
    ctx.case((name, str(kw), k, D, len(y)))
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=int(ctx.pick((1, 20))),
                    burn_in=0, mu_prior=y.mean(0), psi_prior=np.eye(D),
                    lambda_prior=1e-10, nu_prior=D + 3)
    g = None if name in M.FIN and ctx.rng.uniform() < .5 else k
    mm.fit_variational(y, n_groups=g, init_method="kmeans")
    ctx.check(np.array_equal(mm.var_map_cluster(), rank), "kmeans-variational",
              got=mm.var_map_cluster(), want=rank, model=name)
    ctx.count("kmeans-variational")


SCENARIOS = [("separated", separated, 90, 1200), ("at-most", at_most, 60, 800),
             ("random", random_start, 400, 6000),
             ("variational", variational_start, 60, 800),
             ("far-variational", far_variational, 80, 1200)]
REQUIRE = {"kmeans-steps": 800, "variational-starts": 55,
           "kmeans-variational": 75}

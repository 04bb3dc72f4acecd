"""C12: the Gibbs sampler leaves the posterior invariant and forgets its
initialization."""
import numpy as np
from scipy import stats
from scipy.special import gammaln, logsumexp, betaln
from pv import models as M
from pv import mix as X

RULE = ("(a) alternation of data simulation from the visited state and one "
        "warm-started Gibbs step, many short chains per model and parameter "
        "setting, whose final states are compared with the prior joint law; "
        "(b) thinned states of Gibbs runs on 3-4 observations, compared with "
        "the enumerated posterior over partitions; a case is one chain")
ASSUMPTIONS = ["chains on 2-4 strongly overlapping observations forget their "
               "start within the thinning used (40 steps)",
               "frequency weights define no prior and are left to C11"]


def settings(ctx, name):
    al = ctx.pick((.7, 1.0, 2.0))
    return {
        "DirichletProcess": lambda: {"alpha": al},
        "PitmanYorProcess": lambda: {"pyd": ctx.pick((.1, .2)), "alpha": al},
        "GeometricProcess": lambda: {"a": ctx.pick((2, 3.5)),
                                     "b": ctx.pick((1, 2))},
        "BetaInBeta": lambda: {"x": ctx.pick((.5, .9, 1)), "alpha": 1.0,
                               "a": 2, "b": ctx.pick((1, 2)),
                               "p_method": ctx.pick((
                                   "inverse-sampling", "rejection-sampling"))},
        "BetaInDirichlet": lambda: {"alpha": ctx.pick((.7, 1.0)),
                                    "a": ctx.pick((.5, 2))},
        "BetaBernoulli": lambda: {"p": ctx.pick((.3, .7)),
                                  "alpha": ctx.pick((.7, 1.0))},
        "BetaBinomial": lambda: {"n": ctx.pick((0, 2, 5)),
                                 "alpha": ctx.pick((.7, 1.0))},
        "DirichletDistribution": lambda: ctx.pick((
            {"n": 3, "alpha": 1.0}, {"n": 2, "alpha": (.7, 2.0)},
            {"n": 4, "alpha": (1.0, 2.0, .5, 1.0)})),
        "EqualWeighting": lambda: {"n": ctx.pick((2, 3))},
    }[name]()


MODELS = ("DirichletProcess", "PitmanYorProcess", "GeometricProcess",
          "BetaInBeta", "BetaInDirichlet", "BetaBernoulli", "BetaBinomial",
          "DirichletDistribution", "EqualWeighting")


def hyper(ctx, D):
    psi = np.eye(D) if ctx.rng.uniform() < .5 else X.spd(ctx.rng, D)
    return {"mu_prior": ctx.rng.normal(size=D) * 2, "lambda_prior": 2.0,
            "psi_prior": psi, "nu_prior": D + 4.0}


def simulate(ctx, state):
    out = []
    for j in state["d"]:
        m, c = np.ravel(state["theta"][j][0]), np.atleast_2d(
            state["theta"][j][1])
        out.append(m + np.linalg.cholesky(c) @ ctx.rng.normal(size=len(m)))
    return np.array(out)


def label_zero_law(name, kw, N):
    k = np.arange(N + 1)
    if name == "EqualWeighting":
        return stats.binom.pmf(k, N, 1 / kw["n"])
    if name == "DirichletDistribution":
        a = M.alpha_vec(kw)
        return stats.betabinom.pmf(k, N, a[0], a[1:].sum())
    return M.label_law(name, kw, N)


def joint(ctx):
    name = MODELS[ctx.index % len(MODELS)]
    for _ in range(6):
        kw = settings(ctx, name)
        D, n = ctx.pick((1, 1, 2)), ctx.pick((2, 3))
        hy = hyper(ctx, D)
        par = X.effective(hy, np.zeros((n, D)))
        y = hy["mu_prior"] + ctx.rng.normal(size=(n, D))
        ctx.case((name, str(kw), D, n, y.tolist()))
        mm = M.make_mix(name, kw, ctx.gen(), total_iter=1, burn_in=0, **hy)
        mm.fit_gibbs(y, init_method=ctx.pick(("random", "kmeans")),
                     init_groups=1 if ctx.rng.uniform() < .5 else None)
        T = 40
        for t in range(T):
            y = simulate(ctx, mm.sim_params[-1])
            mm.fit_gibbs(y, warm_start=True)
        ctx.check(len(mm.sim_params) == T + 1, "one-state-per-step")
        s = mm.sim_params[-1]
        d = np.asarray(s["d"])
        ctx.count("steps", T)
        ctx.count("chains")
        # parameters of the first and of the last observation
        th = s["theta"][d[0]]
        X.niw_pits(ctx, "theta:D%d" % D, th[0], th[1], par)
        # labels
        law = label_zero_law(name, kw, n)
        k = int((d == 0).sum())
        ctx.dpit("zeros:" + name, law[:k].sum(), law[k])
        if name in ("DirichletProcess", "PitmanYorProcess"):
            ctx.z("together", d[0] == d[1],
                  (1 - kw.get("pyd", 0)) / (1 + kw["alpha"]))
        if name == "DirichletDistribution":
            a = M.alpha_vec(kw)
            ctx.z("together", d[0] == d[1], (a * (a + 1)).sum() / a.sum() /
                  (a.sum() + 1))
        # weights: the truncation is extended so that it is not data dependent
        wm = mm.weight_model
        w = wm.complete(5) if name in M.INF else wm.get_weights()
        M.prior_pits(ctx, "w:" + name, name, kw, w, maxj=4)


# ---- exact posterior over partitions ----------------------------------------
def log_eppf(name, kw, sizes):
    """Log probability of one partition with those block sizes"""
    k, n = len(sizes), sum(sizes)
    sizes = np.asarray(sizes, float)
    if name in ("DirichletProcess", "PitmanYorProcess"):
        d, a = kw.get("pyd", 0), kw["alpha"]
        return (np.log(a + d * np.arange(1, k)).sum() -
                (gammaln(a + n) - gammaln(a + 1)) +
                (gammaln(sizes - d) - gammaln(1 - d)).sum())
    if name == "EqualWeighting":
        m = kw["n"]
        if k > m:
            return -np.inf
        return gammaln(m + 1) - gammaln(m - k + 1) - n * np.log(m)
    if name == "DirichletDistribution":
        a = M.alpha_vec(kw)
        if k > len(a):
            return -np.inf
        from itertools import permutations
        out = []
        for js in permutations(range(len(a)), k):
            out.append(sum(gammaln(a[j] + m) - gammaln(a[j])
                           for j, m in zip(js, sizes)))
        return logsumexp(out) - (gammaln(a.sum() + n) - gammaln(a.sum()))
    # common fraction p ~ Beta(a, b): sums over distinct labels of the
    # products of powers of the geometric weights, by inclusion-exclusion
    a, b = kw["a"], kw["b"]
    x, q = M._GL
    p, q = stats.beta.ppf((x + 1) / 2, a, b), q / 2
    power = {m: p ** m / -np.expm1(m * np.log1p(-p))
             for m in range(1, n + 1)}
    tot = np.zeros_like(p)
    for part in X.partitions(k):
        blocks = [[i for i in range(k) if part[i] == g]
                  for g in range(max(part) + 1)]
        term = np.ones_like(p)
        for blk in blocks:
            term = term * (-1.0) ** (len(blk) - 1) * np.exp(
                gammaln(len(blk))) * power[int(sizes[blk].sum())]
        tot += term
    return float(np.log((q * tot).sum() / q.sum()))


def exact(ctx):
    names = ("DirichletProcess", "PitmanYorProcess", "GeometricProcess",
             "DirichletDistribution", "EqualWeighting", "BetaInBeta")
    name = names[ctx.index % len(names)]
    kw = settings(ctx, name)
    if name == "BetaInBeta":
        # (a = 1 has too heavy tails to run: thousands of components)
        kw["x"], kw["a"] = 1, 2
    n, D = ctx.pick((3, 4)), ctx.pick((1, 2))
    y = ctx.rng.normal(size=(n, D)) * ctx.pick((.7, 1.2))
    if ctx.rng.uniform() < .5:
        hy = hyper(ctx, D)
        hy["mu_prior"] = ctx.rng.normal(size=D) * .5
    else:
        y = y * 5 + 3
        hy = {"mu_prior": y.mean(0) + 1.0, "lambda_prior": .5,
              "psi_prior": np.eye(D) * 25, "nu_prior": D + 2}
    par = X.effective(hy, y)
    parts = list(X.partitions(n))
    lp = []
    for part in parts:
        part = np.array(part)
        sizes = [int((part == g).sum()) for g in range(part.max() + 1)]
        lp.append(log_eppf(name, kw, sizes) + sum(
            X.log_marginal(y[part == g], *par)
            for g in range(part.max() + 1)))
    prob = np.exp(np.array(lp) - logsumexp(lp))
    init = ctx.pick(({"init_method": "random"},
                     {"init_method": "random", "init_groups": 1},
                     {"init_method": "kmeans", "init_groups": 1},
                     {"init_method": "kmeans", "init_groups": n},
                     {"init_method": "kmeans"}))
    saved = 5
    ctx.case((name, str(kw), y.tolist(), str(init)))
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=40 * saved + 1,
                    burn_in=40, subsample_steps=40, **hy)
    if ctx.rng.uniform() < .3:
        # a warm start continues the same chain
        mm.total_iter = 81
        mm.fit_gibbs(y, **init)
        mm.total_iter = 40 * saved - 39
        mm.fit_gibbs(y, warm_start=True)
        ctx.count("warm")
    else:
        mm.fit_gibbs(y, **init)
    got = np.zeros(len(parts))
    index = {p: i for i, p in enumerate(parts)}
    states = mm.sim_params
    for s in states:
        i = index[X.canon(s["d"])]
        got[i] += 1
        ctx.dpit("ranked:%d" % n, prob[:i].sum(), prob[i])
        th = s["theta"][s["d"][0]]
    ctx.freq("%s:%d" % (name, n), got, prob * len(states))
    if n == 4:
        ctx.freq("all", got, prob * len(states))
    ctx.count("chains")
    ctx.count("states", len(states))
    ctx.count("partitions-seen", (got > 0).sum())


SCENARIOS = [("joint", joint, 360, 4000), ("exact", exact, 480, 7000)]
REQUIRE = {"chains": 1000, "states": 2000, "steps": 50000, "warm": 50}

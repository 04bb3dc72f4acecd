"""C04: posterior weights follow the exact conjugate law."""
import numpy as np
from pv import models as M

RULE = ("random label vectors (gaps, single label, repeated fits) on models "
        "whose posterior has closed form; a case is (model, parameters, "
        "labels, way); every fraction is judged by its conditional "
        "probability integral transform under the exact posterior")
ASSUMPTIONS = ["numpy.random.Generator draws its named distributions"]
WAYS = ("full", "truncated", "oversized", "complete-empty",
        "complete-truncated", "tail", "refit", "list", "int32", "twice")


def closed(rng, name):
    kw = M.config(rng, name, tails=False)
    if name == "BetaBernoulli":
        kw["p"] = int(rng.integers(2))
    if name == "BetaBinomial":
        kw["n"] = 0
    if name == "BetaInDirichlet":
        kw["a"] = 0
    if name == "BetaInBeta" and 0 < kw["x"] < 1:
        kw["p_method"] = ["static", "independent", "geometric",
                          "inverse-sampling", "rejection-sampling",
                          "max-likelihood"][int(rng.integers(6))]
    return kw


def label_vector(rng, name, kw):
    if name in M.INF and rng.uniform() < .15 and \
            kw.get("p_method") != "rejection-sampling":
        # few labels, far apart
        return rng.choice(rng.integers(0, 80, size=4),
                          int(rng.integers(1, 25)))
    kmax = kw["n"] if name in M.FIN else int(rng.integers(1, 7))
    return M.labels(rng, kmax, int(rng.integers(1, 25)) if rng.uniform() < .9
                    else 900)


def laws(ctx, name):
    for _ in range(3):
        kw = closed(ctx.rng, name)
        way = ctx.pick(WAYS)
        d = label_vector(ctx.rng, name, kw)
        mx = int(d.max()) + 1
        ctx.case((name, str(kw), d.tolist(), way))
        ctx.group({k: v for k, v in kw.items() if k != "n"}, "way=" + way)
        ctx.count("way:" + way)
        ctx.count("cases:gaps", len(np.unique(d)) < mx)
        inner = name == "BetaInBeta" and 0 < kw["x"] < 1
        reps = 4 if inner and kw["p_method"] in (
            "inverse-sampling", "max-likelihood") else 18
        wm = None
        for _ in range(reps):
            if wm is None or way != "twice":
                wm = M.make(name, kw, ctx.gen())
            if way == "list":
                wm.fit(d.tolist())
            elif way == "int32":
                wm.fit(d.astype(np.int32))
            elif way == "refit":
                wm.fit(label_vector(ctx.rng, name, kw))
                wm.random()
                if ctx.rng.uniform() < .3:
                    wm.reset()
                wm.fit(d)
            else:
                wm.fit(d)
            if way == "truncated" and mx > 1:
                w = wm.random(int(ctx.rng.integers(1, min(mx, 12))))
                if ctx.rng.uniform() < .3:
                    w = wm.complete(len(w) + int(ctx.rng.integers(1, 4)))
            elif way == "oversized":
                w = wm.random(mx + int(ctx.rng.integers(1, 5)))
            elif way == "complete-empty":
                w = wm.complete(int(ctx.rng.integers(
                    1, ctx.pick((mx, min(mx, 4))) + 5)))
            elif way == "complete-truncated":
                wm.random(1)
                if ctx.rng.uniform() < .5:
                    wm.complete(2)
                w = wm.complete(mx + int(ctx.rng.integers(0, 4)))
            elif way == "tail" and kw.get("pyd", 0) < .7:
                if ctx.rng.uniform() < .5:
                    wm.random()
                w = wm.tail(ctx.rng.uniform(0, .8))
            else:
                w = wm.random()
            ctx.check(np.array_equal(np.asarray(w), wm.get_weights()),
                      "returned-is-held")
            p = getattr(wm, "p", None) if inner else None
            M.posterior_pits(ctx, name, name, kw, w, d, p)
            ctx.count("realizations")


def mk(name):
    return lambda ctx: laws(ctx, name)


def reset_returns_to_prior(ctx):
    for _ in range(3):
        name = ctx.pick(M.ALL)
        kw = closed(ctx.rng, name)
        if "p_method" in kw:
            kw["x"] = 1
        d = label_vector(ctx.rng, name, kw)
        ctx.case((name, str(kw), d.tolist(), "reset"))
        for _ in range(10):
            wm = M.make(name, kw, ctx.gen())
            wm.fit(d)
            wm.random()
            wm.reset()
            M.prior_pits(ctx, "reset:" + name, name, kw, wm.random(5))
            ctx.count("resets")


def hard_labels(ctx):
    """Large counts: the posterior mean concentrates on label frequencies,
    first fractions judged exactly"""
    name = ctx.pick([n for n in M.ALL])
    kw = closed(ctx.rng, name)
    if "p_method" in kw:
        kw["p_method"] = "static"
    n = int(ctx.rng.integers(200, 3000))
    kmax = kw["n"] if name in M.FIN else int(ctx.pick((5, 5, 40, 150, 300)))
    d = ctx.rng.choice(kmax, n, p=ctx.rng.dirichlet(np.ones(kmax)))
    ctx.case((name, str(kw), "large", n))
    for _ in range(10):
        wm = M.make(name, kw, ctx.gen())
        wm.fit(d)
        w = wm.random()
        M.posterior_pits(ctx, name + ":large", name, kw, w, d,
                         getattr(wm, "p", None))
        ctx.count("large")


SCENARIOS = [(n, mk(n), 300, 4000) for n in M.INF] + [
    ("DirichletDistribution", mk("DirichletDistribution"), 100, 1500),
    ("EqualWeighting", mk("EqualWeighting"), 4, 40),
    ("FrequencyWeighting", mk("FrequencyWeighting"), 6, 60),
    ("reset", reset_returns_to_prior, 80, 500),
    ("large", hard_labels, 120, 600)]
REQUIRE = {"realizations": 8000, "sticks:occupied": 5000, "sticks:gap": 500,
           "sticks:beyond": 2000, "sticks:common": 1000, "resets": 900,
           "large": 500}
REQUIRE.update({"way:" + w: 50 for w in WAYS})

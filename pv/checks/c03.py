"""C03: prior weights follow the declared law."""
import numpy as np
from pv import models as M

RULE = ("random parameter settings of every weighting model; each case is one "
        "(model, parameters, way of obtaining the weights) and every stick "
        "fraction observed is turned into a conditional probability integral "
        "transform under the declared prior")
ASSUMPTIONS = ["numpy.random.Generator draws its named distributions",
               "only the first six fractions of a vector with enough mass "
               "left are inverted"]
WAYS = ("random", "random-again", "grow", "grow-one-by-one", "empty-complete",
        "tail", "tail-grow", "after-reset", "big")


def obtain(ctx, wm, way, name, kw, m):
    if way == "random":
        return wm.random(m)
    if way == "random-again":
        wm.random(int(ctx.rng.integers(1, m + 4)))
        return wm.random(m)
    if way == "grow":
        wm.random(int(ctx.rng.integers(1, 4)))
        return wm.complete(m)
    if way == "grow-one-by-one":
        wm.random(1)
        for k in range(2, m + 1):
            wm.complete(k)
        return wm.get_weights()
    if way == "empty-complete":
        return wm.complete(m)
    if way == "tail":
        return wm.tail(ctx.rng.uniform(0, .85))
    if way == "tail-grow":
        wm.random(1)
        wm.tail(ctx.rng.uniform(0, .85))
        return wm.complete(m)
    if way == "after-reset":
        wm.fit(M.labels(ctx.rng, kw["n"] if name in M.FIN else 6, 10))
        if ctx.rng.uniform() < .7:
            wm.random()
            if ctx.rng.uniform() < .5:
                wm.complete(m)
        wm.reset()
        wm.random(m)
        if ctx.rng.uniform() < .5:
            wm.complete(m + 2)
        return wm.get_weights()
    if way == "big":
        return wm.random(30)


def laws(ctx, name):
    for _ in range(3):
        kw = M.config(ctx.rng, name)
        way = ctx.pick(WAYS)
        m = ctx.pick([1, 2, 4, 6, 6])
        ctx.case((name, str(kw), way, m))
        key = name
        if name == "PitmanYorProcess" and kw["pyd"] == 0:
            key += ":d=0"
        if name == "BetaInBeta":
            key += ":x=%s" % (kw["x"] if kw["x"] in (0, 1) else "in")
        if way in ("after-reset",):
            key += ":reset"
        elif way not in ("random", "random-again", "big"):
            key += ":grown"
        ctx.group(kw)
        ctx.count("way:" + way)
        shared = M.make(name, kw, ctx.gen()) if ctx.rng.uniform() < .5 and \
            way in ("random", "random-again", "big", "after-reset") else None
        for _ in range(25):
            wm = shared or M.make(name, kw, ctx.gen())
            M.prior_pits(ctx, key, name, kw, obtain(ctx, wm, way, name, kw, m))
            ctx.count("realizations")


def deep(ctx):
    """Fractions far down a long realization, reached at once or in pieces"""
    name = ctx.pick(M.INF)
    kw = M.config(ctx.rng, name, mild=True)
    if "alpha" in kw:
        kw["alpha"] = ctx.pick([20., 45.5, 80.])
    if name == "PitmanYorProcess":
        kw = {"pyd": ctx.pick([.25, .5, .75]), "alpha": ctx.pick([1, 8.5])}
    if name == "GeometricProcess":
        kw = {"a": 1, "b": ctx.pick([60, 200.])}
    ctx.group(kw)
    for _ in range(4):
        wm = M.make(name, kw, ctx.gen())
        m = int(ctx.rng.integers(60, 160))
        way = ctx.pick(("once", "pieces", "again", "tail"))
        ctx.case((name, str(kw), "deep", m, way))
        if way == "again":
            wm.random(int(ctx.rng.integers(1, 2 * m)))
            wm.random(m)
        elif way == "pieces":
            wm.random(int(ctx.rng.integers(1, 40)))
            while len(wm.get_weights()) < m:
                wm.complete(len(wm.get_weights()) +
                            int(ctx.rng.integers(1, 40)))
        elif way == "tail":
            wm.random(1)
            for x in (.2, .5, .7):
                wm.tail(x)
        else:
            wm.random(m)
        w = wm.get_weights()
        M.prior_pits(ctx, "deep:" + name, name, kw, w, maxj=len(w),
                     floor=1e-3)
        ctx.count("deep", len(w))


def tiny(ctx, law=True):
    """Common fractions so small that a tail needs thousands of weights"""
    name, kw = ctx.pick([
        ("GeometricProcess", {"a": 9, "b": 9000.}),
        ("GeometricProcess", {"a": 40, "b": 2e5}),
        ("BetaInBeta", {"x": 1, "a": 9, "b": 4000., "alpha": 1}),
        ("DirichletProcess", {"alpha": 900.}),
        ("BetaBernoulli", {"p": .5, "alpha": 900.})])
    wm = M.make(name, kw, ctx.gen())
    wm.random(int(ctx.rng.integers(1, 50)))
    x = ctx.pick([.5, .9, .999])
    held = np.array(wm.get_weights())
    w = np.asarray(wm.tail(x))
    ctx.case((name, str(kw), "tiny", x, len(w)))
    ctx.check(w.sum() >= x, "tail-reached", x=x, s=w.sum(), n=len(w))
    ctx.check(np.array_equal(held, w[:len(held)]), "tail-kept")
    ctx.check(w.min() >= 0 and w.sum() <= 1 + 1e-9, "tail-sub-simplex")
    if law:
        M.prior_pits(ctx, "tiny:" + name, name, kw, w, maxj=len(w),
                     floor=1e-3)
    ctx.count("tiny", len(w))


def mk(name):
    return lambda ctx: laws(ctx, name)


def default_parameters(ctx):
    """Defaults of every constructor argument are as documented"""
    name = ctx.pick(M.ALL)
    full = {"DirichletProcess": {"alpha": 1},
            "PitmanYorProcess": {"alpha": 1, "pyd": 0},
            "GeometricProcess": {"a": 1, "b": 1},
            "BetaInBeta": {"x": 0, "alpha": 1, "a": 1, "b": 1},
            "BetaInDirichlet": {"alpha": 1, "a": 0},
            "BetaBernoulli": {"p": 1, "alpha": 1},
            "BetaBinomial": {"n": 0, "alpha": 1},
            "DirichletDistribution": {"n": 1, "alpha": 1},
            "EqualWeighting": {"n": 1}, "FrequencyWeighting": {"n": 1}}[name]
    drop = [k for k in full if ctx.rng.uniform() < .6 or len(full) == 1]
    kw = M.config(ctx.rng, name)
    kw.pop("p_method", None)
    if name == "BetaInBeta" and 0 < kw["x"] < 1:
        kw["x"] = 1
    given = {k: v for k, v in kw.items() if k not in drop}
    if name == "DirichletDistribution":
        if np.ndim(given.get("alpha", 1)):
            given["alpha"] = 2.0
    if name == "PitmanYorProcess":
        given.pop("alpha", None)
    eff = dict(full, **given)
    ctx.case((name, str(given), "defaults"))
    for _ in range(12):
        wm = M.make(name, given, ctx.gen())
        M.prior_pits(ctx, "defaults", name, eff, wm.random(5))
    ctx.count("defaults")


SCENARIOS = [(n, mk(n), 100 if n == "BetaInBeta" else 250, 3000)
             for n in M.INF] + [
    ("DirichletDistribution", mk("DirichletDistribution"), 90, 1200),
    ("EqualWeighting", mk("EqualWeighting"), 4, 40),
    ("FrequencyWeighting", mk("FrequencyWeighting"), 4, 40),
    ("deep", deep, 260, 2500), ("tiny", tiny, 60, 600),
    ("defaults", default_parameters, 80, 1200)]
REQUIRE = {"deep": 40000, "tiny": 50000, "realizations": 20000, "sticks": 40000, "defaults": 30}
REQUIRE.update({"pit:" + n: 800 for n in ("DirichletProcess",
               "BetaInDirichlet", "BetaBernoulli", "GeometricProcess")})
REQUIRE.update({"way:" + w: 60 for w in WAYS})

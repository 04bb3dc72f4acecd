"""C02: extending a realization keeps it; tail requests are met."""
import numpy as np
from pv import models as M
from pv.checks import c01, c03

RULE = c01.RULE
ASSUMPTIONS = c01.ASSUMPTIONS


def one(ctx):
    for _ in range(10):
        c01.history(ctx, extension=True)


def tails(ctx):
    """Tail requests of growing mass on one realization, any model"""
    for _ in range(6):
        name = ctx.pick(M.ALL)
        kw = M.config(ctx.rng, name)
        wm = M.make(name, kw, ctx.gen())
        fitted = ctx.rng.uniform() < .5
        if fitted:
            wm.fit(M.labels(ctx.rng, kw["n"] if name in M.FIN else 6, 10))
            if ctx.rng.uniform() < .7:
                wm.random()
        xs = np.sort(np.append(ctx.rng.uniform(0, .9, 4),
                               1 - 10 ** ctx.rng.uniform(-12, -1, 3)))
        xs = np.minimum(xs, c01.tail_max(name, kw))
        ctx.case((name, str(kw), "tails", fitted, xs.tolist()))
        first = True
        for x in xs:
            held = np.array(wm.get_weights(), float, copy=True)
            if x > .9 and name in M.INF and \
                    name not in ("GeometricProcess", "DirichletProcess"):
                v = M.sticks(held)
                if len(v) == 0 or v[-1] < 2e-3:
                    break
            w = np.asarray(wm.tail(x))
            ctx.count("tails")
            ctx.check(w.sum() >= x, "tail-reached", x=x, s=w.sum())
            ctx.check(np.array_equal(w, wm.get_weights()), "returned-is-held")
            if len(held) and not (first and fitted):
                c01.extended(ctx, name, held, w, held.sum() >= x, "tail")
            first = False


def rejected(ctx):
    for _ in range(20):
        name = ctx.pick(M.ALL)
        kw = M.config(ctx.rng, name)
        wm = M.make(name, kw, ctx.gen())
        state = ctx.pick(["empty", "drawn", "fitted"])
        if state != "empty":
            wm.random(5)
        if state == "fitted":
            wm.fit(M.labels(ctx.rng, kw["n"] if name in M.FIN else 6, 10))
            wm.random()
        held = np.array(wm.get_weights(), copy=True)
        x = ctx.pick([1, 1.0, -1e-9, 1 + 1e-9, -3, 7.5, np.inf, -np.inf, 2,
                      np.float64(1), -0.5])
        ctx.case((name, str(kw), state, x))
        ctx.raises(ValueError, lambda: wm.tail(x), "tail-out-of-range", x=x)
        ctx.check(np.array_equal(wm.get_weights(), held),
                  "rejected-tail-leaves-weights")
        ctx.count("rejections")


def exhausted(ctx):
    """Extensions of realizations that already carry (nearly) all the mass"""
    name = ctx.pick(("DirichletProcess", "GeometricProcess", "BetaInBeta",
                     "BetaBernoulli", "BetaBinomial", "BetaInDirichlet"))
    kw = M.config(ctx.rng, name)
    wm = M.make(name, kw, ctx.gen())
    d = np.zeros(int(ctx.rng.integers(1, 2000)), int)
    wm.fit(d)
    wm.random()
    ctx.case((name, str(kw), "exhausted", len(d)))
    for m in (3, 3, 10, 40):
        held = np.array(wm.get_weights(), copy=True)
        w = wm.complete(m)
        c01.judge(ctx, name, kw, wm, w, m)
        c01.extended(ctx, name, held, np.asarray(w), len(held) >= m,
                     "complete")


def tiny(ctx):
    """Tail requests that take thousands of weights"""
    c03.tiny(ctx, law=False)


SCALE = 6     # of the quick tier
SCENARIOS = [("histories", one, 100, 2500), ("tails", tails, 120, 2500),
             ("rejected", rejected, 16, 200),
             ("exhausted", exhausted, 40, 400), ("tiny", tiny, 16, 100)]
REQUIRE = {"extensions": 700, "no-op extensions": 500, "tails": 1000,
           "rejections": 200, "tiny": 50000}

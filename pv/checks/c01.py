"""C01 valid weightings / C02 extension: monitors over call histories."""
import numpy as np
from pv import models as M
from pv.core import Skip

RULE = ("random call histories (random/complete/tail/fit/reset/assignment) on "
        "every weighting model with random parameters and label vectors; a "
        "case is one (model, parameters, history) and is non-trivial when at "
        "least one weight vector was judged")
ASSUMPTIONS = ["tail requests are kept to masses reachable with some thousands "
               "of weights"]


def tail_max(name, kw):
    """Largest tail mass asked of this model"""
    if name in M.FIN:
        return 1 - 1e-12
    if name == "DirichletProcess" or (
            name == "BetaInBeta" and kw["x"] == 0) or (
            name == "BetaBernoulli" and kw["p"] == 1) or (
            name == "BetaBinomial" and kw["n"] == 0):
        return 1 - 1e-12
    if name == "GeometricProcess":
        return 1 - 1e-12
    if name == "PitmanYorProcess":
        return 1 - 1e-6 if kw["pyd"] <= .1 else (
            .99 if kw["pyd"] <= .25 else .9)
    return .99


def judge(ctx, name, kw, wm, ret=None, size=None, fitted=None):
    """Monitor of one returned or held weight vector"""
    w = np.asarray(wm.get_weights())
    ctx.count("vectors")
    if ret is not None:
        ctx.check(np.array_equal(np.asarray(ret), w), "returned-is-held",
                  ret=ret, held=w)
    ctx.check(w.ndim == 1 and np.all(np.isfinite(w)), "finite", w=w)
    ctx.check(np.all((w >= 0) & (w <= 1)), "in-unit-interval", w=w)
    ctx.check(w.sum() <= 1 + 1e-9, "sum-at-most-1", s=w.sum())
    ctx.check(wm.get_size() == len(w), "size-is-length", size=wm.get_size(),
              n=len(w))
    if len(w) and w.sum() > 0:
        nw = wm.get_normalized_weights()
        ctx.close(nw, w / w.sum(), "normalized", 1e-10)
        ctx.close(wm.get_normalized_cumulative_weights(),
                  np.cumsum(w / w.sum()), "normalized-cumulative", 1e-9)
    if name in M.FIN and len(w):
        ctx.close(w.sum(), 1, "finite-model-sums-to-1", 1e-9)
        if name == "FrequencyWeighting" and fitted is not None:
            nj = np.bincount(fitted)
            m = max(len(w), len(nj))
            ctx.close(np.append(w, np.zeros(m - len(w))),
                      np.append(nj / nj.sum(), np.zeros(m - len(nj))),
                      "frequency-weights", 1e-12)
        else:
            ctx.check(len(w) == kw["n"], "finite-model-size", n=len(w))
            if name != "DirichletDistribution":
                ctx.close(w, np.full(kw["n"], 1 / kw["n"]), "equal-weights",
                          1e-12)
    elif size is not None and name in M.INF:
        ctx.check(len(w) >= size, "at-least-requested", size=size, n=len(w))
    return w


def history(ctx, extension=False):
    rng = ctx.rng
    name = ctx.pick(M.ALL)
    kw = M.config(rng, name)
    wm = M.make(name, kw, ctx.gen())
    ops = []
    ctx.case((name, kw, "history"), nontrivial=False)
    drawn = False           # a realization is held
    d = None                # fitted labels
    stale = False           # labels changed since the realization was drawn
    kmax = kw["n"] if name in M.FIN else 8 if rng.uniform() < .95 else 300
    n_ops = int(rng.integers(4, 12))
    for _ in range(n_ops):
        op = ctx.pick(["random", "complete", "tail", "fit", "random", "complete",
                       "tail", "fit", "reset", "assign", "loglik"])
        if extension and op == "random" and rng.uniform() < .5:
            op = ctx.pick(["complete", "tail"])
        size = int(rng.integers(1, 15 if rng.uniform() < .97 else 500))
        size = ctx.pick([size, size, 1, np.int64(size), np.int32(size)])
        held = np.array(wm.get_weights(), float, copy=True)
        det = name == "FrequencyWeighting"
        if op == "random":
            nosize = d is not None and rng.uniform() < .5
            ops.append(("random", None if nosize else int(size)))
            ctx.case((name, kw, tuple(ops)))
            if nosize:
                ret = wm.random()
                judge(ctx, name, kw, wm, ret, 1, d)
            else:
                ret = wm.random(size)
                judge(ctx, name, kw, wm, ret, size, d)
            drawn, stale = True, False
        elif op == "complete":
            ops.append(("complete", int(size)))
            ctx.case((name, kw, tuple(ops)))
            ret = wm.complete(size)
            w = judge(ctx, name, kw, wm, ret, size, d)
            if drawn and not (det and stale):
                extended(ctx, name, held, w, len(held) >= size or
                         name in M.FIN, "complete")
            drawn, stale = True, stale and not det
        elif op == "tail":
            x = ctx.pick([0, 0.0, 0.3, rng.uniform(), rng.uniform(.9, 1), .5,
                          1 - 10 ** rng.uniform(-12, -1)])
            x = min(x, tail_max(name, kw))
            if x > .9 and len(held) and name in M.INF and \
                    name not in ("GeometricProcess", "DirichletProcess"):
                # a near-constant fraction may need millions of weights
                v = M.sticks(held)
                if len(v) == 0 or v[-1] < 2e-3:
                    x = .5
            ops.append(("tail", float(x)))
            ctx.case((name, kw, tuple(ops)))
            if det and d is not None:
                stale = stale or not drawn
            ret = wm.tail(x)
            w = judge(ctx, name, kw, wm, ret, 1, d if not (
                det and stale and drawn) else None) if not (
                det and stale) else np.asarray(ret)
            ctx.check(w.sum() >= x, "tail-reached", x=x, s=w.sum())
            if drawn and not (det and stale):
                extended(ctx, name, held, w, held.sum() >= x, "tail")
            drawn = True
        elif op == "fit":
            d = M.labels(rng, kmax, 12)
            if name == "FrequencyWeighting" and rng.uniform() < .5:
                d = np.append(d, kmax - 1)
            ops.append(("fit", d.tolist()))
            ctx.case((name, kw, tuple(map(str, ops))))
            wm.fit(ctx.pick([d, d.tolist(), d.astype(np.int32)]))
            ctx.check(np.array_equal(wm.get_weights(), held),
                      "fit-keeps-realization")
            stale = True
            ctx.count("fits")
        elif op == "reset":
            ops.append(("reset",))
            wm.reset()
            d, stale = None, True
            ctx.check(np.array_equal(wm.get_weights(), held),
                      "reset-keeps-realization")
        elif op == "assign" and drawn:
            ops.append(("assign",))
            wm.random_assignment(int(rng.integers(1, 5)))
            ctx.check(np.array_equal(wm.get_weights(), held),
                      "assignment-keeps-weights")
        elif op == "loglik" and drawn and not det:
            ops.append(("loglik",))
            dd = M.labels(rng, kmax, 5)
            wm.assignation_log_likelihood(dd)
            w = judge(ctx, name, kw, wm, None, int(dd.max()) + 1, d)
            extended(ctx, name, held, w, len(held) > dd.max() or
                     name in M.FIN, "loglik")
    ctx.case((name, str(kw), tuple(map(str, ops))))


def extended(ctx, name, held, w, satisfied, how):
    ctx.count("extensions" if not satisfied else "no-op extensions")
    if satisfied:
        ctx.check(np.array_equal(held, w), how + "-no-op", held=held, w=w)
    else:
        ctx.check(len(w) >= len(held) and
                  np.allclose(w[:len(held)], held, rtol=1e-12, atol=0),
                  how + "-keeps-prefix", held=held, w=w[:len(held)])
        ctx.check(len(w) > len(held), how + "-extends")


def one(ctx):
    for _ in range(12):
        history(ctx)


def deep(ctx):
    """Many weights: products of many fractions stay a weighting"""
    name = ctx.pick(M.INF)
    kw = M.config(ctx.rng, name)
    wm = M.make(name, kw, ctx.gen())
    m = int(ctx.rng.integers(200, 800))
    ctx.case((name, kw, "deep", m))
    judge(ctx, name, kw, wm, wm.random(m), m)
    d = M.labels(ctx.rng, 60, 40)
    wm.fit(d)
    judge(ctx, name, kw, wm, wm.random(), int(d.max()) + 1 if name in (
        "DirichletProcess", "PitmanYorProcess") else 1, d)
    judge(ctx, name, kw, wm, wm.complete(m), m, d)
    ctx.count("deep")


def finite_fit(ctx):
    """Finite models: size and law-independent structure after fits"""
    for _ in range(10):
        name = ctx.pick(M.FIN)
        kw = M.config(ctx.rng, name)
        wm = M.make(name, kw, ctx.gen())
        d = None
        for _ in range(4):
            ctx.case((name, str(kw), None if d is None else d.tolist()))
            judge(ctx, name, kw, wm, wm.random(), None, d)
            d = M.labels(ctx.rng, kw["n"], 10)
            wm.fit(d)
            judge(ctx, name, kw, wm, wm.random(), None, d)
            if ctx.rng.uniform() < .3:
                wm.reset()
                d = None


SCALE = 5     # of the quick tier
SCENARIOS = [("histories", one, 120, 3000), ("deep", deep, 60, 900),
             ("finite", finite_fit, 30, 400)]
REQUIRE = {"vectors": 3000, "fits": 500, "deep": 40}

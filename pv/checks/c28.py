"""C28: a cold refit depends only on the new data."""
import numpy as np

from pv import drive
from pv import models as M
from pv import mix as X

RULE = ("an object with a random history of fits, queries and weight draws on "
        "other data (other sizes, scales, dimensions) is refitted cold, by "
        "either engine; a freshly built object gets a generator copied from "
        "the state of the old object's generator at that moment; traces and "
        "query answers compared exactly; a case is one model, history and "
        "new data set")
ASSUMPTIONS = ["the generator is passed by the caller, so both of the "
               "object's streams are the copied one"]


def settings(ctx, D_fixed):
    """Constructor priors valid for any data (or for D_fixed features)"""
    kw = {}
    if ctx.rng.uniform() < .5:
        kw["lambda_prior"] = float(ctx.rng.choice([.2, 1, 3]))
    if D_fixed:
        if ctx.rng.uniform() < .5:
            kw["mu_prior"] = ctx.rng.normal(size=D_fixed)
        if ctx.rng.uniform() < .5:
            kw["psi_prior"] = X.spd(ctx.rng, D_fixed, 2.0)
        if ctx.rng.uniform() < .5:
            kw["nu_prior"] = float(D_fixed + ctx.pick((0, 1, 4)))
    return kw


def datum(ctx, D):
    while True:
        y = X.data(ctx.rng, D, ctx.pick((4, 6, 9, 16)))
        if len(y) <= y.shape[1] + 1:
            continue
        c = np.atleast_2d(np.cov(y.T))
        if np.all(y.std(0) > 1e-6 * np.abs(y).max()) and (
                X.well_conditioned(c, 1e4)):
            return y


def related(ctx, y):
    """New data that shares something with the old: mean, covariance, size,
    some of the observations, or nearly everything"""
    kind = ctx.pick(("nudged", "scaled", "reflected", "reordered", "one-moved",
                     "more", "same", "shifted"))
    ctx.count("related:" + kind)
    m = y.mean(0)
    z = y.copy()
    if kind == "nudged":
        z += 10.0 ** -ctx.pick((3, 6, 9)) * y.std(0) * ctx.rng.normal(
            size=y.shape)
    elif kind == "scaled":
        z = m + (y - m) * ctx.pick((.5, 1.001, 3))
    elif kind == "reflected":
        z = 2 * m - y
    elif kind == "reordered":
        z = y[ctx.rng.permutation(len(y))]
    elif kind == "one-moved":
        z[-1] += y.std(0)
    elif kind == "more":
        z = np.concatenate([y, y[:1] + .1 * y.std(0)])
    elif kind == "shifted":
        z = y + ctx.pick((1e-3, .1)) * y.std(0)
    return np.ascontiguousarray(z)


def cold(ctx, name, kw):
    if name in M.VAR and ctx.rng.uniform() < .45:
        return ("fit_variational", {
            "n_groups": None if name in M.FIN and ctx.rng.uniform() < .5 else
            kw["n"] if name == "DirichletDistribution" else
            ctx.pick((1, 2, 3)),
            "init_method": ctx.pick(("kmeans", "random")),
            "tol": ctx.pick((1e-8, 1e-2))})
    return ("fit_gibbs", X.init_kw(ctx, name, 9))


def refit(ctx):
    name, kw = X.mix_config(ctx)
    D = ctx.pick((None, 1, 2, 3))
    more = dict(settings(ctx, D), total_iter=ctx.pick((2, 4)),
                burn_in=ctx.pick((0, 1)), subsample_steps=ctx.pick((1, 2)))
    g = ctx.gen()
    mm = M.make_mix(name, kw, g, **more)
    hist = []
    var_fitted = gibbs_fitted = False
    for _ in range(int(ctx.rng.integers(1, 4))):
        y = datum(ctx, D)
        op = cold(ctx, name, kw)
        getattr(mm, op[0])(y, **op[1])
        gibbs_fitted = gibbs_fitted or op[0] == "fit_gibbs"
        var_fitted = var_fitted or op[0] == "fit_variational" or op[1].get(
            "init_method") == "variational"
        hist.append((op[0], y.shape))
        if ctx.rng.uniform() < .4:
            getattr(mm, op[0])(y, warm_start=True)
            hist.append("warm")
        p = drive.Program.__new__(drive.Program)
        p.ctx, p.name, p.kw, p.y = ctx, name, kw, y
        for _ in range(int(ctx.rng.integers(0, 3))):
            q = p.query(op[0] == "fit_gibbs", op[0] == "fit_variational")
            drive.ask(mm, q)
            hist.append(q[0])
        if ctx.rng.uniform() < .3:
            mm.weight_model.random(3)
            hist.append("weights")
    if ctx.rng.uniform() < .4:
        z = related(ctx, y)
        ctx.count("related")
    else:
        z = datum(ctx, D) * 10.0 ** ctx.pick((-2, 0, 0, 2))
        z = z + ctx.pick((0, 50))
    op = cold(ctx, name, kw)
    ctx.case((name, str(kw), sorted(more), hist, op[0], z.shape,
              float(z[0, 0])))
    h = np.random.default_rng(0)
    new = M.make_mix(name, kw, h, **more)
    h.bit_generator.state = g.bit_generator.state
    p = drive.Program.__new__(drive.Program)
    p.ctx, p.name, p.kw, p.y = ctx, name, kw, z
    for step in range(2):
        ra, rb = p.apply(mm, op), p.apply(new, op)
        ctx.check(drive.same(ra, rb), "refit-differs", engine=op[0],
                  history=hist, step=step)
        for _ in range(3):
            q = p.query(op[0] == "fit_gibbs", op[0] == "fit_variational")
            ctx.check(drive.same(drive.ask(mm, q), drive.ask(new, q)),
                      "refit-answers-differ", call=q[0], history=hist)
        for nm in ("mu_prior", "psi_prior", "nu_prior", "lambda_prior"):
            ctx.check(np.array_equal(getattr(mm, nm), getattr(new, nm)),
                      "refit-prior-differs", prior=nm, history=hist)
        ctx.count("refits:" + op[0])
        if len(set(map(str, hist))) > 1:
            ctx.count("mixed-histories")
        # a warm start continues from the new state only
        op = (op[0], {"warm_start": True})
    if op[0] == "fit_gibbs" and name in M.VAR:
        # then the other engine, cold, on both
        op = ("fit_variational", {"n_groups": kw["n"] if name ==
                                  "DirichletDistribution" else 2,
                                  "init_method": "kmeans"})
        ctx.check(drive.same(p.apply(mm, op), p.apply(new, op)),
                  "refit-differs", engine=op[0], history=hist)
        ctx.count("other-engine-after")


SCALE = 2     # of the quick tier
SCENARIOS = [("refit", refit, 500, 10000)]
REQUIRE = {"refits:fit_gibbs": 400, "refits:fit_variational": 120,
           "mixed-histories": 400, "other-engine-after": 80, "related": 200}

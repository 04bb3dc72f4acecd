"""C32: invalid arguments are refused without side effects."""
import numpy as np
import pandas as pd

from pv import drive
from pv import models as M
from pv import mix as X

RULE = ("invalid constructor arguments of every class; invalid calls injected "
        "at random points of random call sequences, refused, and the rest of "
        "the sequence compared exactly with an untouched twin; every "
        "documented valid value driven to an answer; a case is one class, "
        "sequence and invalid value")
ASSUMPTIONS = []
BAD_RNG = (1.5, "seed", [1, 2], (1,), {"a": 1}, np.random.RandomState(1),
           np.random, object())
BAD_DATA = ("abc", 3, 2.5, None, {1.0, 2.0}, {"a": [1.0]}, object(),
            (1.0, 2.0, 3.0), iter([1.0, 2.0]))
BAD_SIZE = (2.5, "3", [3], 1e9, np.float64(2))


def refuse(ctx, fn, key, **data):
    ok = ctx.raises(Exception, fn, key, **data)
    ctx.count("refused:" + key)
    return ok


def constructors(ctx):
    name = ctx.pick(M.ALL)
    kw = M.config(ctx.rng, name, True)
    ctx.case((name, str(kw), ctx.index))
    for bad in BAD_RNG:
        refuse(ctx, lambda: M.make(name, kw, bad), "rng", value=repr(bad),
               cls=name)
        refuse(ctx, lambda: M.make_mix(name, kw, bad), "rng",
               value=repr(bad), cls=M.MIX[name])
    t = int(ctx.rng.integers(1, 50))
    for b in (t, t + 1, t + 100):
        refuse(ctx, lambda: M.make_mix(name, kw, ctx.gen(), total_iter=t,
                                       burn_in=b), "burn-in", total=t,
               burn_in=b)
    refuse(ctx, lambda: M.make_mix(name, kw, ctx.gen(), total_iter=50),
           "burn-in", total=50, burn_in="default of 100")
    M.make_mix(name, kw, ctx.gen(), total_iter=t, burn_in=t - 1)
    for bad in ("gibbs", "", None, 3, "Static", "inverse_sampling"):
        for mk in (M.make, M.make_mix):
            refuse(ctx, lambda: mk("BetaInBeta", {"p_method": bad},
                                   ctx.gen()), "p-method", value=bad)
    d = ctx.pick((0, .1, .5, .9))
    for a in (-d, -d - .01, -d - 5):
        for mk in (M.make, M.make_mix):
            refuse(ctx, lambda: mk("PitmanYorProcess", {
                "pyd": d, "alpha": a}, ctx.gen()), "pitman-yor", pyd=d,
                alpha=a)
    for n in (2.5, "2", None, 3.0):
        for mk in (M.make, M.make_mix):
            refuse(ctx, lambda: mk("DirichletDistribution", {"n": n},
                                   ctx.gen()), "non-integer-n", n=n)
    ctx.count("constructors")


def bad_mixture_call(ctx, mm, p, g, v):
    """One invalid call: (name, thunk)"""
    y = p.y
    warm = g and ctx.rng.uniform() < .5
    vwarm = v and ctx.rng.uniform() < .5
    bad = ctx.pick(BAD_DATA)
    calls = [
        ("data", lambda: mm.fit_gibbs(bad, warm_start=warm)),
        ("data", lambda: mm.fit_variational(
            bad, n_groups=p.kw.get("n", 2) if p.name in M.FIN else 2,
            warm_start=vwarm)) if p.name in M.VAR else None,
        ("init-method", lambda: mm.fit_gibbs(y + 3, init_method=ctx.pick(
            ("k-means", "", None, "map", 2)))),
        ("init-method", lambda: mm.fit_variational(
            y + 3, n_groups=p.kw.get("n", 2) if p.name in M.FIN else 2,
            init_method=ctx.pick(("variational", "", None, 1)))) if
        p.name in M.VAR else None,
        ("no-groups", lambda: mm.fit_variational(y + 3)) if
        p.name in M.VAR and p.name not in M.FIN else None,
        ("incompatible-groups", lambda: mm.fit_variational(
            y + 3, n_groups=p.kw["n"] + int(ctx.pick((1, 4))),
            init_method=ctx.pick(("kmeans", "random")))) if
        p.name == "DirichletDistribution" else None]
    if g:
        q = ctx.pick(("gibbs_eap_density", "gibbs_map_density",
                      "gibbs_map_cluster", "gibbs_eap_affinity_matrix"))
        b2 = ctx.pick([b for b in BAD_DATA if b is not None and not
                       isinstance(b, (int, float))])
        calls.append(("query-data", lambda: getattr(mm, q)(b2)))
    if v:
        q2 = ctx.pick(("var_eap_density", "var_map_density",
                       "var_map_cluster", "var_eap_affinity_matrix"))
        b3 = ctx.pick([b for b in BAD_DATA if b is not None and not
                       isinstance(b, (int, float))])
        calls.append(("query-data", lambda: getattr(mm, q2)(b3)))
    return ctx.pick([c for c in calls if c])


def mixtures(ctx):
    p = drive.Program(ctx, steps=ctx.pick((2, 4, 5)))
    s = int(ctx.rng.integers(2 ** 40))
    a, b = (p.make(np.random.default_rng(s)) for _ in range(2))
    ctx.case((p.desc(), s))
    g = v = False
    done = []
    for op in p.ops + [None]:
        for _ in range(int(ctx.rng.integers(0, 3))):
            key, fn = bad_mixture_call(ctx, a, p, g, v)
            refuse(ctx, fn, key, cls=p.name, fitted=[g, v])
            done.append(key)
        if op is None:
            op = ("fit_gibbs", {"warm_start": True}) if g else (
                "fit_variational", {"warm_start": True})
        ra, rb = p.apply(a, op), p.apply(b, op)
        ctx.check(drive.same(ra, rb), "refused-call-changed-object",
                  refused=done[-4:], call=op[0], args=sorted(op[1]))
        if done:
            ctx.count("compared-after-refusal")
        g = g or op[0] == "fit_gibbs"
        v = v or op[0] == "fit_variational" or op[1].get(
            "init_method") == "variational"


def bad_weight_call(ctx, wm, p, fitted):
    size = ctx.pick(BAD_SIZE)
    x = ctx.pick((1, 1.0, 1.5, -.01, -3, 10, np.inf))
    calls = [("size", lambda: wm.complete(size)),
             ("tail", lambda: wm.tail(x))]
    if p.name in M.INF:
        calls.append(("size", lambda: wm.random(size)))
        if not fitted:
            calls.append(("random-without-size", lambda: wm.random()))
    if p.name == "DirichletDistribution":
        r = np.ones((p.kw["n"] + int(ctx.pick((1, 3))), 4))
        calls.append(("responsibilities", lambda: wm.fit_variational(
            r / len(r))))
        if p.kw["n"] > 1:
            calls.append(("responsibilities", lambda: wm.fit_variational(
                np.ones((p.kw["n"] - 1, 4)) / max(1, p.kw["n"] - 1))))
    return ctx.pick(calls)


def weights(ctx):
    p = drive.WeightProgram(ctx, steps=ctx.pick((4, 8)))
    s = int(ctx.rng.integers(2 ** 40))
    a, b = (p.make(np.random.default_rng(s)) for _ in range(2))
    ctx.case((p.desc(), s))
    fitted, K, done = False, 0, []
    for op in [None] + p.ops:
        for _ in range(int(ctx.rng.integers(0, 3))):
            key, fn = bad_weight_call(ctx, a, p, fitted)
            held = drive.plain(a.get_weights())
            refuse(ctx, fn, key, cls=p.name, fitted=fitted)
            ctx.check(drive.same(held, drive.plain(a.get_weights())),
                      "refused-call-changed-weights", refused=key)
            done.append(key)
        if op is None:
            continue
        ra, rb = p.apply(a, op), p.apply(b, op)
        ctx.check(drive.same(ra, rb), "refused-call-changed-weighting",
                  refused=done[-4:], call=op[0])
        if done:
            ctx.count("compared-after-refusal")
        if op[0] == "fit":
            fitted = True
        elif op[0] == "reset":
            fitted = False
        elif op[0] == "fit_variational":
            K = len(op[1][0])
        if K:
            ctx.check(drive.same(*[[drive.plain(
                m.variational_mean_w_j(j)) for j in range(K)]
                for m in (a, b)]), "refused-call-changed-variational")


def incompatible(ctx):
    """Labels that a Dirichlet distribution does not have"""
    n = int(ctx.rng.integers(1, 5))
    s = int(ctx.rng.integers(2 ** 40))
    kw = {"n": n, "alpha": ctx.pick((1, .5, 2.5))}
    a, b = (M.make("DirichletDistribution", kw, np.random.default_rng(s))
            for _ in range(2))
    d = ctx.rng.integers(n, size=6)
    bad = np.append(d, n + int(ctx.pick((0, 3))))
    ctx.case((n, bad.tolist(), s))
    for wm in (a, b):
        wm.fit(d)
    if ctx.rng.uniform() < .5:
        for wm in (a, b):
            wm.random()

    def use():
        a.fit(bad)
        return a.random()
    refuse(ctx, use, "labels", n=n, labels=bad)
    a.fit(d)
    ctx.check(np.array_equal(a.random(), b.random()),
              "refused-labels-changed-weighting", n=n)


def valid(ctx):
    """Every documented valid value works"""
    name = ctx.pick(M.ALL)
    kw = M.config(ctx.rng, name, True)
    if name in ("GeometricProcess", "BetaInBeta"):
        kw["a"] = max(1, kw["a"])
    if name == "PitmanYorProcess":
        kw["alpha"] = max(.5, kw["alpha"])
    if name == "BetaInBeta":
        kw["p_method"] = ctx.pick(("static", "independent", "geometric",
                                   "rejection-sampling", "max-likelihood",
                                   "inverse-sampling"))
        ctx.count("p-method:" + kw["p_method"])
    y, pk, _ = X.problem(ctx, n=ctx.pick((3, 6)))
    rng = ctx.pick((None, 0, 7, 2 ** 33, np.random.default_rng(3)))
    ints = ctx.pick((int, np.int64, np.int32))
    total = int(ctx.pick((1, 3)))
    more = dict(pk, total_iter=ints(total), burn_in=ints(total - 1),
                subsample_steps=ints(ctx.pick((1, 2, 5))),
                show_progress=bool(ctx.rng.integers(2)))
    ctx.case((name, str(kw), str(rng), total, y.shape, float(y[0, 0])))
    mm = M.make_mix(name, kw, rng, **more)
    with drive.quiet():
        init = X.init_kw(ctx, name, len(y))
        ctx.count("init:" + init["init_method"])
        mm.fit_gibbs(y, show_progress=ctx.pick((None, True, False)), **init)
        mm.fit_gibbs(y, warm_start=True)
        if name in M.VAR:
            mm.fit_variational(
                y, n_groups=None if name in M.FIN else ctx.pick((1, 2, 9)),
                tol=ctx.pick((0, 1e-8, 10)), init_method=ctx.pick(
                    ("kmeans", "random")),
                show_progress=ctx.pick((None, True, False)))
            mm.fit_variational(y, warm_start=True)
            ctx.check(np.all(np.isfinite(mm.var_eap_density())) and
                      np.all(np.isfinite(mm.var_eap_affinity_matrix())),
                      "valid-variational")
    ctx.check(np.all(np.isfinite(mm.gibbs_eap_density(y))) and
              np.all(np.isfinite(mm.gibbs_map_density(y))) and
              np.all(np.isfinite(mm.gibbs_eap_affinity_matrix(y))),
              "valid-gibbs", cls=name)
    ctx.check(len(mm.gibbs_map_cluster(y)) == len(y), "valid-gibbs")
    # weighting model
    wm = M.make(name, kw, rng)
    for size in (ints(3), 1):
        w = wm.random(size)
        ctx.check(np.all(np.isfinite(w)), "valid-size", cls=name)
        w = wm.complete(ints(size + 2))
        ctx.check(np.all(np.isfinite(w)), "valid-size", cls=name)
        w = wm.tail(ctx.pick((0, 0.0, .5, np.float64(.8))))
        ctx.check(np.all(np.isfinite(w)), "valid-tail", cls=name)
    ctx.count("valid")


SCALE = 2.5     # of the quick tier
SCENARIOS = [("constructors", constructors, 40, 400),
             ("mixtures", mixtures, 350, 6000),
             ("weights", weights, 400, 8000),
             ("incompatible", incompatible, 60, 1000),
             ("valid", valid, 300, 6000)]
REQUIRE = {"compared-after-refusal": 1500, "valid": 290, "refused:labels": 60,
           "refused:data": 50, "refused:init-method": 80,
           "refused:no-groups": 10, "refused:size": 200, "refused:tail": 150,
           "refused:responsibilities": 20, "refused:random-without-size": 30,
           "refused:query-data": 40, "refused:incompatible-groups": 5,
           "refused:rng": 400, "refused:burn-in": 100, "refused:p-method":
           400, "refused:pitman-yor": 200}

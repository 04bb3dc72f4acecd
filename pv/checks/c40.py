"""C40: fitting and querying never fail on valid data, however awkward."""
import numpy as np
from pv import models as M
from pv import mix as X
from pv.checks.c13 import audit

RULE = ("awkward but valid data (one observation, fewer observations than "
        "features, all equal, repeated, collinear, constant features, a far "
        "outlier, groups up to 1e5 deviations apart, features in very different "
        "units, a tiny spread around a large value) under priors in the units "
        "of the data, for every model, engine, initialization and awkward "
        "parameter; every state, factor and answer is audited; a case is one "
        "model, data set and sequence of fits")
ASSUMPTIONS = ["explicit prior scale matrices have the order of magnitude of "
               "the units of the data, feature by feature"]

KINDS = ("single", "few", "equal", "repeated", "collinear", "constant",
         "outlier", "far-groups", "units", "offset", "integers", "plain")


def awkward(ctx, kind=None, D=None):
    """Observations and the units of the features"""
    rng = ctx.rng
    kind = kind or ctx.pick(KINDS)
    D = int(ctx.pick((1, 1, 2, 3, 6))) if D is None else D
    n = int(ctx.pick((2, 4, 9, 20, 60)))
    if kind == "few":
        D = max(D, 2)
        n = int(rng.integers(1, D))
    if kind == "single":
        n = 1
    unit = np.ones(D)
    y = rng.normal(size=(n, D))
    if kind == "equal":
        y[:] = y[0]
    elif kind == "repeated":
        y = y[rng.integers(min(n, 2), size=n)]
    elif kind == "collinear":
        y = np.outer(y[:, 0], rng.normal(size=D)) + 1
    elif kind == "constant":
        y[:, 0] = 3
    elif kind == "outlier":
        y[0] += ctx.pick((1e3, 1e4, 1e5)) * rng.choice([-1, 1], size=D)
    elif kind == "far-groups":
        y += rng.integers(2, size=(n, 1)) * ctx.pick((1e3, 1e4, 1e5))
    elif kind == "units":
        unit = 10.0 ** rng.integers(-12, 13, size=D)
    elif kind == "offset":
        y = y + ctx.pick((1e3, 1e6, -1e8, 1e8))
    elif kind == "integers":
        y = np.round(y * 2)
    return y * unit, unit, kind


def prior(ctx, y, unit):
    """Constructor arguments; the sample values are left to be deduced only
    when they are proper"""
    n, D = y.shape
    rng = ctx.rng
    kw = {"psi_prior": X.spd(rng, D) * np.outer(unit, unit) *
          ctx.pick((1, 1, .01, 100)),
          "nu_prior": float(ctx.pick((D, D + .5, D + 3, D - .5)))}
    if rng.uniform() < .7:
        kw["lambda_prior"] = float(ctx.pick((1, .1, 1e-4, 1e3)))
    if rng.uniform() < .6:
        kw["mu_prior"] = y[0] + unit * rng.normal(size=D) * ctx.pick((0, 1, 30))
    z = y / unit
    if n > D + 1 and rng.uniform() < .3:
        c = np.atleast_2d(np.cov(z.T))
        if np.abs(z - z.mean(0)).max() < 100 and np.all(np.diag(c) > .01) and \
                X.well_conditioned(c, 1e4) and np.abs(z).max() < 1e4:
            del kw["psi_prior"]
            if rng.uniform() < .5:
                kw["nu_prior"] = float(D)
    return kw


def config(ctx, names=None):
    name, kw = X.mix_config(ctx, names)
    if ctx.rng.uniform() < .3:
        if "alpha" in kw and np.ndim(kw["alpha"]) == 0 and \
                name not in ("PitmanYorProcess",):
            kw["alpha"] = float(ctx.pick((.02, .2, 8)))
        if name in M.FIN:
            kw["n"] = int(ctx.pick((1, 12, 30)))
            if np.ndim(kw.get("alpha", 0)):
                kw["alpha"] = .5
    return name, kw


def points(ctx, y, unit):
    D = y.shape[1]
    q = [y[ctx.rng.integers(len(y), size=2)],
         y[:1] + unit * ctx.rng.normal(size=(2, D)),
         y[:1] + unit * ctx.pick((30, 1e4, 1e9)) * ctx.rng.normal(size=(2, D))]
    q = np.concatenate(q)
    return q[:int(ctx.pick((1, 4, 6)))]


def answers(ctx, f, y, q, unit, pre):
    """Density, clustering and affinity answers are valid"""
    D = y.shape[1]
    for x in (None, q):
        n = len(y if x is None else x)
        for nm in f["density"]:
            v = f["density"][nm](x)
            ctx.check(v.shape == (n,) and np.all(np.isfinite(v)) and
                      np.all(v >= 0), pre + nm, v=v)
        if D > 1:
            k = int(ctx.rng.integers(D))
            for nm in f["density"]:
                v = f["density"][nm](x, dim=k)
                ctx.check(v.shape == (n,) and np.all(np.isfinite(v)) and
                          np.all(v >= 0), pre + nm + "-marginal", v=v)
        d, u = f["cluster"](x, full=True)
        ctx.check(d.shape == (n,) and d.min() >= 0 and d.dtype.kind in "iu"
                  and np.all(np.isfinite(u)) and u.min() >= -1e-12 and
                  u.max() < 1, pre + "clusters", d=d, u=u)
        ctx.check(np.array_equal(f["cluster"](x), d), pre + "labels-only")
        A = f["affinity"](x)
        ctx.check(A.shape == (n, n) and np.all(np.isfinite(A)) and
                  A.min() >= -1e-12 and A.max() <= 1 + 1e-9 and
                  np.allclose(A, A.T), pre + "affinity")
    ctx.count(pre + "answers")


def gibbs(ctx):
    name, kw = config(ctx)
    total = int(ctx.pick((2, 6, 15)))
    y, unit, kind = awkward(ctx)
    pk = prior(ctx, y, unit)
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=total, burn_in=0, **pk)
    plan = []
    for i in range(int(ctx.pick((1, 2, 3)))):
        warm = i > 0 and ctx.rng.uniform() < .6
        init = {} if warm else X.init_kw(ctx, name, len(y))
        if not warm and init["init_groups"] and ctx.rng.uniform() < .2 and \
                name not in M.FIN:
            init["init_groups"] = int(ctx.pick((7, 25)))
        plan.append((warm, str(init)))
        ctx.case((name, str(kw), kind, y.tolist(), sorted(pk), str(plan)))
        mm.fit_gibbs(y, warm_start=warm, **init)
        for s in mm.get_sim_params():
            audit(ctx, s, y)
        ctx.check(np.isfinite(mm.map_log_likelihood), "map-finite",
                  v=mm.map_log_likelihood)
        answers(ctx, {"density": {"gibbs_eap_density": mm.gibbs_eap_density,
                                  "gibbs_map_density": mm.gibbs_map_density},
                      "cluster": mm.gibbs_map_cluster,
                      "affinity": mm.gibbs_eap_affinity_matrix},
                y, points(ctx, y, unit), unit, "")
        ctx.count("gibbs:" + kind)


def variational(ctx):
    name, kw = config(ctx, M.VAR)
    y, unit, kind = awkward(ctx)
    pk = prior(ctx, y, unit)
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=int(ctx.pick((1, 5, 60))),
                    burn_in=0, **pk)
    K = None if name in M.FIN else int(ctx.pick((1, 2, 5, 25)))
    plan = []
    for i in range(int(ctx.pick((1, 2)))):
        warm = i > 0 and ctx.rng.uniform() < .5
        init = {} if warm else {
            "n_groups": K, "init_method": ctx.pick(("kmeans", "random"))}
        plan.append((warm, str(init)))
        ctx.case((name, str(kw), kind, y.tolist(), sorted(pk), str(plan)))
        mm.fit_variational(y, warm_start=warm, **init)
        r, theta = X.factors(mm)
        ctx.check(np.all(np.isfinite(r)) and np.all(r >= 0) and
                  np.allclose(r.sum(0), 1), "responsibilities", r=r)
        for t in theta:
            s = np.outer(unit, unit)
            W = t[2] * s
            ctx.check(np.all(np.isfinite(t[0])) and t[1] > 0 and
                      np.all(np.isfinite(W)) and np.allclose(
                          W, W.T, rtol=1e-4, atol=1e-4 * np.abs(W).max()) and
                      np.all(np.diag(W) > 0), "factors", W=W, m=t[0])
        dens = {"var_eap_density": mm.var_eap_density}
        wref = M.VarRef(name, kw, r)
        if all(wref.mode(j) is not None for j in range(len(r))) and \
                min(t[3] for t in theta) > y.shape[1] + 1e-6:
            dens["var_map_density"] = mm.var_map_density
        answers(ctx, {"density": dens, "cluster": mm.var_map_cluster,
                      "affinity": mm.var_eap_affinity_matrix},
                y, points(ctx, y, unit), unit, "var-")
        ctx.count("var:" + kind)


SCENARIOS = [("gibbs", gibbs, 700, 8000), ("variational", variational, 500,
                                           6000)]
REQUIRE = {"answers": 600, "var-answers": 400}

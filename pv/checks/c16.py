"""C16: densities restricted to some dimensions are true marginals."""
import numpy as np
from itertools import permutations
from pv import models as M
from pv import mix as X

RULE = ("Gibbs and variational densities restricted to every subset and "
        "order of the dimensions, against the marginals recomputed from the "
        "fitted parameters and against numerical integration of the library's "
        "own full density; a case is one fitted model")
ASSUMPTIONS = ["a query for a marginal holds either one column per listed "
               "dimension, in that order, or all the features",
               "numerical integration is limited to 2 features"]
TOL = dict(rtol=1e-5, atol=1e-290)


def subsets(ctx, D):
    out = [p for r in range(1, D + 1) for p in permutations(range(D), r)]
    ctx.rng.shuffle(out)
    return [tuple(int(i) for i in p) for p in out[:5]] + [tuple(range(D))]


def forms(ctx, dims):
    """Equivalent ways of writing the dimensions"""
    out = [list(dims), np.array(dims), tuple(dims),
           np.array(dims, dtype=np.int32)]
    if len(dims) == 1:
        j = dims[0]
        out += [j, np.int64(j), np.int16(j), np.array(j)]
    i = int(ctx.rng.integers(len(out)))
    return [out[0], out[i], out[-1]]


def judge(ctx, f, ref, y, tag, ks, err=None):
    """f(y, dim=, component=) against ref(q, dims, component)"""
    def same(got, q, dims, c, key, **data):
        ctx.close(got, ref(q, dims, c), key + ":" + tag, 1e-5, 1e-290 + (
            0 if err is None else err(q, dims, c)), dims=dims, **data)
    n, D = y.shape
    full = X.queries(ctx, y, 6)
    base = np.asarray(f(full))
    ctx.check(np.all(base >= 0), "non-negative:" + tag)
    ctx.close(f(full, dim=list(range(D))), base, "all-dims:" + tag, **TOL)
    for dims in subsets(ctx, D):
        q = full[:, list(dims)]
        got = None
        for form in forms(ctx, dims):
            g = np.asarray(f(q, dim=form))
            same(g, q, dims, None, "marginal", form=repr(form))
            ctx.check(np.all(g >= 0), "non-negative:" + tag)
            got = g if got is None else got
            ctx.close(g, got, "same-for-all-forms:" + tag, 1e-12, 0)
            ctx.count("restrictions")
        if len(dims) < D:
            # all the features given: the listed columns are used
            same(f(full, dim=list(dims)), q, dims, None, "columns")
        same(f(None, dim=list(dims)), y[:, list(dims)], dims, None,
             "fitted-data")
        if len(dims) == 1:
            same(f(q[:, 0], dim=dims[0]), q, dims, None, "flat")
            same(f(q[:1], dim=dims[0]), q[:1], dims, None, "single")
        tot = 0
        for c in range(ks):
            g = np.asarray(f(q, dim=list(dims), component=c))
            tot = tot + g
            if c < 3:
                same(g, q, dims, c, "component")
        ctx.close(tot, got, "components-add-up:" + tag, 1e-6, 1e-290)


def gibbs(ctx):
    mm, y, par = X.fitted(ctx, M.ALL, D=ctx.pick((1, 2, 2, 3)),
                          total=ctx.pick((1, 3)), burn=0, sub=1)
    states = mm.get_sim_params()
    k = max(len(s["w"]) for s in states + [mm.map_sim_params])
    if k > 80:
        ctx.count("skipped-large")
        return
    judge(ctx, mm.gibbs_map_density,
          lambda q, d, c: X.density(mm.map_sim_params, q, d, c), y,
          "gibbs-map", k)
    judge(ctx, mm.gibbs_eap_density, lambda q, d, c: np.mean(
        [X.density(s, q, d, c) for s in states], axis=0), y, "gibbs-eap", k)
    ctx.count("gibbs")


def variational(ctx):
    name, kw = X.mix_config(ctx, M.VAR)
    y, pk, par = X.problem(ctx, D=ctx.pick((1, 2, 2, 3)))
    D = y.shape[1]
    if par[3] <= D - 1 + .5 and len(y) < 3:
        return
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=ctx.pick((1, 5, 50)),
                    burn_in=0, **pk)
    K = None if name in M.FIN else ctx.pick((1, 2, 3))
    mm.fit_variational(y, n_groups=K,
                       init_method=ctx.pick(("kmeans", "random")))
    K = len(mm.var_theta)
    ctx.case((name, str(kw), y.shape, K, float(y[0, 0])))
    wref = M.VarRef(name, kw, mm.var_d)
    mean = wref.mean()
    judge(ctx, mm.var_eap_density, lambda q, d, c: X.t_density(
        q, mm.var_theta, mean, d, c), y, "var-eap", K)
    mode = [wref.mode(j) for j in range(K)]
    ctx.count("variational")
    if None in mode:
        ctx.count("no-mode")
        return
    if min(t[3] for t in mm.var_theta) <= D + 1e-6:
        # no mode of the precision
        ctx.count("no-mode")
        return
    judge(ctx, mm.var_map_density, lambda q, d, c: X.mode_density(
        q, mm.var_theta, mode, d, c), y, "var-map", K,
        lambda q, d, c: X.mode_density(q, mm.var_theta, X.mode_tol(mode), d,
                                       c))
    ctx.count("variational-map")


def integrals(ctx):
    """The library's own densities, integrated numerically"""
    D = ctx.pick((1, 2))
    n = 12
    y = ctx.rng.normal(size=(n, D)) * ctx.pick((.5, 3)) + ctx.pick((0, 20))
    v = float(y.var())
    pk = {"mu_prior": y.mean(0), "psi_prior": np.eye(D) * v * 6,
          "nu_prior": D + 8.0, "lambda_prior": 1.0}
    name, kw = X.mix_config(ctx, ("DirichletProcess", "DirichletDistribution",
                                  "EqualWeighting", "PitmanYorProcess"))
    if "n" in kw:
        kw = dict(kw, n=2)
        if np.ndim(kw.get("alpha", 1)):
            kw["alpha"] = (1.0, 2.0)
    ctx.case((name, str(kw), y.tolist(), "integrals"))
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=3, burn_in=0, **pk)
    mm.fit_gibbs(y, init_method="random", init_groups=2)
    mm.fit_variational(y, n_groups=2)
    m = 501 if D == 2 else 4001
    c, s = y.mean(0), np.sqrt(v)
    x0, w0 = X.tan_grid(c[0], s, m)
    fs = {"gibbs-eap": (mm.gibbs_eap_density, np.mean(
        [np.sum(t["w"]) for t in mm.sim_params])),
        "gibbs-map": (mm.gibbs_map_density, np.sum(mm.map_sim_params["w"])),
        "var-eap": (mm.var_eap_density, 1.0), "var-map": (
            mm.var_map_density, None)}
    if None in [M.VarRef(name, kw, mm.var_d).mode(j) for j in range(2)]:
        del fs["var-map"]
    for tag, (f, total) in fs.items():
        if D == 1:
            if total is not None:
                ctx.close((w0 * f(x0)).sum(), total, "integral:" + tag, 2e-3)
                ctx.count("integrals")
            continue
        x1, w1 = X.tan_grid(c[1], s, m)
        for j in (0, 1):
            # integrate the full density over the other dimension
            at = y[:4, j]
            xo, wo = (x1, w1) if j == 0 else (x0, w0)
            got = np.asarray(f(at, dim=j))
            for i, a in enumerate(at):
                q = np.empty((m, 2))
                q[:, j], q[:, 1 - j] = a, xo
                ctx.close(got[i], (wo * f(q)).sum(),
                          "marginal-integral:" + tag, 2e-3, j=j)
                ctx.count("integrals")
            if total is not None:
                xj, wj = (x0, w0) if j == 0 else (x1, w1)
                ctx.close((wj * f(xj, dim=j)).sum(), total,
                          "integral:" + tag, 2e-3)
                ctx.count("integrals")


SCALE = 5     # of the quick tier
SCENARIOS = [("gibbs", gibbs, 100, 2000), ("variational", variational, 120,
                                           2500),
             ("integrals", integrals, 40, 600)]
REQUIRE = {"gibbs": 60, "variational": 100, "variational-map": 60,
           "restrictions": 2000, "integrals": 300}

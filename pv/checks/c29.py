"""C29: prior parameters mean what is documented."""
import contextlib
import io

import numpy as np
from scipy import stats

from pv import drive
from pv import models as M
from pv import mix as X

RULE = ("one-component mixtures fitted with every combination of given and "
        "omitted prior parameters, in every accepted form, and refitted on "
        "other data: sampled component parameters against the implied "
        "normal-inverse-Wishart posterior, variational factors against its "
        "parameters; weights drawn from the weighting model of every mixture "
        "class against the law of the parameters given to the mixture; a "
        "case is one class, data set and combination")
ASSUMPTIONS = ["the covariance of the data is non-singular where it is used "
               "as prior scale matrix"]
ONE = ("EqualWeighting", "DirichletDistribution", "FrequencyWeighting")


def forms(ctx, pk, D):
    """The same priors in another accepted form"""
    out = {}
    for k, v in pk.items():
        if k == "mu_prior":
            v = np.array(v, float)
            f = ctx.pick(("array", "list", "tuple") + (
                ("scalar", "np-scalar") if D == 1 else ()))
            v = {"array": v, "list": v.tolist(), "tuple": tuple(v.tolist()),
                 "scalar": float(v[0]), "np-scalar": np.float64(v[0])}[f]
        elif k == "psi_prior":
            v = np.array(v, float)
            f = ctx.pick(("array", "list", "matrix", "fortran") + (
                ("scalar", "vector") if D == 1 else ()))
            v = {"array": v, "list": v.tolist(), "matrix": np.matrix(v),
                 "fortran": np.asfortranarray(v),
                 "scalar": float(v[0, 0]), "vector": v[0]}[f]
        elif float(v) == int(v) and ctx.rng.uniform() < .5:
            f, v = "int", int(v)
        else:
            f = "float"
        ctx.count("form:%s:%s" % (k, f))
        out[k] = v
    return out


def given(pk):
    return tuple(sorted(pk))


def one(ctx, gibbs):
    name = ctx.pick(ONE[:2] if gibbs else ONE)
    y, pk, par = X.problem(ctx, n=ctx.pick((2, 4, 7, 20)))
    D = y.shape[1]
    kw = {"n": 1}
    if name == "DirichletDistribution":
        kw["alpha"] = ctx.pick((1, .5, 3))
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=12 if gibbs else 3,
                    burn_in=0, **forms(ctx, pk, D))
    datasets = [(y, par)]
    if ctx.rng.uniform() < .5:
        # explicit values stay, omitted ones follow the new data
        for _ in range(20):
            z = X.data(ctx.rng, D)
            c = np.atleast_2d(np.cov(z.T))
            if len(z) > D and np.all(z.std(0) > 1e-6 * np.abs(z).max(
                    )) and X.well_conditioned(
                    c):
                break
        else:
            z = None
        if z is not None:
            datasets.append((z, X.effective(pk, z)))
            ctx.count("refits")
    ctx.case((name, gibbs, given(pk), y.shape, float(y[0, 0])))
    ctx.count("given:%d" % len(pk))
    ctx.group({"lambda": par[1]}, *pk)
    for data, prior in datasets:
        want = X.niw_posterior(data, *prior)
        if gibbs:
            init = ctx.pick(("kmeans", "random", "variational"))
            mm.fit_gibbs(data, init_method=init)
            for s in mm.get_sim_params():
                if not ctx.check(len(s["w"]) == 1 and abs(
                        s["w"][0] - 1) < 1e-12, "one-component", w=s["w"]):
                    continue
                X.niw_pits(ctx, "one-component", s["theta"][0][0],
                           s["theta"][0][1], want)
                ctx.count("draws")
        else:
            mm.fit_variational(data, n_groups=1, init_method=ctx.pick(
                ("kmeans", "random")))
            m, l, psi, nu = want
            X.theta_close(ctx, mm.var_theta, [(m, l, np.linalg.inv(psi), nu)],
                          "factor")
            ctx.count("factors")
        # what the object reports
        ctx.close(np.ravel(mm.mu_prior), prior[0], "mu", 1e-12, 1e-14)
        ctx.close(mm.lambda_prior, prior[1], "lambda", 0, 0)
        ctx.close(np.array(mm.psi_prior), prior[2], "psi", 1e-9, 1e-14 *
                  np.abs(prior[2]).max())
        ctx.close(mm.nu_prior, prior[3], "nu", 0, 0)


def gibbs(ctx):
    one(ctx, True)


def variational(ctx):
    one(ctx, False)


def populous(ctx):
    """Components of many observations, over many draws"""
    y, pk, par = X.problem(ctx, n=ctx.pick((30, 50, 120, 400)),
                           kind=ctx.pick(("blobs", "one")))
    D = y.shape[1]
    mm = M.make_mix("EqualWeighting", {"n": 1}, ctx.gen(), total_iter=200,
                    burn_in=0, **forms(ctx, pk, D))
    ctx.case(("populous", given(pk), y.shape, float(y[0, 0])))
    ctx.group({}, "n=%d" % len(y))
    want = X.niw_posterior(y, *par)
    mm.fit_gibbs(y, init_groups=1)
    for s in mm.get_sim_params():
        X.niw_pits(ctx, "populous", s["theta"][0][0], s["theta"][0][1], want)
        ctx.count("populous")


def empty(ctx):
    """A component without observations holds a draw of the prior"""
    y, pk, par = X.problem(ctx, n=2)
    D = y.shape[1]
    mm = M.make_mix("EqualWeighting", {"n": 8}, ctx.gen(), total_iter=1,
                    burn_in=0, **forms(ctx, pk, D))
    ctx.case(("empty", given(pk), y.shape, float(y[0, 0])))
    init = ctx.pick((1, 2))
    mm.fit_gibbs(y, init_groups=init, init_method="kmeans")
    s = mm.get_sim_params()[-1]
    # two observations occupy at most two components, before and after
    th = s["theta"]
    if not ctx.check(len(s["w"]) == 8, "weights-number", w=s["w"]):
        return
    for j in range(4, 8):
        # k-means labels are below 2 after the initial clustering into at
        # most 8 groups of 2 distinct points
        X.niw_pits(ctx, "prior", th[j][0], th[j][1], par)
        ctx.count("prior-draws")


def weights(ctx):
    """Parameters of the weighting model given to the mixture"""
    name = ctx.pick(M.ALL)
    kw = M.config(ctx.rng, name, True)
    wm = M.make_mix(name, kw, ctx.gen()).weight_model
    ctx.case((name, str(kw), float(ctx.rng.uniform())))
    w = wm.random(int(ctx.rng.integers(2, 8)))
    M.prior_pits(ctx, "weights:" + name, name, kw, w)
    ctx.count("weights:" + name)
    if name in M.FIN:
        ctx.check(wm.get_size() == kw["n"], "weights-number", got=len(w),
                  n=kw["n"])


def p_method(ctx):
    """The p sampling method reaches Beta-in-Beta"""
    kw = {"x": ctx.pick((.3, .6)), "alpha": ctx.pick((1, 2)),
          "a": ctx.pick((1, 2)), "b": ctx.pick((1, 3)),
          "p_method": ctx.pick(("static", "independent", "geometric"))}
    wm = M.make_mix("BetaInBeta", kw, ctx.gen()).weight_model
    ctx.case((str(kw), float(ctx.rng.uniform())))
    d = M.labels(ctx.rng, 5, 20)
    wm.random(4)
    p0 = wm.p
    wm.fit(d)
    wm.random()
    how = kw["p_method"]
    if how == "static":
        ctx.check(wm.p == p0, "p-static", before=p0, after=wm.p)
    elif how == "independent":
        ctx.pit("p:independent", stats.beta.cdf(wm.p, kw["a"], kw["b"]))
    else:
        ctx.pit("p:geometric", stats.beta.cdf(
            wm.p, kw["a"] + len(d), kw["b"] + d.sum()))
    ctx.count("p-method:" + how)


DEFAULTS = {
    "DirichletProcess": {"alpha": 1}, "EqualWeighting": {"n": 1},
    "PitmanYorProcess": {"alpha": 1, "pyd": 0},
    "GeometricProcess": {"a": 1, "b": 1}, "FrequencyWeighting": {"n": 1},
    "BetaInBeta": {"x": 0, "alpha": 1, "a": 1, "b": 1,
                   "p_method": "geometric"},
    "BetaInDirichlet": {"alpha": 1, "a": 0},
    "BetaBernoulli": {"p": 1, "alpha": 1},
    "BetaBinomial": {"n": 0, "alpha": 1},
    "DirichletDistribution": {"n": 1, "alpha": 1}}
RUN = {"lambda_prior": 1, "total_iter": 1000, "burn_in": 100,
       "subsample_steps": 1, "show_progress": False}


def omit(ctx, kw, dflt):
    """Some parameters left out, and the same with their defaults"""
    out = {k: v for k, v in kw.items() if ctx.rng.uniform() < .5}
    for k in dflt:
        if k not in out:
            ctx.count("omitted:" + k)
    return out, {**dflt, **out}


def twins(ctx):
    s = ctx.gen().bit_generator.state
    pair = np.random.default_rng(0), np.random.default_rng(0)
    for g in pair:
        g.bit_generator.state = s
    return pair


def default_weights(ctx):
    """Weighting parameters left out"""
    name = ctx.pick(M.ALL)
    few, full = omit(ctx, M.config(ctx.rng, name, True), DEFAULTS[name])
    if np.ndim(full.get("alpha", 0)) and len(full["alpha"]) != full["n"]:
        few["n"] = full["n"] = len(full["alpha"])
    if full.get("pyd") == 0 and full["alpha"] <= 0:
        few["alpha"] = full["alpha"] = 2
    mixture = ctx.rng.uniform() < .5
    mk = (lambda kw, g: M.make_mix(name, kw, g).weight_model) if mixture \
        else (lambda kw, g: M.make(name, kw, g))
    a, b = (mk(kw, g) for kw, g in zip((few, full), twins(ctx)))
    ctx.case((name, str(few), mixture))
    k = int(ctx.rng.integers(1, 7))
    d = M.labels(ctx.rng, full["n"] if name in M.FIN else 4, 8)
    for what in ("random", "fit", "random", "complete"):
        if what == "fit":
            for m in (a, b):
                m.fit(d)
            continue
        u, v = (np.array(getattr(m, what)(k)) for m in (a, b))
        ctx.check(drive.same(u, v), "omitted-weighting-parameter", left=few,
                  default=full, what=what, got=u, want=v)
    if name in M.VAR:
        r = ctx.rng.dirichlet(np.ones(full.get("n", 3)), 5).T
        for m in (a, b):
            m.fit_variational(r)
        for nm in ("variational_mean_w_j", "variational_mean_log_w_j"):
            u, v = ([float(getattr(m, nm)(j)) for j in range(len(r))]
                    for m in (a, b))
            ctx.check(drive.same(u, v), "omitted-weighting-parameter",
                      left=few, default=full, what=nm, got=u, want=v)
        for nm in ("variational_mean_log_p_d__w", "variational_mean_log_p_w",
                   "variational_mean_log_q_w"):
            u, v = (drive.plain(getattr(m, nm)()) for m in (a, b))
            ctx.check(drive.same(u, v), "omitted-weighting-parameter",
                      left=few, default=full, what=nm, got=u, want=v)
    ctx.count("default-weights")


def default_run(ctx):
    """Run and fit parameters left out"""
    name, kw = X.mix_config(ctx, ("DirichletProcess", "EqualWeighting",
                                  "DirichletDistribution"))
    y, pk, par = X.problem(ctx, 1, n=ctx.pick((3, 5)))
    lam = {k: pk.pop(k) for k in ("lambda_prior",) if k in pk}
    few, full = omit(ctx, {**RUN, **lam, "total_iter": int(ctx.pick(
        (101, 130))), "burn_in": int(ctx.pick((0, 60))),
        "subsample_steps": 2}, RUN)
    a, b = (M.make_mix(name, kw, g, **pk, **k)
            for k, g in zip((few, full), twins(ctx)))
    ctx.case((name, str(kw), str(sorted(few)), float(y[0, 0])))
    gibbs = ctx.rng.uniform() < .6
    if gibbs:
        ck, wk = omit(ctx, {"init_method": "random", "init_groups": 2,
                            "warm_start": False, "show_progress": False},
                      {"init_method": "kmeans", "init_groups": None,
                       "warm_start": False, "show_progress": None})
        a.fit_gibbs(y, **ck), b.fit_gibbs(y, **wk)
        u, v = (drive.plain(m.get_sim_params()) for m in (a, b))
        ctx.check(len(u) == len(range(
            0, full["total_iter"] - full["burn_in"],
            full["subsample_steps"])), "omitted-run-parameter-saved",
            got=len(u), **full)
        ctx.count("default-gibbs")
    else:
        ck, wk = omit(ctx, {"init_method": "random", "tol": 1e-2,
                            "warm_start": False, "show_progress": False},
                      {"init_method": "kmeans", "tol": 1e-8,
                       "warm_start": False, "show_progress": None})
        for k in (ck, wk):
            k["n_groups"] = kw.get("n", 3)
        a.fit_variational(y, **ck), b.fit_variational(y, **wk)
        u, v = (drive.plain(X.factors(m)) for m in (a, b))
        ctx.count("default-variational")
    ctx.check(drive.same(u, v), "omitted-run-parameter", left=few,
              default=full, fit=ck)


def progress(ctx):
    """The progress is displayed if and only if asked for"""
    name, kw = X.mix_config(ctx)
    y, pk, par = X.problem(ctx, 1, n=ctx.pick((3, 5)))
    made, fit = ctx.pick(("omitted", False, True)), ctx.pick(
        ("omitted", None, False, True))
    if made != "omitted":
        pk = {**pk, "show_progress": made}
    k = {} if fit == "omitted" else {"show_progress": fit}
    ctx.case((name, str(kw), made, fit, float(y[0, 0])))
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        mm = M.make_mix(name, kw, ctx.gen(), total_iter=3, burn_in=1, **pk)
        if name in M.VAR and ctx.rng.uniform() < .5:
            mm.fit_variational(y, n_groups=kw.get("n", 2), **k)
        else:
            mm.fit_gibbs(y, init_method=ctx.pick(("kmeans", "random")), **k)
        shown = len(out.getvalue()) > 0
        want = fit if isinstance(fit, bool) else made is True
        ctx.check(shown == want, "progress-shown", made=made, fit=fit,
                  out=out.getvalue()[:80])
    ctx.count("progress:%s" % want)


SCALE = 3     # of the quick tier
SCENARIOS = [("gibbs", gibbs, 400, 8000), ("variational", variational, 400,
                                           8000),
             ("populous", populous, 50, 500),
             ("empty", empty, 200, 4000), ("weights", weights, 2500, 40000),
             ("p_method", p_method, 600, 6000),
             ("default_weights", default_weights, 500, 6000),
             ("default_run", default_run, 60, 1000),
             ("progress", progress, 60, 600)]
REQUIRE = {"draws": 4000, "populous": 5000, "factors": 400, "prior-draws": 500, "refits": 150,
           "default-weights": 1000, "default-gibbs": 60,
           "default-variational": 40, "progress:True": 40, "progress:False": 40,
           **{"weights:" + n: 100 for n in M.ALL}}

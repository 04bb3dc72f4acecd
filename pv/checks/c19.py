"""C19: variational updates are exact coordinate ascent (trace monitor over
single sweeps)."""
import numpy as np
from pv import models as M
from pv import mix as X

RULE = ("variational fits followed sweep by sweep (cold fits of 1-3 sweeps "
        "continued by warm starts of one sweep); the factors held after each "
        "sweep are compared with the exact coordinate updates and their "
        "evidence bound with that of the previous sweep; a case is one fit")
ASSUMPTIONS = ["responsibilities are floored at machine epsilon"]


def factors_monitor(ctx, mm, name, kw, y, par, r, theta):
    """Factors are the optima for the held responsibilities"""
    K, n = r.shape
    ctx.check(n == len(y) and np.all(r >= 0) and np.all(np.isfinite(r)),
              "responsibilities", shape=r.shape)
    ctx.close(r.sum(0), np.ones(n), "columns-sum-to-one", 1e-9)
    X.theta_close(ctx, theta, X.nw_optimum(r, y, *par), "theta")
    wref = M.VarRef(name, kw, r)
    mlog = X.code_mean_log(mm, K)
    ctx.close(mlog, wref.mean_log(), "weight-factor-log", 1e-7, 1e-7)
    ctx.close([float(mm.weight_model.variational_mean_w_j(j))
               for j in range(K)], wref.mean(), "weight-factor-mean", 1e-7,
              1e-12)
    return wref, mlog


def follow(ctx, mm, name, kw, y, par, sweeps, warm):
    r, theta = X.factors(mm)
    wref, mlog = factors_monitor(ctx, mm, name, kw, y, par, r, theta)
    val = X.elbo(r, theta, wref, y, *par)
    for _ in range(sweeps):
        mm.total_iter = 1
        mm.fit_variational(y, warm_start=True)
        lj = X.expected_log_joint(theta, mlog, y)
        want = X.softmax(lj)
        r2, theta2 = X.factors(mm)
        # far points: the rounding error of the log joint
        big = np.abs(lj).max()
        ctx.close(r2, want, "responsibilities-update", 1e-6 + 1e-13 * big,
                  1e-9 + 1e-13 * big)
        wref, mlog = factors_monitor(ctx, mm, name, kw, y, par, r2, theta2)
        val2 = X.elbo(r2, theta2, wref, y, *par)
        ctx.check(np.isfinite(val2), "finite-bound", val=val2)
        ctx.check(val2 >= val - 1e-7 * (1 + abs(val)) - 1e-12 * big,
                  "bound-decreased", before=val, after=val2)
        ctx.count("sweeps")
        ctx.count("increases", val2 > val + 1e-6)
        ctx.count("soft", ((want > .001) & (want < .999)).sum())
        r, theta, val = r2, theta2, val2


def one(ctx):
    mm, name, kw, y, par, init = X.var_setup(ctx, total=ctx.pick((1, 2, 3)))
    ctx.case((name, str(kw), y.shape, str(init), float(y[0, 0])))
    # (columns of far away outliers do not matter here)
    mm.fit_variational(y, tol=0, **init)
    follow(ctx, mm, name, kw, y, par, ctx.pick((2, 5, 10)), False)
    ctx.count("fits")


def overlap(ctx):
    """Overlapping groups: soft responsibilities over many sweeps"""
    D = ctx.pick((1, 2, 3))
    y = ctx.rng.normal(size=(ctx.pick((6, 20)), D))
    y[::2] += 1.5
    name, kw = X.mix_config(ctx, M.VAR)
    pk, par = X.priors(ctx.rng, y)
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=1, burn_in=0, **pk)
    K = None if name in M.FIN else ctx.pick((2, 3, 4))
    ctx.case((name, str(kw), y.tolist(), K))
    mm.fit_variational(y, n_groups=K, init_method=ctx.pick(("kmeans",
                                                           "random")))
    follow(ctx, mm, name, kw, y, par, 12, False)
    ctx.count("fits")


def cold(ctx):
    """First sweep of a cold fit from random initialization: uniform start"""
    mm, name, kw, y, par, init = X.var_setup(ctx)
    ctx.case((name, str(kw), y.shape, str(init), float(y[0, 0]), "cold"))
    for method in ("kmeans", "random"):
        mm.total_iter = 1
        mm.fit_variational(y, n_groups=init["n_groups"], init_method=method)
        r, theta = X.factors(mm)
        a, _ = factors_monitor(ctx, mm, name, kw, y, par, r, theta)
        first = X.elbo(r, theta, a, y, *par)
        mm.total_iter = 40
        mm.fit_variational(y, warm_start=True)
        r, theta = X.factors(mm)
        a, _ = factors_monitor(ctx, mm, name, kw, y, par, r, theta)
        last = X.elbo(r, theta, a, y, *par)
        ctx.check(last >= first - 1e-6 * (1 + abs(first)), "bound-decreased",
                  before=first, after=last)
        ctx.count("fits")


SCALE = 5     # of the quick tier
SCENARIOS = [("sweeps", one, 300, 6000), ("overlap", overlap, 150, 3000),
             ("long", cold, 120, 2000)]
REQUIRE = {"fits": 600, "sweeps": 3000, "increases": 800, "soft": 3000}

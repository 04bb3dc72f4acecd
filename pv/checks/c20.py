"""C20: variational fitting stops by its stated rule and reports convergence
truly."""
import numpy as np
from pv import models as M
from pv import mix as X

RULE = ("pairs of identically seeded variational fits: one fitted at once "
        "with a tolerance and a cap, the other followed sweep by sweep with "
        "the exact evidence bound computed after each sweep, which predicts "
        "the sweep the first must stop at; a case is one fit")
ASSUMPTIONS = ["a fit and its continuation by one-sweep warm starts visit the "
               "same factors (each fit restarts the comparison of bounds)",
               "fits whose decision depends on the rounding of the bound are "
               "left out"]


def trajectory(ctx, mm, name, kw, y, par, init, T):
    """States and exact bounds after each of T sweeps"""
    out = []
    mm.total_iter = 1
    for t in range(T):
        if t == 0:
            mm.fit_variational(y, tol=0, **init)
        else:
            mm.fit_variational(y, tol=0, warm_start=True)
        r, theta = X.factors(mm)
        out.append((r, theta, X.elbo(r, theta, M.VarRef(name, kw, r), y,
                                     *par)))
        if hasattr(mm, "_calc_elbo"):
            ctx.close(mm._calc_elbo(), out[-1][2], "tracked-bound", 1e-6,
                      1e-6, model=name)
            ctx.count("tracked-bounds")
    return out


def predict(traj, tol, cap, start=0):
    """(sweeps, converged, borderline)"""
    err = 1e-9 + 1e-11 * max(abs(t[2]) for t in traj)
    for k in range(start + 1, start + cap):
        if k >= len(traj):
            return None
        diff = abs(traj[k][2] - traj[k - 1][2])
        if abs(diff - tol) <= err:
            return None
        if diff <= tol:
            return k + 1 - start, True
    return cap, False


def same(a, b):
    return np.allclose(a[0], b[0], rtol=1e-9, atol=1e-12) and all(
        np.allclose(s[0], t[0], rtol=1e-9) for s, t in zip(a[1], b[1]))


def build(ctx, gen_seed, name, kw, pk, total):
    return M.make_mix(name, kw, np.random.default_rng(gen_seed),
                      total_iter=total, burn_in=0, **pk)


def setup(ctx):
    name, kw = X.mix_config(ctx, M.VAR)
    soft = ctx.rng.uniform() < .6
    if soft:
        D = ctx.pick((1, 2))
        y = ctx.rng.normal(size=(ctx.pick((6, 15)), D))
        y[::2] += 2
        pk, par = X.priors(ctx.rng, y)
    else:
        y, pk, par = X.problem(ctx)
    K = None if name in M.FIN else ctx.pick((1, 2, 3, 4, 4, 10, 14))
    init = {"n_groups": K, "init_method": ctx.pick(("kmeans", "random"))}
    return name, kw, y, pk, par, init


def one(ctx):
    name, kw, y, pk, par, init = setup(ctx)
    seed = int(ctx.rng.integers(2 ** 40))
    T = 30
    ctx.case((name, str(kw), y.shape, str(init), float(y[0, 0]), seed))
    traj = trajectory(ctx, build(ctx, seed, name, kw, pk, 1), name, kw, y, par,
                      init, T)
    ctx.check(all(np.isfinite(t[2]) for t in traj), "finite-bound")
    diffs = [abs(b[2] - a[2]) for a, b in zip(traj, traj[1:])]
    tols = [1e6, 1.0, 1e-1, 1e-2, 1e-3, 1e-5, 1e-8]
    if max(diffs) > 0:
        # right between two consecutive changes
        i = int(ctx.rng.integers(len(diffs)))
        tols += [diffs[i] * 1.5, diffs[i] / 1.5]
    last = None
    for tol in sorted(tols):
        cap = ctx.pick((1, 2, 3, 7, T))
        p = predict(traj, tol, cap)
        if p is None:
            ctx.count("borderline")
            continue
        mm = build(ctx, seed, name, kw, pk, cap)
        kw_tol = {} if tol == 1e-8 and ctx.rng.uniform() < .5 else {"tol": tol}
        mm.fit_variational(y, **kw_tol, **init)
        got = X.factors(mm)
        k, conv = p
        ctx.check(bool(mm.var_converged) == conv and isinstance(
            mm.var_converged, (bool, np.bool_)), "convergence-flag",
            got=mm.var_converged, want=conv, tol=tol, cap=cap, diffs=diffs[:6])
        ctx.check(bool(mm.var_fitted), "fitted-flag")
        if not ctx.check(same(got, traj[k - 1]), "stopping-sweep", tol=tol,
                         cap=cap, want=k, diffs=diffs[:6],
                         at=[i + 1 for i, t in enumerate(traj)
                             if same(got, t)][:3]):
            continue
        ctx.count("converged" if conv else "capped")
        if cap == T:
            # a looser tolerance never runs more sweeps
            ctx.check(last is None or k <= last, "looser-is-longer")
            last = k
    # a second fit of the same object reports its own convergence
    mm = build(ctx, seed, name, kw, pk, T)
    mm.fit_variational(y, tol=1e6, **init)
    ctx.check(bool(mm.var_converged) == (T > 1), "convergence-flag")
    s1 = X.factors(mm)
    at = [i for i, t in enumerate(traj) if same(s1, t)]
    ctx.check(1 in at, "stopping-sweep", at=at[:4], want=1)
    for cap, tol in ((1, 1e6), (2, 1e6), (1, 1e-3)):
        mm.total_iter = cap
        mm.fit_variational(y, warm_start=True, tol=tol)
        ctx.check(bool(mm.var_converged) == (cap > 1), "refit-flag",
                  got=mm.var_converged, cap=cap, tol=tol)
        ctx.count("refits")
    mm.total_iter = 1
    mm.fit_variational(y, tol=1e6, **init)
    ctx.check(not mm.var_converged, "refit-flag", got=mm.var_converged,
              cold=True)
    ctx.count("fits")


def single(ctx):
    """One group leaves nothing to update after the first sweep: the bound
    does not change at all, which is within any tolerance, even zero"""
    name, kw, y, pk, par, init = setup(ctx)
    if name in M.FIN:
        kw = {"n": 1}
    init["n_groups"] = None if name in M.FIN else 1
    if not init["n_groups"]:
        del init["n_groups"]
    ctx.case((name, str(kw), y.tolist(), "one group"))
    mm = build(ctx, 1, name, kw, pk, 8)
    mm.fit_variational(y, tol=0, **init)
    r, theta = X.factors(mm)
    if ctx.check(np.all(r == 1), "one-group"):
        ctx.check(bool(mm.var_converged), "unchanged-bound-converges", tol=0)
        mm.total_iter = 1
        mm.fit_variational(y, tol=0, warm_start=True)
        ctx.check(not mm.var_converged, "refit-flag", cap=1)
    ctx.count("single")


def finite(ctx):
    """Repeated observations, more groups than distinct points, outliers"""
    D = ctx.pick((1, 2, 3))
    kind = ctx.pick(("repeated", "few", "outlier", "scales", "shift"))
    n = ctx.pick((4, 8, 20))
    y = ctx.rng.normal(size=(n, D))
    if kind == "repeated":
        y = y[ctx.rng.integers(max(2, D + 1), size=n)]
    elif kind == "few":
        y = y[:max(D + 1, 3)]
    elif kind == "outlier":
        y[0] += 1e4
    elif kind == "scales":
        y = y * 10.0 ** ctx.rng.integers(-4, 5, size=D)
    else:
        y = y + 1e4
    pk = {}
    if not X.well_conditioned(np.atleast_2d(np.cov(y.T)), 1e8):
        pk["psi_prior"] = np.eye(D) * max(1e-3, y.var())
    name, kw = X.mix_config(ctx, M.VAR)
    K = None if name in M.FIN else ctx.pick((1, 3, 7, 12))
    ctx.case((name, str(kw), kind, y.tolist(), K))
    for method in ("kmeans", "random"):
        mm = M.make_mix(name, kw, ctx.gen(), total_iter=60, burn_in=0, **pk)
        mm.fit_variational(y, n_groups=K, init_method=method)
        r, theta = X.factors(mm)
        ctx.check(np.all(np.isfinite(r)) and all(np.all(np.isfinite(
            np.concatenate([t[0], [t[1], t[3]], t[2].ravel()])))
            for t in theta), "finite-factors", kind=kind)
        ctx.check(r.shape == (K or kw["n"], len(y)), "responsibility-shape")
        for f in (mm.var_eap_density(), mm.var_eap_affinity_matrix(),
                  mm.var_map_cluster(full=True)[1]):
            ctx.check(np.all(np.isfinite(f)), "finite-results", kind=kind)
        ctx.check(isinstance(mm.var_converged, (bool, np.bool_)),
                  "flag-type")
        ctx.count("finite")


SCALE = 3     # of the quick tier
SCENARIOS = [("rule", one, 200, 4000), ("single", single, 40, 400),
             ("finite", finite, 150, 3000)]
REQUIRE = {"fits": 200, "converged": 600, "capped": 200, "refits": 600,
           "finite": 300, "single": 100}

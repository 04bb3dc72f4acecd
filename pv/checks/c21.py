"""C21: variational densities are the exact predictive and mode mixtures."""
import numpy as np
from pv import models as M
from pv import mix as X

RULE = ("variational EAP and MAP densities of fitted mixtures (all six "
        "classes, omitted and given queries, components, single points) "
        "against the predictive and mode mixtures recomputed from the fitted "
        "factors, and integrated numerically; a case is one fitted model")
ASSUMPTIONS = ["the component mode is that of the precision with the mean at "
               "its own mode, (nu - D) times the scale matrix",
               "a weight whose factor has several modes has no MAP density"]
TOL = dict(rtol=1e-5, atol=1e-290)


def one(ctx):
    mm, name, kw, y, par, init = X.var_setup(
        ctx, total=ctx.pick((1, 3, 30, 100)))
    mm.fit_variational(y, **init)
    if ctx.rng.uniform() < .2:
        mm.fit_variational(y, warm_start=True)
    r, theta = X.factors(mm)
    D, K = y.shape[1], len(theta)
    ctx.case((name, str(kw), y.shape, str(init), float(y[0, 0])))
    wref = M.VarRef(name, kw, r)
    mean, mode = wref.mean(), [wref.mode(j) for j in range(K)]
    has_mode = None not in mode and min(t[3] for t in theta) > D + 1e-6
    if min(t[3] for t in theta) + 1 - D <= 1e-9:
        ctx.count("improper")
        return
    for q in (None, X.queries(ctx, y), X.queries(ctx, y)):
        qq = y if q is None else q
        args = () if q is None else (q,)
        want = X.t_density(qq, theta, mean)
        got = np.asarray(mm.var_eap_density(*args))
        ctx.close(got, want, "eap", **TOL)
        ctx.check(np.all(got >= 0), "non-negative")
        ctx.count("eap")
        dens = [(mm.var_eap_density, X.t_density, mean, got)]
        if has_mode:
            gm = np.asarray(mm.var_map_density(*args))
            ctx.close(gm, X.mode_density(qq, theta, mode), "map", 1e-9,
                      1e-290 + X.mode_density(qq, theta, X.mode_tol(mode)))
            ctx.check(np.all(gm >= 0), "non-negative")
            dens.append((mm.var_map_density, X.mode_density, mode, gm))
            ctx.count("map")
        for f, ref, wt, full in dens:
            tot = 0
            for c in range(K):
                g = np.asarray(f(*args, component=c))
                ctx.close(g, ref(qq, theta, wt, None, c), "component", 1e-9,
                          1e-290 + ref(qq, theta, X.mode_tol(wt), None, c))
                tot = tot + g
            ctx.close(tot, full, "components-add-up", 1e-8, 1e-290)
            for i in range(min(2, len(qq))):
                ctx.close(f(qq[i:i + 1]), full[i:i + 1], "pointwise", **TOL)
                if D == 1:
                    ctx.close(f(float(qq[i, 0])), full[i:i + 1], "scalar",
                              **TOL)
                ctx.count("single-points")
    ctx.count("models")
    if D == 1:
        # integrates to one over the line
        c = np.median(y)
        scales = [np.sqrt(1 / t[2][0, 0] * (1 + 1 / t[1]) / t[3])
                  for t in theta]
        s = float(np.median(scales))
        nu = min(t[3] for t in theta)
        if nu >= 3 and max(scales) < 50 * s < 2500 * min(scales) and all(
                abs(t[0][0] - c) < 20 * s for t in theta):
            x, w = X.tan_grid(c, s, 20001)
            ctx.close((w * mm.var_eap_density(x)).sum(), 1.0, "integral",
                      1e-3)
            ctx.count("integrals")


SCALE = 5     # of the quick tier
SCENARIOS = [("densities", one, 400, 8000)]
REQUIRE = {"models": 350, "eap": 1000, "map": 500, "single-points": 1000,
           "integrals": 40}

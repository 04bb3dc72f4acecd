"""C15: Gibbs EAP and MAP densities are the mixtures of the saved states."""
import numpy as np
from pv import models as M
from pv import mix as X

RULE = ("density queries on Gibbs-fitted mixtures of every class (sets of "
        "points, single points, omitted query, periods, components, warm "
        "started traces) against the densities recomputed from the saved "
        "states; a case is one fitted model")
ASSUMPTIONS = ["a component that a saved state does not have contributes "
               "zero in that state"]
TOL = dict(rtol=1e-6, atol=1e-290)


def eap(states, q, component=None):
    return np.mean([X.density(s, q, None, component) for s in states], axis=0)


def wide(ctx):
    one(ctx, X.wide_fitted(ctx))


def long(ctx):
    one(ctx, X.long_fitted(ctx))


def one(ctx, given=None):
    mm, y, par = given or X.fitted(ctx)
    if ctx.rng.uniform() < .3:
        mm.fit_gibbs(y, warm_start=True)
        ctx.count("warm")
    states = mm.get_sim_params()
    S = len(states)
    for q in (None, X.queries(ctx, y), X.queries(ctx, y)):
        qq = y if q is None else q
        args = () if q is None else (q,)
        want = eap(states, qq)
        got = mm.gibbs_eap_density(*args)
        ctx.close(got, want, "eap", **TOL)
        ctx.close(mm.gibbs_map_density(*args), X.density(
            mm.map_sim_params, qq), "map", **TOL)
        # a subset of the saved periods, counting backwards
        for p in {1, 2, S // 2, S - 1, S, S + 1, S + 50}:
            if p < 1:
                continue
            ctx.close(mm.gibbs_eap_density(*args, periods=p),
                      eap(states[-min(p, S):], qq), "eap-periods", p=p,
                      saved=S, **TOL)
            ctx.count("periods")
        # components
        kmax = max(len(s["w"]) for s in states)
        for c in {0, 1, int(ctx.rng.integers(kmax)), kmax - 1, kmax + 3}:
            ctx.close(mm.gibbs_eap_density(*args, component=c),
                      eap(states, qq, c), "eap-component", c=c, **TOL)
            ctx.close(mm.gibbs_map_density(*args, component=c), X.density(
                mm.map_sim_params, qq, None, c), "map-component", c=c, **TOL)
            ctx.close(mm.gibbs_eap_density(*args, component=c, periods=1),
                      X.density(states[-1], qq, None, c), "eap-both", c=c,
                      **TOL)
            ctx.count("components")
        # point by point
        if q is not None:
            full = np.asarray(got)
            mapd = np.asarray(mm.gibbs_map_density(q))
            for i in range(min(3, len(q))):
                ctx.close(mm.gibbs_eap_density(q[i:i + 1]), full[i:i + 1],
                          "pointwise", **TOL)
                ctx.close(mm.gibbs_map_density(q[i:i + 1]), mapd[i:i + 1],
                          "pointwise", **TOL)
                if q.shape[1] == 1:
                    ctx.close(mm.gibbs_map_density(float(q[i, 0])),
                              mapd[i:i + 1], "scalar", **TOL)
                ctx.count("single-points")
            perm = ctx.rng.permutation(len(q))
            ctx.close(mm.gibbs_eap_density(q[perm]), full[perm],
                      "permutation", **TOL)
    # the components add up
    q = X.queries(ctx, y)
    k = len(mm.map_sim_params["w"])
    if k <= 60:
        ctx.close(sum(mm.gibbs_map_density(q, component=c)
                      for c in range(k)), mm.gibbs_map_density(q),
                  "components-add-up", **TOL)
    ctx.count("models")
    ctx.count("saved-states", S)


SCALE = 3     # of the quick tier
SCENARIOS = [("densities", one, 220, 4000), ("wide", wide, 3, 30),
             ("long", long, 8, 100)]
REQUIRE = {"models": 220, "warm": 40, "periods": 1000, "components": 1000,
           "single-points": 400}

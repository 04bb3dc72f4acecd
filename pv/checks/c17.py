"""C17: Gibbs MAP clustering assigns each point to its most probable
component."""
import numpy as np
import pandas as pd
from pv import models as M
from pv import mix as X

RULE = ("MAP clustering queries (data, points around, outliers, duplicates, "
        "single points, every data representation) on Gibbs-fitted mixtures, "
        "against the most probable components recomputed from the MAP state; "
        "a case is one fitted model")
ASSUMPTIONS = ["points whose two most probable components tie up to rounding "
               "may go to either"]


def reference(mm, q):
    """Most probable component, its uncertainty, and whether it is a clear
    choice"""
    lg = X.component_logs(mm.map_sim_params, q)
    top = lg.max(1)
    comp = lg.argmax(1)
    p = np.exp(lg - top[:, None])
    unc = 1 - 1 / p.sum(1)
    if lg.shape[1] > 1:
        two = np.sort(lg, 1)[:, -2:]
        clear = two[:, 1] - two[:, 0] > 1e-6 * np.maximum(1, np.abs(top))
    else:
        clear = np.ones(len(q), bool)
    return comp, unc, clear


def judge(ctx, mm, q, comp, unc, clear, groups, key):
    groups = np.asarray(groups)
    if not ctx.check(groups.shape == (len(comp),) and groups.dtype.kind in
                     "iu", "one-label-each:" + key, got=groups):
        return
    ctx.check(groups.min() == 0 and set(groups.tolist()) == set(
        range(groups.max() + 1)), "labels-contiguous:" + key, got=groups)
    if clear.all():
        ctx.check(np.array_equal(groups, X.compact(comp)), "groups:" + key,
                  got=groups, want=X.compact(comp))
        ctx.count("exact")
    else:
        g, c = groups[clear], comp[clear]
        ctx.check(np.array_equal(g[:, None] == g[None], c[:, None] ==
                                 c[None]), "groups:" + key)
        ctx.count("with-ties")


def wide(ctx):
    one(ctx, X.wide_fitted(ctx))


def one(ctx, given=None):
    mm, y, par = given or X.fitted(ctx)
    D = y.shape[1]
    for i in range(4):
        q = None if i == 0 else X.queries(ctx, y)
        qq = y if q is None else q
        args = () if q is None else (q,)
        comp, unc, clear = reference(mm, qq)
        grp = mm.gibbs_map_cluster(*args)
        judge(ctx, mm, qq, comp, unc, clear, grp, "plain")
        full = mm.gibbs_map_cluster(*args, full=True)
        if not ctx.check(isinstance(full, tuple) and len(full) == 2,
                         "full-is-a-pair"):
            return
        judge(ctx, mm, qq, comp, unc, clear, full[0], "full")
        u = np.asarray(full[1], float)
        # (log densities far away carry larger rounding errors)
        lg = np.abs(X.component_logs(mm.map_sim_params, qq)).copy()
        lg[~np.isfinite(lg)] = 0
        err = 1e-7 + 1e-12 * lg.max(1)
        ctx.check(u.shape == (len(qq),) and np.all(np.abs(u - unc) <= err),
                  "uncertainty", got=u, want=unc)
        ctx.check(np.all((u >= 0) & (u <= 1)), "uncertainty-range", got=u)
        ctx.count("points", len(qq))
        ctx.count("unsure", (unc > .01).sum())
        # independent of the other queried points
        for j in range(min(3, len(qq))):
            g1, u1 = mm.gibbs_map_cluster(qq[j:j + 1], full=True)
            ctx.check(np.array_equal(g1, [0]), "single-point", got=g1)
            ctx.check(abs(u1[0] - u[j]) <= err[j], "single-uncertainty",
                      got=u1, want=u[j])
            if D == 1:
                g2 = mm.gibbs_map_cluster(float(qq[j, 0]))
                ctx.check(np.array_equal(g2, [0]), "scalar-point", got=g2)
            ctx.count("single-points")
        idx = ctx.rng.integers(len(qq), size=4)
        gs, us = mm.gibbs_map_cluster(qq[idx], full=True)
        judge(ctx, mm, qq[idx], comp[idx], unc[idx], clear[idx], gs, "subset")
        ctx.check(np.all(np.abs(us - u[idx]) <= err[idx]),
                  "subset-uncertainty")
        f = pd.DataFrame(qq)
        ctx.check(np.array_equal(mm.gibbs_map_cluster(f), grp), "frame")
        ctx.check(np.array_equal(mm.gibbs_map_cluster(qq.tolist()), grp),
                  "list")
    ctx.count("models")


SCALE = 5     # of the quick tier
SCENARIOS = [("clusters", one, 300, 6000), ("wide", wide, 4, 60)]
REQUIRE = {"models": 300, "points": 4000, "unsure": 300, "exact": 1500,
           "single-points": 1000}

"""C22: variational clustering and affinity follow the responsibilities."""
import numpy as np
import pandas as pd
from pv import models as M
from pv import mix as X

RULE = ("variational cluster and affinity queries on fitted mixtures (omitted "
        "query, the training data, other points however far, single points, "
        "every representation) against responsibilities recomputed from the "
        "fitted factors; a case is one fitted model")
ASSUMPTIONS = ["points with two equally large responsibilities may go to "
               "either component"]


def reference(theta, mlog, q):
    lj = X.expected_log_joint(theta, mlog, q)
    r = X.softmax(lj)
    top = np.sort(lj, 0)
    clear = np.ones(len(q), bool) if len(lj) == 1 else (
        top[-1] - top[-2] > 1e-6 * np.maximum(1, np.abs(top[-1])))
    err = 1e-7 + 1e-12 * np.abs(lj).max(0)
    return r, clear, err


def wide(ctx):
    name, kw, y, pk, par, K = X.wide(ctx, ("DirichletProcess",
                                           "DirichletDistribution"))
    one(ctx, (M.make_mix(name, kw, ctx.gen(), total_iter=3, burn_in=0, **pk),
              name, kw, y, par, {"n_groups": K, "init_method": "kmeans"}))
    ctx.count("wide")


def one(ctx, given=None):
    mm, name, kw, y, par, init = given or X.var_setup(
        ctx, total=ctx.pick((1, 3, 30, 100)))
    mm.fit_variational(y, **init)
    r, theta = X.factors(mm)
    K, n = r.shape
    ctx.case((name, str(kw), y.shape, str(init), float(y[0, 0])))
    # the fitted data: the held responsibilities
    top = np.sort(r, 0)
    clear = np.ones(n, bool) if K == 1 else top[-1] - top[-2] > 1e-9
    c = np.asarray(mm.var_map_cluster())
    ctx.check(c.shape == (n,) and np.array_equal(
        c[clear], r.argmax(0)[clear]), "fitted-cluster", got=c)
    full = mm.var_map_cluster(full=True)
    if ctx.check(isinstance(full, tuple) and len(full) == 2, "full-pair"):
        ctx.check(np.array_equal(full[0], c), "full-same-clusters")
        ctx.close(full[1], 1 - r.max(0), "fitted-uncertainty", 1e-9, 1e-9)
        ctx.check(np.all((np.asarray(full[1]) >= -1e-12) & (
            np.asarray(full[1]) <= 1)), "uncertainty-range")
    A = np.asarray(mm.var_eap_affinity_matrix())
    ctx.close(A, r.T @ r, "fitted-affinity", 1e-9, 1e-12)
    ctx.check(np.allclose(A, A.T, 1e-12) and np.all((A >= 0) & (
        A <= 1 + 1e-12)), "affinity-range")
    # queries
    mlog = M.VarRef(name, kw, r).mean_log()
    for q in (y, X.queries(ctx, y), X.queries(ctx, y)):
        R, clear, err = reference(theta, mlog, q)
        g, u = mm.var_map_cluster(q, full=True)
        g, u = np.asarray(g), np.asarray(u)
        if not ctx.check(g.shape == (len(q),) == u.shape, "query-shape"):
            return
        ctx.check(np.array_equal(g[clear], R.argmax(0)[clear]),
                  "query-cluster", got=g, want=R.argmax(0))
        ctx.check(np.all(np.abs(u - (1 - R.max(0))) <= err),
                  "query-uncertainty", got=u, want=1 - R.max(0))
        ctx.check(np.array_equal(mm.var_map_cluster(q), g),
                  "plain-same-clusters")
        B = np.asarray(mm.var_eap_affinity_matrix(q))
        ctx.check(B.shape == (len(q), len(q)) and np.all(
            np.abs(B - R.T @ R) <= err[:, None] + err[None]),
            "query-affinity")
        ctx.check(np.allclose(B, B.T, 1e-9, 1e-12) and np.all(
            (B >= 0) & (B <= 1 + 1e-9)), "affinity-range")
        ctx.count("query-points", len(q))
        ctx.count("soft", ((R > .01) & (R < .99)).sum())
        for i in range(min(2, len(q))):
            g1, u1 = mm.var_map_cluster(q[i:i + 1], full=True)
            if clear[i]:
                ctx.check(np.array_equal(g1, g[i:i + 1]), "single-point",
                          got=g1, want=g[i])
            ctx.check(abs(u1[0] - u[i]) <= err[i], "single-uncertainty")
            b = np.asarray(mm.var_eap_affinity_matrix(q[i:i + 1]))
            ctx.close(b, B[i:i + 1, i:i + 1], "single-affinity", 1e-6, 1e-9)
            if y.shape[1] == 1:
                g2 = mm.var_map_cluster(float(q[i, 0]))
                ctx.check(not clear[i] or np.array_equal(g2, g[i:i + 1]),
                          "scalar-point")
            ctx.count("single-points")
        ctx.check(np.array_equal(mm.var_map_cluster(q.tolist()), g), "list")
        ctx.check(np.array_equal(mm.var_map_cluster(pd.DataFrame(q)), g),
                  "frame")
        if y.shape[1] == 1:
            ctx.check(np.array_equal(mm.var_map_cluster(q[:, 0]), g), "flat")
            ctx.check(np.array_equal(mm.var_map_cluster(pd.Series(q[:, 0])),
                                     g), "series")
    if mm.var_converged:
        # at convergence the training data reproduces the fitted clustering
        R, clear, err = reference(theta, mlog, y)
        far = np.abs(R - r).max(0) < 1e-3
        ok = far & clear & (np.sort(r, 0)[-1] > .51)
        ctx.check(np.array_equal(np.asarray(mm.var_map_cluster(y))[ok],
                                 c[ok]), "training-reproduces")
        ctx.count("converged")
    ctx.count("models")


def consensus(ctx):
    D, g = ctx.pick((1, 2, 3)), ctx.pick((2, 3))
    sizes = ctx.rng.integers(6, 12, size=g)
    lab = np.repeat(np.arange(g), sizes)
    ctx.rng.shuffle(lab)
    c = np.arange(g)[:, None] * 40.0 * np.ones(D) + ctx.rng.normal(size=(g, D))
    y = c[lab] + ctx.rng.normal(size=(len(lab), D))
    name = ctx.pick(("DirichletProcess", "DirichletDistribution",
                     "EqualWeighting"))
    mkw = {"DirichletProcess": {"alpha": 1.0}, "EqualWeighting": {"n": g},
           "DirichletDistribution": {"n": g, "alpha": 1.0}}[name]
    mm = M.make_mix(name, mkw, ctx.gen(), total_iter=100, burn_in=0,
                    psi_prior=np.eye(D) * 3, nu_prior=D + 4.0,
                    lambda_prior=.01)
    mm.fit_variational(y, n_groups=g)
    ctx.case((name, str(mkw), y.tolist(), "consensus"))
    n = len(y)
    for k in (1, g, g + 1):
        r = np.asarray(mm.var_eap_spectral_consensus_cluster(n_clusters=k))
        ctx.check(r.shape == (n,) and r.dtype.kind in "iu" and
                  r.min() >= 0 and r.max() < k, "partition", got=r, k=k)
        ctx.count("consensus")

    def co(d):
        d = np.asarray(d)
        return d[:, None] == d[None]
    A = mm.var_eap_affinity_matrix()
    same = co(lab)
    if A[same].min() > .9 and A[~same].max() < .05:
        r = mm.var_eap_spectral_consensus_cluster(n_clusters=g)
        ctx.check(np.array_equal(co(r), same), "recovers-blocks", got=r,
                  want=lab)
        pick = ctx.rng.permutation(n)[:n - 1]
        q = y[pick] + .01
        r = np.asarray(mm.var_eap_spectral_consensus_cluster(q, n_clusters=g))
        ctx.check(r.shape == (n - 1,) and np.array_equal(co(r), co(
            lab[pick])), "recovers-query-blocks", got=r, want=lab[pick])
        ctx.count("blocks")
    d = np.asarray(mm.var_eap_spectral_consensus_cluster())
    ctx.check(d.shape == (n,) and np.all(d == 0), "default-one-group")


SCALE = 6     # of the quick tier
SCENARIOS = [("clusters", one, 400, 8000), ("consensus", consensus, 40, 600),
             ("wide", wide, 4, 60)]
REQUIRE = {"models": 350, "query-points": 5000, "soft": 1000,
           "single-points": 1500, "converged": 100, "consensus": 100,
           "blocks": 20}

"""C18: the Gibbs affinity is the co-clustering frequency."""
import numpy as np
from pv import models as M
from pv import mix as X

RULE = ("affinity matrices of the fitted data and of query points over chains "
        "of cold and warm fits, against the co-clustering frequencies of the "
        "saved states; consensus clusterings of traces whose affinity has a "
        "known block structure; a case is one chain of fits")
ASSUMPTIONS = ["states in which a query point has two equally probable "
               "components are left out of the comparison",
               "spectral clustering recovers clear blocks exactly"]


def co(d):
    d = np.asarray(d)
    return (d[:, None] == d[None]).astype(float)


def shape_rules(ctx, A, n, key):
    A = np.asarray(A, float)
    if not ctx.check(A.shape == (n, n), "shape:" + key, got=A.shape):
        return False
    ctx.check(np.array_equal(A, A.T), "symmetric:" + key)
    ctx.check(np.allclose(np.diag(A), 1, atol=1e-12), "unit-diagonal:" + key)
    ctx.check(np.all((A >= 0) & (A <= 1 + 1e-12)), "range:" + key)
    return True


def wide(ctx):
    chain(ctx, X.wide_fitted(ctx))


def long_chain(ctx):
    chain(ctx, X.long_fitted(ctx))


def chain(ctx, given=None):
    mm, y, par = given or X.fitted(ctx)
    for i in range(ctx.pick((1, 2, 3))):
        warm = False
        if i:
            warm = ctx.rng.uniform() < .6
            if not warm and ctx.rng.uniform() < .5:
                y = X.data(ctx.rng, y.shape[1], y.shape[1] + int(ctx.pick((3, 5, 10))), "blobs")
            init = {} if warm else {"init_method": "kmeans", "init_groups": 2}
            mm.fit_gibbs(y, warm_start=warm, **init)
            ctx.count("warm" if warm else "cold")
        states = mm.get_sim_params()
        n = len(y)
        want = np.mean([co(s["d"]) for s in states], axis=0)
        A = mm.gibbs_eap_affinity_matrix()
        if not shape_rules(ctx, A, n, "fitted"):
            return
        ctx.close(A, want, "fitted-affinity", 1e-12, 1e-12, warm=warm)
        # the caller may do as they like with the answer
        A = np.array(A)
        for q in (X.queries(ctx, y), y):
            tot, ok = np.zeros((len(q), len(q))), True
            for s in states:
                lg = X.component_logs(s, q)
                if lg.shape[1] > 1:
                    two = np.sort(lg, 1)[:, -2:]
                    ok &= bool(np.all(two[:, 1] - two[:, 0] > 1e-6 *
                                      np.maximum(1, np.abs(two[:, 1]))))
                tot += co(lg.argmax(1))
            B = mm.gibbs_eap_affinity_matrix(q)
            if shape_rules(ctx, B, len(q), "query") and ok:
                ctx.close(B, tot / len(states), "query-affinity", 1e-12,
                          1e-12)
                ctx.count("queries")
        if len(y) > 1:
            one = mm.gibbs_eap_affinity_matrix(y[:1])
            ctx.close(one, [[1.0]], "single-point", 1e-12)
        ctx.check(np.array_equal(mm.gibbs_eap_affinity_matrix(), A),
                  "repeatable")
        ctx.count("fits")
        ctx.count("soft-pairs", ((want > 0) & (want < 1)).sum())


def long(ctx):
    """Traces of hundreds of states, with and without warm starts"""
    name = ctx.pick(("DirichletProcess", "DirichletDistribution",
                     "EqualWeighting"))
    kw = {"DirichletProcess": {"alpha": .6}, "EqualWeighting": {"n": 3},
          "DirichletDistribution": {"n": 2, "alpha": 1}}[name]
    n = int(ctx.rng.integers(2, 5))
    y, pk, par = X.problem(ctx, 1, n)
    total = int(ctx.pick((150, 270, 600)))
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=total, burn_in=0, **pk)
    mm.fit_gibbs(y, init_method="random")
    if total < 200:
        mm.fit_gibbs(y, warm_start=True)
    ctx.case((name, str(kw), y.tolist(), total, "long"))
    states = mm.get_sim_params()
    want = np.mean([co(s["d"]) for s in states], axis=0)
    A = mm.gibbs_eap_affinity_matrix()
    if shape_rules(ctx, A, n, "long"):
        ctx.close(A, want, "long-affinity", 1e-12, 1e-12, saved=len(states))
    ctx.count("long")
    ctx.count("long-states", len(states))


def consensus(ctx):
    """Well separated groups: the consensus is those groups"""
    D, g = ctx.pick((1, 2, 3)), ctx.pick((2, 3))
    sizes = ctx.rng.integers(6, 12, size=g)
    lab = np.repeat(np.arange(g), sizes)
    ctx.rng.shuffle(lab)
    c = np.arange(g)[:, None] * 40.0 * np.ones(D) + ctx.rng.normal(size=(g, D))
    y = c[lab] + ctx.rng.normal(size=(len(lab), D))
    kw = {"psi_prior": np.eye(D) * 3, "nu_prior": D + 4.0,
          "lambda_prior": .01}
    name = ctx.pick(("DirichletProcess", "DirichletDistribution",
                     "PitmanYorProcess"))
    mkw = {"DirichletProcess": {"alpha": .5}, "PitmanYorProcess": {
        "pyd": .1, "alpha": .5}, "DirichletDistribution": {
            "n": g, "alpha": 1.0}}[name]
    mm = M.make_mix(name, mkw, ctx.gen(), total_iter=40, burn_in=10, **kw)
    mm.fit_gibbs(y, init_method="kmeans", init_groups=g)
    ctx.case((name, str(mkw), y.tolist(), "consensus"))
    A = np.mean([co(s["d"]) for s in mm.sim_params], axis=0)
    n = len(y)
    for k in (1, g, g + 1):
        r = np.asarray(mm.gibbs_eap_spectral_consensus_cluster(n_clusters=k))
        ctx.check(r.shape == (n,) and r.dtype.kind in "iu" and
                  len(np.unique(r)) <= k and r.min() >= 0 and r.max() < k,
                  "partition", got=r, k=k)
        ctx.check(k != 1 or np.all(r == 0), "one-group", got=r)
        ctx.count("consensus")
    same = co(lab) == 1
    if A[same].min() > .8 and A[~same].max() < .05:
        r = np.asarray(mm.gibbs_eap_spectral_consensus_cluster(n_clusters=g))
        ctx.check(np.array_equal(co(r), co(lab)), "recovers-blocks",
                  got=r, want=lab)
        # new points: the affinity of those points decides
        pick = ctx.rng.permutation(n)
        q, ql = y[pick] + .01, lab[pick]
        B = mm.gibbs_eap_affinity_matrix(q)
        sq = co(ql) == 1
        if B[sq].min() > .8 and B[~sq].max() < .05:
            r = np.asarray(mm.gibbs_eap_spectral_consensus_cluster(
                q, n_clusters=g))
            ctx.check(np.array_equal(co(r), co(ql)), "recovers-query-blocks",
                      got=r, want=ql)
            ctx.count("query-blocks")
        ctx.count("blocks")
    dflt = np.asarray(mm.gibbs_eap_spectral_consensus_cluster())
    ctx.check(dflt.shape == (n,) and np.all(dflt == 0), "default-one-group")


SCALE = 4     # of the quick tier
SCENARIOS = [("affinity", chain, 220, 4000), ("consensus", consensus, 40,
                                              600), ("long", long, 20, 300),
             ("wide", wide, 3, 40), ("long-chain", long_chain, 5, 60)]
REQUIRE = {"fits": 300, "warm": 60, "cold": 40, "queries": 400,
           "soft-pairs": 1000, "consensus": 100, "blocks": 20, "long": 30,
           "query-blocks": 15}

"""C26: queries are read-only and repeatable."""
import numpy as np

from pv import drive
from pv import models as M

RULE = ("twins built from the same seed run the same fits; one answers random "
        "query sequences in between (each query repeated), the other only the "
        "final query or none; answers, traces of the continued sampling and "
        "held states compared exactly; a case is one model and sequence of "
        "calls")
ASSUMPTIONS = []
REPORT = ("get_weights", "get_size", "get_normalized_weights",
          "get_normalized_cumulative_weights")


def weight_queries(ctx, wm, name, K, d=None):
    """Reporting queries of a weighting model, in random order, twice"""
    calls = [(q, ()) for q in REPORT]
    if len(wm.get_weights()) and name != "skip":
        calls.append(("weighting_log_likelihood", ()))
        if d is not None and len(d) and max(d) < wm.get_size():
            calls.append(("assignation_log_likelihood", ()))
            calls.append(("assignation_log_likelihood", (np.array(d),)))
    if K:
        for j in range(K + 2):
            calls.append(("variational_mean_w_j", (j,)))
            calls.append(("variational_mean_log_w_j", (j,)))
        calls += [("variational_mean_log_p_w", ()),
                  ("variational_mean_log_q_w", ()),
                  ("variational_mean_log_p_d__w", ())]
        r = ctx.rng.dirichlet(np.ones(K), size=4).T
        calls.append(("variational_mean_log_p_d__w", (r,)))
    out = {}
    for _ in range(2):
        for i in ctx.rng.permutation(len(calls)):
            n, a = calls[i]
            with np.errstate(all="ignore"):
                got = drive.plain(getattr(wm, n)(*a))
            if i in out:
                ctx.check(drive.same(out[i], got), "weight-query-not-"
                          "repeatable", call=n)
            out[i] = got
            ctx.count("weight-queries")


def mixtures(ctx):
    p = drive.Program(ctx, steps=ctx.pick((2, 3, 4)), queries=False)
    s = int(ctx.rng.integers(2 ** 40))
    a, b = (p.make(np.random.default_rng(s)) for _ in range(2))
    g = v = False
    log = []
    ctx.case((p.desc(), s))
    for op in p.ops:
        ra, rb = p.apply(a, op), p.apply(b, op)
        g = g or op[0] == "fit_gibbs"
        v = v or op[0] == "fit_variational" or op[1].get(
            "init_method") == "variational"
        ctx.check(drive.same(ra, rb), "continuation-differs",
                  after=log[-6:], call=op[0], warm=op[1].get("warm_start"))
        if op[1].get("warm_start"):
            ctx.count("warm-continuations")
        # queries on one twin only
        first = []
        for _ in range(int(ctx.rng.integers(1, 6))):
            q = p.query(g, v)
            r1 = drive.ask(a, q)
            log.append(q[0])
            first.append((q, r1))
            if ctx.rng.uniform() < .2:
                for getter in ("get_n_groups", "get_n_theta",
                               "get_sim_params"):
                    getattr(a, getter)()
            if ctx.rng.uniform() < .3:
                weight_queries(ctx, a.weight_model, p.name,
                               a.var_k if v and p.name in M.VAR else 0,
                               a.weight_model.d if g else None)
            ctx.count("queries")
            ctx.count("query:" + q[0])
        for i in ctx.rng.permutation(len(first)):
            q, r1 = first[i]
            ctx.check(drive.same(drive.ask(a, q), r1), "not-repeatable",
                      call=q[0])
        # one of them on the other twin, which was not asked anything before
        if ctx.rng.uniform() < .5:
            q, r1 = ctx.pick(first)
            ctx.check(drive.same(drive.ask(b, q), r1), "query-order-matters",
                      call=q[0], before=log[-6:])
    if g:
        # the continuation of the sampling
        op = ("fit_gibbs", {"warm_start": True})
        ctx.check(drive.same(p.apply(a, op), p.apply(b, op)),
                  "continuation-differs", after=log[-6:])
        ctx.count("warm-continuations")
    if v:
        op = ("fit_variational", {"warm_start": True})
        ctx.check(drive.same(p.apply(a, op), p.apply(b, op)),
                  "variational-continuation-differs", after=log[-6:])
        ctx.count("warm-variational")


def weights(ctx):
    p = drive.WeightProgram(ctx, steps=ctx.pick((4, 8)))
    s = int(ctx.rng.integers(2 ** 40))
    a, b = (p.make(np.random.default_rng(s)) for _ in range(2))
    ctx.case((p.desc(), s))
    K, d, stale = 0, None, False
    for op in p.ops:
        ra, rb = p.apply(a, op), p.apply(b, op)
        ctx.check(drive.same(ra, rb), "weights-continuation-differs",
                  call=op[0])
        if op[0] == "fit":
            d = op[1][0]
            stale = p.name == "FrequencyWeighting"
        elif op[0] in ("random", "complete"):
            stale = False
        elif op[0] == "reset":
            d = None
        elif op[0] == "fit_variational":
            K = len(op[1][0])
        if ctx.rng.uniform() < .6:
            # labels fitted after the last draw have no realization of the
            # frequencies yet; their likelihood draws it
            weight_queries(ctx, a, p.name, K, None if stale else d)
    ctx.count("weight-programs")


def plot(ctx):
    """The pair plot is a query as well"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    p = drive.Program(ctx, steps=1, queries=False)
    p.ops = [p.gibbs_fit(False)]
    s = int(ctx.rng.integers(2 ** 40))
    a, b = (p.make(np.random.default_rng(s)) for _ in range(2))
    ctx.case((p.desc(), s))
    p.apply(a, p.ops[0]), p.apply(b, p.ops[0])
    try:
        a.gibbs_map_pairplot()
    finally:
        plt.close("all")
    ctx.check(drive.same(drive.gibbs_trace(a), drive.gibbs_trace(b)),
              "pairplot-changes-the-fit")
    op = ("fit_gibbs", {"warm_start": True})
    ctx.check(drive.same(p.apply(a, op), p.apply(b, op)),
              "continuation-differs", after=["gibbs_map_pairplot"])
    ctx.count("plots")


SCALE = 2     # of the quick tier
SCENARIOS = [("mixtures", mixtures, 400, 8000), ("weights", weights, 250,
                                                 5000),
             ("plot", plot, 24, 200)]
REQUIRE = {"queries": 1500, "weight-queries": 4000, "warm-continuations": 250,
           "warm-variational": 60, "plots": 20,
           **{"query:" + q: 50 for q in drive.GIBBS_Q},
           **{"query:" + q: 25 for q in drive.VAR_Q}}

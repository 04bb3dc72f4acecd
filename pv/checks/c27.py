"""C27: unfitted queries are refused; the two engines are independent."""
import numpy as np

from pv import drive
from pv import models as M
from pv import mix as X

RULE = ("every query in every fitted/unfitted combination of the two engines "
        "(fresh object, only one engine fitted, fit that was refused), and "
        "the answers of one engine before and after fits and refits of the "
        "other on the same data, compared exactly; a case is one model, data "
        "set and order of fits")
ASSUMPTIONS = ["the random, k-means and explicit initializations (the "
               "variational initialization of a Gibbs fit fits the "
               "variational engine, as documented)"]


def no_answer(ctx, mm, y, names, key):
    import pyrichlet
    exc = pyrichlet.exceptions.NotFittedError
    for name in names:
        for q in (None, y, y[:1]):
            ctx.raises(exc, lambda: getattr(mm, name)(q), key, call=name)
            ctx.count("refused")
        if name.endswith("density"):
            ctx.raises(exc, lambda: getattr(mm, name)(y[:, :1], dim=0), key,
                       call=name)
            ctx.raises(exc, lambda: getattr(mm, name)(y, component=0), key,
                       call=name)
            if name == "gibbs_map_density":
                ctx.raises(exc, lambda: pairplot(mm), key,
                           call="gibbs_map_pairplot")
                ctx.count("refused-plots")
        elif name.endswith("map_cluster"):
            ctx.raises(exc, lambda: getattr(mm, name)(y, full=True), key,
                       call=name)
        elif "spectral" in name:
            ctx.raises(exc, lambda: getattr(mm, name)(n_clusters=2), key,
                       call=name)


def pairplot(mm):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    try:
        return mm.gibbs_map_pairplot()
    finally:
        plt.close("all")


def reports(wm, K=3):
    """The reports of the variational factor, by name"""
    r = np.full((K, 4), 1 / K)
    out = {"variational_mean_log_p_d__w": wm.variational_mean_log_p_d__w,
           "responsibilities":
           lambda: wm.variational_mean_log_p_d__w(variational_d=r),
           "variational_mean_log_p_w": wm.variational_mean_log_p_w,
           "variational_mean_log_q_w": wm.variational_mean_log_q_w}
    for f in ("variational_mean_log_w_j", "variational_mean_w_j",
              "variational_mode_w_j"):
        for j in (0, 1, K + 4):
            out[f, j] = lambda f=f, j=j: getattr(wm, f)(j)
    return out


def weight_reports(ctx):
    """A weighting model has no variational reports before such a fit"""
    import pyrichlet
    name = ctx.pick([n for n in M.VAR if n != "EqualWeighting"])
    kw = M.config(ctx.rng, name, True)
    wm = M.make(name, kw, ctx.gen())
    how = ctx.pick(("fresh", "drawn", "fitted", "reset"))
    ctx.case(("reports", name, str(kw), how))
    n = kw["n"] if name in M.FIN else 3
    if how == "drawn":
        wm.random(n)
    elif how != "fresh":
        wm.fit(np.arange(5) % n)
        wm.random()
        if how == "reset":
            wm.reset()
    for key, f in reports(wm, n).items():
        ctx.raises(pyrichlet.exceptions.NotFittedError, f, "unfitted-report",
                   call=str(key), model=name, how=how)
        ctx.count("refused-reports")
    wm.fit_variational(np.full((n, 4), 1 / n))
    for key, f in reports(wm, n).items():
        if "mode" in str(key):
            continue                # not unique for some factors
        v = np.asarray(f(), float)
        ctx.check(v.shape == () and not np.isnan(v), "report-after-fit",
                  call=str(key), model=name, got=v)


def init_gibbs(ctx, name, n):
    while True:
        k = X.init_kw(ctx, name, n)
        if k["init_method"] != "variational":
            return k


def guards(ctx):
    name, kw = X.mix_config(ctx)
    y, pk, _ = X.problem(ctx)
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=2, burn_in=0, **pk)
    ctx.case((name, str(kw), y.shape, float(y[0, 0])))
    no_answer(ctx, mm, y, drive.GIBBS_Q + drive.VAR_Q, "fresh-answers")
    if ctx.rng.uniform() < .4:
        # a fit that is refused leaves the object unfitted
        for f in (lambda: mm.fit_gibbs("abc"), lambda: mm.fit_gibbs(
                y, init_method="none"), lambda: mm.fit_variational(3.0)):
            try:
                f()
            except Exception:                               # noqa: BLE001
                ctx.count("refused-fits")
        no_answer(ctx, mm, y, drive.GIBBS_Q + drive.VAR_Q,
                  "answers-after-refused-fit")
    if name in M.VAR and ctx.rng.uniform() < .6:
        K = None if name in M.FIN else 2
        mm.fit_variational(y, n_groups=K)
        no_answer(ctx, mm, y, drive.GIBBS_Q, "answers-with-other-engine")
        mm.fit_variational(y, warm_start=True)
        no_answer(ctx, mm, y, drive.GIBBS_Q, "answers-with-other-engine")
        for q in drive.VAR_Q:
            if q not in ("var_map_density",):
                getattr(mm, q)()
        ctx.count("only-variational")
    else:
        mm.fit_gibbs(y, **init_gibbs(ctx, name, len(y)))
        no_answer(ctx, mm, y, drive.VAR_Q, "answers-with-other-engine")
        mm.fit_gibbs(y, warm_start=True)
        no_answer(ctx, mm, y, drive.VAR_Q, "answers-with-other-engine")
        for q in drive.GIBBS_Q:
            getattr(mm, q)()
        ctx.count("only-gibbs")


def independence(ctx):
    name, kw = X.mix_config(ctx, M.VAR)
    y, pk, _ = X.problem(ctx, n=ctx.pick((3, 6, 12) * 9 + (90,)))
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=ctx.pick((2, 5)),
                    burn_in=ctx.pick((0, 1)), **pk)
    p = drive.Program.__new__(drive.Program)
    p.ctx, p.name, p.kw, p.y = ctx, name, kw, y
    order = ctx.pick(("gibbs", "var"))
    # the data of each engine
    data = {"gibbs": y, "var": y}
    other_data = ctx.rng.uniform() < .5
    if other_data:
        n = y.shape[1] + int(ctx.pick((2, 5, len(y))))
        data[ctx.pick(("gibbs", "var"))] = X.data(
            ctx.rng, y.shape[1], n, "blobs") + y.mean(0)
    ctx.case((name, str(kw), y.shape, order, float(y[0, 0]), other_data))

    def fit(engine, warm):
        x = data[engine]
        if engine == "gibbs":
            k = {"warm_start": True} if warm else init_gibbs(ctx, name,
                                                             len(x))
            mm.fit_gibbs(x.copy(), **k)
        else:
            k = {"warm_start": True} if warm else {
                "n_groups": None if name in M.FIN and ctx.rng.uniform() < .5
                else kw["n"] if name == "DirichletDistribution"
                else ctx.pick((1, 2, 4)),
                "init_method": ctx.pick(("kmeans", "random"))}
            mm.fit_variational(x.copy(), **k)
    fit(order, False)
    fitted = {order}
    for _ in range(int(ctx.rng.integers(2, 5))):
        engine = ctx.pick(("gibbs", "var"))
        other = "var" if engine == "gibbs" else "gibbs"
        qs = []
        if other in fitted:
            qs = [p.query(other == "gibbs", other == "var")
                  for _ in range(6)]
            qs += [((("gibbs" if other == "gibbs" else "var") +
                     "_eap_affinity_matrix"), {"y": None}),
                   (other + "_map_cluster", {"y": None}),
                   (other + "_eap_density", {"y": None}),
                   (other + "_eap_density", {"y": None, "dim": 0})]
        before = [drive.ask(mm, q) for q in qs]
        tr = (drive.gibbs_trace(mm) if other == "gibbs" else
              drive.var_trace(mm)) if other in fitted else None
        # expected weights under the variational factor
        ew = [drive.plain(mm.weight_model.variational_mean_w_j(j))
              for j in range(mm.var_k)] if (other == "var" and
                                            other in fitted) else None
        warm = engine in fitted and ctx.rng.uniform() < .5
        fit(engine, warm)
        fitted.add(engine)
        for q, r in zip(qs, before):
            ctx.check(drive.same(drive.ask(mm, q), r),
                      "other-engine-changed-answers", call=q[0],
                      fitted=engine, warm=warm)
            ctx.count("cross-answers:" + other)
            ctx.count("cross-data" if other_data else "same-data")
        if tr is not None:
            now = (drive.gibbs_trace(mm) if other == "gibbs" else
                   drive.var_trace(mm))
            ctx.check(drive.same(now, tr), "other-engine-changed-trace",
                      fitted=engine, warm=warm)
        if ew is not None:
            ctx.check(drive.same(ew, [drive.plain(
                mm.weight_model.variational_mean_w_j(j))
                for j in range(mm.var_k)]), "other-engine-changed-weights")


SCALE = 2.5     # of the quick tier
SCENARIOS = [("guards", guards, 200, 3000),
             ("reports", weight_reports, 200, 2000),
             ("independence", independence, 300, 6000)]
REQUIRE = {"refused-plots": 60, "refused-reports": 1500,
           "refused": 4000, "only-variational": 30, "only-gibbs": 60,
           "refused-fits": 100, "cross-answers:gibbs": 400,
           "cross-answers:var": 400, "cross-data": 400}

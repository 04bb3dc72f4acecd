"""C24: caller data and fitted state never alias."""
import copy
import numpy as np
import pandas as pd
from pv import models as M
from pv import mix as X

RULE = ("fits and queries with every mutable representation of data, priors, "
        "labels and responsibilities: the inputs are compared with copies "
        "after every call, then overwritten, and the model's answers and its "
        "further sampling compared with those of an untouched twin; a case is "
        "one model and representation")
ASSUMPTIONS = []


def forms(y):
    out = [("array", y.copy()), ("list", y.tolist()),
           ("frame", pd.DataFrame(y.copy())),
           ("fortran", np.asfortranarray(y)),
           ("view", np.hstack([y, y])[:, :y.shape[1]])]
    if y.shape[1] == 1:
        out += [("flat", y[:, 0].copy()), ("series", pd.Series(y[:, 0].copy(
        ))), ("flat-list", y[:, 0].tolist())]
    return out


def same(a, b):
    if isinstance(a, list):
        return a == b
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b) and list(a.index) == list(b.index)
    return np.array_equal(a, b)


def scramble(rep):
    """Overwrites the caller's object in place"""
    if isinstance(rep, list):
        for i in range(len(rep)):
            if isinstance(rep[i], list):
                for j in range(len(rep[i])):
                    rep[i][j] = 1e3 + i * 7 + j
            else:
                rep[i] = 1e3 + i * 7
    elif isinstance(rep, pd.DataFrame):
        rep.iloc[:, :] = 1e3
        rep.columns = ["z%d" % i for i in range(rep.shape[1])]
    elif isinstance(rep, pd.Series):
        rep.iloc[:] = 1e3
    else:
        rep *= -3
        rep += 1e3


def gibbs_answers(mm, q):
    return [mm.gibbs_eap_density(), mm.gibbs_eap_density(q),
            mm.gibbs_map_density(), mm.gibbs_map_density(q),
            mm.gibbs_map_cluster(), mm.gibbs_map_cluster(q, full=True)[1],
            mm.gibbs_eap_affinity_matrix(), mm.gibbs_eap_affinity_matrix(q)]


def var_answers(mm, q):
    return [mm.var_eap_density(), mm.var_eap_density(q),
            mm.var_map_cluster(), mm.var_map_cluster(q, full=True)[1],
            mm.var_eap_affinity_matrix(), mm.var_eap_affinity_matrix(q)]


def equal(a, b):
    return len(a) == len(b) and all(np.array_equal(
        np.asarray(x), np.asarray(z), equal_nan=True) for x, z in zip(a, b))


def snapshot(xs):
    return [np.array(x) for x in xs]


def mixture(ctx):
    gibbs = ctx.rng.uniform() < .5
    name, kw = X.mix_config(ctx, None if gibbs else M.VAR)
    y, pk, par = X.problem(ctx)
    if ctx.rng.uniform() < .5:
        pk = {"mu_prior": np.array(par[0]), "psi_prior": np.array(par[2]),
              "nu_prior": par[3], "lambda_prior": par[1]}
        if ctx.rng.uniform() < .5:
            pk["mu_prior"] = list(map(float, pk["mu_prior"]))
            pk["psi_prior"] = [list(map(float, r)) for r in pk["psi_prior"]]
    seed = int(ctx.rng.integers(2 ** 40))
    init = X.init_kw(ctx, name, len(y))
    K = None if name in M.FIN else 3
    qv = X.queries(ctx, y)
    nm, rep = ctx.pick(forms(y))
    qn, q = ctx.pick(forms(qv))
    ctx.case((name, str(kw), gibbs, nm, qn, float(y[0, 0]), seed))

    def run(data, priors, warm=None, alpha=None):
        if warm is None:
            k2 = dict(kw)
            if alpha is not None:
                k2["alpha"] = alpha
            mm = M.make_mix(name, k2, np.random.default_rng(seed),
                            total_iter=4, burn_in=1, **priors)
        else:
            mm = warm
        extra = {"warm_start": True} if warm is not None else (
            init if gibbs else {"n_groups": K})
        if gibbs:
            mm.fit_gibbs(data, **extra)
        else:
            mm.fit_variational(data, **extra)
        return mm
    mine = copy.deepcopy(pk)
    alpha = None
    if isinstance(kw.get("alpha"), (list, tuple)):
        alpha = ctx.pick((list, np.array))(list(kw["alpha"]))
    before, pbefore = copy.deepcopy(rep), copy.deepcopy(mine)
    abefore = copy.deepcopy(alpha)
    mm = run(rep, mine, alpha=alpha)
    twin = run(copy.deepcopy(rep), copy.deepcopy(pk))
    ask = gibbs_answers if gibbs else var_answers
    ctx.check(same(rep, before), "fit-modifies-data", form=nm)
    qb = copy.deepcopy(q)
    want = snapshot(ask(mm, q))
    ctx.check(same(q, qb), "query-modifies-data", form=qn)
    ctx.check(same(rep, before), "query-modifies-data", form=nm)
    for k in pbefore:
        ctx.check(np.array_equal(pbefore[k], mine[k]), "modifies-prior",
                  prior=k)
    if alpha is not None:
        ctx.check(np.array_equal(alpha, abefore), "modifies-prior",
                  prior="alpha")
    # the answers of the twin, queried with other copies
    ctx.check(equal(want, snapshot(ask(twin, qb))), "twin-answers")
    # the caller overwrites everything
    scramble(rep)
    for k in ("mu_prior", "psi_prior"):
        if isinstance(mine.get(k), (list, np.ndarray)):
            scramble(mine[k])
            ctx.count("priors-overwritten")
    if alpha is not None:
        for i in range(len(alpha)):
            alpha[i] = 50.0
        ctx.count("alpha-overwritten")
    scramble(q)
    ctx.check(equal(want, snapshot(ask(mm, qb))), "overwritten-data", form=nm,
              query=qn, gibbs=gibbs)
    # and sampling continues as if nothing had happened
    run(copy.deepcopy(before), None, mm)
    run(copy.deepcopy(before), None, twin)
    ctx.check(equal(snapshot(ask(mm, qb)), snapshot(ask(twin, qb))),
              "overwritten-prior", form=nm, gibbs=gibbs)
    if ctx.rng.uniform() < .5:
        # cold refits too
        z = y + 1.0
        for m in (mm, twin):
            if gibbs:
                m.fit_gibbs(z, **init)
            else:
                m.fit_variational(z, n_groups=K)
        ctx.check(equal(snapshot(ask(mm, qb)), snapshot(ask(twin, qb))),
                  "overwritten-prior-refit", gibbs=gibbs)
    ctx.count("gibbs" if gibbs else "variational")


def weights(ctx):
    name = ctx.pick(M.ALL)
    kw = M.config(ctx.rng, name, True)
    if name == "GeometricProcess" or name == "BetaInBeta":
        kw["a"] = max(1, kw["a"])
    seed = int(ctx.rng.integers(2 ** 40))
    d = M.labels(ctx.rng, kw["n"] if name in M.FIN else 5, 10)
    form = ctx.pick(("array", "list", "series", "int32"))
    rep = {"array": d.copy(), "list": d.tolist(), "series": pd.Series(d),
           "int32": d.astype(np.int32)}[form]
    before = copy.deepcopy(rep)
    ctx.case((name, str(kw), form, d.tolist(), seed))
    wm = M.make(name, kw, np.random.default_rng(seed))
    tw = M.make(name, kw, np.random.default_rng(seed))
    wm.fit(rep)
    tw.fit(copy.deepcopy(rep))
    a, b = wm.random(), tw.random()
    ctx.check(np.array_equal(a, b), "twin-weights")
    ll = wm.assignation_log_likelihood(rep)
    ctx.check(same(rep, before), "labels-modified", form=form)
    if form == "series":
        rep.iloc[:] = 0
    else:
        for i in range(len(rep)):
            rep[i] = 0
    ctx.check(np.array_equal(wm.get_weights(), tw.get_weights()),
              "overwritten-labels", form=form)
    ctx.close(wm.assignation_log_likelihood(), ll, "overwritten-labels")
    tw.assignation_log_likelihood(copy.deepcopy(before))
    tw.assignation_log_likelihood()
    ctx.check(np.array_equal(wm.random(), tw.random()), "overwritten-labels",
              form=form)
    ctx.count("weights")
    if name not in M.VAR:
        return
    K = kw["n"] if name in M.FIN else 3
    r = ctx.rng.dirichlet(np.ones(K), size=6).T
    form = ctx.pick(("array", "fortran", "transposed"))
    rep = {"array": r.copy(), "fortran": np.asfortranarray(r),
           "transposed": np.array(r.T).T}[form]
    before = copy.deepcopy(rep)
    wm.fit_variational(rep)

    def ask():
        return [wm.variational_mean_w_j(j) for j in range(K)] + [
            wm.variational_mean_log_w_j(j) for j in range(K)] + [
            wm.variational_mean_log_p_d__w(), wm.variational_mean_log_p_w(),
            wm.variational_mean_log_q_w()]
    want = snapshot(ask())
    other = ctx.rng.dirichlet(np.ones(K), size=6).T
    ob = other.copy()
    wm.variational_mean_log_p_d__w(variational_d=other)
    ctx.check(np.array_equal(other, ob), "responsibilities-modified")
    ctx.check(same(rep, before), "responsibilities-modified", form=form)
    scramble(rep)
    ctx.check(equal(snapshot(ask()), want), "overwritten-responsibilities",
              form=form)
    ctx.count("responsibilities")


SCALE = 4     # of the quick tier
SCENARIOS = [("mixtures", mixture, 260, 5000), ("weights", weights, 300,
                                                5000)]
REQUIRE = {"gibbs": 100, "variational": 100, "weights": 300,
           "responsibilities": 120, "priors-overwritten": 60}

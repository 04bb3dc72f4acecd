"""C13: saved Gibbs states are complete, valid and correctly counted."""
import numpy as np
from pv import models as M
from pv import mix as X

RULE = ("chains of cold and warm Gibbs fits with random iteration settings, "
        "models, data and initializations; after each fit the whole saved "
        "trace is audited; a case is one chain of fits")
ASSUMPTIONS = []


def audit(ctx, s, y):
    n, D = y.shape
    d, u, w, th = (np.asarray(s["d"]), np.asarray(s["u"], float),
                   np.asarray(s["w"], float), s["theta"])
    ok = ctx.check(d.shape == (n,) and d.dtype.kind in "iu", "one-label-each",
                   d=d)
    ok &= ctx.check(u.shape == (n,), "one-slice-each", u=u)
    ok &= ctx.check(w.ndim == 1 and len(w) > 0 and np.all(np.isfinite(w)) and
                    np.all(w >= 0) and w.sum() <= 1 + 1e-9, "weights", w=w)
    if not ok:
        return
    if not ctx.check(d.min() >= 0 and d.max() < len(w), "label-range", d=d,
                     k=len(w)):
        return
    ctx.check(np.all(w[d] > 0), "label-weight-positive", d=d, w=w[d])
    ctx.check(np.all(u > 0) and np.all(w[d] > u), "label-above-slice", d=d,
              u=u, w=w[d])
    ctx.check(1 - w.sum() <= u.min() + 1e-9, "slices-covered", s=w.sum(),
              u=u.min())
    for j in range(len(w)):
        if not ctx.check(j in th, "atom-for-each-weight", j=j):
            return
        m, c = np.asarray(th[j][0], float), np.asarray(th[j][1], float)
        if not ctx.check(m.shape == (D,) and c.shape == (D, D), "atom-shape",
                         m=m, c=c):
            return
        ctx.check(np.all(np.isfinite(m)) and np.all(np.isfinite(c)),
                  "atom-finite", m=m, c=c)
        ctx.check(np.allclose(c, c.T, rtol=1e-8), "atom-symmetric", c=c)
        sd = np.sqrt(np.maximum(np.diag(c), 0))
        ctx.check(np.all(sd > 0) and np.linalg.eigvalsh(
            (c + c.T) / 2 / np.outer(sd, sd))[0] > -1e-10,
            "atom-positive-definite", c=c)
    ctx.count("atoms", len(w))


def wide(ctx):
    name, kw, y, pk, par, K = X.wide(ctx)
    chain(ctx, (name, kw, y, pk, par))
    ctx.count("wide")


def chain(ctx, given=None):
    if given is None:
        name, kw = X.mix_config(ctx)
        y, pk, par = X.problem(ctx)
    else:
        name, kw, y, pk, par = given
    total = ctx.pick((1, 2, 5, 9, 16) if given is None else (1, 3))
    burn = ctx.pick((0, 0, total // 2, total - 1))
    sub = ctx.pick((1, 1, 2, 3, 7, 20))
    per = -(-(total - burn) // sub)
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=total, burn_in=burn,
                    subsample_steps=sub, **pk)
    plan, expected, kept = [], 0, []
    for i in range(ctx.pick((1, 2, 3, 4))):
        warm = i > 0 and ctx.rng.uniform() < .65
        if i and not warm and given is None and ctx.rng.uniform() < .5:
            # other data, with the same dimension
            y = X.data(ctx.rng, y.shape[1], y.shape[1] + int(ctx.pick((3, 4, 6))), "blobs")
        init = {} if warm else X.init_kw(ctx, name, len(y))
        plan.append((warm, len(y), str(init)))
        ctx.case((name, str(kw), total, burn, sub, str(plan),
                  float(y[0, 0])))
        before = [X.freeze(s) for s in mm.get_sim_params()]
        held = list(mm.get_sim_params())
        mm.fit_gibbs(y, warm_start=warm, **init)
        # the states saved earlier never change
        for a, b in zip(before, held):
            ctx.check(X.same_state(a, b), "saved-state-changed")
        expected = per + (expected if warm else 0)
        states = mm.get_sim_params()
        if not ctx.check(len(states) == expected, "saved-count",
                         got=len(states), want=expected, settings=(
                             total, burn, sub), warm=warm):
            return
        if warm:
            for a, b in zip(before, states):
                ctx.check(X.same_state(a, b), "warm-start-keeps-states")
            ctx.count("warm")
        ctx.check(mm.total_saved_steps == expected, "total-saved-steps",
                  got=mm.total_saved_steps, want=expected)
        ng, na = list(mm.get_n_groups()), list(mm.get_n_theta())
        ctx.check(ng == [len(np.unique(s["d"])) for s in states], "n-groups",
                  got=ng)
        ctx.check(na == [len(s["theta"]) for s in states], "n-theta", got=na)
        A = sum((np.asarray(s["d"])[:, None] == np.asarray(s["d"])[None, :])
                .astype(float) for s in states)
        ctx.close(mm.affinity_matrix, A, "affinity-counts", 0, 1e-9)
        for s in states:
            audit(ctx, s, y)
        ctx.count("states", len(states))
        ctx.count("fits")
        snap = [X.freeze(s) for s in states]
        # querying does not change saved states either
        mm.gibbs_eap_density(y)
        mm.gibbs_map_cluster(y)
        mm.gibbs_eap_affinity_matrix()
        for a, b in zip(snap, mm.get_sim_params()):
            ctx.check(X.same_state(a, b), "saved-state-changed")
        # nor do states share storage with one another
        if len(states) > 1:
            i, j = ctx.rng.choice(len(states), 2, replace=False)
            ctx.check(states[i] is not states[j] and not np.shares_memory(
                np.asarray(states[i]["d"]), np.asarray(states[j]["d"])),
                "states-independent")


def cancelled(ctx):
    """Cold refits on data of another size and dimension"""
    name, kw = X.mix_config(ctx)
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=6, burn_in=ctx.pick((0, 2)),
                    subsample_steps=ctx.pick((1, 2)))
    for D, n in ((1, 6), (2, 9), (3, 7)):
        y = ctx.rng.normal(size=(n, D)) * ctx.pick((1, 10))
        ctx.case((name, str(kw), D, n, y.tolist()))
        mm.fit_gibbs(y, **X.init_kw(ctx, name, n))
        per = -(-(6 - mm.burn_in) // mm.subsample_steps)
        states = mm.get_sim_params()
        ctx.check(len(states) == per == mm.total_saved_steps, "saved-count",
                  got=len(states))
        ctx.check(len(mm.get_n_groups()) == len(mm.get_n_theta()) == per,
                  "summary-count")
        ctx.check(np.shape(mm.affinity_matrix) == (n, n), "affinity-shape")
        ctx.check(np.allclose(np.diag(mm.affinity_matrix), per),
                  "affinity-counts")
        for s in states:
            audit(ctx, s, y)
        ctx.count("states", len(states))
        ctx.count("fits")


SCALE = 4     # of the quick tier
SCENARIOS = [("chains", chain, 260, 5000), ("refits", cancelled, 60, 1200),
             ("wide", wide, 4, 60)]
REQUIRE = {"states": 2000, "fits": 500, "warm": 150, "atoms": 10000}

"""C23: equivalent data representations give identical results."""
import numpy as np
import pandas as pd
from pv import models as M
from pv import mix as X

RULE = ("identically seeded fits of one data set given in every accepted "
        "representation, and one fitted model queried with every accepted "
        "representation of the same points; answers are compared pairwise; a "
        "case is one data set and model")
ASSUMPTIONS = ["only numeric types that represent the values exactly are "
               "used"]
REJECTED = [("tuple", lambda y: tuple(map(tuple, y.tolist()))),
            ("string", lambda y: "1.0"), ("dict", lambda y: {0: 1.0}),
            ("set", lambda y: {1.0, 2.0}), ("object", lambda y: object()),
            ("generator", lambda y: (r for r in y.tolist())),
            ("range", lambda y: range(len(y))),
            ("complex", lambda y: 1j),
            ("bytes", lambda y: b"1")]


def forms(rng, y, single=False):
    """(name, representation) of the same observations"""
    n, D = y.shape
    out = [("array", y.copy()), ("nested-list", y.tolist()),
           ("list-of-arrays", [r.copy() for r in y]),
           ("fortran", np.asfortranarray(y)),
           ("strided", np.repeat(np.repeat(y, 2, 0), 3, 1)[::2, ::3]),
           ("reversed-view", y[::-1].copy()[::-1]),
           ("transposed", y.T.copy().T),
           ("float32", y.astype(np.float32)),
           ("float16", y.astype(np.float16)),
           ("frame", pd.DataFrame(y)),
           ("frame-names", pd.DataFrame(
               y, index=["r%d" % i for i in rng.permutation(n)],
               columns=["c%d" % i for i in rng.permutation(D)])),
           ("frame-index", pd.DataFrame(y, index=rng.permutation(n) + 5,
                                        columns=np.arange(D)[::-1])),
           ("frame-float32", pd.DataFrame(y.astype(np.float32))),
           ("frame-dup-index", pd.DataFrame(y, index=np.zeros(n, int)))]
    ro = y.copy()
    ro.setflags(write=False)
    out.append(("read-only", ro))
    if np.array_equal(y, np.round(y)):
        out += [("int64", y.astype(np.int64)),
                ("int-list", y.astype(int).tolist()),
                ("int-frame", pd.DataFrame(y.astype(np.int64)))]
        if np.abs(y).max() < 2 ** 31:
            out += [("int32-frame", pd.DataFrame(y.astype(np.int32)))]
        if np.abs(y).max() < 30000:
            out += [("int16", y.astype(np.int16))]
        if y.min() >= 0 and y.max() < 256:
            out += [("uint8", y.astype(np.uint8))]
        if y.min() >= 0:
            out += [("uint64", y.astype(np.uint64)),
                    ("frame-uint64", pd.DataFrame(y.astype(np.uint64)))]
    if D == 1:
        f = y[:, 0]
        out += [("flat-array", f.copy()), ("flat-list", f.tolist()),
                ("flat-strided", np.repeat(f, 3)[::3]),
                ("series", pd.Series(f)),
                ("series-named", pd.Series(
                    f, index=rng.permutation(n) + 3, name="height")),
                ("series-float32", pd.Series(f.astype(np.float32))),
                ("column-of-frame", pd.DataFrame({"a": f, "b": f})["a"]),
                ("flat-list-np", list(f))]
        if np.array_equal(y, np.round(y)):
            out += [("flat-int", f.astype(np.int64)),
                    ("series-int", pd.Series(f.astype(int)))]
    else:
        out += [("mixed-frame", pd.DataFrame(
            {"c%d" % i: (y[:, i].astype(np.float32) if i % 2 else y[:, i])
             for i in range(D)}))]
    return [(nm, rep) for nm, rep in out if np.array_equal(
        np.asarray(rep, float).ravel(), y.ravel())]


KINDS = ("coarse", "coarse", "coarse", "single", "double", "offset", "large",
         "tiny", "wide")


def exact(rng, D, n, kind="coarse"):
    """Values on a coarse grid, exact in half precision; or else values that
    take single or double precision or 64-bit integers"""
    if kind != "coarse":
        y = rng.normal(size=(n, D)) * 8 + rng.integers(0, 3, size=(n, 1)) * 24
        if kind == "single":
            return y.astype(np.float32).astype(float)
        if kind == "offset":
            return y + 3e6
        if kind == "large":
            return np.round(y * 16) + 2. ** 33
        if kind == "wide":
            return y * 10. ** np.array([6, -3, 3])[:D]
        return y * (1 if kind == "double" else 1e-4)
    y = np.round(rng.normal(size=(n, D)) * 8 + rng.integers(0, 3, size=(
        n, 1)) * 24) / 4
    if rng.uniform() < .4:
        y = np.abs(np.round(y))
    return y


def answers(mm, gibbs, q):
    if gibbs:
        g, u = mm.gibbs_map_cluster(q, full=True)
        return [("eap", mm.gibbs_eap_density(q)),
                ("map", mm.gibbs_map_density(q)), ("cluster", g),
                ("uncertainty", u), ("plain", mm.gibbs_map_cluster(q)),
                ("affinity", mm.gibbs_eap_affinity_matrix(q))]
    g, u = mm.var_map_cluster(q, full=True)
    return [("eap", mm.var_eap_density(q)), ("cluster", g),
            ("uncertainty", u), ("plain", mm.var_map_cluster(q)),
            ("affinity", mm.var_eap_affinity_matrix(q))]


def agree(ctx, got, want, key, **data):
    for (a, x), (b, z) in zip(got, want):
        if np.shape(x) != np.shape(z):
            ctx.check(False, "%s:%s" % (key, a), shape=np.shape(x),
                      want=np.shape(z), **data)
        else:
            ctx.close(x, z, "%s:%s" % (key, a), 1e-9, 1e-12, **data)


def setup(ctx, names=None):
    while True:
        D, n = ctx.pick((1, 1, 2, 3)), ctx.pick((5, 8, 14))
        kind = ctx.pick(KINDS)
        y = exact(ctx.rng, D, n, kind)
        S = np.atleast_2d(np.cov(y.T))
        sd = y.std(0)
        if np.all(sd > 0) and X.well_conditioned(S / np.outer(sd, sd), 1e4):
            ctx.count("values:" + kind)
            break
    name, kw = X.mix_config(ctx, names)
    pk = {} if ctx.rng.uniform() < .6 else X.priors(ctx.rng, y)[0]
    return name, kw, y, pk, kind


def fits(ctx):
    gibbs = ctx.rng.uniform() < .5
    name, kw, y, pk, kind = setup(ctx, None if gibbs else M.VAR)
    seed = int(ctx.rng.integers(2 ** 40))
    init = X.init_kw(ctx, name, len(y))
    K = None if name in M.FIN else 3
    ctx.case((name, str(kw), gibbs, y.tolist(), str(init)))

    def run(rep):
        mm = M.make_mix(name, kw, np.random.default_rng(seed), total_iter=5,
                        burn_in=1, **pk)
        if gibbs:
            mm.fit_gibbs(rep, **init)
        else:
            mm.fit_variational(rep, n_groups=K)
        return mm
    base = run(y.copy())
    q = exact(ctx.rng, y.shape[1], 4, kind)
    want = answers(base, gibbs, q) + answers(base, gibbs, None)
    for nm, rep in forms(ctx.rng, y):
        mm = run(rep)
        agree(ctx, answers(mm, gibbs, q) + answers(mm, gibbs, None), want,
              "fit", form=nm, gibbs=gibbs)
        if gibbs:
            ctx.check(len(mm.sim_params) == len(base.sim_params) and all(
                np.array_equal(a["d"], b["d"]) and np.allclose(
                    a["w"], b["w"], 1e-9) for a, b in zip(
                    mm.sim_params, base.sim_params)), "fit:states", form=nm)
        ctx.count("fits")
    nm, make = ctx.pick(REJECTED + [("none", lambda y: None), (
        "scalar", lambda y: 1.0)])
    ctx.raises(TypeError, lambda: run(make(y)), "fit-rejects", form=nm)
    ctx.count("models")


def queries(ctx):
    name, kw, y, pk, kind = setup(ctx)
    D = y.shape[1]
    var = name in M.VAR
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=4, burn_in=1, **pk)
    mm.fit_gibbs(y, **X.init_kw(ctx, name, len(y)))
    if var:
        mm.fit_variational(y, n_groups=None if name in M.FIN else 3)
    ctx.case((name, str(kw), y.tolist(), "queries"))
    q = exact(ctx.rng, D, ctx.pick((1, 3, 6)), kind)
    for gibbs in (True, False)[:1 + var]:
        want = answers(mm, gibbs, q)
        for nm, rep in forms(ctx.rng, q):
            agree(ctx, answers(mm, gibbs, rep), want, "query", form=nm,
                  gibbs=gibbs)
            ctx.count("queries")
        # scalars
        if D == 1:
            v = float(q[0, 0])
            one = answers(mm, gibbs, [v])
            scal = [v, np.float64(v)]
            if float(np.float32(v)) == float(v):
                scal += [np.float32(v)]
            if v == round(v) and abs(v) > 30000:
                scal += [int(v), np.int64(v)]
            elif v == round(v):
                scal += [int(v), np.int64(v), np.int16(v)]
            for s in scal:
                agree(ctx, answers(mm, gibbs, s), one, "scalar",
                      form=type(s).__name__)
                ctx.count("scalars")
        else:
            # marginals
            dim = int(ctx.rng.integers(D))
            dens = [mm.gibbs_eap_density, mm.gibbs_map_density] if gibbs else [
                mm.var_eap_density]
            for f in dens:
                want = f(q[:, dim].copy(), dim=dim)
                for nm, rep in forms(ctx.rng, q[:, [dim]]):
                    ctx.close(f(rep, dim=dim), want, "marginal", 1e-9, 1e-12,
                              form=nm)
                    ctx.count("queries")
                v = float(q[0, dim])
                ctx.close(f(v, dim=dim), want[:1], "marginal-scalar", 1e-9,
                          1e-12)
        methods = [mm.gibbs_eap_density, mm.gibbs_map_density,
                   mm.gibbs_map_cluster, mm.gibbs_eap_affinity_matrix,
                   mm.gibbs_eap_spectral_consensus_cluster] if gibbs else [
            mm.var_eap_density, mm.var_map_density, mm.var_map_cluster,
            mm.var_eap_affinity_matrix,
            mm.var_eap_spectral_consensus_cluster]
        for f in methods:
            nm, make = ctx.pick(REJECTED)
            ctx.raises(TypeError, lambda: f(make(q)), "query-rejects",
                       form=nm, method=f.__name__)
            ctx.count("rejections")
    ctx.count("models")


SCALE = 1.5     # of the quick tier
SCENARIOS = [("fits", fits, 70, 1500), ("queries", queries, 120, 2500)]
REQUIRE = {"models": 180, "fits": 1000, "queries": 3000, "scalars": 150,
           "rejections": 700, **{"values:" + k: 5 for k in KINDS}}

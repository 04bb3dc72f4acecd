"""C34: the units and origin of the data do not matter."""
import numpy as np

from pv import models as M
from pv import mix as X

RULE = ("identically seeded fits of y and of s*y+t with the prior parameters "
        "given in the same units (or deduced from the data), s a power of two "
        "of either sign and as far as the densities and covariances remain in range; labels, weights, slices and "
        "groups compared exactly, parameters, densities and log-likelihoods "
        "after conversion of units; a case is one model, data set, conversion "
        "and engine")
ASSUMPTIONS = ["multiplying by a power of two is exact, so the conversion of "
               "scale leaves every rounding error the same; shifts are judged "
               "with a tolerance and for few steps"]


def convert(ctx, D):
    """(s, t, exact)"""
    kind = ctx.pick(("small", "large", "huge", "tiny", "shift", "both",
                     "small", "large", "far", "range", "range"))
    s, t = 1.0, np.zeros(D)
    if kind in ("small", "both"):
        s = 2.0 ** -int(ctx.rng.integers(1, 20))
    if kind == "large":
        s = 2.0 ** int(ctx.rng.integers(1, 20))
    if kind == "huge":
        s = 2.0 ** int(ctx.rng.integers(20, 60))
    if kind == "tiny":
        s = 2.0 ** -int(ctx.rng.integers(20, 60))
    if kind == "range":
        # as far as the densities themselves remain in range
        s = 2.0 ** (ctx.pick((-1, 1)) * int(ctx.rng.integers(60, 901) // max(
            D, 2)))
    if kind == "far":
        # far from the origin compared with the spread
        t = ctx.rng.choice([-1, 1, 3], size=D) * 2.0 ** ctx.pick(
            (12, 20, 24)) + 0.
    if kind in ("shift", "both"):
        t = ctx.rng.choice([-64., -5, 7, 100], size=D) * s
    return s, t, kind not in ("shift", "both", "far")


def setup(ctx, names=None):
    name, kw = X.mix_config(ctx, names)
    while True:
        y, pk, par = X.problem(ctx, n=ctx.pick((3, 5, 8, 15) * 6 + (90,)),
                               kind=ctx.pick(("blobs", "one", "corr")))
        # rounding must not decide anything
        if X.well_conditioned(par[2], 1e3):
            break
    s, t, exact = convert(ctx, y.shape[1])
    if np.abs(t).max() > 1000 * s:
        # (so that the shift does not round the data itself)
        t = t * 2.0 ** np.round(np.log2(y.std(0)))
        u = np.abs(t) * 2.0 ** -44
        y = np.round(y / u) * u
        ctx.count("far")
    pz = dict(pk)
    if "mu_prior" in pz:
        pz["mu_prior"] = pz["mu_prior"] * s + t
    if "psi_prior" in pz:
        pz["psi_prior"] = pz["psi_prior"] * s * s
    return name, kw, y, pk, y * s + t, pz, s, t, exact


def tol(exact):
    return 1e-12 if exact else 1e-5


def compare(ctx, a, b, key, exact, **d):
    if exact:
        ctx.close(b, a, key, 1e-9, 0, **d)
    else:
        ctx.close(b, a, key, 1e-5, 1e-5, **d)


def gibbs(ctx):
    name, kw, y, pk, z, pz, s, t, exact = setup(ctx)
    init = X.init_kw(ctx, name, len(y))
    if not exact:
        # (k-means numbers groups of one size in an arbitrary order)
        init["init_method"] = "random"
        init["init_groups"] = 2
    T = int(ctx.pick((1, 3, 8))) if exact else 2
    seed = int(ctx.rng.integers(2 ** 40))
    ctx.case((name, str(kw), y.shape, s, t.tolist(), str(init), seed))
    n, D = y.shape
    out = []
    for data, prior in ((y, pk), (z, pz)):
        mm = M.make_mix(name, kw, np.random.default_rng(seed), burn_in=0,
                        total_iter=T, **prior)
        mm.fit_gibbs(data, **init)
        out.append(mm)
    a, b = out
    for i, (p, q) in enumerate(zip(a.get_sim_params(), b.get_sim_params())):
        ctx.check(np.array_equal(p["d"], q["d"]), "labels", step=i, s=s, t=t)
        if not ctx.check(np.shape(p["w"]) == np.shape(q["w"]),
                         "number-of-weights", step=i, s=s, t=t):
            return
        compare(ctx, p["u"], q["u"], "slices", exact, step=i)
        compare(ctx, p["w"], q["w"], "weights", exact, step=i)
        for j in range(len(p["w"])):
            m, c = p["theta"][j]
            m2, c2 = q["theta"][j]
            sd = np.sqrt(np.diag(np.atleast_2d(c)))
            compare(ctx, np.ravel(m) / sd,
                    (np.ravel(m2) - t) / s / sd, "means", exact,
                    step=i, j=j, s=s)
            compare(ctx, np.atleast_2d(c) / np.outer(sd, sd),
                    np.atleast_2d(c2) / s / s / np.outer(sd, sd),
                    "covariances", exact, step=i, j=j, s=s)
    r = 1e-9 if exact else 1e-5
    ctx.close(b.map_log_likelihood + n * D * np.log(s), a.map_log_likelihood,
              "map-log-likelihood", r, r * (1 + n * D * abs(np.log(s))))
    q = y.mean(0) + y.std(0) * ctx.rng.normal(size=(5, D)) * 2
    f = s ** D
    for nm in ("gibbs_eap_density", "gibbs_map_density"):
        ga, gb = getattr(a, nm)(q), getattr(b, nm)(q * s + t) * f
        ctx.close(gb, ga, nm, r, r * ga.max(), s=s)
    ctx.check(np.array_equal(a.gibbs_map_cluster(q),
                             b.gibbs_map_cluster(q * s + t)), "clusters", s=s)
    ctx.close(b.gibbs_eap_affinity_matrix(), a.gibbs_eap_affinity_matrix(),
              "affinity", s=s)
    ctx.count("exact" if exact else "shifted")


def variational(ctx):
    name, kw, y, pk, z, pz, s, t, exact = setup(ctx, M.VAR)
    K = kw["n"] if name in M.FIN and name == "DirichletDistribution" else \
        int(ctx.pick((1, 2, 3)))
    init = {"n_groups": K, "init_method": ctx.pick(("kmeans", "random"))}
    if not exact:
        init["init_method"] = "random"
    T = int(ctx.pick((1, 3, 12))) if exact else 2
    seed = int(ctx.rng.integers(2 ** 40))
    ctx.case((name, str(kw), y.shape, s, t.tolist(), str(init), seed))
    n, D = y.shape
    out = []
    for data, prior in ((y, pk), (z, pz)):
        mm = M.make_mix(name, kw, np.random.default_rng(seed), burn_in=0,
                        total_iter=T, **prior)
        mm.fit_variational(data, tol=-1.0, **init)
        out.append(mm)
    a, b = out
    r = 1e-8 if exact else 1e-5
    ctx.close(b.var_d, a.var_d, "responsibilities", r, r, s=s)
    sd = y.std(0)
    for j, (p, q) in enumerate(zip(a.var_theta, b.var_theta)):
        ctx.close((q[0] - t) / s / sd, p[0] / sd, "factor-mean", r, r, s=s)
        ctx.close(q[1], p[1], "factor-lambda", r, s=s)
        ctx.close(q[2] * s * s * np.outer(sd, sd), p[2] * np.outer(sd, sd),
                  "factor-precision", r, r, s=s)
        ctx.close(q[3], p[3], "factor-nu", r, s=s)
    q = y.mean(0) + y.std(0) * ctx.rng.normal(size=(5, D)) * 2
    f = s ** D
    for nm in ("var_eap_density", "var_map_density"):
        if nm == "var_map_density":
            wref = M.VarRef(name, kw, a.var_d)
            if any(wref.mode(j) is None for j in range(len(a.var_theta))):
                continue
            if min(th[3] for th in a.var_theta) <= D + 1e-6:
                continue
        ga, gb = getattr(a, nm)(q), getattr(b, nm)(q * s + t) * f
        ctx.close(gb, ga, nm, r, r * ga.max(), s=s)
    ca, cb = (m.var_map_cluster(x, full=True) for m, x in (
        (a, q), (b, q * s + t)))
    ctx.close(cb[1], ca[1], "uncertainty", r, r, s=s)
    sure = ca[1] < .49
    ctx.check(np.array_equal(ca[0][sure], cb[0][sure]), "clusters", s=s)
    ctx.close(b.var_eap_affinity_matrix(q * s + t),
              a.var_eap_affinity_matrix(q), "affinity", r, r, s=s)
    ctx.count("var-exact" if exact else "var-shifted")


SCALE = 6     # of the quick tier
SCENARIOS = [("gibbs", gibbs, 300, 4000), ("variational", variational, 150,
                                           2500)]
REQUIRE = {"exact": 600, "shifted": 150, "var-exact": 300, "var-shifted": 100,
           "far": 100}

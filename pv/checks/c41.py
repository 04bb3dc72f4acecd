"""C41: order of observations and features, and coordinates, do not matter."""
import numpy as np
from sklearn.cluster import KMeans

from pv import models as M
from pv import mix as X

RULE = ("pairs of fits of the same data with the observations or features "
        "reordered, or in other affine coordinates (units of each feature, "
        "rotations, reflections, shears) with the prior parameters converted "
        "or deduced; variational fits compared exactly after conversion, "
        "Gibbs fits in law through sign tests of functions of the visited "
        "states over independent pairs; a case is one model, data set and "
        "change of coordinates")
ASSUMPTIONS = ["variational pairs are only judged where k-means itself finds "
               "the same groups, of distinct sizes, in both coordinates "
               "(decided by the harness with several k-means runs)"]


def change(ctx, D):
    """(A, t): new coordinates A y + t"""
    kind = ctx.pick(("order", "units", "rotation", "reflection", "shear",
                     "affine"))
    A = np.eye(D)
    if kind == "order":
        A = A[ctx.rng.permutation(D)]
    elif kind == "units":
        A = np.diag(10.0 ** ctx.rng.uniform(-2, 2, D))
    elif kind == "rotation":
        A = np.linalg.qr(ctx.rng.normal(size=(D, D)))[0]
    elif kind == "reflection":
        A = np.diag(ctx.rng.choice([-1., 1.], size=D))
    elif kind == "shear":
        A = A + np.tril(ctx.rng.normal(size=(D, D)), -1)
    else:
        while True:
            A = ctx.rng.normal(size=(D, D))
            if np.linalg.cond(A) < 20:
                break
    t = ctx.rng.normal(size=D) * 5 if ctx.rng.uniform() < .5 else np.zeros(D)
    return A, t, kind


def converted(pk, A, t):
    pz = dict(pk)
    if "mu_prior" in pz:
        pz["mu_prior"] = A @ pz["mu_prior"] + t
    if "psi_prior" in pz:
        S = A @ np.asarray(pz["psi_prior"]) @ A.T
        pz["psi_prior"] = (S + S.T) / 2
    return pz


def groups(y, k):
    """The k-means groups by decreasing size, or None if not clear-cut: they
    are what nearly every single start finds"""
    if k > len(y):
        return None
    found = {}
    for s in range(26):
        km = KMeans(n_clusters=k, n_init=1, random_state=s).fit(y)
        key = X.canon(km.labels_)
        found.setdefault(key, [0, km.inertia_])[0] += 1
    key = min(found, key=lambda v: found[v][1])
    if found[key][0] < 23:
        return None
    c = np.bincount(key, minlength=k)
    if len(set(c)) < k or 0 in c:
        return None
    return np.argsort(np.argsort(-c))[np.array(key)]


def variational(ctx):
    name, kw = X.mix_config(ctx, M.VAR)
    D = int(ctx.pick((1, 2, 2, 3, 5)))
    k = int(ctx.pick((1, 2, 2, 3)))
    if name in M.FIN:
        kw["n"] = k
        if np.ndim(kw.get("alpha", 0)):
            kw["alpha"] = tuple(np.round(ctx.rng.uniform(.5, 3, k), 2))
    for _ in range(30):
        y, pk, par = X.problem(ctx, D, int(ctx.pick((7, 15, 24, 40))), kind=ctx.pick(
            ("blobs", "corr", "one")))
        A, t, kind = change(ctx, D)
        perm = ctx.rng.permutation(len(y))
        z = (y @ A.T + t)[perm]
        g = groups(y, k)
        if g is None:
            continue
        h = groups(z, k)
        if h is not None and np.array_equal(g[perm], h) and \
                X.well_conditioned(par[2], 1e3):
            break
    else:
        ctx.count("no-clear-groups")
        return
    T = int(ctx.pick((1, 2, 5, 12)))
    ctx.case((name, str(kw), y.shape, kind, k, T, float(y[0, 0]), sorted(pk)))
    out = []
    for data, prior in ((y, pk), (z, converted(pk, A, t))):
        mm = M.make_mix(name, kw, ctx.gen(), total_iter=T, burn_in=0, **prior)
        mm.fit_variational(data, n_groups=k, tol=-1.0, init_method="kmeans")
        out.append(mm)
    a, b = out
    r = 1e-6
    d = dict(kind=kind, model=name)
    ctx.close(b.var_d, np.asarray(a.var_d)[:, perm], "responsibilities", r, r,
              **d)
    for p, q in zip(a.var_theta, b.var_theta):
        S, S2 = A @ np.linalg.inv(p[2]) @ A.T, np.linalg.inv(q[2])
        sd = np.sqrt(np.diag(S))
        ctx.close(q[0] / sd, (A @ p[0] + t) / sd, "factor-mean", r, r, **d)
        ctx.close(q[1], p[1], "factor-lambda", r, **d)
        ctx.close(S2 / np.outer(sd, sd), S / np.outer(sd, sd),
                  "factor-scale", r, r, **d)
        ctx.close(q[3], p[3], "factor-nu", r, **d)
    x = X.queries(ctx, y)
    # far away, the conversion of coordinates rounds the distances
    x = x[np.abs(x - y.mean(0)).max(1) < 100 * y.std(0).max()]
    if len(x):
        xz = x @ A.T + t
        J = abs(np.linalg.det(A))
        names = ["var_eap_density"]
        wref = M.VarRef(name, kw, a.var_d)
        if all(wref.mode(j) is not None for j in range(k)) and \
                min(th[3] for th in a.var_theta) > D + 1e-6:
            names.append("var_map_density")
        for nm in names:
            fa, fb = getattr(a, nm)(x), getattr(b, nm)(xz) * J
            ctx.close(fb, fa, nm, 1e-5, 1e-5 * fa.max() + 1e-290, **d)
            j = int(ctx.rng.integers(k))
            fa = getattr(a, nm)(x, component=j)
            fb = getattr(b, nm)(xz, component=j) * J
            ctx.close(fb, fa, nm + "-component", 1e-5,
                      1e-5 * fa.max() + 1e-290, **d)
            if kind in ("order", "units", "reflection") and D > 1:
                # the features are still there, in another place
                m = int(ctx.rng.integers(D))
                i = int(np.flatnonzero(A[:, m])[0])
                fa = getattr(a, nm)(x, dim=m)
                fb = getattr(b, nm)(xz, dim=i) * abs(A[i, m])
                ctx.close(fb, fa, nm + "-marginal", 1e-5,
                          1e-5 * fa.max() + 1e-290, **d)
                ctx.count("marginals")
        (ca, ua), (cb, ub) = (m.var_map_cluster(p, full=True)
                              for m, p in ((a, x), (b, xz)))
        ctx.close(ub, ua, "uncertainty", 1e-5, 1e-5, **d)
        sure = ua < .49
        ctx.check(np.array_equal(ca[sure], cb[sure]), "clusters", **d)
        ctx.close(b.var_eap_affinity_matrix(xz), a.var_eap_affinity_matrix(x),
                  "affinity", 1e-5, 1e-5, **d)
    ctx.count("var:" + kind)
    ctx.count("variational")


def summary(mm, y, at, A, t, inv):
    """Functions of the last state that do not depend on the coordinates;
    inv: position in the fitted data of each original observation"""
    s = mm.get_sim_params()[-1]
    d = np.asarray(s["d"])[inv]
    w = np.asarray(s["w"], float)
    logdet = 2 * np.log(abs(np.linalg.det(A)))
    m, c = (np.asarray(v, float) for v in s["theta"][int(d[0])])
    e = np.linalg.solve(A, (np.ravel(m) - t)) - y[0]
    c = np.linalg.solve(A, np.linalg.solve(A, np.atleast_2d(c)).T)
    out = {"together": float(d[0] == d[1]),
           "groups": float(len(np.unique(d))),
           "logdet": np.linalg.slogdet(c)[1],
           "weight": w[d[0]], "slice": np.asarray(s["u"])[inv][1],
           "size": float(np.sum(d == d[0]))}
    for i in range(len(e)):
        out["mean-%d" % i] = e[i]
        out["sd-%d" % i] = np.log(c[i, i])
    if len(e) > 1:
        out["corr"] = c[0, 1] / np.sqrt(c[0, 0] * c[1, 1])
    f = mm.gibbs_eap_density(at @ A.T + t) * np.exp(logdet / 2)
    for i, v in enumerate(f):
        out["density-%d" % i] = v
    out["map"] = mm.map_log_likelihood + len(y) * logdet / 2
    u = mm.gibbs_map_cluster(at @ A.T + t, full=True)[1]
    out["uncertainty"] = u[0]
    out["affinity"] = mm.gibbs_eap_affinity_matrix()[inv[0], inv[1]]
    return out


def gibbs(ctx):
    name, kw = X.mix_config(ctx)
    D = int(ctx.pick((1, 2, 2, 3)))
    y, pk, par = X.problem(ctx, D, int(ctx.pick((4, 6, 9))),
                           kind=ctx.pick(("blobs", "corr", "one")))
    A, t, kind = change(ctx, D)
    if D == 1:
        kind = "line"
    T = int(ctx.pick((1, 3, 6)))
    init = {"init_method": "random",
            "init_groups": None if name in M.FIN else int(ctx.pick((1, 2, 3)))}
    at = y[:2] + ctx.rng.normal(size=(2, D)) * y.std(0)
    ctx.case((name, str(kw), y.shape, kind, T, str(init), float(y[0, 0])))
    pz = converted(pk, A, t)
    for _ in range(8):
        perm = ctx.rng.permutation(len(y))
        inv = np.argsort(perm)
        res = []
        for new in (False, True, False, True):
            if new:
                mm = M.make_mix(name, kw, ctx.gen(), total_iter=T, burn_in=0,
                                **pz)
                mm.fit_gibbs((y @ A.T + t)[perm], **init)
                res.append(summary(mm, y, at, A, t, inv))
            else:
                mm = M.make_mix(name, kw, ctx.gen(), total_iter=T, burn_in=0,
                                **pk)
                mm.fit_gibbs(y, **init)
                res.append(summary(mm, y, at, np.eye(D), np.zeros(D),
                                   np.arange(len(y))))
        for key in res[0]:
            v = [r[key] for r in res]
            # (rounding must not decide)
            lo = 1e-9 * (1 + max(np.abs(v)))
            if abs(v[0] - v[1]) > lo:
                ctx.z(key, v[0] > v[1], .5)
                ctx.z(key + "|" + kind, v[0] > v[1], .5)
            s = abs(v[0] - v[2]), abs(v[1] - v[3])
            if abs(s[0] - s[1]) > lo:
                ctx.z("spread-" + key, s[0] > s[1], .5)
                ctx.z("spread-" + key + "|" + kind, s[0] > s[1], .5)
        ctx.count("pairs", 2)
    ctx.count("gibbs:" + kind)


SCENARIOS = [("variational", variational, 500, 6000),
             ("gibbs", gibbs, 600, 10000)]
REQUIRE = {"variational": 200, "pairs": 8000, "marginals": 40}

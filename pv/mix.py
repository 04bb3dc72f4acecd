"""Shared harness for the mixture models: data, runs and reference formulas."""
import numpy as np
from scipy.special import chdtr, ndtr, digamma, gammaln, multigammaln, logsumexp
from pv import models as M


def spd(rng, D, scale=1.0):
    A = rng.normal(size=(D, D + 2))
    S = A @ A.T / (D + 2) + .1 * np.eye(D)
    return (S + S.T) / 2 * scale


def data(rng, D=None, n=None, kind=None):
    """Observations: blobs, overlapping, duplicated, shifted, correlated"""
    if n is None and kind is None and rng.uniform() < .04:
        # now and then many observations or features
        n = int(rng.choice([70, 140, 300]))
        D = int(rng.choice([1, 2, 4, 6, 9])) if D is None else D
    D = int(rng.choice([1, 1, 2, 2, 3])) if D is None else D
    n = int(rng.choice([2, 3, 5, 8, 15, 30])) if n is None else n
    kind = kind or rng.choice(["blobs", "one", "dup", "shift", "corr", "int",
                               "scales"])
    k = int(rng.integers(1, 4))
    c = rng.normal(size=(k, D)) * 4
    y = c[rng.integers(k, size=n)] + rng.normal(size=(n, D))
    if kind == "one":
        y = rng.normal(size=(n, D))
    elif kind == "dup":
        y = y[rng.integers(max(1, n // 2), size=n)]
    elif kind == "shift":
        y = y + 1000
    elif kind == "corr":
        y = y @ np.linalg.cholesky(spd(rng, D)).T * 3
    elif kind == "int":
        y = np.round(y)
    elif kind == "scales":
        y = y * 10.0 ** rng.integers(-3, 4, size=D)
    return y


def priors(rng, y, explicit=None):
    """Constructor arguments and the effective (mu, lam, psi, nu)"""
    n, D = y.shape
    kw = {}
    sample_ok = n > D and np.linalg.matrix_rank(
        np.atleast_2d(np.cov(y.T)) / np.maximum(
            1e-300, np.abs(np.cov(y.T)).max())) == D
    sd = y.std(0)
    real = sd > 1e-6 * np.abs(y).max()
    sample_ok = sample_ok and bool(np.all(real))
    scale = float(np.mean(np.var(y, axis=0))) if np.any(real) else 1.0

    def give():
        return explicit if explicit is not None else rng.uniform() < .5
    if give():
        kw["mu_prior"] = y.mean(0) + rng.normal(size=D) * np.sqrt(
            scale) * rng.choice([.5, .5, 3, 10])
    if not sample_ok or give():
        kw["psi_prior"] = spd(rng, D, scale)
    if give():
        kw["nu_prior"] = float(rng.choice([D, D + 1, D + 3.5, D + 8]))
    if give():
        kw["lambda_prior"] = float(rng.choice([.004, .1, .5, 1, 2.5, 60]))
    return kw, effective(kw, y)


def effective(kw, y):
    n, D = y.shape
    return (np.array(kw.get("mu_prior", y.mean(0)), float).reshape(D),
            float(kw.get("lambda_prior", 1)),
            np.array(kw["psi_prior"], float).reshape(D, D)
            if "psi_prior" in kw else np.atleast_2d(np.cov(y.T)),
            float(kw.get("nu_prior", D)))


def mix_config(ctx, names=None, mild=True):
    name = ctx.pick(names or M.ALL)
    kw = M.config(ctx.rng, name, mild)
    if name == "PitmanYorProcess":
        kw["pyd"] = min(kw["pyd"], .25)
        kw["alpha"] = max(kw["alpha"], .5)
    if "p_method" in kw:
        kw["p_method"] = ctx.pick(("rejection-sampling", "geometric",
                                   "independent", "static"))
    if name == "GeometricProcess" or name == "BetaInBeta":
        # keeps the number of weights of a truncation in the hundreds
        kw["a"] = max(kw["a"], 1)
    return name, kw


def init_kw(ctx, name, n):
    """Initialization arguments"""
    method = ctx.pick(("kmeans", "random", "kmeans", "variational" if
                       name in M.VAR else "random"))
    groups = ctx.pick((None, 1, 2, 3))
    if method == "variational":
        groups = ctx.pick((2, 3))
    elif groups is None and name not in M.FIN and method == "random" and \
            name not in ("DirichletProcess", "PitmanYorProcess"):
        groups = 2
    return {"init_method": method, "init_groups": groups}


def niw_posterior(y, mu, lam, psi, nu):
    n = len(y)
    if n == 0:
        return mu, lam, psi, nu
    m = y.mean(0)
    S = (y - m).T @ (y - m)
    r = (m - mu)[:, None]
    return ((lam * mu + n * m) / (lam + n), lam + n,
            psi + S + lam * n / (lam + n) * (r @ r.T), nu + n)


def niw_pits(ctx, key, mean, cov, par):
    """PITs of a draw (mean, covariance) of the normal-inverse-Wishart: the
    Bartlett factor of the precision and the standardized mean"""
    mu, lam, psi, nu = par
    mean, cov = np.asarray(mean, float).ravel(), np.atleast_2d(cov)
    D = len(mean)
    if not ctx.check(cov.shape == (D, D), "covariance-shape"):
        return
    cov = (cov + cov.T) / 2
    d = np.sqrt(np.abs(np.diag(psi)))       # equilibrate
    cs, ps = cov / np.outer(d, d), psi / np.outer(d, d)
    try:
        L = np.linalg.cholesky(cs)
    except np.linalg.LinAlgError:
        # a draw of an ill-conditioned law; nothing to invert accurately
        ctx.count("ill-conditioned")
        return
    z = np.linalg.solve(L, (mean - mu) / d) * np.sqrt(lam)
    ctx.pit(key + ":mean", ndtr(z))
    # W = cov^-1 ~ Wishart(nu, psi^-1).  With psi = C C', psi^-1 = A A',
    # A = C^-T;  A^-1 W A^-T = C' W C = T T'
    C = np.linalg.cholesky(ps)
    X = np.linalg.solve(L, C)
    T = np.linalg.cholesky(X.T @ X)
    i = np.arange(D)
    ctx.pit(key + ":scale", chdtr(nu - i, np.diag(T) ** 2))
    if D > 1:
        ctx.pit(key + ":shape", ndtr(T[np.tril_indices(D, -1)]))


def logpdf(y, mean, cov):
    """log normal densities of the rows of y, without scipy"""
    y = np.atleast_2d(y)
    cov = np.atleast_2d(cov)
    sd = np.sqrt(np.diag(cov))
    L = np.linalg.cholesky((cov + cov.T) / 2 / np.outer(sd, sd))
    z = np.linalg.solve(L, ((y - np.ravel(mean)) / sd).T)
    return (-.5 * (z ** 2).sum(0) - np.log(np.diag(L)).sum() -
            np.log(sd).sum() - .5 * y.shape[1] * np.log(2 * np.pi))


def component_logs(state, y, dims=None):
    """log(w_j N(y_i; theta_j)) for every component of a state: (n, k)"""
    w, th = np.asarray(state["w"], float), state["theta"]
    out = np.empty((len(y), len(w)))
    with np.errstate(divide="ignore"):
        lw = np.log(w)
    for j in range(len(w)):
        m, c = np.ravel(th[j][0]), np.atleast_2d(th[j][1])
        if dims is not None:
            m, c = m[list(dims)], c[np.ix_(dims, dims)]
        out[:, j] = lw[j] + logpdf(y, m, c)
    return out


def state_loglik(state, y):
    """sum log f(y_i | component) + sum log weight of its label"""
    d = np.asarray(state["d"])
    r = 0.0
    with np.errstate(divide="ignore"):
        r += np.log(np.asarray(state["w"], float)[d]).sum()
    for j in np.unique(d):
        r += logpdf(y[d == j], *state["theta"][j]).sum()
    return r


def density(state, y, dims=None, component=None):
    lg = component_logs(state, y, dims)
    if component is not None:
        if component >= lg.shape[1]:
            return np.zeros(len(y))
        return np.exp(lg[:, component])
    return np.exp(lg).sum(1)


def compact(grp):
    return np.unique(grp, return_inverse=True)[1].reshape(-1)


def same_partition(a, b):
    return np.array_equal(canon(a), canon(b))


def canon(d):
    seen = {}
    return tuple(seen.setdefault(int(x), len(seen)) for x in d)


def partitions(n):
    def rec(i, lab, k):
        if i == n:
            yield tuple(lab)
            return
        for j in range(k + 1):
            yield from rec(i + 1, lab + [j], max(k, j + 1))
    yield from rec(0, [], 0)


def log_marginal(y, mu, lam, psi, nu):
    """log of the conjugate marginal likelihood of the rows of y"""
    n, D = y.shape
    _, l1, p1, n1 = niw_posterior(y, mu, lam, psi, nu)
    return (-.5 * n * D * np.log(np.pi) + .5 * D * np.log(lam / l1) +
            multigammaln(n1 / 2, D) - multigammaln(nu / 2, D) +
            .5 * nu * np.linalg.slogdet(psi)[1] -
            .5 * n1 * np.linalg.slogdet(p1)[1])


def run_gibbs(ctx, name, kw, y, pk, total=12, burn=0, sub=1, init=None,
              rng=None, fit=None, **more):
    mm = M.make_mix(name, kw, ctx.gen() if rng is None else rng,
                    total_iter=total, burn_in=burn, subsample_steps=sub, **pk,
                    **more)
    init = init_kw(ctx, name, len(y)) if init is None else init
    mm.fit_gibbs(y if fit is None else fit, **init)
    return mm


# ---- variational reference (Bishop, Pattern recognition, ch. 10) ------------
def nw_optimum(r, y, mu, lam, psi, nu):
    """Normal-Wishart factors for responsibilities r (K x N)"""
    out = []
    for rj in np.asarray(r, float):
        n = rj.sum()
        m = rj @ y / n
        S = (rj[:, None] * (y - m)).T @ (y - m)
        q = (m - mu)[:, None]
        out.append(((lam * mu + n * m) / (lam + n), lam + n,
                    np.linalg.inv(psi + S + lam * n / (lam + n) * (q @ q.T)),
                    nu + n))
    return out


def e_logdet(W, nu):
    D = len(W)
    return (digamma((nu - np.arange(D)) / 2).sum() + D * np.log(2) +
            np.linalg.slogdet(W)[1])


def expected_log_joint(theta, mlog, y):
    """(K x N) E log w_j + E log N(y_i; mu_j, Lambda_j)"""
    D = y.shape[1]
    out = np.empty((len(theta), len(y)))
    for j, (m, l, W, nu) in enumerate(theta):
        z = y - m
        out[j] = (mlog[j] + .5 * e_logdet(W, nu) - .5 * D * np.log(2 * np.pi)
                  - .5 * D / l - .5 * nu * np.einsum("ij,jk,ik->i", z, W, z))
    return out


def softmax(lg):
    lg = lg - lg.max(0)
    p = np.exp(lg)
    return p / p.sum(0)


def log_B(W, nu):
    D = len(W)
    return -(.5 * nu * np.linalg.slogdet(W)[1] + .5 * nu * D * np.log(2) +
             multigammaln(nu / 2, D))


def elbo(r, theta, wref, y, mu, lam, psi, nu):
    """Evidence lower bound of the factors (wref: models.VarRef)"""
    r = np.asarray(r, float)
    D = y.shape[1]
    zero = np.zeros(len(theta))
    val = (r * expected_log_joint(theta, zero, y)).sum()
    val += wref.log_p_d(r) + wref.log_p() - wref.log_q()
    val -= (r[r > 0] * np.log(r[r > 0])).sum()
    W0 = np.linalg.inv(psi)
    for m, l, W, v in theta:
        el = e_logdet(W, v)
        z = m - mu
        # E log p(mu, Lambda)
        val += (.5 * D * np.log(lam / (2 * np.pi)) + .5 * el -
                .5 * D * lam / l - .5 * lam * v * z @ W @ z +
                log_B(W0, nu) + .5 * (nu - D - 1) * el -
                .5 * v * np.trace(psi @ W))
        # - E log q(mu, Lambda)
        H = -log_B(W, v) - .5 * (v - D - 1) * el + .5 * v * D
        val -= .5 * el + .5 * D * np.log(l / (2 * np.pi)) - .5 * D - H
    return float(val)


def t_logpdf(y, mean, shape, df):
    """log multivariate Student-t densities of the rows of y"""
    y, p = np.atleast_2d(y), len(shape)
    sd = np.sqrt(np.diag(shape))
    L = np.linalg.cholesky(shape / np.outer(sd, sd))
    z = np.linalg.solve(L, ((y - mean) / sd).T)
    return (gammaln((df + p) / 2) - gammaln(df / 2) -
            .5 * p * np.log(df * np.pi) - np.log(np.diag(L)).sum() -
            np.log(sd).sum() - .5 * (df + p) * np.log1p((z ** 2).sum(0) / df))


def t_density(y, theta, mean, dims=None, component=None):
    """Posterior predictive mixture (per component terms summed)"""
    D = len(theta[0][0])
    dims = list(range(D)) if dims is None else list(dims)
    f = np.zeros(len(y))
    for j, (m, l, W, nu) in enumerate(theta):
        if component is not None and j != component:
            continue
        S = np.linalg.inv(W) * (1 + l) / l / (nu + 1 - D)
        S = S[np.ix_(dims, dims)]
        S = (S + S.T) / 2
        f += mean[j] * np.exp(t_logpdf(y, np.asarray(m)[dims], S,
                                       nu + 1 - D))
    return f


def mode_density(y, theta, mode, dims=None, component=None):
    D = len(theta[0][0])
    dims = list(range(D)) if dims is None else list(dims)
    f = np.zeros(len(y))
    for j, (m, l, W, nu) in enumerate(theta):
        if component is not None and j != component:
            continue
        # joint mode of the normal-Wishart in the precision: (nu - D) W
        C = np.linalg.inv((nu - D) * W)[np.ix_(dims, dims)]
        f += mode[j] * np.exp(logpdf(y, np.asarray(m)[dims], C))
    return f


def freeze(state):
    """Deep copy of a saved state"""
    return {"w": np.array(state["w"], float), "d": np.array(state["d"]),
            "u": np.array(state["u"], float),
            "theta": {int(j): (np.array(t[0], float), np.array(t[1], float))
                      for j, t in state["theta"].items()}}


def same_state(a, b):
    """Exact equality of two states (labels, weights, parameters)"""
    return (np.array_equal(a["w"], b["w"]) and np.array_equal(a["d"], b["d"])
            and np.array_equal(a["u"], b["u"])
            and sorted(a["theta"]) == sorted(b["theta"])
            and all(np.array_equal(a["theta"][j][0], b["theta"][j][0]) and
                    np.array_equal(a["theta"][j][1], b["theta"][j][1])
                    for j in a["theta"]))


def well_conditioned(psi, limit=1e6):
    d = np.sqrt(np.diag(psi))
    return bool(np.all(d > 0)) and np.linalg.cond(psi / np.outer(d, d)) < limit


def problem(ctx, D=None, n=None, kind=None, explicit=None):
    """Data and well conditioned priors"""
    while True:
        y = data(ctx.rng, D, n, kind)
        pk, par = priors(ctx.rng, y, explicit)
        if np.all(np.isfinite(par[2])) and well_conditioned(par[2]):
            return y, pk, par


def fitted(ctx, names=None, D=None, n=None, total=None, sub=None, burn=None,
           explicit=None, kind=None, **more):
    """A Gibbs-fitted mixture and what it was fitted with"""
    name, kw = mix_config(ctx, names)
    y, pk, par = problem(ctx, D, n, kind, explicit)
    total = total or int(ctx.pick((1, 4, 9)))
    burn = int(ctx.pick((0, total // 3))) if burn is None else burn
    sub = sub or int(ctx.pick((1, 1, 2)))
    mm = run_gibbs(ctx, name, kw, y, pk, total, burn, sub, **more)
    ctx.case((name, str(kw), y.shape, total, burn, sub, float(y[0, 0])))
    return mm, y, par


def wide(ctx, names=("EqualWeighting", "DirichletDistribution")):
    """Configuration, data and priors with more groups than fit in a byte"""
    K = int(ctx.pick((140, 280)))
    name = ctx.pick(names)
    kw = {"n": K, **({"alpha": 1.5} if "alpha" in M.config(
        ctx.rng, name, True) else {})} if name in M.FIN else {"alpha": 40.0}
    D = int(ctx.pick((1, 2)))
    c = np.stack([np.arange(K) * 9.0, ctx.rng.permutation(K) * 9.0], 1)[:, :D]
    y = np.concatenate([c, c[ctx.rng.integers(K, size=25)]])
    y = y + ctx.rng.normal(size=y.shape) * .3
    pk = {"mu_prior": y.mean(0), "psi_prior": np.eye(D) * .2,
          "nu_prior": D + 2.0, "lambda_prior": 1e-5}
    ctx.case((name, str(kw), y.shape, "wide", float(y[0, 0])))
    return name, kw, y, pk, effective(pk, y), K


def wide_fitted(ctx):
    name, kw, y, pk, par, K = wide(ctx)
    mm = run_gibbs(ctx, name, kw, y, pk, 3, 0, 1,
                   init={"init_method": "kmeans", "init_groups": None})
    ctx.count("wide")
    return mm, y, par


def long_fitted(ctx):
    """Hundreds of saved states, in one fit or several"""
    name = ctx.pick(("DirichletProcess", "DirichletDistribution",
                     "EqualWeighting"))
    kw = {"DirichletProcess": {"alpha": .6}, "EqualWeighting": {"n": 3},
          "DirichletDistribution": {"n": 2, "alpha": 1}}[name]
    y, pk, par = problem(ctx, int(ctx.pick((1, 2))), int(ctx.rng.integers(2, 6)),
                         kind="blobs")
    fits = int(ctx.pick((1, 2, 3)))
    total = int(ctx.pick((270, 400))) // fits + 1
    mm = run_gibbs(ctx, name, kw, y, pk, total, 0, 1,
                   init={"init_method": "random"})
    for _ in range(fits - 1):
        mm.fit_gibbs(y, warm_start=True)
    ctx.case((name, str(kw), y.tolist(), total, fits, "long"))
    ctx.count("long")
    return mm, y, par


def queries(ctx, y, m=None):
    """Query points: the data, points around, far away, repeated"""
    n, D = y.shape
    m = int(ctx.pick((1, 2, 5, 12) * 16 + (150, 550))) if m is None else m
    sd = y.std(0) + 1e-3 * (np.abs(y).max(0) + 1e-3)
    kind = ctx.pick(("data", "around", "far", "very-far", "mixed", "dup"))
    q = y[ctx.rng.integers(n, size=m)] + ctx.rng.normal(size=(m, D)) * sd
    if kind == "data":
        q = y[ctx.rng.integers(n, size=m)].copy()
    elif kind == "far":
        q = y.mean(0) + ctx.rng.normal(size=(m, D)) * sd * 50
    elif kind == "very-far":
        q = y.mean(0) + ctx.rng.choice([-1, 1], size=(m, D)) * sd * 1e4
    elif kind == "mixed":
        q[::2] += sd * 1e3
    elif kind == "dup":
        q[:] = q[0]
    return q


def tan_grid(center, scale, m=4001):
    """Nodes and weights of a quadrature over the real line"""
    t = np.linspace(-np.pi / 2, np.pi / 2, m + 2)[1:-1]
    x = center + scale * np.tan(t)
    return x, scale / np.cos(t) ** 2 * (t[1] - t[0])


def var_setup(ctx, D=None, n=None, kind=None, explicit=None, names=None,
              total=1, n_groups=None, **more):
    """An unfitted mixture with variational support and its data"""
    name, kw = mix_config(ctx, names or M.VAR)
    y, pk, par = problem(ctx, D, n, kind, explicit)
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=total,
                    burn_in=int(ctx.pick((0, 0, total // 2))), **pk,
                    **more)
    K = None
    if "n" not in kw or name not in M.FIN:
        K = int(ctx.pick((1, 2, 3, 5, 5, 13))) if n_groups is None else \
            n_groups
    init = {"n_groups": K, "init_method": ctx.pick(("kmeans", "random"))}
    return mm, name, kw, y, par, init


def factors(mm):
    """Copy of the variational factors held by a fitted mixture"""
    return np.array(mm.var_d, float), [
        (np.array(t[0], float), float(t[1]), np.array(t[2], float),
         float(t[3])) for t in mm.var_theta]


def code_mean_log(mm, K):
    return np.array([float(mm.weight_model.variational_mean_log_w_j(j))
                     for j in range(K)])


def theta_close(ctx, got, want, key, rtol=1e-6):
    """Normal-Wishart factors; the scale matrices in equilibrated form"""
    if not ctx.check(len(got) == len(want), key + "-number", got=len(got),
                     want=len(want)):
        return
    for j, (g, w) in enumerate(zip(got, want)):
        S = np.linalg.inv(w[2])
        sd = np.sqrt(np.diag(S))
        if not ctx.check(np.shape(g[0]) == np.shape(w[0]) and
                         np.shape(g[2]) == np.shape(w[2]), key + "-shape",
                         j=j):
            return
        ctx.close(g[1], w[1], key + "-lambda", rtol, j=j)
        ctx.close(g[3], w[3], key + "-nu", rtol, j=j)
        ctx.close(np.asarray(g[0]) / sd, w[0] / sd, key + "-mean", rtol, rtol,
                  j=j)
        ctx.close(np.asarray(g[2]) * np.outer(sd, sd),
                  w[2] * np.outer(sd, sd), key + "-precision", rtol * 10,
                  rtol, j=j)


def mode_tol(mode):
    """Weight modes times their relative accuracy (modes near 0 are obtained
    by cancellation)"""
    mode = np.asarray(mode, float)
    return 1e-5 * mode + 4e-15 * (mode > 0)

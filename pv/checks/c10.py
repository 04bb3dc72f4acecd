"""C10: density and likelihood helpers are the distributions they name."""
import numpy as np
from scipy import stats, integrate
from scipy.special import digamma, gammaln

RULE = ("random dimensions, locations, positive definite precisions, degrees "
        "of freedom, evaluation points, counts and partitions; a case is one "
        "argument tuple; values are compared with scipy's distributions")
ASSUMPTIONS = ["scipy.stats computes the reference densities"]


def fn(name):
    from pyrichlet.utils import functions
    return getattr(functions, name, None)


def spd(rng, D, scale=None):
    A = rng.normal(size=(D, D + 2))
    S = A @ A.T / (D + 2) + .05 * np.eye(D)
    return S * (10 ** rng.uniform(-3, 3) if scale is None else scale)


def densities(ctx):
    for _ in range(12):
        D = ctx.pick((1, 1, 2, 3, 4, 6, 9))
        P = spd(ctx.rng, D)
        cov = np.linalg.inv(P)
        cov = (cov + cov.T) / 2
        mu = ctx.rng.normal(size=D) * ctx.pick((0, 1, 100))
        nu = ctx.pick((1, 2, 2.5, 7, 40.0, 0.4,
                       10 ** ctx.rng.uniform(1, 4.5)))
        n = ctx.pick((1, 2, 9) * 6 + (120, 600))
        x = mu + ctx.rng.multivariate_normal(np.zeros(D), cov, n) * \
            ctx.pick((1, 1, 4))
        ctx.case((D, n, nu, mu.tolist(), P.tolist()))
        f = fn("density_students_t")
        if f:
            want = np.atleast_1d(stats.multivariate_t.pdf(x, mu, cov, df=nu))
            ctx.close(f(x, mu, P, nu), want, "students-t", 1e-6, 1e-300)
            ctx.count("students-t")
        f = fn("density_normal")
        if f:
            want = np.atleast_1d(stats.multivariate_normal.pdf(x, mu, cov))
            ctx.close(f(x, mu, P), want, "normal", 1e-6, 1e-300)
            ctx.count("normal")


def extremes(ctx):
    """Many features and any unit: the density is in range though the
    determinant is not"""
    for _ in range(4):
        D = ctx.pick((1, 2, 4, 9, 20, 60, 120, 250))
        A = spd(ctx.rng, D, 1.)
        # (base 10 logarithm of the determinant of the precision)
        e = ctx.rng.uniform(-480, 480) / D
        e = np.clip(e, -200, 200)
        sd = 10 ** (-e / 2 + ctx.rng.uniform(-.5, .5, D))
        P = A / np.outer(sd, sd)
        z = ctx.rng.normal(size=(5, D)) @ np.linalg.inv(np.linalg.cholesky(A))
        x = z * sd
        nu = ctx.pick((1, 3, 50.))
        q = ((z @ A) * z).sum(1)
        ld = np.linalg.slogdet(A)[1] - 2 * np.log(sd).sum()
        ctx.case((D, nu, e, "extreme"))
        t = (gammaln((nu + D) / 2) - gammaln(nu / 2) + ld / 2 -
             D / 2 * np.log(nu * np.pi) - (nu + D) / 2 * np.log1p(q / nu))
        n = ld / 2 - D / 2 * np.log(2 * np.pi) - q / 2
        for name, want, args in (("students-t", t, (nu,)), ("normal", n, ())):
            f = fn("density_students_t" if args else "density_normal")
            if f and np.abs(want).max() < 690:
                ctx.close(f(x, np.zeros(D), P, *args), np.exp(want), name,
                          1e-6, 0, D=D)
                ctx.count("extremes")


def likelihoods(ctx):
    for _ in range(12):
        a, b = 10 ** ctx.rng.uniform(-1, ctx.pick((2, 2, 4)), 2)
        v = np.clip(ctx.rng.beta(a, b), 1e-9, 1 - 1e-9)
        n = int(ctx.rng.integers(0, ctx.pick((30, 30, 400))))
        x = int(ctx.rng.integers(0, n + 1))
        p = ctx.rng.uniform(.01, .99)
        ctx.case((a, b, v, n, x, p))
        f = fn("log_likelihood_beta")
        if f:
            ctx.close(f(v, a, b), stats.beta.logpdf(v, a, b), "beta", 1e-8)
        f = fn("log_likelihood_beta_binom")
        if f:
            want = (gammaln(n + 1) - gammaln(x + 1) - gammaln(n - x + 1) +
                    gammaln(x + a) + gammaln(n - x + b) - gammaln(n + a + b) +
                    gammaln(a + b) - gammaln(a) - gammaln(b))
            ctx.close(f(x, n, a, b), want, "beta-binomial", 1e-7, 1e-8)
            tot = sum(np.exp(f(k, n, a, b)) for k in range(n + 1))
            ctx.close(tot, 1, "beta-binomial-normalized", 1e-7)
        f = fn("log_likelihood_binom")
        if f:
            want = (gammaln(n + 1) - gammaln(x + 1) - gammaln(n - x + 1) +
                    x * np.log(p) + (n - x) * np.log1p(-p))
            ctx.close(f(x, n, p), want, "binomial", 1e-7, 1e-8)
        f = fn("mean_log_beta")
        if f:
            ctx.close(f(a, b), digamma(a) - digamma(a + b), "mean-log-beta",
                      1e-8)
            if min(a, b) > .5:
                want, err = integrate.quad(
                    lambda t: np.log(t) * stats.beta.pdf(t, a, b), 0, 1)
                if err < 1e-7:
                    ctx.close(f(a, b), want, "mean-log-beta-integral", 1e-4,
                              1e-5)
        ctx.count("likelihoods")


def partitions(n):
    """Block sizes of all set partitions of n elements"""
    def rec(i, sizes):
        if i == n:
            yield tuple(sizes)
            return
        for k in range(len(sizes)):
            sizes[k] += 1
            yield from rec(i + 1, sizes)
            sizes[k] -= 1
        sizes.append(1)
        yield from rec(i + 1, sizes)
        sizes.pop()
    yield from rec(0, [])


def eppf(ctx):
    f = fn("dirichlet_log_eppf")
    if not f:
        return
    for _ in range(2):
        al = ctx.pick((0.1, 0.5, 1, 1.0, 2, 3.7, 30))
        n = int(ctx.rng.integers(1, 9))
        ctx.case(("eppf", al, n))
        tot = 0
        cache = {}
        for s in partitions(n):
            k = tuple(sorted(s))
            if k not in cache:
                perm = list(ctx.rng.permutation(k))
                perm = ctx.pick((perm, np.array(perm), tuple(perm)))
                cache[k] = f(al, perm)
                want = sum(np.log(al) + gammaln(b) for b in k) - sum(
                    np.log(al + i) for i in range(n))
                ctx.close(cache[k], want, "eppf", 1e-7, 1e-8, sizes=k)
            tot += np.exp(cache[k])
            ctx.count("partitions")
        ctx.close(tot, 1, "eppf-sums-to-1", 1e-7)
    big = ctx.rng.integers(1, 300, size=5)
    want = sum(np.log(2.5) + gammaln(b) for b in big) - (
        gammaln(2.5 + big.sum()) - gammaln(2.5))
    ctx.close(f(2.5, big), want, "eppf", 1e-7, 1e-7)


SCALE = 6     # of the quick tier
SCENARIOS = [("densities", densities, 120, 2000),
             ("extremes", extremes, 60, 900),
             ("likelihoods", likelihoods, 60, 1500),
             ("eppf", eppf, 24, 200)]
REQUIRE = {"likelihoods": 500, "extremes": 100}

"""Reference laws of the weighting models, written from their definitions and
independent of the code under test."""
import numpy as np
from scipy import stats
from scipy.special import (betainc, betaln, digamma, gammaln, roots_legendre,
                           xlog1py, xlogy)



def beta_logpdf(v, a, b):
    with np.errstate(divide="ignore"):
        return xlogy(np.subtract(a, 1), v) + xlog1py(
            np.subtract(b, 1), np.negative(v)) - betaln(a, b)


def beta_cdf(v, a, b):
    return betainc(a, b, v)


def stick_pits(ctx, w, v, a, b):
    """PITs of the fractions v inverted from w.  A fraction is only known up
    to rounding, which matters where the law piles up at one (small b): the
    transform is then drawn within the rounding interval"""
    u = betainc(a, b, v)
    b = np.broadcast_to(b, np.shape(v))
    small = (b < .4) & (v > .99)
    if np.any(small):
        a = np.broadcast_to(a, np.shape(v))
        j = np.arange(len(v))
        rem = 1 - np.concatenate([[0.], np.cumsum(w)[:len(v) - 1]])
        h = np.where(j == 0, 5.6e-17, 4.5e-16 * (j + 1)) / rem
        lo = 1 - betainc(b, a, np.minimum(1 - v + h, 1))
        hi = 1 - betainc(b, a, np.maximum(1 - v - h, 0))
        u = np.where(small, lo + ctx.rng.uniform(size=len(v)) * (hi - lo), u)
    return u


INF = ("DirichletProcess", "PitmanYorProcess", "GeometricProcess",
       "BetaInBeta", "BetaInDirichlet", "BetaBernoulli", "BetaBinomial")
FIN = ("DirichletDistribution", "EqualWeighting", "FrequencyWeighting")
ALL = INF + FIN
VAR = ("DirichletDistribution", "DirichletProcess", "PitmanYorProcess",
       "GeometricProcess", "EqualWeighting", "FrequencyWeighting")
MIX = {"DirichletProcess": "DirichletProcessMixture",
       "PitmanYorProcess": "PitmanYorMixture",
       "GeometricProcess": "GeometricProcessMixture",
       "BetaInBeta": "BetaInBetaMixture",
       "BetaInDirichlet": "BetaInDirichletMixture",
       "BetaBernoulli": "BetaBernoulliMixture",
       "BetaBinomial": "BetaBinomialMixture",
       "DirichletDistribution": "DirichletDistributionMixture",
       "EqualWeighting": "EqualWeightedMixture",
       "FrequencyWeighting": "FrequencyWeightedMixture"}


def make(name, kw, rng):
    import pyrichlet
    kw = {k: (np.array(v) if isinstance(v, tuple) else v)
          for k, v in kw.items()}
    return getattr(pyrichlet.weight_models, name)(rng=rng, **kw)


def make_mix(name, kw, rng, **mkw):
    import pyrichlet
    kw = {k: (np.array(v) if isinstance(v, tuple) else v)
          for k, v in kw.items()}
    return getattr(pyrichlet.mixture_models, MIX[name])(rng=rng, **kw, **mkw)


ALPHAS = (0.5, 1, 1.0, 2, 3.7)


def config(rng, name, mild=False, tails=True):
    """A random parameter setting of a model (exact p methods only)"""
    def pick(*a):
        return a[int(rng.integers(len(a)))]
    al = pick(*ALPHAS)
    if not mild and rng.uniform() < .2:
        return far_config(rng, name, tails)
    if name == "DirichletProcess":
        return {"alpha": al}
    if name == "PitmanYorProcess":
        d = pick(0, 0.1, 0.25) if mild else pick(0, 0.1, 0.25, 0.5, 0.6)
        return {"pyd": d, "alpha": pick(al, -d / 2 if d else al)}
    if name == "GeometricProcess":
        return {"a": pick(1, 2, 3.5, 0.7), "b": pick(1, 2, 0.8, 4)}
    if name == "BetaInBeta":
        x = pick(0, 0.3, 0.6, 0.9, 1)
        kw = {"x": x, "alpha": al, "a": pick(1, 2, 0.8), "b": pick(1, 1.5, 3)}
        if 0 < x < 1:
            kw["p_method"] = pick("inverse-sampling", "rejection-sampling")
        return kw
    if name == "BetaInDirichlet":
        return {"alpha": al, "a": pick(0, 0.3, 1, 2.5, 20)}
    if name == "BetaBernoulli":
        return {"p": pick(0, 0.2, 0.5, 0.8, 1), "alpha": al}
    if name == "BetaBinomial":
        return {"n": pick(0, 1, 2, 5, 12, 30), "alpha": al}
    n = pick(1, 2, 3, 4, 6)
    if name == "DirichletDistribution":
        k = pick("scalar", "list", "array", "np")
        if k == "scalar":
            a = pick(1, 0.5, 3)
        elif k == "np":
            a = np.float64(1.5)
        else:
            a = [round(float(x), 2) for x in rng.uniform(0.4, 4, n)]
            a = tuple(a) if k == "array" else a
        return {"n": n, "alpha": a}
    return {"n": n}


def far_config(rng, name, tails):
    """Parameter settings away from the usual ones; with tails, not those
    for which a tail takes very many weights"""
    def pick(*a):
        return a[int(rng.integers(len(a)))]
    al = pick(0.3, 12, 12 if tails else 60.5)
    if name == "DirichletProcess":
        return {"alpha": al}
    if name == "PitmanYorProcess":
        d = pick(0.05, 0.65) if tails else pick(0.05, 0.75, 0.9)
        return {"pyd": d, "alpha": pick(al, -d / 2, -0.95 * d)}
    if name == "GeometricProcess":
        return {"a": pick(1, 12, 40), "b": pick(0.4, 10, 30)}
    if name == "BetaInBeta":
        x = pick(0.05, 0.5, 0.95, 0.99)
        return {"x": x, "alpha": al, "a": pick(0.7, 1, 9),
                "b": pick(0.6, 1, 7),
                "p_method": pick("inverse-sampling", "rejection-sampling")}
    if name == "BetaInDirichlet":
        return {"alpha": al, "a": pick(0.1, 0.3, 4, 200)}
    if name == "BetaBernoulli":
        return {"p": pick(0.03, 0.5, 0.97), "alpha": al}
    if name == "BetaBinomial":
        return {"n": pick(3, 30, 100), "alpha": al}
    n = pick(5, 9, 15)
    if name == "DirichletDistribution":
        k = pick("scalar", "list", "array")
        a = pick(0.1, 12, 60) if k == "scalar" else [
            pick(0.15, 1, 2.5, 40) for _ in range(n)]
        return {"n": n, "alpha": tuple(a) if k == "array" else a}
    return {"n": n}


def is_finite(name):
    return name in FIN


def labels(rng, kmax, nmax, gaps=True):
    """Label vectors: repeated, gapped, single label, long, single datum"""
    kind = rng.integers(5)
    n = int(rng.integers(1, nmax + 1))
    if kind == 0:
        d = np.full(n, rng.integers(kmax))
    elif kind == 1:
        d = rng.choice(np.arange(0, kmax, 2), n)
    elif kind == 2:
        d = np.minimum(rng.geometric(0.5, n) - 1, kmax - 1)
    elif kind == 3:
        d = np.array([kmax - 1])
    else:
        d = rng.integers(kmax, size=n)
    return np.asarray(d, dtype=np.int64)


def counts(d, m):
    """(n_j, n_{>j}) for j < m"""
    d = np.asarray(d, int)
    nj = np.array([(d == j).sum() for j in range(m)], float)
    ng = np.array([(d > j).sum() for j in range(m)], float)
    return nj, ng


def sticks(w, floor=1e-4):
    """Stick fractions of the part of w that can be inverted accurately"""
    w = np.asarray(w, float)
    rem = 1 - np.concatenate([[0.], np.cumsum(w)[:-1]])
    m = len(w)
    for i, r in enumerate(rem):
        if not r > floor:
            m = i
            break
    return np.clip(w[:m] / rem[:m], 0, 1)


def indep(name, kw, m, d=(), p=None):
    """(A, B) of independent Beta fractions, or None"""
    j = np.arange(1, m + 1)
    nj, ng = counts(d, m)
    al = kw.get("alpha", 1)
    if name == "DirichletProcess" or (
            name == "BetaBernoulli" and kw["p"] == 1) or (
            name == "BetaBinomial" and kw["n"] == 0) or (
            name == "BetaInBeta" and kw["x"] == 0):
        return 1 + nj, al + ng
    if name == "PitmanYorProcess":
        return 1 - kw["pyd"] + nj, al + j * kw["pyd"] + ng
    if name == "BetaInBeta" and kw["x"] < 1 and p is not None:
        c = kw["x"] / (1 - kw["x"])
        return 1 + c * p + nj, al + c * (1 - p) + ng
    return None


def common(name, kw, d=()):
    """(a, b) of the single Beta fraction shared by all sticks, or None"""
    d = np.asarray(d, int)
    N, S = len(d), d.sum()
    if name == "GeometricProcess" or (
            name == "BetaInBeta" and kw["x"] == 1):
        return kw["a"] + N, kw["b"] + S
    if (name == "BetaBernoulli" and kw["p"] == 0) or (
            name == "BetaInDirichlet" and kw["a"] == 0):
        return 1 + N, kw["alpha"] + S
    return None


_GL = roots_legendre(200)


_GRIDS = {}


def _bib_grid(kw):
    """Quadrature nodes and weights of p ~ Beta(a, b)"""
    ab = (kw["a"], kw["b"])
    if ab not in _GRIDS:
        x, w = _GL
        # integrate in the quantile scale
        _GRIDS[ab] = stats.beta.ppf((x + 1) / 2, *ab), w / 2
    return _GRIDS[ab]


FAR = 8


def prior_pits(ctx, key, name, kw, w, maxj=6, floor=1e-4, start=0):
    """Sequential PITs of weights under the declared prior law; for the last
    three models, of the fractions from start on given those before"""
    w = np.asarray(w, float)
    if name == "DirichletDistribution":
        dirichlet_pits(ctx, key, alpha_vec(kw), w)
        return
    if name in FIN:
        ctx.close(w, np.full(kw["n"], 1 / kw["n"]), "uniform-weights", 1e-12)
        return
    v = sticks(w, floor)[:maxj]
    m = len(v)
    ab = indep(name, kw, m)
    if ab is not None:
        u = stick_pits(ctx, w, v, *ab)
        ctx.pit(key, u)
        for j in range(min(m, 3)):
            ctx.pit("%s:j%d" % (key, j), u[j])
        if m > 20:
            ctx.pit(key + ":far", u[20:])
        ctx.count("sticks", m)
        return
    ab = common(name, kw)
    if ab is not None:
        ctx.pit(key, beta_cdf(v[0], *ab))
        common_check(ctx, w, v)
        ctx.count("sticks", m)
        return
    al = kw["alpha"]
    ctx.count("sticks", m)
    if name == "BetaInBeta":
        p, q = _bib_grid(kw)
        c = kw["x"] / (1 - kw["x"])
        A, B = 1 + c * p, al + c * (1 - p)
        lq = np.log(q)
        for j in range(m):
            ww = np.exp(lq - lq.max())
            ww /= ww.sum()
            ctx.pit(key + (":first" if j == 0 else ":next"),
                    np.clip((ww * beta_cdf(v[j], A, B)).sum(), 0, 1))
            lq = lq + beta_logpdf(v[j], A, B)
            if not np.all(np.isfinite(lq)):
                break
        return
    if name == "BetaInDirichlet":
        a = kw["a"]
        vals, cnt = [], []
        for j in range(m):
            hit = [i for i, x in enumerate(vals) if near(v[j], x)]
            if j >= max(1, start):
                ctx.z(key + ":new", not hit, a / (a + j))
                if j < 4:
                    ctx.z(key + ":new:j%d" % j, not hit, a / (a + j))
                elif j >= FAR:
                    ctx.z(key + ":new:far", not hit, a / (a + j))
            if hit:
                i = hit[0]
                before = sum(cnt[:i])
                if len(vals) > 1 and j >= start:
                    ctx.dpit(key + ":which", before / j, cnt[i] / j)
                cnt[i] += 1
            else:
                if j >= start:
                    ctx.pit(key, beta_cdf(v[j], 1, al))
                if j >= max(FAR, start):
                    ctx.pit(key + ":far", beta_cdf(v[j], 1, al))
                vals.append(v[j])
                cnt.append(1)
        return
    if name == "BetaBernoulli":
        for j in range(start, m):
            same = j > 0 and near(v[j], v[j - 1])
            if j:
                ctx.z(key + ":change", not same, kw["p"])
                if j < 4:
                    ctx.z(key + ":change:j%d" % j, not same, kw["p"])
                elif j >= FAR:
                    ctx.z(key + ":change:far", not same, kw["p"])
            if not same:
                ctx.pit(key, beta_cdf(v[j], 1, al))
                if j >= FAR:
                    ctx.pit(key + ":far", beta_cdf(v[j], 1, al))
        return
    if name == "BetaBinomial":
        n = kw["n"]
        x = np.arange(n + 1)
        for j in range(start, m):
            if j == 0:
                ctx.pit(key + ":first", beta_cdf(v[0], 1, al))
            else:
                pm = np.exp(gammaln(n + 1) - gammaln(x + 1) - gammaln(
                    n - x + 1) + xlogy(x, v[j - 1]) + xlog1py(
                        n - x, -v[j - 1]))
                u = np.clip((pm * beta_cdf(
                    v[j], 1 + x, al + n - x)).sum(), 0, 1)
                ctx.pit(key + ":next", u)
                if j < 4:
                    ctx.pit(key + ":next:j%d" % j, u)
                elif j >= FAR:
                    ctx.pit(key + ":next:far", u)
        return
    raise AssertionError(name)


def near(x, y):
    return abs(x - y) <= 1e-9 * max(1e-3, abs(x), abs(y))


def common_check(ctx, w, v):
    """All the fractions are one and the same value"""
    v0 = v[0]
    want = v0 * (1 - v0) ** np.arange(len(w))
    ctx.close(w, want, "common-fraction", rtol=1e-6, atol=1e-12)


def alpha_vec(kw):
    a = kw["alpha"]
    return np.full(kw["n"], float(a)) if np.ndim(a) == 0 else np.asarray(
        a, float)


def dirichlet_pits(ctx, key, alpha, w):
    rem = 1.0
    for j in range(len(alpha) - 1):
        if rem < 1e-4:
            break
        ctx.pit(key, beta_cdf(min(1, w[j] / rem), alpha[j],
                                    alpha[j + 1:].sum()))
        ctx.count("sticks")
        rem -= w[j]


def posterior_pits(ctx, key, name, kw, w, d, p=None, maxj=8, start=0):
    """PITs under the exact posterior; False if there is no closed form"""
    w = np.asarray(w, float)
    if name == "DirichletDistribution":
        nj, _ = counts(d, kw["n"])
        dirichlet_pits(ctx, key, alpha_vec(kw) + nj, w)
        return True
    if name == "EqualWeighting":
        ctx.close(w, np.full(kw["n"], 1 / kw["n"]), "uniform-weights", 1e-12)
        return True
    if name == "FrequencyWeighting":
        nj, _ = counts(d, int(np.max(d)) + 1)
        want = nj / nj.sum()
        got = np.asarray(w, float)
        ctx.check(len(got) >= len(want), "frequency-size", got=got)
        ctx.close(got, np.append(want, np.zeros(len(got) - len(want))),
                  "frequency-weights", 1e-12)
        return True
    v = sticks(w)[:maxj]
    m = len(v)
    ab = indep(name, kw, m, d, p)
    if ab is not None:
        u = stick_pits(ctx, w, v, *ab)
        mx = int(np.max(d))
        nj, _ = counts(d, m)
        j = np.arange(m)
        ok = j >= start
        occ = ok & (nj > 0)
        gap = ok & (nj == 0) & (j < mx)
        tail = ok & (j > mx)
        for nm, mask in (("occupied", occ), ("gap", gap), ("beyond", tail)):
            if mask.any():
                ctx.pit(key + ":" + nm, u[mask])
                ctx.count("sticks:" + nm, mask.sum())
        return True
    ab = common(name, kw, d)
    if ab is not None:
        if start == 0:
            ctx.pit(key + ":common", beta_cdf(v[0], *ab))
            ctx.count("sticks:common")
        common_check(ctx, w, v)
        return True
    return False


# ---- prior simulation, for forward simulations by the harness ---------------
def label_law(name, kw, N):
    """P(k of the first N labels are 0) under the prior"""
    k = np.arange(N + 1)
    lc = gammaln(N + 1) - gammaln(k + 1) - gammaln(N - k + 1)
    if name == "BetaInBeta" and 0 < kw["x"] < 1:
        p, q = _bib_grid(kw)
        c = kw["x"] / (1 - kw["x"])
        A, B = (1 + c * p)[:, None], (kw["alpha"] + c * (1 - p))[:, None]
        pm = np.exp(lc + betaln(A + k, B + N - k) - betaln(A, B))
        return (q[:, None] * pm).sum(0) / q.sum()
    if name in ("GeometricProcess",) or (
            name == "BetaInBeta" and kw["x"] == 1):
        a, b = kw["a"], kw["b"]
    elif name == "PitmanYorProcess":
        a, b = 1 - kw["pyd"], kw["alpha"] + kw["pyd"]
    else:
        a, b = 1, kw["alpha"]
    return np.exp(lc + betaln(a + k, b + N - k) - betaln(a, b))


# ---- variational weight factors ---------------------------------------------
class VarRef:
    """Optimal factor q(w) for responsibilities r of the models with
    variational support, with its exact expectations"""

    def __init__(self, name, kw, r):
        self.name, self.kw = name, kw
        r = np.asarray(r, float)
        self.K, self.N = r.shape
        self.nj = r.sum(1)
        K = self.K
        ng = np.array([self.nj[j + 1:].sum() for j in range(K)])
        j = np.arange(K)
        if name == "DirichletDistribution":
            self.alpha0 = alpha_vec(kw)
            self.par = self.alpha0 + self.nj
        elif name in ("DirichletProcess", "PitmanYorProcess"):
            d = kw.get("pyd", 0)
            self.a0 = np.full(K - 1, 1 - d, float)
            self.b0 = kw["alpha"] + (j[:K - 1] + 1.0) * d
            self.A = self.a0 + self.nj[:K - 1]
            self.B = self.b0 + ng[:K - 1]
        elif name == "GeometricProcess":
            self.a0, self.b0 = float(kw["a"]), float(kw["b"])
            self.A = self.a0 + self.nj[:K - 1].sum()
            self.B = self.b0 + (j * self.nj).sum()

    def mean(self):
        K = self.K
        if self.name == "DirichletDistribution":
            return self.par / self.par.sum()
        if self.name == "EqualWeighting":
            return np.full(K, 1 / K)
        if self.name == "FrequencyWeighting":
            return self.nj / self.N
        if self.name == "GeometricProcess":
            j = np.arange(K)
            m = np.exp(betaln(self.A + 1, self.B + j) - betaln(self.A, self.B))
            m[-1] = np.exp(betaln(self.A, self.B + K - 1) -
                           betaln(self.A, self.B))
            return m
        e = np.append(self.A / (self.A + self.B), 1)
        return e * np.cumprod(np.append(1, 1 - e[:-1]))

    def mean_log(self):
        K = self.K
        with np.errstate(divide="ignore"):
            if self.name == "DirichletDistribution":
                return digamma(self.par) - digamma(self.par.sum())
            if self.name == "EqualWeighting":
                return np.full(K, -np.log(K))
            if self.name == "FrequencyWeighting":
                return np.log(self.nj / self.N)
        if self.name == "GeometricProcess":
            j = np.arange(K)
            lv = digamma(self.A) - digamma(self.A + self.B)
            l1 = digamma(self.B) - digamma(self.A + self.B)
            r = lv + j * l1
            r[-1] = (K - 1) * l1
            return r
        t = digamma(self.A + self.B)
        lv = np.append(digamma(self.A) - t, 0)
        l1 = digamma(self.B) - t
        return lv + np.append(0, np.cumsum(l1))

    def log_p(self):
        if self.name == "DirichletDistribution":
            a = self.alpha0
            return (gammaln(a.sum()) - gammaln(a).sum() +
                    ((a - 1) * self.mean_log()).sum())
        if self.name in ("EqualWeighting", "FrequencyWeighting"):
            return 0.0
        return self._betas(self.a0, self.b0)

    def log_q(self):
        if self.name == "DirichletDistribution":
            a = self.par
            return (gammaln(a.sum()) - gammaln(a).sum() +
                    ((a - 1) * self.mean_log()).sum())
        if self.name in ("EqualWeighting", "FrequencyWeighting"):
            return 0.0
        return self._betas(self.A, self.B)

    def _betas(self, a, b):
        """E_q log Beta(v; a, b) summed over the free sticks"""
        t = digamma(np.add(self.A, self.B))
        return float(np.sum((np.asarray(a) - 1) * (digamma(self.A) - t) +
                            (np.asarray(b) - 1) * (digamma(self.B) - t) -
                            betaln(a, b)))

    def log_p_d(self, r=None):
        nj = self.nj if r is None else np.asarray(r, float).sum(1)
        ml = self.mean_log()
        return float(sum(n * m for n, m in zip(nj, ml) if n > 0))

    def mode(self, j):
        """Mode of the factor at j (None: not unique)"""
        K = self.K
        if self.name in ("EqualWeighting", "FrequencyWeighting"):
            return self.mean()[j]
        if self.name == "DirichletDistribution":
            if K == 1:
                return 1.0
            return beta_mode(self.par[j], self.par.sum() - self.par[j])
        if self.name == "GeometricProcess":
            if K == 1:
                return 1.0
            p = beta_mode(self.A, self.B)
            if p is None:
                return None
            return (1 - p) ** j * (p if j < K - 1 else 1.0)
        res = 1.0
        for i in range(min(j + 1, K - 1)):
            m = beta_mode(self.A[i], self.B[i])
            if m is None:
                return None
            f = m if i == j else 1 - m
            res *= f
            if res == 0:
                return 0.0
        return res


def beta_mode(a, b):
    if a <= 1 and b <= 1:
        return None
    if a <= 1:
        return 0.0
    if b <= 1:
        return 1.0
    return (a - 1) / (a + b - 2)


def loglik_prior(name, kw, w, p=None):
    """Log density of the stick fractions under the prior (given p for
    Beta-in-Beta, including p's own density)"""
    w = np.asarray(w, float)
    if name == "DirichletDistribution":
        a = alpha_vec(kw)
        return float(gammaln(a.sum()) - gammaln(a).sum() +
                     ((a - 1) * np.log(w)).sum())
    if name in FIN:
        return 0.0
    v = sticks(w, 1e-3)
    assert len(v) == len(w)
    ab = indep(name, kw, len(v), (), p)
    lb = beta_logpdf
    if ab is not None and name != "BetaBinomial" and name != "BetaBernoulli":
        r = lb(v, *ab).sum()
        if name == "BetaInBeta" and kw["x"] > 0:
            r += lb(p, kw["a"], kw["b"])
        return float(r)
    if name in ("GeometricProcess", "BetaInBeta"):
        return float(lb(v[0], kw["a"], kw["b"]))
    al = kw["alpha"]
    if name == "BetaBernoulli":
        r = lb(v[0], 1, al)
        for j in range(1, len(v)):
            if near(v[j], v[j - 1]):
                r += np.log1p(-kw["p"]) if kw["p"] < 1 else -np.inf
            else:
                r += (np.log(kw["p"]) if kw["p"] > 0 else -np.inf) + lb(
                    v[j], 1, al)
        return float(r)
    if name == "BetaInDirichlet":
        vals, cnt = [], []
        for x in v:
            for i, y in enumerate(vals):
                if near(x, y):
                    cnt[i] += 1
                    break
            else:
                vals.append(x)
                cnt.append(1)
        a = kw["a"]
        r = sum(lb(x, 1, al) for x in vals)
        if a == 0:
            return float(r) if len(vals) == 1 else -np.inf
        r += gammaln(a) - gammaln(a + len(v)) + len(vals) * np.log(
            a) + gammaln(cnt).sum()
        return float(r)
    raise AssertionError(name)

"""C07: reported log-likelihoods are those of the declared model."""
import itertools
import numpy as np
from scipy import stats
from scipy.special import betaln, gammaln
from pv import models as M

RULE = ("realizations of every weighting model (prior, posterior, extended) "
        "and label vectors; a case is (model, parameters, realization, "
        "labels); both log-likelihoods are compared with independent closed "
        "forms evaluated on the held weights")
ASSUMPTIONS = ["weighting log-likelihoods are judged on realizations that "
               "keep at least 1e-3 of mass beyond each fraction",
               "the p of Beta-in-Beta is read from its public attribute; the "
               "counts of Beta-Binomial from its attribute, or enumerated"]


def lengthen(ctx, name, kw):
    """Parameters under which many weights leave mass for the others"""
    if name == "GeometricProcess":
        kw.update(a=1, b=ctx.pick((60, 200)))
    else:
        kw["alpha"] = ctx.pick((25, 60.5))
    if name == "PitmanYorProcess":
        kw["pyd"] = ctx.pick((0, .05, .4))
    if name == "BetaInBeta":
        kw.update(a=1, b=ctx.pick((20, 60)), x=ctx.pick((0, .5, .9, 1)))


def long_weighting(ctx):
    weighting(ctx, True)


def realization(ctx, name, kw, long=False):
    wm = M.make(name, kw, ctx.gen())
    kmax = kw["n"] if name in M.FIN else 4
    d = None
    how = ctx.pick(("prior", "grown", "posterior", "posterior-grown",
                    "refit", "reset"))
    m = int(ctx.rng.integers(20, 120) if long else ctx.rng.integers(1, 6))
    if how == "prior":
        wm.random(m)
    elif how == "grown":
        wm.random(1)
        wm.complete(m)
    else:
        d = M.labels(ctx.rng, kmax, 12)
        wm.fit(d)
        wm.random()
        if how == "posterior-grown":
            wm.complete(m + 1)
        elif how == "refit":
            d = M.labels(ctx.rng, kmax, 12)
            wm.fit(d)
            wm.random()
        elif how == "reset":
            wm.reset()
            d = None
            wm.random(m)
    return wm, d, how


def weighting(ctx, long=False):
    for _ in range(8):
        name = ctx.pick(M.INF if long else M.ALL)
        kw = M.config(ctx.rng, name, tails=False)
        if long:
            lengthen(ctx, name, kw)
        if name == "BetaInBeta" and 0 < kw["x"] < 1:
            kw["p_method"] = ctx.pick(("static", "geometric", "independent",
                                       "rejection-sampling"))
        wm, d, how = realization(ctx, name, kw, long)
        w = np.array(wm.get_weights(), float, copy=True)
        ctx.case((name, str(kw), how, w.tolist()))
        if name in M.INF:
            if len(M.sticks(w, 1e-3)) < len(w) or np.any(w < 1e-12) or (
                    1 - w.sum() < 1e-7):
                ctx.count("not-invertible")
                continue
        elif name == "DirichletDistribution" and np.any(w < 1e-200):
            continue
        got = wm.weighting_log_likelihood()
        if name == "BetaBinomial" and kw["n"] > 0:
            binomial(ctx, kw, w, got, wm)
        elif name == "BetaBinomial":
            want = stats.beta.logpdf(M.sticks(w), 1, kw["alpha"]).sum()
            ctx.close(got, want, "weighting:" + name, 1e-6, 1e-6)
        else:
            want = M.loglik_prior(name, kw, w, getattr(wm, "p", None))
            ctx.close(got, want, "weighting:" + name, 1e-6, 1e-6, how=how)
        ctx.count("weighting")
        ctx.count("longer-than-50", len(w) > 50)
        ctx.check(np.array_equal(w, wm.get_weights()), "query-keeps-weights")
        ctx.close(wm.weighting_log_likelihood(), got, "repeatable", 0, 0)


def binomial(ctx, kw, w, got, wm):
    """Latent counts b_j ~ Bin(n, v_{j-1}), v_j ~ Beta(1+b_j, alpha+n-b_j)"""
    n, al = kw["n"], kw["alpha"]
    v = M.sticks(w)
    b = np.arange(n + 1)
    lc = gammaln(n + 1) - gammaln(b + 1) - gammaln(n - b + 1)
    terms = []
    for j, x in enumerate(v):
        if j == 0:
            t = lc + betaln(1 + b, al + n - b) - betaln(1, al)
        else:
            t = stats.binom.logpmf(b, n, v[j - 1])
        terms.append(t + stats.beta.logpdf(x, 1 + b, al + n - b))
    lat = getattr(wm, "binomials", None)
    if lat is not None and len(lat) == len(v):
        ctx.check(np.all((np.asarray(lat) >= 0) & (np.asarray(lat) <= n)),
                  "latent-counts-range", lat=lat)
        want = sum(t[i] for t, i in zip(terms, lat))
        ctx.close(got, want, "weighting:BetaBinomial", 1e-6, 1e-6)
    elif (n + 1) ** len(v) <= 20000:
        al = np.array([sum(c) for c in itertools.product(*terms)])
        ctx.check(np.abs(al - got).min() < 1e-5, "weighting:BetaBinomial",
                  got=got)


def assignation(ctx):
    for _ in range(8):
        name = ctx.pick(M.ALL)
        kw = M.config(ctx.rng, name, tails=False)
        if name == "BetaInBeta" and 0 < kw["x"] < 1:
            kw["p_method"] = ctx.pick(("static", "geometric"))
        wm, dfit, how = realization(ctx, name, kw)
        kmax = kw["n"] if name in M.FIN else 9
        if name == "FrequencyWeighting" and dfit is not None:
            kmax = int(dfit.max()) + 1
        d = M.labels(ctx.rng, kmax, 10)
        held = np.array(wm.get_weights(), float, copy=True)
        form = ctx.pick(("array", "list", "int32", "default"))
        if form == "default":
            if dfit is None:
                form = "array"
            else:
                d = dfit
        ctx.case((name, str(kw), how, held.tolist(), d.tolist(), form))
        if form == "default":
            got = wm.assignation_log_likelihood()
        else:
            got = wm.assignation_log_likelihood(
                d if form == "array" else d.tolist() if form == "list" else
                d.astype(np.int32))
        w = np.asarray(wm.get_weights(), float)
        ctx.check(len(w) > d.max(), "realization-extended", n=len(w))
        ctx.check(np.array_equal(w[:len(held)], held) or
                  np.allclose(w[:len(held)], held, rtol=1e-12, atol=0),
                  "realization-kept", held=held, w=w)
        ctx.count("extended", len(w) > len(held))
        with np.errstate(divide="ignore"):
            want = np.log(w[d]).sum()
        ctx.count("minus-infinity", np.isneginf(want))
        ctx.close(got, want, "assignation", 1e-9, 1e-9, form=form)
        ctx.count("assignation")


def zero_weight(ctx):
    wm = M.make("FrequencyWeighting", {"n": 5}, ctx.gen())
    occ = ctx.rng.choice(5, 2, replace=False)
    occ = np.append(occ, 4)
    wm.fit(occ)
    wm.random()
    d = ctx.rng.integers(5, size=4)
    ctx.case(("FrequencyWeighting", occ.tolist(), d.tolist()))
    w = np.bincount(occ) / len(occ)
    with np.errstate(divide="ignore"):
        ctx.close(wm.assignation_log_likelihood(d), np.log(w[d]).sum(),
                  "zero-weight", 1e-9, 1e-9)
    ctx.count("zero-weight")


SCALE = 10     # of the quick tier
SCENARIOS = [("weighting", weighting, 150, 3000),
             ("long", long_weighting, 60, 900),
             ("assignation", assignation, 120, 2500),
             ("zero-weight", zero_weight, 40, 300)]
REQUIRE = {"weighting": 700, "assignation": 800, "zero-weight": 30,
           "extended": 100, "longer-than-50": 100}
REQUIRE.update({"mon:weighting:" + n: 20 for n in M.ALL})

"""C05: the inner Markov steps of hierarchical weights leave the joint prior
law of weights and labels invariant."""
import numpy as np
from scipy.special import betaln, gammaln
from pv import mix as X
from pv import models as M

RULE = ("successive-conditional histories: an exact prior draw of the weights, "
        "then alternately labels given weights (drawn by the harness) and "
        "weights given labels (drawn by the library); after every number of "
        "alternations the weights must still have the exact prior law, judged "
        "by conditional probability integral transforms; a case is (model, "
        "parameters, number of labels, alternations)")
ASSUMPTIONS = ["exactness is only claimed for the p methods static and "
               "inverse-sampling / rejection-sampling of Beta-in-Beta"]


def config(ctx, name):
    al = ctx.pick((0.5, 1, 2, 3.7))
    if name == "BetaInDirichlet":
        return {"alpha": al, "a": ctx.pick((0.3, 1, 2.5, 20))}
    if name == "BetaBernoulli":
        return {"alpha": al, "p": ctx.pick((0.1, 0.3, 0.5, 0.8))}
    if name == "BetaBinomial":
        return {"alpha": al, "n": ctx.pick((1, 2, 5, 12, 30))}
    return {"alpha": al, "x": ctx.pick((0.05, 0.2, 0.5, 0.8, 0.95)),
            "a": ctx.pick((1, 2, 0.6)), "b": ctx.pick((1, 3, 8))}


def draw_labels(ctx, wm, N):
    """N labels from the (infinite) weights, or None if they reach too far"""
    u = ctx.rng.uniform(size=N)
    for _ in range(60):
        c = np.cumsum(wm.get_weights())
        if c[-1] > u.max():
            return np.searchsorted(c, u, side="right")
        if len(c) > 5000:
            return None
        wm.complete(2 * len(c) + 1)
    return None


def chain(ctx, name, p_method=None, chains=10, steps=None):
    kw = config(ctx, name)
    if p_method:
        kw["p_method"] = p_method
    if p_method == "inverse-sampling":
        # quadratures of unbounded densities take minutes
        kw["a"], kw["b"] = ctx.pick(((1, 8), (1, 8), (8, 1), (2, 1), (2, 8)))
        steps = ctx.pick((1, 3, 3, 4))
    N = ctx.pick((1, 2, 5, 12))
    T = steps or ctx.pick((1, 2, 4, 10))
    ctx.case((name, str(kw), N, T))
    ctx.group({k: v for k, v in kw.items() if k != "p_method"}, "N=%d" % N,
              "T=%d" % T, *(["ab=%s,%s" % (kw["a"], kw["b"])]
                            if name == "BetaInBeta" else []))
    for _ in range(chains):
        wm = M.make(name, kw, ctx.gen())
        wm.random(int(ctx.rng.integers(1, 6)))
        for _ in range(T):
            d = draw_labels(ctx, wm, N)
            if d is None:
                # labels further than the harness follows: the chain is cut
                # for a reason the law of the first fraction depends on, so
                # such configurations only occur below the threshold counted
                ctx.count("cut")
                break
            wm.fit(d)
            mode = ctx.pick(("random", "random", "oversized", "complete"))
            if mode == "oversized":
                wm.random(int(d.max()) + 3)
            else:
                wm.random()
            ctx.count("alternations")
        else:
            w = wm.complete(6)
            key = name + (":" + p_method if p_method else "")
            M.prior_pits(ctx, key, name, kw, w, maxj=4)
            ctx.count("chains")
            p = getattr(wm, "p", None)
            if name == "BetaInBeta" and isinstance(p, float):
                # the hidden location keeps its prior law as well
                ctx.pit("p:" + key, M.beta_cdf(p, kw["a"], kw["b"]))
                ctx.count("locations")
            d = draw_labels(ctx, wm, N)
            if d is not None:
                law = M.label_law(name, kw, N)
                k = int((d == 0).sum())
                e = np.zeros(len(law))
                e[k] = 1
                ctx.dpit("labels:" + key, law[:k].sum(), law[k])


def deep(ctx):
    """The same histories with labels, and a law judged, far along the
    sequence of weights"""
    name = ctx.pick(("BetaInDirichlet", "BetaBernoulli", "BetaBinomial",
                     "BetaBernoulli"))
    kw = config(ctx, name)
    kw["alpha"] = ctx.pick((6, 9.5))
    # a tiny fraction shared by many weights sends the labels too far
    if name == "BetaInDirichlet":
        kw["a"] = ctx.pick((2.5, 20))
    elif name == "BetaBernoulli":
        kw["p"] = ctx.pick((.3, .5, .8))
    N = ctx.pick((2, 8, 30))
    T = ctx.pick((2, 4, 8))
    ctx.case((name, str(kw), N, T, "deep"))
    ctx.group(kw, "N=%d" % N)
    for _ in range(6):
        wm = M.make(name, kw, ctx.gen())
        wm.random(int(ctx.rng.integers(1, 12)))
        for _ in range(T):
            d = draw_labels(ctx, wm, N)
            if d is None:
                ctx.count("cut")
                break
            wm.fit(d)
            wm.random()
            ctx.count("alternations")
            ctx.count("far-labels", int((d >= M.FAR).sum()))
        else:
            M.prior_pits(ctx, "deep:" + name, name, kw, wm.complete(30),
                         maxj=28, floor=1e-2)
            ctx.count("deep")


def extension(ctx):
    """Weights appended after a posterior draw follow the prior law given
    the weights before them"""
    name = ctx.pick(("BetaInDirichlet", "BetaBernoulli", "BetaBinomial"))
    kw = config(ctx, name)
    ctx.group(kw)
    for _ in range(25):
        d = M.labels(ctx.rng, int(ctx.rng.integers(1, 7)), 12)
        ctx.case((name, str(kw), d.tolist(), "extension"))
        wm = M.make(name, kw, ctx.gen())
        if ctx.rng.uniform() < .5:
            wm.random(int(ctx.rng.integers(1, 9)))
        wm.fit(d)
        for _ in range(int(ctx.rng.integers(1, 3))):
            wm.random()
        held = len(wm.get_weights())
        for size in ctx.pick(((held + 8,), range(held + 1, held + 8))):
            w = wm.complete(size)
        M.prior_pits(ctx, "extension:" + name, name, kw, w, maxj=held + 8,
                     start=held)
        ctx.count("extensions")


def location(ctx):
    """The hidden location of Beta-in-Beta is redrawn exactly given the
    fractions held, however many and however concentrated they are"""
    pm = ctx.pick(("inverse-sampling", "rejection-sampling"))
    x, k, n, al = ctx.pick(((.05, 2, 3, 1), (.5, 10, 40, 1), (.5, 15, 100, 8),
                            (.9, 20, 60, 3)) + (() if
                           pm[0] == "r" else (
                               (.9, 60, 300, 3), (.9, 5, 300, 40), (.97, 30, 300, 5),
                               (.99, 40, 500, 1), (.995, 100, 500, 2),
                               (.999, 20, 800, 1))))
    a, b = ctx.pick(((1, 1), (2, 3), (1, 8)))
    kw = {"x": x, "alpha": al, "a": a, "b": b, "p_method": pm}
    ctx.case((str(kw), k, n, ctx.index, "location"))
    c = x / (1 - x)
    g = (np.arange(6000) + .5) / 6000
    for _ in range(3):
        wm = M.make("BetaInBeta", kw, ctx.gen())
        wm.random(k)
        wm.fit(np.append(np.arange(k), ctx.rng.integers(k, size=n)))
        for _ in range(2):
            v = np.array(getattr(wm, "v", ()), float)
            w = wm.random()
            p = getattr(wm, "p", None)
            ctx.check(np.all(np.isfinite(w)) and w.sum() <= 1 + 1e-9,
                      "weights-finite", w=w)
            if p is None or len(v) < k or not (np.all(v > 0) and
                                               np.all(v < 1)):
                ctx.count("location-skipped")
                continue
            A, B = 1 + c * g, al + c * (1 - g)
            lp = (a - 1) * np.log(g) + (b - 1) * np.log1p(-g) + len(v) * (
                -betaln(A, B)) + (A - 1) * np.log(v).sum() + (
                    B - 1) * np.log1p(-v).sum()
            q = np.exp(lp - lp.max())
            q = np.append(0, np.cumsum(q) / q.sum())
            ctx.pit("location:%s" % pm, np.interp(
                float(p), np.arange(6001) / 6000, q))
            ctx.pit("location:%s:x=%s" % (pm, x), np.interp(
                float(p), np.arange(6001) / 6000, q))
            ctx.count("located")


def mk(name, pm=None, chains=10):
    return lambda ctx: chain(ctx, name, pm, chains)


def moments(name, kw):
    """E v_0 v_1 and P(v_0 = v_1) under the prior"""
    al = kw["alpha"]
    m1 = 1 / (1 + al)
    m2 = 2 / ((1 + al) * (2 + al))
    if name == "BetaInDirichlet":
        t = 1 / (1 + kw["a"])
        return t * m2 + (1 - t) * m1 ** 2, t
    if name == "BetaBernoulli":
        t = 1 - kw["p"]
        return t * m2 + (1 - t) * m1 ** 2, t
    n = kw["n"]
    return (m1 + n * m2) / (1 + al + n), 0.0


def averages(ctx):
    """Averages over long alternations started from the exact joint law: the
    expectation of every term is known, whatever the dependence within one
    chain, and the chains are independent"""
    name = ctx.pick(("BetaInDirichlet", "BetaInDirichlet", "BetaBernoulli",
                     "BetaBinomial"))
    kw = config(ctx, name)
    kw["alpha"] = ctx.pick((0.5, 1))
    if kw.get("a") == 20:
        kw["a"] = 6
    N, T = ctx.pick((1, 3)), 25
    ctx.case((name, str(kw), N, T, "averages"))
    ctx.group(kw, "N=%d" % N)
    e11, tie = moments(name, kw)
    for _ in range(8):
        wm = M.make(name, kw, ctx.gen())
        wm.random(2)
        tot = np.zeros(4)
        for _ in range(T):
            d = draw_labels(ctx, wm, N)
            if d is None:
                ctx.count("cut")
                break
            wm.fit(d)
            wm.random(max(2, int(d.max()) + 1))
            w = np.asarray(wm.get_weights())
            v1 = w[1] / (1 - w[0]) if w[0] < 1 - 1e-6 else np.nan
            if np.isnan(v1):      # v_1 cannot be told: v_0 = 1 nearly
                v1 = w[0]
            tot += (w[0], w[0] * v1, abs(v1 - w[0]) < 1e-8 * max(
                1e-3, v1), (d == 0).mean())
        else:
            tot /= T
            ctx.mean("avg:v0:" + name, tot[0], 1 / (1 + kw["alpha"]))
            ctx.mean("avg:v0v1:" + name, tot[1], e11)
            if name != "BetaBinomial":
                ctx.mean("avg:tie:" + name, tot[2], tie)
            ctx.mean("avg:label:" + name, tot[3], 1 / (1 + kw["alpha"]))
            ctx.count("averages")


def exact_posterior(name, kw, d):
    """Tie patterns of the first n = max(d) + 1 fractions given the labels:
    expected ties of neighbours, expected number of values, E v_0"""
    n = max(d) + 1
    al = kw["alpha"]
    nj, ng = M.counts(d, n)
    if name == "BetaInDirichlet":
        pats = list(X.partitions(n))
    else:
        pats = []
        for bits in range(2 ** (n - 1)):
            s = [bits >> j & 1 for j in range(n - 1)]
            pats.append(tuple(np.concatenate([[0], np.cumsum(s)]).tolist()))
    lw, out = [], []
    for pat in pats:
        pat = np.array(pat)
        k = pat.max() + 1
        size = np.bincount(pat)
        if name == "BetaInDirichlet":
            lp = k * np.log(kw["a"]) + gammaln(size).sum()
        else:
            lp = (k - 1) * np.log(kw["p"]) + (n - k) * np.log1p(-kw["p"])
        A = np.array([nj[pat == b].sum() for b in range(k)])
        B = np.array([ng[pat == b].sum() for b in range(k)])
        lp += (betaln(1 + A, al + B) - betaln(1, al)).sum()
        lw.append(lp)
        out.append(list(pat[1:] == pat[:-1]) + [k / n] + [
            (1 + A[0]) / (1 + al + A[0] + B[0])])
    q = np.exp(np.array(lw) - max(lw))
    q /= q.sum()
    return q @ np.array(out, float)


FIXED = ((1,), (2,), (3,), (0, 1), (0, 2), (0, 3), (1, 2), (0, 0, 1),
         (0, 1, 2), (1, 1, 3), (0, 1, 2, 3), (0, 0, 0, 2))


def fixed_labels(ctx):
    """Repeated posterior draws given the same few labels, from an exact
    posterior start (a prior draw whose labels happen to be those)"""
    name = ctx.pick(("BetaInDirichlet", "BetaBernoulli"))
    al = ctx.pick((0.5, 1))
    if name == "BetaInDirichlet":
        kw = {"alpha": al, "a": ctx.pick((0.3, 1, 5))}
    else:
        kw = {"alpha": al, "p": ctx.pick((0.15, 0.5, 0.85))}
    d = np.array(ctx.pick(FIXED))
    n = int(d.max()) + 1
    ctx.case((name, str(kw), d.tolist(), "fixed"))
    ctx.group({}, "d=%s" % d.tolist(), *("%s=%s" % i for i in kw.items()))
    want = exact_posterior(name, kw, d)
    T = 20
    for _ in range(10):
        for attempt in range(2000):
            wm = M.make(name, kw, ctx.gen())
            wm.random(n + int(ctx.rng.integers(3)))
            c = np.cumsum(wm.get_weights())
            if np.array_equal(np.searchsorted(
                    c, ctx.rng.uniform(size=len(d)), side="right"), d):
                break
        else:
            ctx.count("no-exact-start")
            break
        wm.fit(d)
        tot = np.zeros(n + 1)
        for _ in range(T):
            v = M.sticks(wm.random(), 1e-7)
            if len(v) < n:
                v = np.append(v, np.full(n - len(v), .5) + np.arange(
                    n - len(v)) / 10)
            tie = np.abs(np.diff(v)) < 1e-7 * np.maximum(1e-3, v[1:])
            vals = 1 + sum(not np.any(np.abs(v[:j] - v[j]) < 1e-7 * max(
                1e-3, v[j])) for j in range(1, n))
            tot += np.append(tie, (vals / n, v[0]))
        tot /= T
        ctx.mean("fixed:tie:" + name, tot[:n - 1].sum() / max(1, n - 1),
                 want[:n - 1].sum() / max(1, n - 1))
        ctx.mean("fixed:values:" + name, tot[n - 1], want[n - 1])
        ctx.mean("fixed:v0:" + name, tot[n], want[n])
        ctx.count("fixed")


def settled(ctx):
    """As fixed_labels, with labels far along the weights, of which no prior
    draw comes out exactly: the first draws are left out instead"""
    name = ctx.pick(("BetaInDirichlet", "BetaBernoulli", "BetaBernoulli"))
    al = ctx.pick((1, 4))
    if name == "BetaInDirichlet":
        kw = {"alpha": al, "a": ctx.pick((1, 5))}
        n = ctx.pick((5, 6))
    else:
        kw = {"alpha": al, "p": ctx.pick((0.15, 0.5, 0.85))}
        n = ctx.pick((9, 10, 11))
    # the labels end in a few at the far end, where the fractions change
    far = ctx.rng.integers(n - 3, n, size=int(ctx.rng.integers(2, 7)))
    d = np.concatenate([[n - 1], far, ctx.rng.integers(
        n, size=int(ctx.rng.integers(0, 3)))])
    d = ctx.rng.permutation(d)
    ctx.case((name, str(kw), d.tolist(), "settled"))
    ctx.group({}, "n=%d" % n)
    want = exact_posterior(name, kw, d)
    T, cut = 40, n - 4
    for _ in range(3):
        wm = M.make(name, kw, ctx.gen())
        wm.random(n + int(ctx.rng.integers(3)))
        wm.fit(d)
        for _ in range(60):
            wm.random()
        tot = np.zeros(n - 1)
        v0 = 0
        for _ in range(T):
            v = M.sticks(wm.random(n), 1e-7)
            if len(v) < n:
                v = np.append(v, np.full(n - len(v), .5) + np.arange(
                    n - len(v)) / 10)
            tot += np.abs(np.diff(v[:n])) < 1e-7 * np.maximum(1e-3, v[1:n])
            v0 += v[0]
        tot /= T
        ctx.mean("settled:tie:" + name, tot.mean(), want[:n - 1].mean())
        ctx.mean("settled:tie:far:" + name, tot[cut:].mean(),
                 want[cut:n - 1].mean())
        ctx.mean("settled:v0:" + name, v0 / T, want[n])
        ctx.count("settled")


def anylabels(ctx):
    """The posterior step never fails, on any label vector and history"""
    name = ctx.pick(("BetaInDirichlet", "BetaBernoulli", "BetaBinomial",
                     "BetaInBeta"))
    kw = config(ctx, name)
    if name == "BetaInBeta":
        kw["p_method"] = ctx.pick(("static", "inverse-sampling",
                                   "rejection-sampling"))
    wm = M.make(name, kw, ctx.gen())
    for _ in range(12):
        d = M.labels(ctx.rng, int(ctx.rng.integers(1, 12)), 30)
        ctx.case((name, str(kw), d.tolist()))
        wm.fit(d)
        how = ctx.pick(("random", "complete", "tail", "big"))
        if how == "random":
            w = wm.random()
        elif how == "complete":
            w = wm.complete(int(d.max()) + 1)
        elif how == "tail":
            w = wm.tail(.5)
        else:
            w = wm.random(int(d.max()) + 4)
        w = np.asarray(w)
        ctx.check(np.all(np.isfinite(w)) and np.all(w >= 0) and
                  w.sum() <= 1 + 1e-9, "posterior-weights-valid", w=w)
        ctx.check(np.array_equal(w, wm.get_weights()), "returned-is-held")
        ctx.count("label-vectors")


def concentrated(ctx):
    """Given very many labels the first fractions are known: the posterior
    step must follow them, whatever the realization it starts from.  With all
    N labels below two, E[w_0] is within a few standard errors of n_0/N"""
    name = ctx.pick(("BetaInDirichlet", "BetaBernoulli", "BetaBinomial"))
    kw = config(ctx, name)
    if name == "BetaBinomial":
        kw["n"] = ctx.pick((1, 2))
    N = 4000
    q = ctx.rng.uniform(.2, .8)
    d = (ctx.rng.uniform(size=N) < q).astype(int)
    if d.min() == d.max():
        return
    ctx.case((name, str(kw), "concentrated", float(q)))
    wm = M.make(name, kw, ctx.gen())
    wm.random(2)
    wm.fit(d)
    for _ in range(30):
        wm.random()
    v = M.sticks(wm.random(2))
    f0 = (d == 0).mean()
    # labels are 0 or 1 only, so both fractions are pinned: v0 ~ f0, v1 ~ 1,
    # unless the prior forces them equal; then they are refused by the prior
    if name != "BetaBinomial":
        ctx.check(abs(v[0] - f0) < 8 * np.sqrt(f0 * (1 - f0) / N) + .01,
                  "concentrates", v0=v[0], f0=f0)
    ctx.count("concentrated")


SCENARIOS = [
    ("BetaInDirichlet", mk("BetaInDirichlet", None, 12), 900, 8000),
    ("BetaBernoulli", mk("BetaBernoulli", None, 12), 900, 8000),
    ("BetaBinomial", mk("BetaBinomial", None, 12), 900, 8000),
    ("BetaInBeta-static", mk("BetaInBeta", "static", 12), 400, 3000),
    ("BetaInBeta-inverse", mk("BetaInBeta", "inverse-sampling", 5), 160, 2000),
    ("BetaInBeta-rejection", mk("BetaInBeta", "rejection-sampling", 6), 300,
     3000),
    ("extension", extension, 400, 4000),
    ("deep", deep, 500, 6000),
    ("fixed-labels", fixed_labels, 400, 8000),
    ("settled", settled, 300, 3000),
    ("averages", averages, 1000, 12000),
    ("any-labels", anylabels, 60, 1000),
    ("concentrated", concentrated, 12, 100),
    ("location", location, 900, 6000),
]
REQUIRE = {"chains": 3500, "located": 4000, "deep": 1500, "settled": 800, "extensions": 5000, "far-labels": 10000, "label-vectors": 500}

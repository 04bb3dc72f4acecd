"""C06: random assignments are categorical draws from the held weights."""
import numpy as np
from scipy.special import bdtr
from pv import models as M

RULE = ("every weighting model with held weight vectors of every kind "
        "(truncated, zero weights, single component); a case is (model, "
        "parameters, held weights, size); labels are judged by randomized "
        "probability integral transforms under the normalized held weights")
ASSUMPTIONS = []


def one(ctx):
    for _ in range(6):
        name = ctx.pick(M.ALL)
        kw = M.config(ctx.rng, name)
        wm = M.make(name, kw, ctx.gen())
        how = ctx.pick(("random", "fit", "frequency-gap", "tail", "complete"))
        if how == "frequency-gap" or (how == "fit" and
                                      name == "FrequencyWeighting"):
            name, kw = "FrequencyWeighting", {"n": 6}
            wm = M.make(name, kw, ctx.gen())
            # zero weights between positive ones
            wm.fit(ctx.rng.choice([1, 2, 4, 5][:int(ctx.rng.integers(1, 5))],
                                  10))
            wm.random()
        elif how == "fit":
            wm.fit(M.labels(ctx.rng, kw["n"] if name in M.FIN else 5, 10))
            wm.random()
        elif how == "tail":
            wm.tail(.5)
        elif how == "complete":
            wm.complete(4)
        else:
            wm.random(int(ctx.rng.integers(1, 7)))
        w = np.array(wm.get_weights(), copy=True)
        size = ctx.pick((None, 1, 2, 50, 400, 0, np.int64(7)))
        ctx.case((name, str(kw), how, w.tolist(), str(size)))
        d = wm.random_assignment() if size is None else \
            wm.random_assignment(size)
        d = np.asarray(d)
        if size is None:
            ctx.check(d.size == 1, "one-label-without-size", d=d)
            ctx.count("scalar")
        else:
            ctx.check(d.shape == (int(size),), "requested-number",
                      shape=list(d.shape), size=size)
        d = d.ravel()
        ctx.check(np.issubdtype(d.dtype, np.integer), "integer-labels")
        ctx.check(np.all((d >= 0) & (d < len(w))), "labels-index-weights",
                  d=d, n=len(w))
        if len(d) and np.all((d >= 0) & (d < len(w))):
            ctx.check(np.all(w[d] > 0), "zero-weight-never-drawn", d=d, w=w)
            p = w / w.sum()
            c = np.concatenate([[0], np.cumsum(p)])
            u = np.clip(c[d] + ctx.rng.uniform(size=len(d)) * p[d], 0, 1)
            ctx.pit("label", u)
            ctx.pit("label:" + name, u)
            if len(d) > 1:
                # neighbours are independent: the difference of two uniforms
                # modulo one is uniform
                ctx.pit("pairs", (u[1::2] - u[:len(u[1::2]) * 2:2]) % 1)
                ctx.pit("far-pairs", (u[:len(u) // 2] -
                                      u[len(u) // 2:len(u) // 2 * 2]) % 1)
        ctx.count("labels", len(d))
        if len(d) > 5:
            # independent labels: the number of labels equal to the first
            # component, and up to the middle one, are binomial
            n = len(d)
            for k, m in (("first", 1), ("half", (len(w) + 1) // 2)):
                q = float(min(1, p[:m].sum()))
                c0 = int((d < m).sum())
                if 0 < q < 1:
                    ctx.dpit("count:" + k, bdtr(c0 - 1, n, q) if c0 else 0.,
                             bdtr(c0, n, q) - (bdtr(c0 - 1, n, q) if c0
                                               else 0.))
        ctx.check(np.array_equal(w, wm.get_weights()), "weights-unaltered")
        if ctx.rng.uniform() < .5:
            # the same number of weights again: the labels follow the new ones
            again = np.array(wm.random(len(w)), copy=True)
            k = min(len(again), len(wm.get_weights()))
            if k and again.sum() > 0:
                e = np.asarray(wm.random_assignment(20))
                if np.all((e >= 0) & (e < len(again))):
                    p = again / again.sum()
                    c = np.concatenate([[0], np.cumsum(p)])
                    ctx.check(np.all(again[e] > 0), "zero-weight-never-drawn",
                              d=e, w=again)
                    ctx.pit("label-after-redraw", np.clip(
                        c[e] + ctx.rng.uniform(size=20) * p[e], 0, 1))
                else:
                    ctx.check(False, "labels-index-weights", d=e,
                              n=len(again))
            w = again
        # repeated calls are new draws
        if len(w) > 1 and w.sum() > 0 and (w / w.sum()).max() < .9:
            a, b = wm.random_assignment(300), wm.random_assignment(300)
            ctx.check(not np.array_equal(a, b), "fresh-draws")


def weightless(ctx):
    """Before any weights are drawn there are no labels to draw"""
    name = ctx.pick(M.ALL)
    kw = M.config(ctx.rng, name)
    wm = M.make(name, kw, ctx.gen())
    how = ctx.pick(("fresh", "fit", "reset"))
    size = ctx.pick((None, 1, 5))
    ctx.case(("no-weights", name, str(kw), how, size))
    if how != "fresh":
        wm.fit(np.zeros(4, int))
        if how == "reset":
            wm.reset()
    if len(wm.get_weights()):
        ctx.count("fitted-weights")
        return
    ctx.raises(Exception, lambda: wm.random_assignment(size),
               "labels-without-weights", model=name, how=how)
    ctx.check(len(wm.get_weights()) == 0, "weights-unaltered")
    ctx.count("weightless")
    n = kw["n"] if name in M.FIN else 3
    d = wm.random(n) is not None and wm.random_assignment(7)
    ctx.check(np.shape(d) == (7,) and np.all(
        (d >= 0) & (d < len(wm.get_weights()))), "labels-index-weights", d=d)


def skewed(ctx):
    """Un-normalized truncations with little mass; many components"""
    wm = M.make("DirichletProcess", {"alpha": 50.0}, ctx.gen())
    m = int(ctx.rng.integers(1, 40))
    w = np.array(wm.random(m), copy=True)
    ctx.case(("truncated", m, w.tolist()))
    d = wm.random_assignment(300)
    ctx.check(np.all((d >= 0) & (d < m)), "labels-index-weights")
    ctx.freq("truncation-%d" % (m // 10),
             np.bincount(d, minlength=40)[:40], np.append(
                 300 * w / w.sum(), np.zeros(40 - m)))
    ctx.count("skewed")


SCALE = 6     # of the quick tier
_EXTREME = []


def extreme_states():
    """States of a generator whose next uniform is within 3e-8 of 0 or 1"""
    if not _EXTREME:
        for seed in range(20):
            g = np.random.Generator(np.random.PCG64(seed))
            at = 0
            for _ in range(5):
                u = g.random(10 ** 7)
                for k in np.flatnonzero((u > 1 - 3e-8) | (u < 3e-8))[:2]:
                    _EXTREME.append(np.random.PCG64(seed).advance(
                        at + int(k)).state)
                at += len(u)
            if len(_EXTREME) >= 4:
                break
    return _EXTREME


def extremes(ctx):
    """Labels drawn from uniforms next to 0 and 1 index positive weights"""
    for state in extreme_states():
        for _ in range(12):
            name = ctx.pick(M.ALL)
            kw = M.config(ctx.rng, name)
            g = ctx.gen()
            if not isinstance(g.bit_generator, np.random.PCG64):
                g = np.random.Generator(np.random.PCG64(
                    int(ctx.rng.integers(2 ** 40))))
            wm = M.make(name, kw, g)
            if name == "FrequencyWeighting":
                wm.fit(ctx.rng.choice([1, 2, 4, 5], 10))
                wm.random()
            else:
                wm.random(int(ctx.rng.integers(1, 200)))
            w = np.array(wm.get_weights(), copy=True)
            g.bit_generator.state = state
            d = np.ravel(wm.random_assignment(ctx.pick((None, 1, 3))))
            ctx.case((name, str(kw), len(w), state["state"]["state"]))
            if ctx.check(np.all((d >= 0) & (d < len(w))),
                         "labels-index-weights", d=d, n=len(w)):
                ctx.check(np.all(w[d] > 0), "zero-weight-never-drawn", d=d)
            ctx.count("extreme-draws")


SCENARIOS = [("extremes", extremes, 8, 40), ("models", one, 400, 6000), ("truncations", skewed, 120, 1500),
             ("weightless", weightless, 60, 600)]
REQUIRE = {"extreme-draws": 300, "weightless": 100, "labels": 20000, "scalar": 40, "pit:pairs": 5000}

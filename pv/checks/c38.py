"""C38: a copy of a model is an exact and independent checkpoint."""
import copy
import pickle

import numpy as np

from pv import drive
from pv import models as M

RULE = ("an object with a random history is copied (deep copy, copy of a "
        "copy, pickle) between two calls; the copy is driven on its own (cold "
        "and warm fits, queries, draws), then the original and another copy "
        "complete the history; both must give exactly what an uncopied twin "
        "gives; a case is one model, history and copy point")
ASSUMPTIONS = ["objects that cannot be pickled are left out of the pickle "
               "variant"]


def duplicate(ctx, x):
    how = ctx.pick(("deep", "deep", "deep-deep", "pickle"))
    if how == "pickle":
        try:
            s = pickle.dumps(x)
        except Exception:                                  # noqa: BLE001
            ctx.count("not-picklable")
            how = "deep"
        else:
            ctx.count("pickled")
            return pickle.loads(s)
    ctx.count("deep-copied")
    y = copy.deepcopy(x)
    return copy.deepcopy(y) if how == "deep-deep" else y


def same_generator(ctx, a, b, key):
    s, t = (drive.plain(m.rng.bit_generator.state["state"]) if hasattr(
        m, "rng") and hasattr(m.rng, "bit_generator") else None
        for m in (a, b))
    ctx.check(s is None or t is None or drive.same(s, t), key)


def mixtures(ctx):
    p = drive.Program(ctx, steps=ctx.pick((3, 4, 5)))
    s = int(ctx.rng.integers(2 ** 40))
    own = ctx.rng.uniform() < .5

    def rng():
        return np.random.default_rng(s) if own else s
    a, b = p.make(rng()), p.make(rng())
    at = int(ctx.rng.integers(len(p.ops)))
    ctx.case((p.desc(), s, at, own))
    g = v = False
    for op in p.ops[:at]:
        ctx.check(drive.same(p.apply(a, op), p.apply(b, op)), "twins-differ")
        g = g or op[0] == "fit_gibbs"
        v = v or op[0] == "fit_variational" or op[1].get(
            "init_method") == "variational"
    c, e = duplicate(ctx, b), duplicate(ctx, b)
    # the copy goes its own way
    for _ in range(ctx.pick((1, 2))):
        x = ctx.rng.uniform()
        if g and x < .5:
            op = ("fit_gibbs", {"warm_start": True})
        elif v and x < .6:
            op = ("fit_variational", {"warm_start": True})
        elif (g or v) and x < .7:
            op = p.query(g, v)
        elif ctx.rng.uniform() < .5 and p.name in M.VAR:
            op, v = p.var_fit(False), True
        else:
            op, g = p.gibbs_fit(False), True
            v = v or op[1].get("init_method") == "variational"
        p.apply(c, op)
        ctx.count("copy-driven:" + op[0])
    if g and ctx.rng.uniform() < .5:
        # and is spoilt
        for st in c.get_sim_params():
            st["d"][:] = 0
            st["w"][:] = np.nan
    same_generator(ctx, a, b, "copy-moves-generator")
    # original and second copy complete the history as the twin does
    tail = p.ops[at:]
    if g or v:
        tail = tail + [("fit_gibbs", {"warm_start": True})] * any(
            o[0] == "fit_gibbs" for o in p.ops) + [
            ("fit_variational", {"warm_start": True})] * any(
            o[0] == "fit_variational" for o in p.ops)
    want = [p.apply(a, op) for op in tail]
    for who, m in (("original", b), ("copy", e)):
        for op, w in zip(tail, want):
            ctx.check(drive.same(p.apply(m, op), w), "%s-differs" % who,
                      call=op[0], warm=op[1].get("warm_start"),
                      after=[o for o, _ in p.ops[:at]])
            ctx.count("continued:" + op[0] + (
                ":warm" if op[1].get("warm_start") else ""))
        same_generator(ctx, a, m, "%s-generator" % who)
    ctx.count("copied-models")


def weights(ctx):
    p = drive.WeightProgram(ctx, steps=ctx.pick((4, 8)))
    s = int(ctx.rng.integers(2 ** 40))
    a, b = (p.make(np.random.default_rng(s)) for _ in range(2))
    at = int(ctx.rng.integers(len(p.ops)))
    ctx.case((p.desc(), s, at))
    for op in p.ops[:at]:
        p.apply(a, op), p.apply(b, op)
    c, e = duplicate(ctx, b), duplicate(ctx, b)
    for op in ctx.pick((p.ops[at:], p.ops)):
        p.apply(c, op)
    w = np.asarray(c.get_weights())
    if w.flags.writeable:
        w[:] = np.nan
    want = [p.apply(a, op) for op in p.ops[at:]]
    for who, m in (("original", b), ("copy", e)):
        got = [p.apply(m, op) for op in p.ops[at:]]
        ctx.check(drive.same(got, want), "weights-%s-differs" % who,
                  ops=[o for o, _ in p.ops[at:]])
        ctx.check(drive.same(np.array(a.get_weights()),
                             np.array(m.get_weights())),
                  "weights-%s-held" % who)
    ctx.count("copied-weights")


SCALE = 3     # of the quick tier
SCENARIOS = [("mixtures", mixtures, 150, 3000), ("weights", weights, 300,
                                                 6000)]
REQUIRE = {"copied-models": 300, "copied-weights": 600, "deep-copied": 1000,
           "continued:fit_gibbs:warm": 200}

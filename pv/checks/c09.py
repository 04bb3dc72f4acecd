"""C09: variational weight terms of the evidence bound."""
import numpy as np
from pv import models as M
from pv.checks.c08 import setup, responsibilities

RULE = ("random responsibility matrices on the six models with variational "
        "support; the three bound terms are compared with exact expectations "
        "under the optimal factor; a case is (model, parameters, "
        "responsibilities)")
ASSUMPTIONS = []


def terms(ctx):
    for _ in range(10):
        name, kw, r, kind, wm, ref = setup(ctx)
        with np.errstate(divide="ignore"):
            lp, lq = wm.variational_mean_log_p_w(), \
                wm.variational_mean_log_q_w()
        ctx.close(lp, ref.log_p(), "log-p-w:" + name, 1e-8, 1e-8)
        ctx.close(lq, ref.log_q(), "log-q-w:" + name, 1e-8, 1e-8)
        ctx.check(lp - lq <= 1e-7 * (1 + abs(lq)), "kl-nonnegative",
                  lp=lp, lq=lq)
        got = wm.variational_mean_log_p_d__w()
        ctx.close(got, ref.log_p_d(), "log-p-d:" + name, 1e-8, 1e-8)
        before = [wm.variational_mean_w_j(j) for j in range(len(r))]
        if ctx.rng.uniform() < .7:
            r2, _ = responsibilities(ctx, len(r))
            ok = name != "FrequencyWeighting" or not np.any(
                (ref.nj == 0) & (r2.sum(1) > 0))
            if ok:
                got = wm.variational_mean_log_p_d__w(r2)
                ctx.close(got, ref.log_p_d(r2), "explicit:" + name, 1e-8,
                          1e-8)
                got = wm.variational_mean_log_p_d__w(variational_d=r2)
                ctx.close(got, ref.log_p_d(r2), "explicit:" + name, 1e-8,
                          1e-8)
                ctx.count("explicit")
        ctx.close([wm.variational_mean_w_j(j) for j in range(len(r))], before,
                  "factor-unchanged", 0, 0)
        ctx.close(wm.variational_mean_log_p_d__w(), ref.log_p_d(),
                  "factor-unchanged", 1e-8, 1e-8)
        ctx.count("factors:" + name)


def optimal(ctx):
    """The factor is the optimum of its own bound: no other responsibilities'
    factor gives a larger E log p(d|w) + E log p(w) - E log q(w)"""
    name, kw, r, kind, wm, ref = setup(ctx)
    best = (wm.variational_mean_log_p_d__w() + wm.variational_mean_log_p_w() -
            wm.variational_mean_log_q_w())
    for _ in range(6):
        r2, _ = responsibilities(ctx, len(r))
        other = M.make(name, kw, ctx.gen())
        other.fit_variational(r2)
        if name == "FrequencyWeighting":
            continue
        val = (other.variational_mean_log_p_d__w(r) +
               other.variational_mean_log_p_w() -
               other.variational_mean_log_q_w())
        ctx.check(val <= best + 1e-7 * (1 + abs(best)), "factor-optimal",
                  best=best, other=val)
        ctx.count("optimality")


SCALE = 12     # of the quick tier
SCENARIOS = [("terms", terms, 120, 3000), ("optimal", optimal, 60, 1500)]
REQUIRE = {"explicit": 400, "optimality": 150}
REQUIRE.update({"factors:" + n: 100 for n in M.VAR})

"""C33: splitting a run does not change the chain."""
import numpy as np

from pv import drive
from pv import models as M
from pv import mix as X

RULE = ("one long run saving every step, against a run from the same seed cut "
        "into a cold start and several warm starts with random burn-in, "
        "subsampling and progress settings; every saved state, counter, "
        "affinity and MAP compared exactly with the states of the long run "
        "they stand for; and variational fits of several sweeps against the "
        "same number of single-sweep warm starts; a case is one model, data "
        "set and way of cutting")
ASSUMPTIONS = ["total_iter, burn_in and subsample_steps may be reassigned "
               "between fits (public attributes)"]


def gibbs(ctx):
    name, kw = X.mix_config(ctx)
    y, pk, par = X.problem(ctx)
    init = X.init_kw(ctx, name, len(y))
    if init["init_method"] == "variational":
        # the variational start depends on total_iter
        init["init_method"] = "random"
    seed = int(ctx.rng.integers(2 ** 40))
    pieces = []
    for _ in range(int(ctx.rng.integers(1, 5))):
        T = int(ctx.pick((1, 2, 3, 5, 8)))
        pieces.append((T, int(ctx.pick((0, 0, T - 1, T // 2))),
                       int(ctx.pick((1, 1, 2, 3)))))
    if ctx.rng.uniform() < .4:
        # the settings of the constructor all along
        pieces = [pieces[0]] * len(pieces)
    ctx.case((name, str(kw), y.shape, pieces, str(init), seed))

    total = sum(p[0] for p in pieces)
    full = M.make_mix(name, kw, np.random.default_rng(seed), burn_in=0,
                      total_iter=total, **pk)
    full.fit_gibbs(y, **init)
    chain = [X.freeze(s) for s in full.get_sim_params()]
    if not ctx.check(len(chain) == total, "one-state-per-step"):
        return
    T, b, s = pieces[0]
    cut = M.make_mix(name, kw, np.random.default_rng(seed), total_iter=T,
                     burn_in=b, subsample_steps=s, **pk)
    at, want = 0, []
    for i, (T, b, s) in enumerate(pieces):
        cut.total_iter, cut.burn_in, cut.subsample_steps = T, b, s
        if i == 0:
            cut.fit_gibbs(y, **init)
        elif ctx.rng.uniform() < .2:
            with drive.quiet():
                cut.fit_gibbs(y, warm_start=True, show_progress=True)
                cut.show_progress = False
        else:
            cut.fit_gibbs(y, warm_start=True)
        want += list(range(at + b, at + T, s))
        at += T
        got = [X.freeze(z) for z in cut.get_sim_params()]
        if not ctx.check(len(got) == len(want), "saved-states", got=len(got),
                         want=len(want), pieces=pieces[:i + 1]):
            return
        for k, z in zip(want, got):
            ctx.check(X.same_state(chain[k], z), "same-chain", step=k,
                      pieces=pieces[:i + 1])
        ctx.close(cut.gibbs_eap_affinity_matrix(), np.mean(
            [np.equal.outer(chain[k]["d"], chain[k]["d"]) for k in want], 0),
            "affinity")
        ctx.check([int(g) for g in cut.get_n_groups()] ==
                  [len(np.unique(chain[k]["d"])) for k in want], "groups")
        lo = max(X.state_loglik(z, y) for z in chain[:at])
        ctx.check(cut.map_log_likelihood >= lo - 1e-6 * max(1, abs(lo)),
                  "map-over-the-chain", got=cut.map_log_likelihood, want=lo)
        ctx.count("warm-pieces", i > 0)
    ctx.check(cut.map_log_likelihood == full.map_log_likelihood,
              "same-map", got=cut.map_log_likelihood,
              want=full.map_log_likelihood)
    ctx.check(X.same_state(X.freeze(cut.map_sim_params),
                           X.freeze(full.map_sim_params)), "same-map-state")
    q = X.queries(ctx, y)
    p = int(ctx.pick((1, 2)))
    ctx.close(cut.gibbs_eap_density(q, periods=p), np.mean(
        [X.density(chain[k], q) for k in want[-p:]], 0), "last-periods",
        1e-6, 1e-250)
    ctx.count("chains")


def variational(ctx):
    mm, name, kw, y, par, init = X.var_setup(ctx)
    pk = {k: getattr(mm, k) for k in ("mu_prior", "lambda_prior", "psi_prior",
                                      "nu_prior")}
    seed = int(ctx.rng.integers(2 ** 40))
    pieces = [int(ctx.pick((1, 1, 2, 3))) for _ in range(
        int(ctx.rng.integers(2, 5)))]
    ctx.case((name, str(kw), y.shape, pieces, str(init), seed))

    def make(T):
        return M.make_mix(name, kw, np.random.default_rng(seed), burn_in=0,
                          total_iter=T, **pk)
    full, cut = make(sum(pieces)), make(pieces[0])
    # a change is never at most a negative tolerance
    full.fit_variational(y, tol=-1.0, **init)
    for i, T in enumerate(pieces):
        cut.total_iter = T
        if i == 0:
            cut.fit_variational(y, tol=-1.0, **init)
        else:
            cut.fit_variational(y, tol=-1.0, warm_start=True)
        ctx.check(not cut.var_converged, "flag")
    a, b = drive.var_trace(full), drive.var_trace(cut)
    ctx.check(drive.same(a, b), "same-sweeps", pieces=pieces)
    q = X.queries(ctx, y)
    ctx.check(drive.same(drive.plain(full.var_eap_density(q)),
                         drive.plain(cut.var_eap_density(q))), "same-density")
    ctx.count("variational-chains")


SCENARIOS = [("gibbs", gibbs, 300, 4000), ("variational", variational, 120,
                                           2000)]
REQUIRE = {"chains": 250, "warm-pieces": 300, "variational-chains": 100}

"""C14: the MAP state is the best visited state."""
import numpy as np
from pv import models as M
from pv import mix as X

RULE = ("Gibbs runs whose visited states are all known (saved at every step, "
        "or recorded after every step) compared with the reported MAP state "
        "of the same run and of identically seeded runs with burn-in, "
        "subsampling and warm starts; a case is one run")
ASSUMPTIONS = ["identically seeded runs that differ only in burn-in and "
               "subsampling visit the same states (verified case by case on "
               "the saved states, the case is skipped otherwise)"]


def near(a, b):
    return a == b or abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))


def judge(ctx, mm, y, states, floor, tag):
    """The reported MAP against the known visited states; floor is the value
    of the best state that is only known by value"""
    ll = [X.state_loglik(s, y) for s in states]
    best = max(ll + [floor])
    got = mm.map_log_likelihood
    ctx.check(near(got, best), "map-value:" + tag, got=got, want=best)
    own = X.state_loglik(mm.map_sim_params, y)
    ctx.check(near(own, got), "map-params-attain:" + tag, own=own, got=got)
    i = int(np.argmax(ll))
    gap = np.sort(ll + [floor])[-2:]
    if ll[i] >= floor and (len(gap) < 2 or gap[1] - gap[0] > 1e-6 * max(
            1, abs(gap[1]))):
        ctx.check(X.same_state(X.freeze(mm.map_sim_params),
                               X.freeze(states[i])), "map-is-state:" + tag)
        ctx.count("identified")


def record(mm):
    """Records the state before the first and after every step, when the
    stepping method is there to be observed"""
    log = []
    step = getattr(mm, "_gibbs_step", None)
    if step is None or not hasattr(mm, "theta"):
        return None

    def snap():
        return {"w": np.array(mm.weight_model.get_weights(), float),
                "d": np.array(mm.d), "u": np.array(mm.u, float),
                "theta": {j: (np.array(t[0], float), np.array(t[1], float))
                          for j, t in dict(mm.theta).items()}}

    def wrapped(*a, **k):
        try:
            if not log:
                log.append(snap())
            r = step(*a, **k)
            log.append(snap())
            return r
        except AttributeError:       # the private names have changed
            log.append(None)
            return step(*a, **k)
    mm._gibbs_step = wrapped
    return log


def runs(ctx):
    name, kw = X.mix_config(ctx)
    y, pk, par = X.problem(ctx)
    seed = int(ctx.rng.integers(2 ** 40))
    T = ctx.pick((3, 8, 20))
    init = X.init_kw(ctx, name, len(y))
    ctx.case((name, str(kw), T, str(init), y.shape, float(y[0, 0]), seed))

    def run(total, burn, sub, hook=False):
        mm = M.make_mix(name, kw, np.random.default_rng(seed),
                        total_iter=total, burn_in=burn, subsample_steps=sub,
                        **pk)
        log = record(mm) if hook else None
        mm.fit_gibbs(y, **init)
        return mm, log

    full, _ = run(T, 0, 1)
    one, _ = run(1, 0, 1)
    if init["init_method"] == "variational":
        # (the initial state depends on total_iter)
        one = full
    judge(ctx, one, y, one.sim_params, max(-np.inf,  X.state_loglik(
        one.map_sim_params, y)), "first")
    floor = one.map_log_likelihood
    if X.same_state(X.freeze(one.sim_params[0]), X.freeze(full.sim_params[0])):
        judge(ctx, full, y, full.sim_params, floor, "full")
    burn, sub = ctx.pick((0, 1, T // 2, T - 1)), ctx.pick((1, 2, 3, T + 1))
    part, log = run(T, burn, sub, hook=True)
    same = all(X.same_state(X.freeze(a), X.freeze(b)) for a, b in zip(
        full.sim_params[burn::sub], part.sim_params))
    if same:
        judge(ctx, part, y, full.sim_params, floor,
              "burn-in-and-subsampling")
        ctx.count("unsaved", T - len(part.sim_params))
    if log and len(log) == T + 1 and None not in log:
        # (when it was not evaluated yet, an initial state has no atoms)
        ll = [X.state_loglik(s, y) if set(s["d"]) <= set(s["theta"]) else
              -np.inf for s in log]
        if ll[0] == -np.inf:
            ll[0] = max(ll[1:] + [part.map_log_likelihood])
        ctx.check(near(part.map_log_likelihood, max(ll)), "map-of-recorded",
                  got=part.map_log_likelihood, want=max(ll),
                  initial=ll[0], at=int(np.argmax(ll)))
        ctx.count("recorded", len(log))
        ctx.count("initial-best", int(np.argmax(ll) == 0))
    ctx.count("runs")
    # warm starts: never decreases, and includes the earlier states
    prev = full.map_log_likelihood
    for _ in range(2):
        full.fit_gibbs(y, warm_start=True)
        ctx.check(full.map_log_likelihood >= prev, "map-never-decreases",
                  before=prev, after=full.map_log_likelihood)
        prev = full.map_log_likelihood
        judge(ctx, full, y, full.sim_params, floor, "warm")
        ctx.count("warm")
    lb = part.map_log_likelihood
    if log:
        log.clear()
    part.fit_gibbs(y, warm_start=True)
    if log and len(log) == T + 1 and None not in log:
        best = max([X.state_loglik(s, y) for s in log] + [lb])
        ctx.check(near(part.map_log_likelihood, best), "map-of-recorded",
                  got=part.map_log_likelihood, want=best, warm=True)
        ctx.count("recorded-warm", len(log))
        ctx.count("improved-unsaved", best > max(
            [lb] + [X.state_loglik(s, y) for s in part.sim_params]) + 1e-9)
    ctx.check(part.map_log_likelihood >= lb, "map-never-decreases")
    for s in part.sim_params:
        ctx.check(part.map_log_likelihood >= X.state_loglik(s, y) - 1e-6 *
                  max(1, abs(lb)), "map-below-saved-state")
    own = X.state_loglik(part.map_sim_params, y)
    ctx.check(near(own, part.map_log_likelihood), "map-params-attain:warm",
              own=own, got=part.map_log_likelihood)
    # a cold start forgets the previous MAP
    z = X.data(ctx.rng, y.shape[1], y.shape[1] + 4, "one") * ctx.pick((1, 100))
    pk2 = dict(pk)
    full.total_iter = 6
    full.fit_gibbs(z, init_method="random", init_groups=1)
    ll = [X.state_loglik(s, z) for s in full.sim_params]
    own = X.state_loglik(full.map_sim_params, z)
    ctx.check(near(own, full.map_log_likelihood), "map-after-cold-start",
              own=own, got=full.map_log_likelihood)
    ctx.check(full.map_log_likelihood >= max(ll) - 1e-6 * max(
        1, abs(max(ll))), "map-below-saved-state")
    # the MAP density is that of the MAP state
    q = z[:3]
    ctx.close(full.gibbs_map_density(q), X.density(full.map_sim_params, q),
              "map-density", 1e-6, 1e-300)
    ctx.count("cold")


def mode(ctx):
    """Long runs of one component: the best state is improved by less and
    less"""
    D = ctx.pick((1, 1, 2))
    y = ctx.rng.normal(size=(12, D))
    name = ctx.pick(("EqualWeighting", "DirichletDistribution",
                     "FrequencyWeighting"))
    T = ctx.pick((400, 900))
    burn = ctx.pick((0, 0, T // 2))
    mm = M.make_mix(name, {"n": 1}, ctx.gen(), total_iter=T, burn_in=burn)
    log = record(mm)
    mm.fit_gibbs(y, init_groups=1)
    ctx.case((name, y.tolist(), T, burn))
    states = mm.sim_params
    if log and len(log) == T + 1 and None not in log:
        states = log
    elif burn:
        return
    ll = [X.state_loglik(s, y) for s in states]
    ctx.check(mm.map_log_likelihood >= max(ll) - 1e-9 * abs(max(ll)),
              "map-below-visited-state", got=mm.map_log_likelihood,
              want=max(ll))
    top = np.maximum.accumulate(ll)
    step = np.diff(top)
    ctx.count("improvements", (step > 0).sum())
    ctx.count("small-improvements", ((step > 0) & (step < .01)).sum())
    ctx.count("modes")


def initial(ctx):
    """One observation and one step: the initial state is often the best,
    whatever the initialization"""
    m = 120
    for method in ("random", "kmeans", "variational"):
        best = 0
        for i in range(m):
            mm = M.make_mix("DirichletProcess", {"alpha": 1.0}, ctx.gen(),
                            total_iter=1, burn_in=0, mu_prior=np.zeros(1),
                            psi_prior=np.eye(1), nu_prior=4.0)
            y = np.array([[.5]])
            mm.fit_gibbs(y, init_method=method, init_groups=1)
            own = X.state_loglik(mm.map_sim_params, y)
            first = X.state_loglik(mm.sim_params[0], y)
            ctx.check(near(own, mm.map_log_likelihood),
                      "map-params-attain:init")
            ctx.check(own >= first - 1e-9, "map-below-saved-state")
            best += own > first + 1e-9
        ctx.case(("initial state", method, ctx.index))
        ctx.check(best > 0, "initial-state-counts:" + method, runs=m)
        ctx.count("initial-wins", best)
        ctx.count("initial-wins:" + method, best)


SCALE = 3     # of the quick tier
SCENARIOS = [("runs", runs, 130, 3000), ("mode", mode, 40, 600),
             ("initial", initial, 4, 40)]
REQUIRE = {"runs": 130, "warm": 200, "identified": 200, "cold": 100,
           "initial-wins": 50, "initial-wins:variational": 10, "modes": 80, "small-improvements": 10,
           "recorded-warm": 0}

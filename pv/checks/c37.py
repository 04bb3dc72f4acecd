"""C37: fits, queries and draws that are interrupted leave nothing behind."""
import os
import sys

import numpy as np

from pv import core
from pv import drive
from pv import models as M
from pv import mix as X
from pv.checks import c27
from pv.checks.c28 import datum, settings, cold

RULE = ("a dry run of a call on a twin counts the executed lines of the "
        "weighting models and sampling helpers; the same call is then cut "
        "short by an exception raised before a random one of these lines "
        "(first fits, cold refits, warm starts, queries, weight draws); what "
        "the object answers and does afterwards is compared with refusals, "
        "with its previous answers and with a fresh object, exactly; a case "
        "is one model, history, call and crash point")
ASSUMPTIONS = ["interruptions are exceptions (KeyboardInterrupt, MemoryError "
               "or any other) raised inside a weighting model or sampling "
               "helper, which every step of a fit goes through",
               "a warm start that was cut short is only judged through later "
               "cold fits"]

PLACES = tuple(os.path.join(core.PKG, *p) for p in (
    ("weight_models", ""), ("mixture_models", "_utils.py"), ("utils", "")))

KNOWN = {}


class Cut(Exception):
    pass


class Tracer:
    """Raises `exc` before the n-th line executed in PLACES (never if n<0)"""

    def __init__(self, n=-1, exc=Cut):
        self.n, self.exc, self.seen, self.where = n, exc, 0, None

    def _call(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name not in KNOWN:
            KNOWN[name] = os.path.realpath(name).startswith(PLACES)
        return self._line if KNOWN[name] else None

    def _line(self, frame, event, arg):
        if event == "line":
            self.seen += 1
            if self.seen == self.n:
                self.where = "%s:%s:%d" % (
                    os.path.basename(frame.f_code.co_filename),
                    frame.f_code.co_name, frame.f_lineno)
                raise self.exc("cut short")
        return self._line

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def lines(fn):
    with Tracer() as t:
        fn()
    return t.seen


def cut(ctx, fn, n, exc):
    """Runs fn up to the crash point; True if it was cut there"""
    t = Tracer(n, exc)
    try:
        with t:
            fn()
    except exc as e:
        if "cut short" in str(e):
            ctx.count("cuts:" + t.where.split(":")[1])
            ctx.count("cuts")
            return t.where
        raise
    return None


EXC = (Cut, KeyboardInterrupt, MemoryError)


def refused(ctx, mm, y, names, key, **data):
    import pyrichlet
    exc = pyrichlet.exceptions.NotFittedError
    if "gibbs_map_density" in names:
        ctx.raises(exc, lambda: c27.pairplot(mm), key,
                   call="gibbs_map_pairplot", **data)
    for nm in names:
        ctx.raises(exc, lambda: getattr(mm, nm)(y), key, call=nm, **data)
        ctx.raises(exc, lambda: getattr(mm, nm)(), key, call=nm, **data)


QUIET = ("gibbs_eap_density", "gibbs_map_density", "gibbs_map_cluster",
         "gibbs_eap_affinity_matrix")
VQUIET = ("var_eap_density", "var_map_cluster", "var_eap_affinity_matrix")


def answers(mm, names, y):
    return [drive.plain(getattr(mm, nm)(y)) for nm in names]


def pair(ctx):
    name, kw = X.mix_config(ctx)
    D = ctx.pick((1, 1, 2, 3))
    more = dict(settings(ctx, D), total_iter=ctx.pick((1, 2, 4)),
                subsample_steps=ctx.pick((1, 2)))
    more["burn_in"] = ctx.pick((0, more["total_iter"] // 2))

    def new():
        g = np.random.default_rng(5)
        return M.make_mix(name, kw, g, **more), g
    return name, kw, D, more, new


def state(g, s):
    g.bit_generator.state = s


def fits(ctx):
    name, kw, D, more, new = pair(ctx)
    (mm, g), (twin, h) = new(), new()
    y, z = datum(ctx, D), datum(ctx, D)
    s0 = ctx.gen().bit_generator.state
    state(g, s0), state(h, s0)
    history = ctx.pick(("fresh", "fresh", "same", "same", "both", "other"))
    op = cold(ctx, name, kw)
    gibbs = op[0] == "fit_gibbs"
    mine, others = (QUIET, VQUIET) if gibbs else (VQUIET, QUIET)
    var_init = op[1].get("init_method") == "variational"
    prev = []
    vark = dict(n_groups=kw["n"] if name == "DirichletDistribution" else 2,
                init_method="kmeans")
    other = ("fit_variational", vark) if gibbs else (
        "fit_gibbs", {"init_method": "random"})
    if gibbs and name not in M.VAR and history in ("both", "other"):
        history = "same"
    if history in ("same", "both"):
        prev.append(op)
    if history in ("both", "other"):
        prev.append(other)
    for p in prev:
        for m in (mm, twin):
            getattr(m, p[0])(y, **p[1])
    warm = history == "same" and ctx.rng.uniform() < .25
    call = (op[0], {"warm_start": True}) if warm else op
    # with the other engine fitted, the same data is used so that its
    # answers at the fitted data stay defined
    z = z if history in ("fresh", "same") and not warm else y
    total = lines(lambda: getattr(twin, call[0])(z, **call[1]))
    if total < 2:
        ctx.count("no-crash-point")
        return
    n = int(ctx.rng.integers(1, total + 1))
    exc = ctx.pick(EXC)
    old_mine = answers(mm, mine, y) if history in ("same", "both") else None
    old_other = answers(mm, others, y) if history in ("both", "other") \
        else None
    given = z.copy()
    where = cut(ctx, lambda: getattr(mm, call[0])(z, **call[1]), n, exc)
    ctx.case((name, str(kw), history, call[0], str(sorted(call[1].items())),
              y.shape, float(y[0, 0]), n, total, exc.__name__))
    if where is None:
        # the exception was absorbed (a solver that failed): a normal fit
        ctx.count("absorbed")
        return
    data = dict(where=where, at=n, of=total, history=history, op=call)
    ctx.check(np.array_equal(given, z), "cut-fit-alters-data", **data)
    ctx.count("cut:" + history + ":" + call[0] + (":warm" if warm else ""))
    if not warm:
        if old_mine is None:
            refused(ctx, mm, y, mine, "cut-fit-passes-for-fitted", **data)
        else:
            # the previous answers, or a refusal
            import pyrichlet
            for nm, a in zip(mine, old_mine):
                try:
                    b = drive.plain(getattr(mm, nm)(y))
                except pyrichlet.exceptions.NotFittedError:
                    ctx.count("refused-after-cut")
                    ctx.check(True, "cut-refit-answers")
                    continue
                ctx.check(drive.same(a, b), "cut-refit-answers", call=nm,
                          **data)
    if not var_init:
        if old_other is not None:
            ctx.check(drive.same(old_other, answers(mm, others, y)),
                      "cut-fit-alters-other-engine", **data)
            ctx.count("other-engine-kept")
        else:
            refused(ctx, mm, y, others, "cut-fit-passes-for-other", **data)
    # life goes on: a cold fit is that of a fresh object
    s1 = ctx.gen().bit_generator.state
    fresh, f = new()
    state(g, s1), state(f, s1)
    op2 = op if ctx.rng.uniform() < .5 else cold(ctx, name, kw)
    x = datum(ctx, D)
    p = drive.Program.__new__(drive.Program)
    p.ctx, p.name, p.kw, p.y = ctx, name, kw, x
    ctx.check(drive.same(p.apply(mm, op2), p.apply(fresh, op2)),
              "cold-fit-after-cut-differs", then=op2, **data)
    for _ in range(2):
        q = p.query(op2[0] == "fit_gibbs", op2[0] == "fit_variational")
        ctx.check(drive.same(drive.ask(mm, q), drive.ask(fresh, q)),
                  "answers-after-cut-differ", call=q[0], **data)
    for nm in ("mu_prior", "psi_prior", "nu_prior", "lambda_prior"):
        ctx.check(np.array_equal(getattr(mm, nm), getattr(fresh, nm)),
                  "prior-after-cut-differs", prior=nm, **data)
    ctx.count("refits")


def queries(ctx):
    """A query cut short changes no later answer"""
    name, kw, D, more, new = pair(ctx)
    mm, g = new()
    y = datum(ctx, D)
    op = cold(ctx, name, kw)
    getattr(mm, op[0])(y, **op[1])
    p = drive.Program.__new__(drive.Program)
    p.ctx, p.name, p.kw, p.y = ctx, name, kw, y
    gibbs = op[0] == "fit_gibbs"
    seen = []
    for _ in range(6):
        q = p.query(gibbs, not gibbs)
        total = lines(lambda: seen.append((q, drive.ask(mm, q))))
        if total < 1:
            continue
        where = cut(ctx, lambda: drive.ask(mm, q),
                    int(ctx.rng.integers(1, total + 1)), ctx.pick(EXC))
        ctx.case((name, str(kw), op[0], y.shape, float(y[0, 0]), str(q[0]),
                  where))
        for r, a in seen[-3:]:
            ctx.check(drive.same(drive.ask(mm, r), a), "answer-after-cut",
                      call=r[0], cut=q[0], where=where)
        ctx.count("cut-queries")


def draws(ctx):
    """A weight draw cut short leaves no trace after a reset"""
    name = ctx.pick(M.ALL)
    kw = M.config(ctx.rng, name)
    g, h = np.random.default_rng(1), np.random.default_rng(1)
    wm, twin = M.make(name, kw, g), M.make(name, kw, h)
    d = M.labels(ctx.rng, kw["n"] if name in M.FIN else 5, 12)
    fitted = ctx.rng.uniform() < .6
    k = int(ctx.rng.integers(1, 9))
    what = ctx.pick(("random", "complete", "tail", "assign"))

    def prepare(m):
        if fitted:
            m.fit(d)
            m.random()

    def act(m):
        if what == "random":
            m.random(k)
        elif what == "complete":
            m.complete(k)
        elif what == "tail":
            m.tail(.7)
        else:
            m.random_assignment(k)
    s0 = ctx.gen().bit_generator.state
    state(g, s0), state(h, s0)
    for m in (wm, twin):
        prepare(m)
        if what == "assign":
            m.complete(2)
    total = lines(lambda: act(twin))
    if total < 1:
        return
    n = int(ctx.rng.integers(1, total + 1))
    where = cut(ctx, lambda: act(wm), n, ctx.pick(EXC))
    ctx.case((name, str(kw), fitted, what, k, d.tolist(), n))
    wm.reset()
    new = M.make(name, kw, h)
    s1 = ctx.gen().bit_generator.state
    state(g, s1), state(h, s1)
    for step in range(2):
        a, b = wm.random(k), new.random(k)
        ctx.check(drive.same(np.array(a), np.array(b)),
                  "draw-after-cut-differs", step=step, where=where, a=a, b=b)
        a, b = wm.complete(k + 3), new.complete(k + 3)
        ctx.check(drive.same(np.array(a), np.array(b)),
                  "draw-after-cut-differs", step=step, where=where, a=a, b=b)
    # and a fit to labels
    wm.fit(d), new.fit(d)
    a, b = np.array(wm.random()), np.array(new.random())
    ctx.check(drive.same(a, b), "fit-after-cut-differs", where=where, a=a,
              b=b)
    ctx.count("cut-draws")


SCALE = 3     # of the quick tier
SCENARIOS = [("fits", fits, 450, 9000), ("queries", queries, 120, 2500),
             ("draws", draws, 500, 8000)]
REQUIRE = {"cuts": 1500, "refits": 500, "cut-queries": 200,
           "cut-draws": 800, "other-engine-kept": 40}

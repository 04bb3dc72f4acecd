"""C39: separate models, and queries of one model, may run concurrently."""
import sys
import threading

import numpy as np

from pv import core
from pv import drive
from pv import models as M

RULE = ("two or three threads, each driving its own model (on shared or own "
        "data) or querying one shared fitted model, under a scheduler which "
        "owns every executed line of pyrichlet (sys.settrace) and hands "
        "control to a seeded random thread; every answer is compared with "
        "that of the same calls run alone; a case is one set of programs and "
        "one schedule")
ASSUMPTIONS = ["each model has its own generator",
               "switches happen between lines of pyrichlet; C code of NumPy "
               "is not interleaved",
               "spectral clusterings are left out (SciPy's eigensolvers keep "
               "state of their own)"]


class Scheduler:
    """Runs thunks in threads, one at a time, switching at traced lines"""

    def __init__(self, rng, rate):
        self.rng, self.rate = rng, rate
        self.cv = threading.Condition()
        self.live, self.turn = [], None
        self.lines = self.switches = 0
        self.sites = set()
        self.known = {}

    def ours(self, name):
        if name not in self.known:
            self.known[name] = name.startswith(core.PKG)
        return self.known[name]

    def _call(self, frame, event, arg):
        return self._line if self.ours(frame.f_code.co_filename) else None

    def _line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.rng.random() < self.rate and len(self.live) > 1:
                self.give(frame)
        return self._line

    def give(self, frame):
        me = threading.get_ident()
        with self.cv:
            other = [t for t in self.live if t != me]
            self.turn = other[int(self.rng.integers(len(other)))]
            self.switches += 1
            self.sites.add((frame.f_code.co_name, frame.f_lineno))
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.turn == me)

    def run(self, thunks):
        out = [None] * len(thunks)
        ready = threading.Barrier(len(thunks) + 1)

        def work(i):
            me = threading.get_ident()
            with self.cv:
                self.live.append(me)
            ready.wait()
            with self.cv:
                self.cv.wait_for(lambda: self.turn == me)
            sys.settrace(self._call)
            try:
                out[i] = ("ok", thunks[i]())
            except BaseException as e:                     # noqa: BLE001
                out[i] = ("raised", e)
            finally:
                sys.settrace(None)
                with self.cv:
                    self.live.remove(me)
                    self.turn = self.live[0] if self.live else None
                    self.cv.notify_all()
        ts = [threading.Thread(target=work, args=(i,), daemon=True)
              for i in range(len(thunks))]
        for t in ts:
            t.start()
        ready.wait()
        with self.cv:
            self.turn = self.live[int(self.rng.integers(len(self.live)))]
            self.cv.notify_all()
        for t in ts:
            t.join()
        return out


def judge(ctx, sched, thunks, want, key, **data):
    got = sched.run(thunks)
    for i, (g, w) in enumerate(zip(got, want)):
        if g[0] == "raised":
            if isinstance(g[1], core.Hang):
                raise g[1]
            ctx.check(False, key + "-raises", error=repr(g[1])[:300],
                      thread=i, **data)
        else:
            ctx.check(drive.same(g[1], w), key + "-differs", thread=i, **data)
    ctx.count("switches", sched.switches)
    ctx.count("lines", sched.lines)
    ctx.count("schedules")
    ctx.count("switch-sites", len(sched.sites))


def no_spectral(p):
    p.ops = [(o.replace("eap_spectral_consensus", "map"), {
        k: v for k, v in a.items() if k != "n_clusters"}) for o, a in p.ops]
    return p


def models(ctx):
    n = ctx.pick((2, 2, 3))
    ps = [no_spectral(drive.Program(ctx, steps=ctx.pick((2, 3))))
          for _ in range(n)]
    shared = ctx.rng.uniform() < .5
    if shared:
        for p in ps[1:]:
            # same model and data object, other programs
            p.name, p.kw, p.y, p.pk = (ps[0].name, ps[0].kw, ps[0].y,
                                       ps[0].pk)
            p.more, p.ops = ps[0].more, ps[0].ops
    seeds = [int(ctx.rng.integers(2 ** 40)) for _ in ps]
    data = [p.y.copy() for p in ps]

    def go(p, s):
        m = p.make(np.random.default_rng(s))
        out = []
        for name, a in p.ops:
            if name.startswith("fit"):
                getattr(m, name)(p.y, **a)
                out.append(drive.gibbs_trace(m) if name == "fit_gibbs"
                           else drive.var_trace(m))
            else:
                out.append(drive.ask(m, (name, a)))
        return out
    want = [go(p, s) for p, s in zip(ps, seeds)]
    rate = ctx.pick((.01, .1, .5))
    ctx.case(([p.desc() for p in ps], seeds, rate))
    sched = Scheduler(ctx.gen(), rate)
    judge(ctx, sched, [lambda p=p, s=s: go(p, s) for p, s in zip(ps, seeds)],
          want, "models", models=[p.name for p in ps], shared=shared,
          ops=[[o for o, _ in p.ops] for p in ps])
    ctx.check(all(np.array_equal(p.y, d) for p, d in zip(ps, data)),
              "data-altered")
    ctx.count("model-sets")


def queries(ctx):
    p = no_spectral(drive.Program(ctx, steps=2, queries=False))
    m = p.make(ctx.gen())
    g = v = False
    for op in p.ops:
        getattr(m, op[0])(p.y, **op[1])
        g = g or op[0] == "fit_gibbs"
        v = v or op[0] == "fit_variational" or op[1].get(
            "init_method") == "variational"
    n = ctx.pick((2, 3))
    qs = []
    for _ in range(n):
        p.ops = [p.query(g, v) for _ in range(ctx.pick((1, 2, 4)))]
        qs.append(no_spectral(p).ops)
    if ctx.rng.uniform() < .4:
        qs = [qs[0]] * n

    def go(ops):
        return [drive.ask(m, op) for op in ops]
    want = [go(ops) for ops in qs]
    rate = ctx.pick((.05, .3, .8))
    ctx.case((p.name, str(p.kw), p.y.shape, float(p.y[0, 0]),
              [[o for o, _ in ops] for ops in qs], rate))
    judge(ctx, Scheduler(ctx.gen(), rate), [lambda o=o: go(o) for o in qs],
          want, "queries", model=p.name, asked=[[o for o, _ in ops]
                                                for ops in qs])
    ctx.count("query-sets")


def weights(ctx):
    n = ctx.pick((2, 3))
    ps = [drive.WeightProgram(ctx, steps=5) for _ in range(n)]
    if ctx.rng.uniform() < .5:
        ps = [ps[0]] * n
    seeds = [int(ctx.rng.integers(2 ** 40)) for _ in ps]

    def go(p, s):
        wm = p.make(np.random.default_rng(s))
        return [p.apply(wm, op) for op in p.ops] + [
            drive.plain(np.array(wm.get_weights()))]
    want = [go(p, s) for p, s in zip(ps, seeds)]
    rate = ctx.pick((.05, .3, .8))
    ctx.case(([p.desc() for p in ps], seeds, rate))
    judge(ctx, Scheduler(ctx.gen(), rate),
          [lambda p=p, s=s: go(p, s) for p, s in zip(ps, seeds)], want,
          "weights", models=[p.name for p in ps])
    ctx.count("weight-sets")


SCALE = 3     # of the quick tier
SCENARIOS = [("models", models, 60, 1500), ("queries", queries, 100, 3000),
             ("weights", weights, 150, 3000)]
REQUIRE = {"model-sets": 120, "query-sets": 200, "weight-sets": 300,
           "switches": 20000}

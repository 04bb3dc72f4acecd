"""C25: reproducibility from seeds and isolation from global randomness."""
import json
import os
import subprocess
import sys

import numpy as np

from pv import core
from pv import drive
from pv import models as M
from pv import mix as X

RULE = ("random call sequences driven on twins built from the same seed (int "
        "or generator) while the global random state is perturbed, other "
        "objects are used in between, and progress is shown for one of them; "
        "and in other processes with other hash seeds; every call's whole "
        "result compared exactly and the global states compared around every "
        "call; a case is one model, seed and call sequence")
ASSUMPTIONS = ["the same library versions and BLAS thread count"]


def seeds(ctx):
    s = int(ctx.rng.integers(2 ** 31))
    if ctx.rng.uniform() < .5:
        return ("int", lambda: s)
    return ("generator", lambda: np.random.default_rng(s))


def guarded(ctx, fn, key):
    """fn() with the global random state watched"""
    before = drive.global_state()
    r = fn()
    ctx.check(drive.global_state() == before, "global-state-altered", call=key)
    return r


def mixtures(ctx):
    p = drive.Program(ctx, steps=ctx.pick((3, 5, 7)))
    form, rng = seeds(ctx)
    ctx.case((form,) + p.desc())
    progress = ctx.rng.uniform() < .4
    other = drive.Program(ctx, steps=3)
    a = p.make(rng())
    ra = [guarded(ctx, lambda: p.apply(a, op), op[0]) for op in p.ops]
    drive.perturb_global(ctx.rng)
    how = {}
    if progress and ctx.rng.uniform() < .5:
        how["show_progress"] = True
    b = p.make(rng(), **how)
    c = other.make(ctx.gen())
    k = 0
    for op, want in zip(p.ops, ra):
        if ctx.rng.uniform() < .5 and k < len(other.ops):
            with drive.quiet():
                other.apply(c, other.ops[k])
            k += 1
            ctx.count("interleaved")
        drive.perturb_global(ctx.rng)
        extra = {}
        if progress and op[0].startswith("fit") and not how:
            extra["show_progress"] = True
            ctx.count("progress")
        with drive.quiet():
            got = guarded(ctx, lambda: p.apply(b, op, **extra), op[0])
        ctx.check(drive.same(got, want), "not-reproducible", call=op[0],
                  seed=form, progress=bool(extra))
        ctx.count("twin-calls")
        ctx.count("seed:" + form)


def weights(ctx):
    p = drive.WeightProgram(ctx, steps=ctx.pick((4, 8, 14)))
    form, rng = seeds(ctx)
    ctx.case((form,) + p.desc())
    a = p.make(rng())
    ra = [guarded(ctx, lambda: p.apply(a, op), op[0]) for op in p.ops]
    other = drive.WeightProgram(ctx, 4)
    c = other.make(ctx.gen())
    drive.perturb_global(ctx.rng)
    b = p.make(rng())
    for op, want in zip(p.ops, ra):
        drive.perturb_global(ctx.rng)
        if ctx.rng.uniform() < .4 and other.ops:
            other.apply(c, other.ops.pop(0))
        got = guarded(ctx, lambda: p.apply(b, op), op[0])
        ctx.check(drive.same(got, want), "weights-not-reproducible",
                  call=op[0], seed=form)
        ctx.count("twin-weight-calls")


def unseeded(ctx):
    """Without a seed the global state is neither read nor altered"""
    name = ctx.pick(("DirichletProcess", "PitmanYorProcess", "BetaBernoulli",
                     "BetaInDirichlet", "BetaBinomial", "GeometricProcess",
                     "BetaInBeta", "DirichletDistribution"))
    kw = M.config(ctx.rng, name, True)
    if name in M.FIN:
        kw["n"] = 3
    if "alpha" in kw:
        kw["alpha"] = 2.0       # keeps the weights away from 0 and 1
    if name in ("GeometricProcess", "BetaInBeta"):
        kw["a"] = max(1, kw["a"])
    y, pk, _ = X.problem(ctx, n=6, kind="blobs")
    ctx.case((name, str(kw), float(y[0, 0])))
    s = int(ctx.rng.integers(2 ** 31))
    import random
    res = []
    for _ in range(2):
        np.random.seed(s)
        random.seed(s)
        wm = M.make(name, kw, None)
        w = guarded(ctx, lambda: wm.random(3), "random").copy()
        mm = M.make_mix(name, kw, None, total_iter=2, burn_in=0, **pk)
        guarded(ctx, lambda: mm.fit_gibbs(
            y, init_groups=2, init_method="kmeans"), "fit_gibbs")
        t = mm.get_sim_params()[-1]["theta"][0][0]
        res.append((w, np.array(t)))
    ctx.check(not np.array_equal(res[0][0], res[1][0]),
              "unseeded-weights-follow-global-state")
    ctx.check(not np.array_equal(res[0][1], res[1][1]),
              "unseeded-fit-follows-global-state")
    ctx.count("unseeded")


def program_digests(seed, n):
    """Digests of the results of n programs (run in any process)"""
    ctx = core.Ctx("process", 0, seed, "quick")
    out = []
    for _ in range(n):
        p = drive.Program(ctx, steps=4)
        s = int(ctx.rng.integers(2 ** 31))
        rng = s if ctx.rng.uniform() < .5 else np.random.default_rng(s)
        mm = p.make(rng)
        r = [drive.digest(p.apply(mm, op)) for op in p.ops]
        w = drive.WeightProgram(ctx, 5)
        wm = w.make(s)
        r += [drive.digest(w.apply(wm, op)) for op in w.ops]
        out.append(r)
    return out


def processes(ctx):
    seed = int(ctx.rng.integers(2 ** 31))
    n = 25
    ctx.case(("process", seed))
    mine = program_digests(seed, n)
    env = dict(os.environ, PYTHONHASHSEED=str(int(ctx.rng.integers(1, 10 ** 6)
                                                  )), PV_REPO=core.REPO)
    r = subprocess.run([sys.executable, "-m", "pv.checks.c25", str(seed),
                        str(n), str(int(ctx.rng.integers(2 ** 31)))],
                       cwd=core.VERIF, env=env, capture_output=True, text=True,
                       timeout=300)
    if r.returncode:
        raise RuntimeError("worker failed: " + r.stderr[-800:])
    theirs = json.loads(r.stdout.strip().splitlines()[-1])
    for i, (a, b) in enumerate(zip(mine, theirs)):
        ctx.check(a == b, "differs-between-processes", program=i)
        ctx.case(("process", seed, i))
        ctx.count("process-programs")
    ctx.check(len(mine) == len(theirs), "differs-between-processes")


SCALE = 1.3     # of the quick tier
SCENARIOS = [("mixtures", mixtures, 300, 6000), ("weights", weights, 300, 6000),
             ("unseeded", unseeded, 60, 600), ("processes", processes, 8, 80)]
REQUIRE = {"twin-calls": 800, "twin-weight-calls": 1500, "interleaved": 200,
           "progress": 50, "unseeded": 60, "process-programs": 150,
           "seed:int": 200, "seed:generator": 200}

if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(core.VERIF, "evidence", ".no-pycache")
    sys.path.insert(0, core.REPO)
    np.random.seed(int(sys.argv[3]))
    print(json.dumps(program_digests(int(sys.argv[1]), int(sys.argv[2]))))

"""Runtime-monitoring framework.

A check is a list of scenarios.  A scenario is a function `fn(ctx)` that drives
the real code in /repo and lets monitors (the `ctx.*` methods) judge what it
did.  Deterministic monitors raise violations at once; statistical monitors
only record (probability integral transforms, indicator sums, frequencies) and
the parent process decides over the recorded log of all the tasks.
"""
import argparse
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import zlib

REPO = os.environ.get("PV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = os.path.join(os.path.realpath(REPO), "pyrichlet") + os.sep

import numpy as np  # noqa: E402
from scipy import stats  # noqa: E402

ALPHA = 1e-7        # false alarm budget of one run of one check
MAX_V = 5           # violations kept per task
TASK_CPU = 100      # CPU seconds after which a call is taken not to return


class Hang(Exception):
    pass


class Skip(Exception):
    """A harness precondition of this case does not hold."""


def in_code_under_test(tb):
    """Is the innermost non-library frame of the traceback in pyrichlet?"""
    frames = traceback.extract_tb(tb)
    for fr in reversed(frames):
        if not os.path.isabs(fr.filename):
            continue        # compiled library code has relative file names
        name = os.path.realpath(fr.filename)
        if name.startswith(PKG):
            return True
        if name.startswith(VERIF + os.sep):
            return False
    return False


def short(x, depth=0):
    if isinstance(x, np.ndarray):
        return short(x.tolist(), depth)
    if isinstance(x, (np.floating, float)):
        return float("%.6g" % x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, dict):
        return {str(k): short(v, depth + 1) for k, v in list(x.items())[:20]}
    if isinstance(x, (list, tuple)):
        r = [short(v, depth + 1) for v in x[:12]]
        return r + ["...%d" % len(x)] if len(x) > 12 else r
    if x is None or isinstance(x, str):
        return x
    return repr(x)[:200]


class Ctx:
    def __init__(self, scenario, index, seed, tier):
        self.scenario, self.index, self.seed, self.tier = (
            scenario, index, seed, tier)
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(scenario.encode()), index])
        self.evals = 0
        self.counts = {}
        self.cases = set()
        self.samples = []
        self.violations = []
        self.pits = {}
        self.zs = {}
        self.freqs = {}
        self.means = {}
        self.case_now = None
        # the statistics are also kept by these groups (parameter values),
        # so that an error confined to one of them is not diluted
        self.groups = ()

    # ---- drawing ------------------------------------------------------
    def gen(self):
        """A fresh generator for the code under test"""
        return np.random.default_rng(int(self.rng.integers(2 ** 62)))

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def group(self, kw, *more):
        """Groups the statistics by the values of the parameters as well"""
        self.groups = tuple("%s=%s" % (k, v) for k, v in sorted(kw.items())
                            if np.ndim(v) == 0) + tuple(more)

    # ---- bookkeeping --------------------------------------------------
    def case(self, desc, nontrivial=True):
        """Declares the case the next observations belong to"""
        self.case_now = desc
        signal.setitimer(signal.ITIMER_VIRTUAL, TASK_CPU)
        if nontrivial:
            h = hashlib.sha1(repr(desc).encode()).hexdigest()[:16]
            self.cases.add(h)
        if len(self.samples) < 1:
            self.samples.append(short(desc))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    # ---- deterministic monitors ----------------------------------------
    def violate(self, key, **data):
        if len(self.violations) < MAX_V:
            self.violations.append(
                {"key": key, "case": short(self.case_now),
                 "data": short(data)})

    def check(self, ok, key, **data):
        self.evals += 1
        self.count("mon:" + key)
        ok = bool(ok)
        if not ok:
            self.violate(key, **data)
        return ok

    def close(self, got, want, key, rtol=1e-8, atol=1e-10, **data):
        """got equals want up to rounding; NaN never equals"""
        g, w = np.asarray(got, float), np.asarray(want, float)
        if g.shape != w.shape:
            return self.check(False, key, got_shape=list(g.shape),
                              want_shape=list(w.shape), **data)
        with np.errstate(invalid="ignore", over="ignore"):
            ok = (g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w))
        if np.all(ok):
            return self.check(True, key)
        i = np.argwhere(~np.atleast_1d(ok))[0]
        return self.check(False, key, where=i.tolist(),
                          got=np.atleast_1d(g)[tuple(i)],
                          want=np.atleast_1d(w)[tuple(i)], **data)

    def raises(self, exc, fn, key, **data):
        self.evals += 1
        self.count("mon:" + key)
        try:
            r = fn()
        except exc:
            return True
        except Hang:
            raise
        except Exception as e:
            self.violate(key, raised=repr(e)[:200],
                         expected=str(exc), **data)
            return False
        self.violate(key, raised=None, returned=short(r), expected=str(exc),
                     **data)
        return False

    # ---- statistical monitors -------------------------------------------
    def pit(self, key, u):
        u = np.atleast_1d(np.asarray(u, float)).ravel()
        self.evals += len(u)
        if not np.all((u >= 0) & (u <= 1)):      # NaN included
            self.violate("pit-range:" + key, u=u[~((u >= 0) & (u <= 1))][:5])
            return
        self.pits.setdefault(key, []).append(u)
        for g in self.groups:
            self.pits.setdefault(key + "|" + g, []).append(u)

    def dpit(self, key, cdf_below, prob):
        """Randomized PIT of a discrete observation"""
        self.pit(key, np.clip(cdf_below + self.rng.uniform(
            size=np.shape(prob)) * np.asarray(prob), 0, 1))

    def z(self, key, hit, p):
        """Indicators that should be Bernoulli(p) given the past"""
        hit = np.atleast_1d(np.asarray(hit, float))
        p = np.broadcast_to(np.asarray(p, float), hit.shape)
        self.evals += hit.size
        if np.any((hit > 0) & (p <= 0)):
            self.violate("impossible:" + key, p=p)
        for g in ("",) + tuple("|" + g for g in self.groups):
            s = self.zs.setdefault(key + g, [0., 0., 0])
            s[0] += float((hit - p).sum())
            s[1] += float((p * (1 - p)).sum())
            s[2] += hit.size

    def mean(self, key, x, expected, width=1.0):
        """An independent observation, within an interval of that width, of
        a variable with that expectation"""
        self.evals += 1
        for g in ("",) + tuple("|" + g for g in self.groups):
            s = self.means.setdefault(key + g, [0., 0., 0])
            d = (float(x) - expected) / width
            s[0] += d
            s[1] += d * d
            s[2] += 1

    def freq(self, key, counts, expected):
        counts, expected = np.asarray(counts, float), np.asarray(
            expected, float)
        self.evals += int(counts.sum())
        s = self.freqs.setdefault(key, [np.zeros_like(expected),
                                        np.zeros_like(expected)])
        s[0] += counts
        s[1] += expected


# ---------------------------------------------------------------------------
def _alarm(signum, frame):
    raise Hang("no return within %d CPU seconds" % TASK_CPU)


def slow_tail(tb):
    """Is this a tail request still making progress?  With a tiny fraction of
    the stick per weight a tail takes very many of them"""
    while tb is not None:
        f = tb.tb_frame
        if f.f_code.co_name == "tail" and f.f_code.co_filename.startswith(PKG):
            w = np.asarray(getattr(f.f_locals.get("self"), "w", ()))
            return len(w) > 1000 and float(w[-200:].max()) > 1e-9 * (
                1 - float(w.sum())) and float(w.sum()) < 1
        tb = tb.tb_next
    return False


def run_task(args):
    modname, scen, index, seed, tier = args
    mod = importlib.import_module("pv.checks." + modname)
    fn = dict((s[0], s[1]) for s in mod.SCENARIOS)[scen]
    ctx = Ctx(scen, index, seed, tier)
    t0 = time.time()
    err = None
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, TASK_CPU)
    try:
        np.random.seed(12345)
        fn(ctx)
    except Skip as e:
        ctx.count("skipped:" + str(e))
    except Exception as e:                                 # noqa: BLE001
        tb = sys.exc_info()[2]
        txt = "".join(traceback.format_exception(type(e), e, tb))[-1500:]
        if isinstance(e, Hang):
            hung = any(os.path.realpath(f.filename).startswith(PKG)
                       for f in traceback.extract_tb(tb))
            if slow_tail(tb):
                ctx.count("slow-tail")
            elif hung:
                ctx.violations.insert(0, {
                    "key": "no-return", "case": short(ctx.case_now),
                    "data": {"traceback": txt}})
            else:
                err = txt
        elif in_code_under_test(tb):
            ctx.violations.insert(0, {
                "key": "exception:" + type(e).__name__,
                "case": short(ctx.case_now), "data": {"traceback": txt}})
        else:
            err = txt
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if os.environ.get("PV_SLOW") and time.time() - t0 > float(
            os.environ["PV_SLOW"]):
        print("slow", scen, index, round(time.time() - t0, 1),
              str(ctx.case_now)[:300], file=sys.stderr)
    return {"scen": scen, "index": index, "evals": ctx.evals,
            "counts": ctx.counts, "cases": ctx.cases, "samples": ctx.samples,
            "violations": ctx.violations, "err": err, "wall": time.time() - t0,
            "pits": {k: np.concatenate(v) for k, v in ctx.pits.items()},
            "zs": ctx.zs, "freqs": ctx.freqs, "means": ctx.means}


def ks_p(u):
    n = len(u)
    if n < 5:
        return 1.0
    u = np.sort(u)
    d = max((np.arange(1, n + 1) / n - u).max(), (u - np.arange(n) / n).max())
    return float(stats.kstwo.sf(d, n))


def bernstein_p(s, v):
    s = abs(s)
    if s == 0:
        return 1.0
    return float(min(1.0, 2 * np.exp(-s * s / (2 * (v + s / 3)))))


def chi_p(obs, exp):
    """Pools small cells; returns (p, n cells)"""
    order = np.argsort(exp)
    o, e = [], []
    co = ce = 0.0
    for i in order:
        co += obs[i]
        ce += exp[i]
        if ce >= 10:
            o.append(co)
            e.append(ce)
            co = ce = 0.0
    if e:
        o[-1] += co
        e[-1] += ce
    if len(e) < 2:
        return 1.0, len(e)
    o, e = np.array(o), np.array(e)
    return float(stats.chi2.sf(((o - e) ** 2 / e).sum(), len(e) - 1)), len(e)


def mean_p(s, ss, n):
    """Two-sided p-value of a mean of n independent centred variables of
    range one: the normal tail (ten times, for the error of the
    approximation) with many observations, none with few"""
    if n < 300:
        return 1.0
    v = max(1e-4, (ss - s * s / n) / (n - 1))
    return float(min(1.0, 10 * 2 * stats.norm.sf(abs(s) / np.sqrt(n * v))))


def decide_statistics(pits, zs, freqs, means):
    tests = []
    for k, arrs in pits.items():
        u = np.concatenate(arrs)
        tests.append(("pit", k, ks_p(u), {"n": len(u), "mean": u.mean()}))
        tests.append(("pit-spread", k, ks_p(np.abs(2 * u - 1)),
                      {"n": len(u), "mean|2u-1|": np.abs(2 * u - 1).mean()}))
    for k, (s, v, n) in zs.items():
        tests.append(("rate", k, bernstein_p(s, v),
                      {"n": n, "excess": s, "variance": v}))
    for k, (s, ss, n) in means.items():
        tests.append(("mean", k, mean_p(s, ss, n),
                      {"n": n, "mean-excess": s / n}))
    for k, (o, e) in freqs.items():
        for i in np.flatnonzero((e <= 0) & (o > 0)):
            tests.append(("freq", k, 0.0, {"impossible": int(i)}))
        p, cells = chi_p(o, e)
        tests.append(("freq", k, p, {"cells": cells, "n": float(o.sum()),
                                     "obs": o, "exp": e}))
    thr = ALPHA / max(1, len(tests))
    bad = [t for t in tests if t[2] < thr]
    return tests, bad, thr


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    known = {}
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                key, _, text = rest.partition(" ")
                known[key.partition("key=")[2]] = text
    return known


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int,
                    default=int(os.environ.get("PV_JOBS", "0")) or
                    min(8, os.cpu_count() or 1))
    ap.add_argument("--only", help="only this scenario")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    prop = a.prop
    t0 = time.time()

    # Import the code under test from its current sources, never from cached
    # byte code (two edits within a second look the same to the cache).
    import scipy.special, scipy.optimize, scipy.integrate, pandas, sklearn.cluster  # noqa
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(VERIF, "evidence", ".no-pycache")
    sys.path.insert(0, REPO)
    try:
        import pyrichlet
    except Exception as e:
        traceback.print_exc()
        # The library cannot even be imported
        print("HARNESS-ERROR cannot import pyrichlet: %r" % e)
        return 2
    if not os.path.realpath(pyrichlet.__file__).startswith(PKG):
        print("HARNESS-ERROR pyrichlet imported from", pyrichlet.__file__)
        return 2
    mod = importlib.import_module("pv.checks." + prop.lower())

    tasks = []
    for s in mod.SCENARIOS:
        name, _, quick, thorough = s[:4]
        scale = getattr(mod, "SCALE", 1)
        n = max(thorough, 5 * int(quick * scale)) if a.tier == "thorough" \
            else int(quick * scale)
        if a.only and name != a.only:
            continue
        tasks += [(prop.lower(), name, i, a.seed, a.tier)
                  for i in range(max(1, int(n * a.scale)) if n else 0)]
    # interleave the scenarios so that an early violation shows early
    order = np.random.default_rng(a.seed).permutation(len(tasks))
    tasks = [tasks[i] for i in order]
    if a.replay:
        rp = json.load(open(a.replay))
        if rp.get("scenario"):
            tasks = [(prop.lower(), rp["scenario"], rp["index"], rp["seed"],
                      rp["tier"])]
    ev_dir = os.path.join(VERIF, "evidence")
    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)

    known = load_known(prop)
    evals, counts, cases, samples = 0, {}, set(), {}
    violations, errors, scen_wall = [], [], {}
    pits, zs, freqs, means = {}, {}, {}, {}
    known_hit = {}

    def absorb(r):
        nonlocal evals
        evals += r["evals"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        cases.update(r["cases"])
        if r["samples"] and r["scen"] not in samples:
            samples[r["scen"]] = r["samples"][0]
        w = scen_wall.setdefault(r["scen"], [0, 0.0, 0.0])
        w[0] += 1
        w[1] += r["wall"]
        w[2] = max(w[2], r["wall"])
        for v in r["violations"]:
            v.update(scenario=r["scen"], index=r["index"], seed=a.seed,
                     tier=a.tier)
            if v["key"] in known:
                known_hit[v["key"]] = v
            else:
                violations.append(v)
        if r["err"]:
            errors.append((r["scen"], r["index"], r["err"]))
        for k, u in r["pits"].items():
            pits.setdefault(k, []).append(u)
        for k, (s, v, n) in r["zs"].items():
            z = zs.setdefault(k, [0., 0., 0])
            z[0] += s
            z[1] += v
            z[2] += n
        for k, m in r["means"].items():
            means[k] = [x + y for x, y in zip(means.get(k, (0, 0, 0)), m)]
        for k, (o, e) in r["freqs"].items():
            f = freqs.setdefault(k, [np.zeros_like(e), np.zeros_like(e)])
            f[0] += o
            f[1] += e

    n_done = 0
    if len(tasks) == 1 or a.jobs == 1:
        for t in tasks:
            absorb(run_task(t))
            n_done += 1
            if violations and not a.verbose:
                break
    else:
        from concurrent.futures import ProcessPoolExecutor, as_completed
        import multiprocessing as mp
        chunk = [tasks[i::a.jobs * 12] for i in range(a.jobs * 12)]
        chunk = [c for c in chunk if c]
        ex = ProcessPoolExecutor(a.jobs, mp_context=mp.get_context("fork"))
        try:
            futs = [ex.submit(run_chunk, c) for c in chunk]
            for f in as_completed(futs):
                for r in f.result():
                    absorb(r)
                    n_done += 1
                if len(violations) >= (50 if a.verbose else 1):
                    break
        except Exception as e:                              # noqa: BLE001
            errors.append(("pool", 0, repr(e)))
        finally:
            procs = list((ex._processes or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            if violations or errors:
                for p in procs:
                    p.terminate()
            for p in procs:
                p.join()
    complete = n_done == len(tasks)

    tests, bad, thr = decide_statistics(pits, zs, freqs, means)
    for kind, key, p, info in bad:
        v = {"key": "%s:%s" % (kind, key), "case": None,
             "data": short(dict(info, p=p, threshold=thr)),
             "scenario": None, "index": None, "seed": a.seed, "tier": a.tier}
        if v["key"] in known:
            known_hit[v["key"]] = v
        else:
            violations.append(v)

    missing = []
    if complete and not a.replay and not a.only and a.scale == 1.0:
        for k, need in getattr(mod, "REQUIRE", {}).items():
            got = counts.get(k, 0)
            if k.startswith("pit:"):
                got = sum(len(x) for x in pits.get(k[4:], []))
            if k.startswith("z:"):
                got = zs.get(k[2:], [0, 0, 0])[2]
            if got < need:
                missing.append("%s: %d < %d" % (k, got, need))

    replay = None
    if violations:
        v = violations[0]
        replay = os.path.join(rep_dir, "%s-%s-%s.json" % (
            prop, v["scenario"] or "statistics", v["index"] or 0))
        json.dump(dict(v, property=prop, how=(
            "%s/run.sh %s --replay %s" % (VERIF, prop, replay))),
            open(replay, "w"), indent=1)

    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": int(evals),
            "distinct_nontrivial": len(cases),
            "rule": mod.RULE,
            "samples": [dict(scenario=k, case=v)
                        for k, v in sorted(samples.items())],
            "tasks": n_done, "tasks_planned": len(tasks),
            "scenarios": {k: {"tasks": w[0], "cpu_s": round(w[1], 2),
                              "max_s": round(w[2], 2)}
                          for k, w in sorted(scen_wall.items())},
            "observed": {k: counts[k] for k in sorted(counts)},
            "statistics": {
                "tests": len(tests), "threshold": thr,
                "smallest_p": [dict(kind=t[0], key=t[1], p=t[2],
                                    n=short(t[3].get("n", 0)))
                               for t in sorted(tests, key=lambda t: t[2])[:5]],
                "observations": int(sum(t[3].get("n", 0) for t in tests
                                        if t[0] != "pit-spread" and
                                        "|" not in t[1]))},
            "not_reached": missing,
            "known_findings_seen": sorted(known_hit),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for k in sorted(known):
        if k in known_hit:
            print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, known[k]))
    if a.verbose:
        for t in sorted(tests, key=lambda t: t[2])[:12]:
            print("  test", t[0], t[1], "p=%.3g" % t[2], short(t[3]).get("n"))
        for k in sorted(counts):
            print("  count", k, counts[k])
        for k, w in sorted(scen_wall.items()):
            print("  scen %s n=%d cpu=%.1f max=%.2f" % (k, *w))
    for v in violations[:3]:
        print("  detail:", json.dumps(v)[:(700 if a.verbose else 1500)])
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if errors:
        print("HARNESS-ERROR in %s %s:\n%s" % errors[0])
        return 2
    if missing:
        print("INCONCLUSIVE monitors not reached:", "; ".join(missing))
        return 2
    print("%s: held on %d observations, %d distinct cases, %d tasks, "
          "%d statistical tests (%.1fs)" % (prop, evals, len(cases), n_done,
                                            len(tests), time.time() - t0))
    return 0


def run_chunk(tasks):
    out = []
    for t in tasks:
        out.append(run_task(t))
        if out[-1]["violations"] and any(
                v["key"] == "no-return" for v in out[-1]["violations"]):
            break
    return out

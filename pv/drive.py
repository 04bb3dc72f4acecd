"""Random programs (sequences of calls) on mixtures and weighting models, and
their observable results as plain values."""
import contextlib
import hashlib
import io
import random

import numpy as np

from pv import models as M
from pv import mix as X

GIBBS_Q = ("gibbs_eap_density", "gibbs_map_density", "gibbs_map_cluster",
           "gibbs_eap_affinity_matrix",
           "gibbs_eap_spectral_consensus_cluster")
VAR_Q = ("var_eap_density", "var_map_density", "var_map_cluster",
         "var_eap_affinity_matrix", "var_eap_spectral_consensus_cluster")


def plain(x):
    """Copies an answer into comparable values"""
    if isinstance(x, tuple):
        return tuple(plain(a) for a in x)
    if isinstance(x, list):
        return [plain(a) for a in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items())}
    if x is None or isinstance(x, (str, bool)):
        return x
    return np.array(x)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(
            a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc")
    return a == b


def digest(x, h=None):
    top = h is None
    h = h or hashlib.sha1()
    if isinstance(x, (tuple, list)):
        h.update(b"(%d" % len(x))
        for a in x:
            digest(a, h)
    elif isinstance(x, dict):
        for k in x:
            h.update(str(k).encode())
            digest(x[k], h)
    elif isinstance(x, np.ndarray):
        h.update(repr(x.shape).encode())
        h.update(np.ascontiguousarray(x.astype(float)).tobytes())
    else:
        h.update(repr(x).encode())
    return h.hexdigest() if top else None


def gibbs_trace(mm):
    """Everything a Gibbs fit reports"""
    return {"states": [plain({"w": s["w"], "d": s["d"], "u": s["u"],
                              "theta": {int(j): tuple(t) for j, t in
                                        s["theta"].items()}})
                       for s in mm.get_sim_params()],
            "n_groups": plain(list(mm.get_n_groups())),
            "n_theta": plain(list(mm.get_n_theta())),
            "saved": int(mm.total_saved_steps),
            "map": float(mm.map_log_likelihood),
            "map_d": plain(mm.map_sim_params["d"]),
            "map_w": plain(mm.map_sim_params["w"]),
            "affinity": plain(mm.gibbs_eap_affinity_matrix())}


def var_trace(mm):
    return {"d": plain(mm.var_d), "theta": plain([list(t) for t in
                                                  mm.var_theta]),
            "converged": bool(mm.var_converged),
            "cluster": plain(mm.var_map_cluster(full=True)),
            "density": plain(mm.var_eap_density())}


class Program:
    """A random sequence of fits and queries on one mixture"""

    def __init__(self, ctx, names=None, steps=6, queries=True, warm=True):
        self.ctx = ctx
        self.name, self.kw = X.mix_config(ctx, names)
        self.y, self.pk, self.par = X.problem(ctx, n=ctx.pick(
            (3, 5, 8, 15) * 8 + (40, 130)))
        self.total = ctx.pick((1, 3, 6))
        self.more = {"total_iter": self.total,
                     "burn_in": ctx.pick((0, self.total // 3)),
                     "subsample_steps": ctx.pick((1, 1, 2)), **self.pk}
        self.ops = []
        g = v = False
        for _ in range(steps):
            c = ctx.rng.uniform()
            if c < .3 or not (g or v):
                if self.name in M.VAR and ctx.rng.uniform() < .4:
                    self.ops.append(self.var_fit(v and warm))
                    v = True
                else:
                    self.ops.append(self.gibbs_fit(g and warm))
                    g = True
                    if self.ops[-1][1].get("init_method") == "variational":
                        v = True
            elif queries:
                self.ops.append(self.query(g, v))

    def var_fit(self, warm):
        ctx = self.ctx
        if warm and ctx.rng.uniform() < .5:
            return ("fit_variational", {"warm_start": True})
        K = None if self.name in M.FIN and ctx.rng.uniform() < .5 else (
            self.kw["n"] if self.name == "DirichletDistribution" else
            ctx.pick((1, 2, 3)))
        return ("fit_variational", {
            "n_groups": K, "init_method": ctx.pick(("kmeans", "random")),
            "tol": ctx.pick((1e-8, 1e-2, 0))})

    def gibbs_fit(self, warm):
        ctx = self.ctx
        if warm and ctx.rng.uniform() < .5:
            return ("fit_gibbs", {"warm_start": True})
        return ("fit_gibbs", X.init_kw(ctx, self.name, len(self.y)))

    def query(self, gibbs, var):
        ctx = self.ctx
        names = (GIBBS_Q if gibbs else ()) + (VAR_Q if var else ())
        op = ctx.pick(names)
        q = None if ctx.rng.uniform() < .4 else X.queries(ctx, self.y)
        a = {"y": q}
        D = self.y.shape[1]
        if op.endswith("density"):
            if ctx.rng.uniform() < .3:
                dim = ctx.rng.permutation(D)[:int(ctx.rng.integers(1, D + 1))]
                a["dim"] = [int(i) for i in dim]
                if q is not None:
                    a["y"] = q[:, a["dim"]]
            if ctx.rng.uniform() < .2:
                a["component"] = 0
            if op == "gibbs_eap_density" and ctx.rng.uniform() < .3:
                a["periods"] = ctx.pick((1, 2, 100))
        elif op.endswith("map_cluster"):
            a["full"] = bool(ctx.rng.integers(2))
        elif "spectral" in op:
            n = len(self.y) if q is None else len(q)
            if n < 3:
                op = op.replace("eap_spectral_consensus", "map")
            else:
                a["n_clusters"] = int(ctx.pick((1, 2)))
        return (op, a)

    def make(self, rng, **more):
        return M.make_mix(self.name, self.kw, rng, **dict(self.more, **more))

    def desc(self):
        return (self.name, str(self.kw), self.y.shape, self.more["total_iter"],
                [(o, sorted(a)) for o, a in self.ops], float(self.y[0, 0]))

    def apply(self, mm, op, **extra):
        """Runs one call; returns its observable result"""
        name, a = op
        if name == "fit_gibbs":
            mm.fit_gibbs(self.y.copy(), **a, **extra)
            return gibbs_trace(mm)
        if name == "fit_variational":
            mm.fit_variational(self.y.copy(), **a, **extra)
            return var_trace(mm)
        return ask(mm, op)


def ask(mm, op):
    name, a = op
    a = dict(a)
    if a.get("y") is not None:
        a["y"] = a["y"].copy()
    try:
        r = plain(getattr(mm, name)(**a))
        if "spectral" in name:
            A = getattr(mm, name.replace("spectral_consensus_cluster",
                                         "affinity_matrix"))(a["y"])
            return spectral(r, A, a.get("n_clusters", 1))
        return r
    except ValueError as e:
        # a factor without a single mode has no MAP density
        if name == "var_map_density" and "mode" in str(e).lower():
            return "no-mode"
        raise


def spectral(labels, A, k):
    """The partition, if the affinity has exactly k separate blocks; the
    eigenvectors of other affinities can depend on the memory layout"""
    from scipy.sparse.csgraph import connected_components
    A = np.asarray(A)
    d = A.sum(1)
    ev = np.sort(1 - np.linalg.eigvalsh(A / np.sqrt(np.outer(d, d))))
    if connected_components(A > 1e-9)[0] != k or (
            len(A) > k and ev[k] < .1):
        return np.array([len(labels)])
    return np.array(X.canon(labels))


# ---- weighting models --------------------------------------------------------
class WeightProgram:
    def __init__(self, ctx, steps=8, names=None):
        self.ctx = ctx
        self.name = ctx.pick(names or M.ALL)
        self.kw = M.config(ctx.rng, self.name, True)
        if self.name in ("GeometricProcess", "BetaInBeta"):
            self.kw["a"] = max(1, self.kw["a"])
        self.kmax = self.kw["n"] if self.name in M.FIN else 5
        self.ops = [("random", (int(ctx.rng.integers(1, 6)),))]
        fitted = False
        for _ in range(steps):
            o = ctx.pick(("random", "complete", "tail", "fit", "assign",
                          "reset", "fit_variational"))
            if o == "random":
                a = (None if fitted and ctx.rng.uniform() < .5 else
                     int(ctx.rng.integers(1, 9)),)
            elif o == "complete":
                a = (int(ctx.rng.integers(1, 12)),)
            elif o == "tail":
                a = (ctx.pick((0, .3, .7, .9)),)
            elif o == "fit":
                a = (M.labels(ctx.rng, self.kmax, 9),)
                fitted = True
            elif o == "assign":
                a = (ctx.pick((None, 1, 5)),)
            elif o == "reset":
                a = ()
                fitted = False
            else:
                if self.name not in M.VAR:
                    continue
                K = self.kmax if self.name in M.FIN else int(
                    ctx.rng.integers(1, 5))
                a = (ctx.rng.dirichlet(np.ones(K), size=6).T,)
            self.ops.append((o, a))

    def make(self, rng):
        return M.make(self.name, self.kw, rng)

    def desc(self):
        return (self.name, str(self.kw), [(o, str(a)) for o, a in self.ops])

    def apply(self, wm, op):
        o, a = op
        if o == "assign":
            r = wm.random_assignment(*a)
        elif o in ("fit", "fit_variational"):
            r = getattr(wm, o)(a[0].copy())
        else:
            r = getattr(wm, o)(*a)
        return plain([r, wm.get_weights()])


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def perturb_global(rng):
    np.random.seed(int(rng.integers(2 ** 31)))
    np.random.normal(size=int(rng.integers(1, 4)))
    random.seed(int(rng.integers(2 ** 31)))

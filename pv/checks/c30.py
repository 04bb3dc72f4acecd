"""C30: the MAP pair plot shows the fitted MAP model."""
import numpy as np
import pandas as pd
from scipy import stats

from pv import models as M
from pv import mix as X

RULE = ("the artists of the pair plot of fitted models (1 to 4 features, 1 to "
        "more than 10 groups, named columns, warm starts) compared with the "
        "data, the MAP clusters and the MAP components computed by the "
        "harness; a case is one fitted model")
ASSUMPTIONS = ["matplotlib's Agg backend; colours of more than ten groups "
               "may repeat"]


def build(ctx, many):
    if many:
        k = int(ctx.rng.integers(11, 14))
        D = int(ctx.pick((1, 2)))
        c = np.stack([np.arange(k) * 9.0, ctx.rng.permutation(k) * 9.0],
                     1)[:, :D]
        y = np.repeat(c, 3, axis=0) + ctx.rng.normal(size=(3 * k, D))
        pk = {"psi_prior": np.eye(D) * 2, "nu_prior": D + 1.0,
              "lambda_prior": .01}
        name, kw = "EqualWeighting", {"n": k + 1}
    else:
        D = int(ctx.pick((1, 2, 2, 3, 4)))
        while True:
            # data close to a hyperplane make the contours inaccurate
            y, pk, _ = X.problem(ctx, D=D, n=ctx.pick((6, 12, 30)))
            if np.all(y.std(0) > 0):
                break
        name, kw = X.mix_config(ctx)
    mm = M.make_mix(name, kw, ctx.gen(), total_iter=6, burn_in=0, **pk)
    names = ["v%d" % i for i in range(D)]
    frame = ctx.pick(("frame", "frame", "array", "list", "int-frame") + (
        ("series", "named-series", "flat") if D == 1 else ()))
    if frame != "frame":
        names = [str(i) for i in range(D)]
    if frame == "frame":
        data = pd.DataFrame(y, columns=names)
    elif frame == "int-frame":
        k = ctx.rng.permutation(90)[:D]
        data, names = pd.DataFrame(y, columns=k), [str(i) for i in k]
    elif frame == "series":
        data = pd.Series(y[:, 0])
    elif frame == "named-series":
        data, names = pd.Series(y[:, 0], name="height"), ["height"]
    else:
        data = {"array": y, "list": y.tolist(), "flat": y[:, 0]}[frame]
    ctx.count("form:" + frame)
    init = {"init_groups": None} if many else X.init_kw(ctx, name, len(y))
    mm.fit_gibbs(data, **init)
    if ctx.rng.uniform() < .3:
        mm.fit_gibbs(data, warm_start=True)
    if name in M.VAR and ctx.rng.uniform() < .3:
        # the plot is that of the Gibbs fit
        z = X.data(ctx.rng, D, D + 4, "blobs") - 3
        if ctx.rng.uniform() < .5:
            z = pd.DataFrame(z, columns=["u%d" % i for i in range(D)])
        mm.fit_variational(z, n_groups=None if name in M.FIN else 2)
        ctx.count("then-variational")
    ctx.case((name, str(kw), y.shape, many, frame, float(y[0, 0])))
    return mm, y, names


def grid(fig, D):
    out = {}
    for ax in fig.axes:
        ss = ax.get_subplotspec()
        if ss is not None:
            out[ss.rowspan.start, ss.colspan.start] = ax
    return out


def rgb(c):
    from matplotlib.colors import to_rgba
    return tuple(np.round(to_rgba(c)[:3], 6))


def matches(got, want):
    return len(got) == len(want) and np.allclose(
        got, want, rtol=1e-6, atol=1e-9 * max(1e-300, np.abs(want).max()))


def panel(ctx, ax, i, y, state, used, cache):
    """Diagonal: curves of the total and of each used component"""
    lo, hi = y[:, i].min(), y[:, i].max()
    total = False
    for ln in ax.get_lines():
        x = np.asarray(ln.get_xdata(), float)
        if len(x) < 20 or x.min() > lo or x.max() < hi:
            continue
        f = X.density(state, x[:, None], [i])
        total = total or matches(np.asarray(ln.get_ydata(), float), f)
    ctx.check(total, "marginal-curve", feature=i)
    ctx.count("curves")
    found = {}
    for col in ax.collections:
        for path in col.get_paths():
            v = path.vertices
            for j in used:
                if j in found:
                    continue
                f = X.density(state, v[:, [0]], [i], component=j)
                top = np.abs(v[:, 1]) > 0
                if top.sum() >= 5 and matches(v[top, 1], f[top]) and (
                        f.max() == 0 or f[top].max() >= .9 * f.max()):
                    found[j] = rgb(col.get_facecolor()[0])
                    break
    for j in used:
        x = np.linspace(lo, hi, 50)
        if X.density(state, x[:, None], [i], component=j).max() < 1e-250:
            found.setdefault(j, None)
            continue
        ctx.check(j in found, "component-curve", feature=i, component=j,
                  used=used)
        ctx.count("component-curves")
    return found


def pairs(ctx, ax, c, r, y, state, used, comp):
    """Off diagonal: scatter and contours; colours by cluster"""
    sc = [k for k in ax.collections
          if len(k.get_offsets()) == len(y)]
    if not ctx.check(len(sc) >= 1, "scatter", panel=[r, c]):
        return None
    off = np.asarray(sc[0].get_offsets(), float)
    ctx.check(np.allclose(off, y[:, [c, r]], rtol=1e-12, atol=1e-12),
              "scatter-points", panel=[r, c])
    fc = sc[0].get_facecolors()
    if len(fc) == 1:
        fc = np.repeat(fc, len(y), axis=0)
    if not ctx.check(len(fc) == len(y), "scatter-colours", got=len(fc)):
        return None
    cols = [tuple(np.round(k[:3], 6)) for k in fc]
    of = {}
    for j in used:
        s = {cols[i] for i in np.flatnonzero(comp == j)}
        ctx.check(len(s) == 1, "cluster-colour", cluster=int(j), got=len(s))
        of[j] = cols[int(np.flatnonzero(comp == j)[0])]
    if len(used) <= 10:
        ctx.check(len(set(of.values())) == len(used), "clusters-same-colour",
                  groups=len(used))
    rad = stats.chi2.ppf(.95, 2)
    left = list(used)
    for ln in ax.get_lines():
        p = np.stack([ln.get_xdata(), ln.get_ydata()], 1).astype(float)
        if len(p) < 20:
            continue
        ok = False
        for j in list(left):
            m, S = state["theta"][j]
            m, S = np.ravel(m)[[c, r]], np.atleast_2d(S)[np.ix_([c, r],
                                                                [c, r])]
            sd = np.sqrt(np.diag(S))
            L = np.linalg.cholesky(S / np.outer(sd, sd))
            u = np.linalg.solve(L, ((p - m) / sd).T)
            tol = 1e-6 + 1e-9 * np.max(np.abs(m) / sd) / L[1, 1]
            if np.allclose((u ** 2).sum(0), rad, rtol=min(.01, tol * 10)):
                ang = np.sort(np.arctan2(u[1], u[0]))
                gap = np.max(np.diff(np.append(ang, ang[0] + 2 * np.pi)))
                ctx.check(gap < .7, "contour-incomplete", gap=gap)
                ctx.check(rgb(ln.get_color()) == of[j], "contour-colour",
                          component=int(j))
                left.remove(j)
                ok = True
                ctx.count("contours")
                break
        ctx.check(ok, "stray-contour", panel=[r, c], used=used)
    ctx.check(not left, "missing-contour", panel=[r, c], missing=left,
              used=used)
    return of


def plot(ctx, many=False):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    mm, y, names = build(ctx, many)
    D = y.shape[1]
    state = X.freeze(mm.map_sim_params)
    lg = X.component_logs(state, y)
    if lg.shape[1] > 1:
        s = np.sort(lg, axis=1)
        if np.any(s[:, -1] - s[:, -2] < 1e-6):
            ctx.count("skipped:ties")
            return
    comp = lg.argmax(1)
    used = [int(j) for j in np.unique(comp)]
    plt.close("all")
    try:
        r = mm.gibbs_map_pairplot()
        fig = plt.gcf()
        axes = grid(fig, D)
        if not ctx.check(set(axes) == {(a, b) for a in range(D)
                                       for b in range(D)}, "panels",
                         got=sorted(axes), D=D):
            return
        for i in range(D):
            ctx.check(axes[D - 1, i].get_xlabel() == names[i], "label",
                      got=axes[D - 1, i].get_xlabel(), want=names[i])
            ctx.check(axes[i, 0].get_ylabel() == names[i], "label",
                      got=axes[i, 0].get_ylabel(), want=names[i])
        fig.canvas.draw()
        for i in range(D):
            ctx.check(len({axes[r, i].get_xlim() for r in range(D)}) == 1,
                      "column-scales-differ", column=i)
            off = {axes[i, c].get_ylim() for c in range(D) if c != i}
            ctx.check(len(off) <= 1, "row-scales-differ", row=i)
            ctx.count("shared-scales")
            for (row, col), ax in axes.items():
                for v, lim in ((y[:, col], ax.get_xlim()),) + (
                        ((y[:, row], ax.get_ylim()),) if row != col else ()):
                    ctx.check(lim[0] <= v.min() and v.max() <= lim[1],
                              "data-out-of-view", panel=[row, col])
        found = {}
        for (row, col), ax in sorted(axes.items()):
            if row == col:
                found[row] = panel(ctx, ax, row, y, state, used, None)
            else:
                of = pairs(ctx, ax, col, row, y, state, used, comp)
                if of is not None:
                    found.setdefault("of", of)
                    ctx.check(found["of"] == of, "colours-differ-by-panel")
        for i in range(D):
            for j, c in found[i].items():
                if c is not None and "of" in found and len(used) <= 10:
                    ctx.check(c == found["of"][j], "component-curve-colour",
                              feature=i, component=j)
        fig.canvas.draw()
    finally:
        plt.close("all")
    ctx.count("plots")
    ctx.count("features:%d" % D)
    ctx.count("groups:" + ("1" if len(used) == 1 else "2-10" if
                           len(used) <= 10 else ">10"))


def many(ctx):
    plot(ctx, True)


SCALE = 3     # of the quick tier
SCENARIOS = [("plot", plot, 72, 900), ("many", many, 12, 100)]
REQUIRE = {"plots": 60, "contours": 150, "component-curves": 150,
           "groups:>10": 4, "then-variational": 8, "groups:2-10": 20, "features:1": 8,
           "features:3": 4}

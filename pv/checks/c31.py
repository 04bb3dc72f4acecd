"""C31: bundled data sets load complete and aligned."""
import csv
import os
import tempfile

import numpy as np
import pandas as pd

from pv import core

RULE = ("every cell of both bundled data sets compared with the harness's own "
        "parse of the shipped files, after loads in random order, from any "
        "working directory, with the earlier loads mutated in random ways in "
        "between, and passed to fits; a case is one sequence of loads")
ASSUMPTIONS = ["74 flea beetles (21, 22 and 31 of each species) and 342 "
               "penguins with measurements (151, 123 and 68), as published"]
DATA = os.path.join(core.REPO, "pyrichlet", "utils", "_data")
PUBLISHED = {"chaetocnema": [21, 22, 31], "penguins": [68, 123, 151]}


def reference(name):
    """(feature names, rows of floats, labels)"""
    with open(os.path.join(DATA, name + ".csv"), newline="") as f:
        rows = list(csv.reader(f))
    head, rows = rows[0], rows[1:]
    if name == "chaetocnema":
        feats, lab = list(range(1, 7)), head.index("species")
    else:
        feats, lab = [2, 3, 4, 5], head.index("species")
    x, t = [], []
    for r in rows:
        cells = [r[i].strip() for i in feats]
        if any(c in ("", "NA", "NaN", "nan") for c in cells + [r[lab]]):
            continue
        x.append([float(c) for c in cells])
        t.append(r[lab].strip())
    return [head[i] for i in feats], np.array(x), t


def verify(ctx, name, got):
    cols, x, t = reference(name)
    ctx.count("loads:" + name)
    if not ctx.check(isinstance(got, tuple) and len(got) == 2, "two-values",
                     data=name):
        return
    X, lab = got
    ctx.check(isinstance(X, pd.DataFrame), "feature-table", data=name)
    ctx.check(np.ndim(lab) == 1 and len(lab) == len(X), "labels-per-row",
              data=name, rows=len(X), labels=np.shape(lab))
    ctx.check(list(X.columns) == cols, "feature-names", data=name,
              got=list(X.columns), want=cols)
    ctx.check(X.shape == x.shape, "records", data=name, got=X.shape,
              want=x.shape)
    ctx.check(all(d.kind in "iuf" for d in X.dtypes), "numeric", data=name,
              got=[str(d) for d in X.dtypes])
    ctx.check(not X.isna().to_numpy().any(), "missing-values", data=name)
    if X.shape == x.shape:
        ctx.check(np.array_equal(X.to_numpy(dtype=float), x), "values",
                  data=name)
        ctx.count("cells", x.size)
    got_t = [str(v).strip() for v in lab]
    ctx.check(got_t == t, "labels", data=name)
    ctx.check(sorted(got_t.count(v) for v in set(got_t)) == PUBLISHED[name],
              "published-counts", data=name)


def mutate(ctx, X, lab):
    how = ctx.pick(("values", "columns", "drop", "labels", "fill", "index"))
    if how == "values":
        X.iloc[:, 0] = 0
    elif how == "columns":
        X.columns = ["z%d" % i for i in range(X.shape[1])]
    elif how == "drop":
        X.drop(X.index[:5], inplace=True)
    elif how == "labels":
        try:
            lab[:] = "none"
        except (TypeError, ValueError):
            ctx.count("read-only-labels")
    elif how == "fill":
        X["extra"] = 1.0
    else:
        X.index = range(1000, 1000 + len(X))
    ctx.count("mutations")


def loads(ctx):
    from pyrichlet import utils
    here = os.getcwd()
    seq = []
    with tempfile.TemporaryDirectory() as tmp:
        try:
            if ctx.rng.uniform() < .5:
                os.chdir(tmp)
            for _ in range(int(ctx.rng.integers(2, 6))):
                name = ctx.pick(("chaetocnema", "penguins"))
                seq.append(name)
                ctx.case(tuple(seq) + (ctx.index,))
                got = getattr(utils, "load_" + name)()
                verify(ctx, name, got)
                if ctx.rng.uniform() < .7:
                    mutate(ctx, *got)
        finally:
            os.chdir(here)


def fits(ctx):
    from pyrichlet import utils
    from pyrichlet.mixture_models import (DirichletProcessMixture,
                                          DirichletDistributionMixture)
    name = ctx.pick(("chaetocnema", "penguins"))
    X, lab = getattr(utils, "load_" + name)()
    ctx.case((name, ctx.index))
    # the table of plain values gives the same fit
    cols, x, _ = reference(name)
    res = []
    s = int(ctx.rng.integers(2 ** 40))
    for data in (X, x):
        mm = DirichletProcessMixture(rng=np.random.default_rng(s),
                                     total_iter=3, burn_in=0)
        mm.fit_gibbs(data, init_groups=3)
        res.append((mm.gibbs_map_cluster(), mm.gibbs_eap_density()))
    ctx.check(len(res[0][0]) == len(lab), "fit-rows")
    ctx.check(np.array_equal(res[0][0], res[1][0]) and np.array_equal(
        res[0][1], res[1][1]), "fit-of-loaded-data")
    mm = DirichletDistributionMixture(n=3, rng=np.random.default_rng(s),
                                      total_iter=3, burn_in=0)
    mm.fit_variational(X)
    ctx.check(np.all(np.isfinite(mm.var_eap_density(X))), "finite-density")
    verify(ctx, name, (X, lab))
    ctx.count("fits")


SCALE = 4     # of the quick tier
SCENARIOS = [("loads", loads, 60, 600), ("fits", fits, 12, 100)]
REQUIRE = {"loads:chaetocnema": 50, "loads:penguins": 50, "cells": 100000,
           "mutations": 80, "fits": 12}

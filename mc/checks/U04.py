"""Every row and column of both bundled files against an independent parse (from several working directories, and from the package
built by setup.py); every history of up to three loads, modifications of what was loaded and loads; both kinds of fit on the tables."""
import csv
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import pandas as pd
from .. import gibbs as G

FILES = {"load_chaetocnema": ("chaetocnema.csv", ["X10", "X12", "X14", "X18", "X40", "X48"], "species"),
         "load_penguins": ("penguins.csv", ["bill_length_mm", "bill_depth_mm", "flipper_length_mm", "body_mass_g"], "species")}
MUTATIONS = ["none", "cells", "drop-row", "new-column", "rename", "labels", "dtype"]


def cases(tier):
    for f in FILES:
        yield {"id": f + "/content", "kind": "content", "f": f}
        yield {"id": f + "/histories", "kind": "histories", "f": f, "depth": 2 if tier == "quick" else 3}
        for i in range(len(G.GIBBS)):
            if tier == "quick" and i not in (0, 2, 3, 4, 6, 8, 13, 16, 18):
                continue
            yield {"id": "%s/%s" % (f, G.GIBBS[i][0]), "kind": "fit", "f": f, "m": i, "cost": 3}
    yield {"id": "built", "kind": "built", "cost": 5}


def parse(f):
    """rows of the source file that have every feature and a label"""
    name, cols, label = FILES[f]
    path = "/repo/pyrichlet/utils/_data/" + name
    with open(path, newline="") as fh:
        rows = list(csv.DictReader(fh))
    x, y = [], []
    for r in rows:
        v = [r[c].strip() for c in cols] + [r[label].strip()]
        if all(v) and not any(t.upper() in ("NA", "NAN", "NULL") for t in v):
            x.append([float(t) for t in v[:-1]])
            y.append(v[-1])
    return np.array(x), y, cols


def load(f):
    from pyrichlet import utils
    return getattr(utils, f)()


def verify(r, want, ctx, what):
    x, y, cols = want
    if not ctx.check(isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], pd.DataFrame), "shape", lambda: "%s returns %s" % (what, type(r))):
        return False
    t, lab = r
    lab = list(lab)
    ok = ctx.check(list(t.columns) == cols and t.shape == x.shape, "shape", lambda: "%s: columns %s shape %s, source file %s %s" % (what, list(t.columns), t.shape, cols, x.shape))
    ok = ok and ctx.check(all(pd.api.types.is_numeric_dtype(d) and not pd.api.types.is_bool_dtype(d) for d in t.dtypes), "numeric", lambda: "%s: types %s" % (what, list(t.dtypes)))
    ok = ok and ctx.check(not t.isna().any().any(), "missing", lambda: "%s has missing values" % what)
    ok = ok and ctx.check(len(lab) == len(t), "labels", lambda: "%s: %d labels for %d rows" % (what, len(lab), len(t)))
    if not ok:
        return False
    v = t.to_numpy(float)
    bad = [k for k in range(len(x)) if not np.array_equal(v[k], x[k]) or str(lab[k]).strip() != y[k]]
    ctx.ops += len(x)
    ctx.check(t.index.is_unique, "index", lambda: "%s: repeated row names" % what)
    return ctx.check(not bad, "rows", lambda: "%s: row %d is %s %r, in the source file %s %r" % (what, bad[0], v[bad[0]], lab[bad[0]], x[bad[0]], y[bad[0]]))


def mutate(r, how):
    t, lab = r
    if how == "cells":
        t.iloc[:, :] = 0
    elif how == "drop-row":
        t.drop(index=t.index[0], inplace=True)
    elif how == "new-column":
        t["extra"] = 1
    elif how == "rename":
        t.columns = ["c%d" % k for k in range(t.shape[1])]
    elif how == "labels":
        try:
            lab[:] = "zzz"
        except ValueError:
            pass
    elif how == "dtype":
        t.index = range(1000, 1000 + len(t))


def execute(case, ctx):
    k = case["kind"]
    if k == "built":
        return built(ctx)
    f = case["f"]
    want = parse(f)
    if k == "content":
        cwd = os.getcwd()
        try:
            for d in (cwd, "/", "/repo/pyrichlet/utils/_data", "/repo"):
                os.chdir(d)
                verify(load(f), want, ctx, "%s from %s" % (f, d))
                ctx.execs += 1
        finally:
            os.chdir(cwd)
        ctx.state(f, want[0].shape, tuple(sorted(set(want[1]))))
        ctx.sample({"rows": len(want[1]), "labels": sorted(set(want[1]))})
    elif k == "histories":
        for n in range(1, case["depth"] + 1):
            for hist in itertools.product([(g, h) for g in FILES for h in MUTATIONS], repeat=n):
                held = []
                for g, h in hist:
                    r = load(g)
                    mutate(r, h)
                    held.append((g, h, r))
                what = "%s after %s" % (f, list(hist))
                r = load(f)
                verify(r, want, ctx, what)
                for g, h, old in held:
                    if h == "none":
                        mutate(r, "cells")
                        mutate(r, "labels")
                        verify(old, parse(g), ctx, "the table of %s held while another load was modified" % g)
                ctx.execs += 1
                ctx.state(f, hist)
                if len(ctx.viol) > 3:
                    return
    else:
        i = case["m"]
        x = want[0]
        K = G.GIBBS[i][3] or 3
        novar = G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid"))
        for init in ("kmeans", "random") + (() if novar else ("variational",)):
            m = G.make(i, np.random.default_rng(3), None, 2, 0, 1)
            m.fit_gibbs(load(f)[0], init_groups=K, init_method=init)
            m2 = G.make(i, np.random.default_rng(3), None, 2, 0, 1)
            m2.fit_gibbs(x.copy(), init_groups=K, init_method=init)
            ctx.execs += 1
            ctx.ops += 2
            ctx.check(all(np.allclose(a["w"], b["w"], rtol=1e-7) and np.array_equal(a["d"], b["d"]) for a, b in zip(m.sim_params, m2.sim_params)), "fit", lambda: "%s %s Gibbs fit of the table of %s differs from that of its numbers" % (G.GIBBS[i][0], init, f))
            ctx.check(np.allclose(m.gibbs_eap_density(), m2.gibbs_eap_density(x), rtol=1e-7) and np.all(m.gibbs_eap_density() > 0), "fit", lambda: "%s: density at the rows of %s" % (G.GIBBS[i][0], f))
            ctx.state(i, init, m.sim_params[-1]["d"].tolist())
        if not novar:
            m = G.make(i, np.random.default_rng(3), None, 20, 0, 1)
            m.fit_variational(load(f)[0], n_groups=K)
            m2 = G.make(i, np.random.default_rng(3), None, 20, 0, 1)
            m2.fit_variational(x.copy(), n_groups=K)
            ctx.execs += 1
            ctx.check(np.allclose(m.var_d, m2.var_d, rtol=1e-6, atol=1e-9) and m.var_d.shape[1] == len(x), "fit", lambda: "%s variational fit of the table of %s differs from that of its numbers" % (G.GIBBS[i][0], f))
            ctx.check(np.allclose(m.var_eap_density(), m2.var_eap_density(x), rtol=1e-6), "fit", lambda: "%s: variational density at the rows of %s" % (G.GIBBS[i][0], f))
            ctx.check(len(m.var_map_cluster()) == len(load(f)[1]), "fit", lambda: "%s: one cluster per label" % f)


def built(ctx):
    """the data sets are part of the built package"""
    base = tempfile.mkdtemp(prefix="mc-u04-")
    try:
        shutil.copytree("/repo", base + "/t", ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "*.egg-info", "build"))
        env = dict({k: v for k, v in os.environ.items() if not k.startswith("GIT_")}, GIT_CEILING_DIRECTORIES=base, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "setup.py", "-q", "build", "--build-lib", base + "/out"], cwd=base + "/t", capture_output=True, text=True, env=env)
        if not ctx.check(r.returncode == 0, "build", lambda: "setup.py build fails: %s" % r.stderr[-600:]):
            return
        prog = ("import pyrichlet, sys\nfrom pyrichlet.utils import load_penguins, load_chaetocnema\nassert pyrichlet.__file__.startswith(%r), pyrichlet.__file__\n"
                "print([(f()[0].shape, float(f()[0].to_numpy(float).sum()), len(f()[1])) for f in (load_chaetocnema, load_penguins)])" % base)
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", prog], cwd="/", env=dict(env, PYTHONPATH=base + "/out"), capture_output=True, text=True)
        want = [(parse(f)[0].shape, float(parse(f)[0].sum()), len(parse(f)[1])) for f in ("load_chaetocnema", "load_penguins")]
        ctx.execs += 1
        ctx.ops += 2
        ctx.state("built")
        ctx.check(r.returncode == 0 and r.stdout.strip() == str(want), "build", lambda: "data sets of the built package: %s %s, source %s" % (r.stdout.strip(), r.stderr[-600:], want))
    finally:
        shutil.rmtree(base, ignore_errors=True)

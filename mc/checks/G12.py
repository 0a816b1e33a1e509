"""The pair plots of Gibbs fits of every mixture on every data set of an enumerated family (one to four features, list / array /
frame input, one to thirteen clusters, empty components, correlated and badly scaled features), read back from the figure: one
panel per pair of features, total and component curves, points, colours, ellipses and labels compared with the MAP state."""
import numpy as np
import pandas as pd
from scipy.stats import norm, chi2, multivariate_normal
from .. import gibbs as G, fit as F

COR = np.array([[0, 0], [1, 1.9], [2, 4.2], [3, 5.9], [-1, -2.1], [20, 0], [21, -2.], [22, -3.9], [19, 2.2], [18, 3.8]], float)
BAD = COR * [1e-3, 1e3] + [5, -7000]


def grid(k, D):
    """k well separated pairs of points"""
    c = np.array([[30.0 * q, 40.0 * ((q * 7) % k), -25. * ((q * 3) % k)][:D] for q in range(k)])
    return np.vstack([c, c + .5, c + [[-.4, .3, .2][:D]]])


SETS = {"three": (1, G.data(1, 0)), "four": (1, G.data(1, 1)), "plane": (2, G.data(2, 0)), "space": (3, G.data(3, 0)), "cor": (2, COR), "bad": (2, BAD),
        "blob": (2, np.array([[0., 0.], [.5, .1], [.2, .7], [.4, .3]])), "pairs6": (2, grid(6, 2)), "line5": (1, grid(5, 1)), "cube4": (3, grid(4, 3)),
        "four-features": (4, np.hstack([COR, np.array([[3, 1, 4, 1, 5, 9, 2, 6, 5, 3], [2, 7, 1, 8, 2, 8, 1, 8, 2, 8]], float).T])[:7])}
FORMS = ["array", "frame", "list"]


def cases(tier):
    for i in range(len(G.GIBBS)):
        for q, s in enumerate(SETS):
            seeds = range(5) if tier == "quick" else range(40)
            if tier == "quick" and (q + i) % 2 and s not in ("plane", "three"):
                continue
            yield {"id": "%s/%s" % (G.GIBBS[i][0], s), "m": i, "set": s, "seeds": list(seeds), "cost": SETS[s][0] ** 2}
    for k in (9, 10, 11, 12, 13):
        for D in (1, 2):
            yield {"id": "many%d/D%d" % (k, D), "m": None, "k": k, "D": D, "seeds": [0, 1] if tier == "quick" else list(range(8)), "cost": 3}


def rgb(c):
    import matplotlib.colors as mc
    return tuple(np.round(mc.to_rgb(tuple(np.ravel(c)[:3]) if not isinstance(c, str) else c), 6).tolist())


def upper(col):
    v = col.get_paths()[0].vertices
    up = {}
    for x, y in v:
        up[x] = max(up.get(x, 0.0), y)
    xs = np.array(sorted(up))
    return xs, np.array([up[x] for x in xs])


def verify(m, y, names, ctx, what):
    import matplotlib.pyplot as plt
    from matplotlib.collections import PathCollection
    plt.close("all")
    m.gibbs_map_pairplot()
    ctx.check(len(plt.get_fignums()) == 1, "figures", lambda: "%s: %d figures" % (what, len(plt.get_fignums())))
    fig = plt.gcf()
    D = y.shape[1]
    p = m.map_sim_params
    w, th = np.asarray(p["w"]), p["theta"]
    lp = np.array([np.log(w[j]) + multivariate_normal.logpdf(y, th[j][0], th[j][1], allow_singular=True) if w[j] > 0 else np.full(len(y), -np.inf) for j in range(len(w))]).reshape(len(w), len(y))
    comp = lp.argmax(0)
    gap = np.sort(lp, 0)[-2:]
    if len(w) > 1 and np.min(gap[1] - gap[0]) < 1e-9:
        return 0
    occ = sorted(set(comp.tolist()))
    ax = {}
    for a in fig.axes:
        ss = a.get_subplotspec()
        if ss is not None:
            ax[ss.rowspan.start, ss.colspan.start] = a
    if not ctx.check(len(fig.axes) == D * D and sorted(ax) == [(r, c) for r in range(D) for c in range(D)], "panels", lambda: "%s: panels %s for %d features" % (what, sorted(ax), D)):
        return 0
    for f in range(D):
        ctx.check(ax[D - 1, f].get_xlabel() == str(names[f]), "labels", lambda: "%s: column %d is labelled %r, not %r" % (what, f, ax[D - 1, f].get_xlabel(), names[f]))
        ctx.check(ax[f, 0].get_ylabel() == str(names[f]), "labels", lambda: "%s: row %d is labelled %r, not %r" % (what, f, ax[f, 0].get_ylabel(), names[f]))
    color = {}
    for f in range(D):
        a = ax[f, f]

        def marginal(j, x):
            return w[j] * norm.pdf(x, th[j][0][f], np.sqrt(th[j][1][f, f]))
        lines = [ln for ln in a.get_lines() if len(ln.get_xdata()) >= 20]
        ctx.check(len(lines) == 1, "total", lambda: "%s: %d curves in diagonal panel %d" % (what, len(lines), f))
        for ln in lines:
            x, v = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
            ref = sum(marginal(j, x) for j in range(len(w)))
            ctx.check(np.allclose(v, ref, rtol=1e-7, atol=1e-9 * max(1e-300, ref.max())), "total", lambda: "%s: the curve of feature %d is %s.. at %s.., MAP density %s.." % (what, f, v[:3], x[:3], ref[:3]))
            ctx.check(x.min() <= y[:, f].min() and x.max() >= y[:, f].max(), "total", lambda: "%s: the curve of feature %d covers %r..%r, not the data" % (what, f, x.min(), x.max()))
        left = list(a.collections)
        for j in occ:
            hits = []
            for c in left:
                x, v = upper(c)
                ref = marginal(j, x)
                if np.allclose(v, ref, rtol=1e-7, atol=1e-9 * max(ref.max(), 1e-300)):
                    hits.append(c)
            if not ctx.check(len(hits) >= 1, "component", lambda: "%s: no shaded curve of feature %d is the weighted marginal of occupied component %d of %s (weights %s)" % (what, f, j, occ, w)):
                return 0
            left.remove(hits[0])
            k = rgb(hits[0].get_facecolor())
            ctx.check(color.setdefault(j, k) == k, "color", lambda: "%s: component %d is drawn in several colours" % (what, j))
        for c in left:
            x, v = upper(c)
            ctx.check(any(np.allclose(v, marginal(j, x), rtol=1e-7, atol=1e-9 * v.max()) for j in range(len(w)) if j not in occ), "component", lambda: "%s: a shaded curve of feature %d is no component's" % (what, f))
    if len(occ) <= 10:
        ctx.check(len(set(color.values())) == len(occ), "color", lambda: "%s: %d clusters in %d colours" % (what, len(occ), len(set(color.values()))))
    for r in range(D):
        for c in range(D):
            if r == c:
                continue
            a = ax[r, c]
            pts = [k for k in a.collections if isinstance(k, PathCollection)]
            if not ctx.check(len(pts) == 1 and np.array_equal(np.asarray(pts[0].get_offsets()), y[:, [c, r]]), "points", lambda: "%s: panel (%d, %d) does not show features %d and %d of the data" % (what, r, c, c, r)):
                return 0
            got = [rgb(k) for k in (list(pts[0].get_facecolors()) if len(pts[0].get_facecolors()) > 1 else [pts[0].get_facecolors()[0]] * len(y))]
            ctx.check(got == [color[j] for j in comp.tolist()], "color", lambda: "%s: the points of panel (%d, %d) do not have their clusters' colours" % (what, r, c))
            lines = [ln for ln in a.get_lines() if len(ln.get_xdata()) >= 20]
            ctx.check(len(lines) == len(occ), "ellipses", lambda: "%s: %d ellipses for %d clusters" % (what, len(lines), len(occ)))
            for j in occ:
                mu = np.asarray(th[j][0])[[c, r]]
                S = np.asarray(th[j][1])[np.ix_([c, r], [c, r])]
                Li = np.linalg.inv(np.linalg.cholesky(S))
                ok = []
                for ln in lines:
                    z = (np.column_stack([ln.get_xdata(), ln.get_ydata()]) - mu) @ Li.T
                    ang = np.sort(np.arctan2(z[:, 1], z[:, 0]))
                    hole = np.max(np.diff(np.concatenate([ang, [ang[0] + 2 * np.pi]])))
                    if np.allclose((z ** 2).sum(1), chi2.ppf(.95, 2), rtol=1e-5) and hole < .6:
                        ok.append(ln)
                ctx.check(len(ok) == 1 and rgb(ok[0].get_color()) == color[j], "ellipses", lambda: "%s: panel (%d, %d) has %d ellipses of component %d (mean %s, covariance %s)%s" % (
                    what, r, c, len(ok), j, mu, S.tolist(), "" if not ok else " in another colour"))
    ctx.state(len(w), tuple(occ), D)
    ctx.count("panels", D * D)
    plt.close("all")
    return len(occ)


def execute(case, ctx):
    import matplotlib.pyplot as plt
    from pyrichlet import mixture_models as mm
    for s in case["seeds"]:
        g = np.random.default_rng(s)
        if case["m"] is None:
            k, D = case["k"], case["D"]
            y = grid(k, D)

            def new(rng):
                psi = .2 * np.eye(D) if D > 1 else .2
                m = mm.EqualWeightedMixture(n=k, rng=rng, total_iter=2, burn_in=0, mu_prior=y.mean(0), lambda_prior=1e-4, psi_prior=psi, nu_prior=D + 2)
                m.fit_gibbs(z, init_groups=k)
                return m
        else:
            i = case["m"]
            D, y = SETS[case["set"]]
            k = G.GIBBS[i][3] or 3 if case["set"] not in ("pairs6", "line5", "cube4") else G.GIBBS[i][3] or 4

            def new(rng):
                m = G.make(i, rng, None, 4, s % 2, 1)
                m.fit_gibbs(z, init_groups=k)
                return m
        for form in FORMS if s == 0 else FORMS[s % 3:][:1]:
            names = list(range(D))
            z = y.copy()
            if form == "frame":
                names = [["feature %d" % (9 - q) for q in range(D)], ["x"] * D, [("a", q) for q in range(D)], list(range(D, 0, -1))][(s + (case["m"] or 0)) % 4]
                z = pd.DataFrame(y.copy(), columns=names)
            elif form == "list":
                z = y.tolist()
            m = new(g)
            before = G.copy_state(m.map_sim_params)
            gs = str(g.bit_generator.state)
            what = "%s seed %d %s" % (case["id"], s, form)
            n = verify(m, y, names, ctx, what)
            ctx.execs += 1
            ctx.ops += D * D
            if case["m"] is None and n:
                ctx.count("clusters over ten", n > 10)
            ctx.check(str(g.bit_generator.state) == gs and G.canon(before) == G.canon(m.map_sim_params), "changed", lambda: "%s: plotting changed the model" % what)
            if len(ctx.viol) > 4:
                plt.close("all")
                return
            if n and s == 0 and form == "array":
                m.gibbs_map_pairplot()
                plt.gcf().canvas.draw()
    plt.close("all")
    ctx.sample({"case": case["id"], "MAP": G.show(m.map_sim_params)})

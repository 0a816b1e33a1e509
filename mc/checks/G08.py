"""Every accepted form of the same observations (and of the same prior parameters) through Gibbs and variational fits of every
model, initialisation and dimension: identical states and answers, arguments untouched, later mutation of the caller's object
without effect; every object of a list of other types rejected with TypeError by fits and queries."""
import copy
import numpy as np
import pandas as pd
from .. import fit as F, gibbs as G, forms as Q

DATA = {1: [[0, 1, 4, 4, 9], [0.5, 1.25, -3., 7.]], 2: [[(0, 0), (1, 2), (6, 5), (5, 7)], [(0.5, 0.), (1., .25), (-6., 5.), (5., 7.5)]],
        3: [[(0, 0, 0), (1, 0, 2), (0, 1, -1), (8, 8, 9), (9, 7, 8)], F._grid(24, 3, 1., 0., 3).tolist()]}
PTS = {1: [[0.], [2.5], [300.]], 2: [[0., 1.], [2.5, -3.], [300., 20.]], 3: [[0., 1., 2.], [2.5, -3., 9.], [300., 20., 10.]]}


def cases(tier):
    for i in range(len(G.GIBBS)):
        for D in (1, 2, 3):
            for n in range(len(DATA[D])):
                yield {"id": "%s/D%d/data%d" % (G.GIBBS[i][0], D, n), "m": i, "D": D, "n": n, "cost": 2, "all": tier != "quick"}
        for D in (1, 2):
            yield {"id": "%s/D%d/priors" % (G.GIBBS[i][0], D), "m": i, "D": D, "n": None}
    yield {"id": "types", "m": None}


def novar(i):
    return G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid"))


METHODS = [("gibbs", "kmeans"), ("gibbs", "random"), ("gibbs", "variational"), ("var", "kmeans"), ("var", "random")]


def fit(m, i, how, y, warm=False):
    K = G.GIBBS[i][3] or 2
    kw = dict(warm_start=True) if warm else dict(init_method=how[1])
    if how[0] == "gibbs":
        if not warm:
            kw["init_groups"] = K
        m.fit_gibbs(y, **kw)
    else:
        m.fit_variational(y, n_groups=K, tol=-1.0, **kw)


def outcome(m, how, D, warm=False):
    x = np.array(PTS[D])
    if how[0] == "gibbs":
        c, u = m.gibbs_map_cluster(x, full=True)
        return [("draws", [G.canon(p) for p in m.sim_params]), ("map", G.canon(m.map_sim_params)), ("affinity", m.gibbs_eap_affinity_matrix().tolist()),
                ("density", m.gibbs_eap_density(x).tolist()), ("training density", m.gibbs_eap_density().tolist()), ("marginal", m.gibbs_map_density(dim=D - 1).tolist()),
                ("cluster", (c.tolist(), u.tolist())), ("training cluster", m.gibbs_map_cluster().tolist()), ("consensus", m.gibbs_eap_spectral_consensus_cluster(n_clusters=1).tolist())]
    c, u = m.var_map_cluster(x, full=True)
    return [("d", m.var_d.tolist()), ("theta", [[np.asarray(v).tolist() for v in t] for t in m.var_theta]), ("density", m.var_eap_density(x).tolist()),
            ("training density", m.var_eap_density().tolist()), ("marginal", m.var_eap_density(dim=[D - 1]).tolist()), ("cluster", (c.tolist(), u.tolist())),
            ("training cluster", m.var_map_cluster().tolist()), ("affinity", m.var_eap_affinity_matrix().tolist())]


def near(a, b):
    """equal up to the last bits (another memory order may sum in another order)"""
    if isinstance(a, bytes):
        return len(a) == len(b) and np.allclose(np.frombuffer(a), np.frombuffer(b), rtol=1e-9, atol=1e-12)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-9, atol=1e-12))
    return a == b


def answers(m, how, y):
    if how[0] == "gibbs":
        return [(q, getattr(m, q)(y)) for q in ("gibbs_eap_density", "gibbs_map_density", "gibbs_map_cluster", "gibbs_eap_affinity_matrix", "gibbs_eap_spectral_consensus_cluster")]
    out = [(q, getattr(m, q)(y)) for q in ("var_eap_density", "var_map_cluster", "var_eap_affinity_matrix", "var_eap_spectral_consensus_cluster")]
    return out


def asked(ctx, m, how, pts, what, marginal):
    """the points of a query in every form"""
    D = pts.shape[1]
    want = answers(m, how, pts.copy())
    for x in (pts, np.round(pts), np.concatenate([pts, pts[::-1] + 1, pts * 2])):
        want = answers(m, how, x.copy())
        for kind, z in list(Q.forms(x)) + list(frames(x)):
            before = copy.deepcopy(z)
            got = answers(m, how, z)
            ctx.ops += 1
            bad = [q for (q, b), (_, c) in zip(got, want) if not near(np.asarray(b).tolist(), np.asarray(c).tolist())]
            ctx.check(not bad, "query-form", lambda: "%s: the points %s given as %s are answered differently by %s" % (what, x.tolist(), kind, bad))
            ctx.check(Q.same(z, before), "input-changed", lambda: "%s: a query modified its points (%s)" % (what, kind))
        if not marginal:
            break
    if not marginal:
        return
    q = "gibbs_eap_density" if how[0] == "gibbs" else "var_eap_density"
    for f, cols in Q.dims(D):
        x = pts[:, cols]
        want = getattr(m, q)(x.copy(), dim=f)
        for kind, z in Q.forms(x):
            if f is None and "frame" in kind:
                continue
            got = getattr(m, q)(z, dim=f)
            ctx.ops += 1
            ctx.check(near(np.asarray(got).tolist(), want.tolist()), "query-form", lambda: "%s: %s at %s given as %s with dim=%r differs" % (what, q, x.tolist(), kind, f))


def corrupt(z):
    if isinstance(z, list):
        for i in range(len(z)):
            if isinstance(z[i], list):
                z[i][0] = -77.0
            else:
                z[i] = -77.0
        z.append(z[0])
    elif isinstance(z, pd.DataFrame):
        z.iloc[:, :] = -77
        z["extra"] = 5
    elif isinstance(z, pd.Series):
        z.iloc[:] = -77
    else:
        z[...] = 77


def frames(x):
    """further frames: duplicate and hierarchical labels, dates, mixed column types"""
    n, d = x.shape
    yield "frame-dupindex", pd.DataFrame(x.copy(), index=[1] * n, columns=["a b"] + list(range(1, d)))
    yield "frame-dates", pd.DataFrame(x.copy(), index=pd.date_range("2020-01-01", periods=n))
    yield "frame-multi", pd.DataFrame(x.copy(), columns=pd.MultiIndex.from_tuples([("u", k) for k in range(d)]))
    yield "frame-tuplenames", pd.DataFrame(dict((("c", k), x[:, k]) for k in range(d)))
    f = pd.DataFrame(x.copy())
    if np.all(x[:, 0] == np.round(x[:, 0])):
        f[0] = f[0].astype(int)
        yield "frame-mixed", f
    yield "frame-slice", pd.DataFrame(np.repeat(x, 2, axis=0))[::2]
    yield "readonly", ro(x)
    yield "float-order", np.array(x, order="F")


def ro(x):
    x = x.copy()
    x.flags.writeable = False
    return x


def execute(case, ctx):
    if case["m"] is None:
        return types(ctx)
    i, D = case["m"], case["D"]
    if case["n"] is None:
        return priors(case, ctx)
    x = np.array(DATA[D][case["n"]], float).reshape(-1, D)
    prior = F.PRIORS[D][(i + case["n"]) % 2]
    for q, how in enumerate(METHODS):
        if novar(i) and "var" in "".join(how):
            continue
        if not case["all"] and (q + i) % 2 and how[1] != "random":
            continue

        def new():
            return G.make(i, np.random.default_rng(21), prior, 2, 0, 1)
        m = new()
        fit(m, i, how, x.copy())
        want = outcome(m, how, D)
        ctx.states.add(hash(repr(want)))
        asked(ctx, m, how, np.array(PTS[D]), "%s D=%d %s fit" % (G.GIBBS[i][0], D, how), case["all"] or i in (0, 4, 6))
        fit(m, i, how, x.copy(), True)
        want2 = outcome(m, how, D)
        for kind, z in list(Q.forms(x)) + list(frames(x)):
            if "scalar" in kind or kind in ("int", "npint", "npint32"):
                continue
            m = new()
            before = copy.deepcopy(z)
            what = "%s D=%d %s fit of %s %s" % (G.GIBBS[i][0], D, how, kind, x.tolist())
            fit(m, i, how, z)
            ctx.ops += 1
            ctx.check(Q.same(z, before), "input-changed", lambda: "%s modified the observations" % what)
            got = outcome(m, how, D)
            bad = [a for (a, b), (_, c) in zip(got, want) if not near(b, c)]
            ctx.check(not bad, "form", lambda: "%s differs from the two-dimensional float array in %s: %s / %s" % (what, bad, str(dict(got)[bad[0]])[:300], str(dict(want)[bad[0]])[:300]))
            if kind not in ("readonly",):
                corrupt(z)
                got = outcome(m, how, D)
                bad = [a for (a, b), (_, c) in zip(got, want) if not near(b, c)]
                ctx.check(not bad, "aliased", lambda: "%s: changing the caller's object afterwards changed %s" % (what, bad))
            fit(m, i, how, before, True)
            got = outcome(m, how, D)
            bad = [a for (a, b), (_, c) in zip(got, want2) if not near(b, c)]
            ctx.check(not bad, "form-warm", lambda: "%s: after a warm start with the same form differs in %s" % (what, bad))
            ctx.execs += 1
            if len(ctx.viol) > 4:
                return
    ctx.sample({"model": G.GIBBS[i][0], "data": x.tolist()})


def priors(case, ctx):
    """documented forms of the prior parameters"""
    i, D = case["m"], case["D"]
    x = np.array(DATA[D][0], float).reshape(-1, D)
    mu0, lam, psi, nu = F.PRIORS[D][1]
    mus = [mu0, np.array(mu0), np.atleast_1d(mu0), list(np.atleast_1d(mu0)), tuple(np.atleast_1d(mu0))] + ([np.float64(mu0)] if D == 1 else [])
    psis = [psi, np.array(psi), np.matrix(psi), np.atleast_2d(psi).tolist(), pd.DataFrame(np.atleast_2d(psi)).to_numpy()] + ([[psi], np.array([psi]), np.float64(psi)] if D == 1 else [])
    lams = [lam, np.float64(lam), int(lam) if lam == int(lam) else lam]
    nus = [nu, np.float64(nu), int(nu) if nu == int(nu) else nu, np.int64(nu) if nu == int(nu) else nu]
    for how in METHODS:
        if novar(i) and "var" in "".join(how):
            continue
        want = None
        combos = [(a, psis[k % len(psis)], lams[k % 3], nus[k % 4]) for k, a in enumerate(mus)] + [(mus[k % len(mus)], b, lams[(k + 1) % 3], nus[(k + 2) % 4]) for k, b in enumerate(psis)]
        for mu_, psi_, l, v in combos:
            keep = copy.deepcopy((mu_, psi_))
            given = copy.deepcopy((mu_, psi_))
            m = G.make(i, np.random.default_rng(4), (given[0], l, given[1], v), 2, 0, 1)
            fit(m, i, how, x.copy())
            got = outcome(m, how, D)
            ctx.ops += 1
            what = "%s %s D=%d priors %s" % (G.GIBBS[i][0], how, D, [type(t).__name__ for t in (mu_, l, psi_, v)])
            if want is None:
                want = got
            bad = [a for (a, b), (_, c) in zip(got, want) if not near(b, c)]
            ctx.check(not bad, "prior-form", lambda: "%s differ from equal ones in another form in %s" % (what, bad))
            ctx.check(all(np.array_equal(a, b) and type(a) is type(b) for a, b in zip(given, keep)), "input-changed", lambda: "%s: prior modified" % what)
            # the caller's arrays are not used after the fit
            for t in given:
                if isinstance(t, np.ndarray) and t.ndim:
                    t[...] = 1e3
            fit(m, i, how, x.copy(), True)
            m2 = G.make(i, np.random.default_rng(4), keep[:1] + (l,) + keep[1:] + (v,), 2, 0, 1)
            fit(m2, i, how, x.copy())
            fit(m2, i, how, x.copy(), True)
            bad = [a for (a, b), (_, c) in zip(outcome(m, how, D), outcome(m2, how, D)) if not near(b, c)]
            ctx.check(not bad, "prior-aliased", lambda: "%s: changing the caller's prior arrays after the fit changed a warm start in %s" % (what, bad))
            ctx.execs += 2
            if len(ctx.viol) > 4:
                return


def types(ctx):
    class Dummy:
        pass
    x = np.array(DATA[1][0], float).reshape(-1, 1)
    others = [None, (1., 2., 3.), "1,2", {"a": [1, 2]}, {1., 2.}, Dummy(), iter([1., 2.]), range(4), b"12", memoryview(b"12"), lambda: 1]
    for i in range(len(G.GIBBS)):
        m = G.make(i, np.random.default_rng(4), None, 2, 0, 1)
        fs = [("fit_gibbs", others + [3, 2.5, np.float64(2)])]
        if not novar(i):
            fs.append(("fit_variational", others + [3, 2.5, np.float64(2)]))
        m2 = G.make(i, np.random.default_rng(4), None, 2, 0, 1)
        m2.fit_gibbs(x.copy(), init_groups=G.GIBBS[i][3] or 2)
        qs = ["gibbs_eap_density", "gibbs_map_density", "gibbs_map_cluster", "gibbs_eap_affinity_matrix"]
        if not novar(i):
            m2.fit_variational(x.copy(), n_groups=G.GIBBS[i][3] or 2)
            qs += ["var_eap_density", "var_map_cluster", "var_eap_affinity_matrix"]
        for obj, f, args in [(m, f, a) for f, a in fs] + [(m2, q, others[1:]) for q in qs]:
            for a in args:
                ctx.ops += 1
                try:
                    getattr(obj, f)(a, **({"n_groups": 2} if f == "fit_variational" else {}))
                    ctx.fail("type", "%s.%s accepted %r" % (G.GIBBS[i][0], f, a))
                except TypeError:
                    pass
                except Exception as e:
                    ctx.fail("type", "%s.%s(%r) raised %s instead of TypeError: %s" % (G.GIBBS[i][0], f, a, type(e).__name__, e))
        ctx.execs += 1

"""Expected and MAP densities of Gibbs-fitted models (every weighting model, dimension, prior, fit history) at every accepted
form of points, coordinates, component and number of periods, against mixtures computed from the saved states."""
import copy
import numpy as np
from .. import env as E, fit as F, gibbs as G, forms as Q
from .V04 import POINTS


def cases(tier):
    for i in range(len(G.GIBBS)):
        for D in (1, 2, 3):
            for h in range(3):
                yield {"id": "%s/D%d/history%d" % (G.GIBBS[i][0], D, h), "m": i, "D": D, "h": h, "cost": D * (h + 1), "bases": 1 if tier == "quick" else 8}
    from .G06 import MANY
    for i in range(len(MANY)):
        for D in (1, 2, 3, 5):
            if tier == "quick" and (i + D) % 2:
                continue
            yield {"id": "many/%s-%d/D%d" % (MANY[i][0], i, D), "m": i, "D": D, "k": 11 + 2 * (i % 2), "h": "many", "cost": 2 * D, "bases": 1 if tier == "quick" else 3}


def normal(x, mu, S):
    mu, S = np.asarray(mu), np.asarray(S)
    dev = x - mu
    q = np.einsum("ij,ij->i", dev, np.linalg.solve(S, dev.T).T)
    return np.exp(-.5 * (q + len(mu) * np.log(2 * np.pi) + np.linalg.slogdet(S)[1]))


def mix(x, p, coords, comp=None):
    f = np.zeros(len(x))
    for j in range(len(p["w"])) if comp is None else [comp]:
        if j < len(p["w"]):
            mu, S = p["theta"][j]
            f += p["w"][j] * normal(x, np.asarray(mu)[coords], np.asarray(S)[np.ix_(coords, coords)])
    return f


def history(case, base):
    """a fitted model and its training data"""
    i, D = case["m"], case["D"]
    y = G.data(D, 0)
    gen = E.ChoiceGen(E.Env(E.QuantilePolicy((.5, .2, .8, .05, .95)), frozen=base))
    m = G.make(i, gen, F.PRIORS[D][(i + base) % len(F.PRIORS[D])], 3, 1, 1)
    if case["h"] == 0:
        m.fit_gibbs(y.copy(), init_groups=G.GIBBS[i][3] or 2)
    elif case["h"] == 1:
        m.fit_gibbs(y[::-1].copy(), init_groups=G.GIBBS[i][3] or 2, init_method="random")
        m.gibbs_eap_density()
        m.total_iter, m.burn_in, m.subsample_steps = 6, 0, 2
        m.fit_gibbs(y[::-1].copy(), warm_start=True)
        y = y[::-1]
    else:
        o = np.vstack([y + 3, y])
        m.fit_gibbs(o, init_groups=G.GIBBS[i][3] or 3, init_method="random")
        m.gibbs_eap_density(), m.gibbs_map_density()
        m.total_iter, m.burn_in = 5, 0
        m.fit_gibbs(y.copy(), init_groups=G.GIBBS[i][3] or 2, init_method="random")
    return m, y


def execute(case, ctx):
    D = case["D"]
    for base in range(case["bases"]):
        if case["h"] == "many":
            from .G06 import many
            m, y = many(case, base)
        else:
            m, y = history(case, base)
        draws, mp = [G.copy_state(p) for p in m.sim_params], G.copy_state(m.map_sim_params)
        for p in draws:
            ctx.states.add(hash(G.canon(p)))
        X = np.array(POINTS[D]) if case["h"] != "many" else np.vstack([y[::11] + .2, y[:1] - 1e3])
        Kmax = max(len(p["w"]) for p in draws)
        comps = [None] + sorted(set([0, 1, Kmax - 1, len(mp["w"]) - 1]) & set(range(Kmax)))
        what = "%s y=%s" % (case["id"], y[:6].tolist())

        def call(name, x, coords, pts, want, **kw):
            before = copy.deepcopy(x)
            g = getattr(m, name)(x, **kw) if x is not None or kw.get("_") else getattr(m, name)(**kw)
            ctx.ops += 1
            ctx.check(np.shape(g) == want.shape and np.allclose(g, want, rtol=1e-7, atol=1e-290), name, lambda: "%s: %s(%s, %s) = %s, mixture of the saved states %s" % (
                what, name, None if x is None else np.asarray(x).tolist(), kw, np.asarray(g).tolist(), want.tolist()))
            if x is not None:
                ctx.check(Q.same(x, before), "input-changed", lambda: "%s modified its argument" % name)
        if case["h"] == "many":
            comps = [None, 0, 10]
        for q, (dim, coords) in enumerate(Q.dims(D, full=case["h"] == 0)):
            if case["h"] == "many" and q and (q + case["m"]) % (2 * D - 1):
                continue
            pts = X[:, coords]
            for comp in comps:
                w_eap = np.mean([mix(pts, p, coords, comp) for p in draws], 0)
                t_eap = np.mean([mix(y[:, coords], p, coords, comp) for p in draws], 0)
                has = comp is None or comp < len(mp["w"])
                w_map = mix(pts, mp, coords, comp) if has else None
                t_map = mix(y[:, coords], mp, coords, comp) if has else None
                kw = {}
                if dim is not None:
                    kw["dim"] = dim
                if comp is not None:
                    kw["component"] = comp if comp % 2 else np.int64(comp)
                fs = [("array2d", pts)] if comp is not None or case["h"] == "many" else list(Q.forms(pts))
                for kind, x in fs:
                    call("gibbs_eap_density", x, coords, pts, w_eap, **kw)
                    if has:
                        call("gibbs_map_density", x, coords, pts, w_map, **kw)
                call("gibbs_eap_density", None, coords, None, t_eap, **kw)
                if has:
                    call("gibbs_map_density", None, coords, None, t_map, **kw)
                if comp is None and case["h"] != "many":
                    for x in [z for k, z in Q.forms(pts[:1])]:
                        call("gibbs_eap_density", x, coords, pts, w_eap[:1], **kw)
                        call("gibbs_map_density", x, coords, pts, w_map[:1], **kw)
                for P in (list(range(1, len(draws) + 1)) if case["h"] != "many" else [1, 2, len(draws) - 1, len(draws)]) + [len(draws) + 5]:
                    call("gibbs_eap_density", pts, coords, pts, np.mean([mix(pts, p, coords, comp) for p in draws[-min(P, len(draws)):]], 0), periods=P, **kw)
            # additivity of the library's own answers
            tot = sum(m.gibbs_eap_density(pts, dim=dim, component=j) for j in range(Kmax))
            ctx.check(np.allclose(tot, m.gibbs_eap_density(pts, dim=dim), rtol=1e-8, atol=1e-290), "additive", lambda: "%s dim=%r: components sum to %s" % (what, dim, tot))
            tot = sum(m.gibbs_map_density(pts, dim=dim, component=j) for j in range(len(mp["w"])))
            ctx.check(np.allclose(tot, m.gibbs_map_density(pts, dim=dim), rtol=1e-8, atol=1e-290), "additive", lambda: "%s dim=%r: components sum to %s" % (what, dim, tot))
            if len(ctx.viol) > 4:
                return
        ctx.execs += 1
    ctx.sample({"model": case["id"].split("/")[0], "draws": len(draws), "weights": [len(p["w"]) for p in draws]})

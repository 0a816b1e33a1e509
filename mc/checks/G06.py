"""MAP clustering, uncertainty, affinities and consensus clustering of Gibbs-fitted models over every weighting model, dimension
and fit history, at lattices of points (single points, 1e100 away, every accepted form) against the saved states; consensus on
every affinity made of disconnected complete blocks arising from enumerated executions."""
import copy
import numpy as np
from .. import env as E, fit as F, gibbs as G, forms as Q
from .G05 import history
from .V05 import points


def cases(tier):
    for i in range(len(G.GIBBS)):
        for D in (1, 2, 3):
            for h in range(3):
                yield {"id": "%s/D%d/history%d" % (G.GIBBS[i][0], D, h), "m": i, "D": D, "h": h, "cost": D, "bases": 2 if tier == "quick" else 12}
        for D in (1, 2):
            yield {"id": "%s/D%d/consensus" % (G.GIBBS[i][0], D), "m": i, "D": D, "h": None, "bases": 6 if tier == "quick" else 60}
    for i in range(len(MANY)):
        for D in (1, 2, 3, 5):
            for k in (4, 11, 13) if tier != "quick" else (11 + 2 * ((i + D) % 2),):
                yield {"id": "many/%s-%d/D%d/k%d" % (MANY[i][0], i, D, k), "m": i, "D": D, "k": k, "h": "many", "cost": 2 * D, "bases": 1 if tier == "quick" else 6}


# models with many components
MANY = [("DirichletProcessMixture", dict(alpha=3)), ("PitmanYorMixture", dict(pyd=.25, alpha=1)), ("GeometricProcessMixture", {}), ("EqualWeightedMixture", {}),
        ("DirichletDistributionMixture", dict(alpha=1)), ("FrequencyWeightedMixture", {}), ("BetaInBetaMixture", dict(x=.5)), ("BetaBernoulliMixture", dict(p=.5))]


def blobs(k, D):
    """k groups of one to four points, some close to each other"""
    rows = []
    for q in range(k):
        c = np.array([9. * q, 14. * (q * 7 % k), -8. * (q * 3 % k), 5. * (q * q % k), 3. * (q % 4)][:D])
        for r in range(1 + q % 4):
            rows.append(c + .4 * np.array([r, -r, r % 2, 1 - r, r * r % 3][:D]))
    return np.array(rows)


def many(case, base):
    from pyrichlet import mixture_models as mm
    cls, kw = MANY[case["m"]]
    D, k = case["D"], case["k"]
    y = blobs(k, D)
    if cls in ("EqualWeightedMixture", "DirichletDistributionMixture", "FrequencyWeightedMixture"):
        kw = dict(kw, n=k)
    gen = E.ChoiceGen(E.Env(E.QuantilePolicy((.5, .2, .8, .05, .95)), frozen=base, horizon=10 ** 6))
    m = getattr(mm, cls)(rng=gen, total_iter=25, burn_in=2, subsample_steps=1 + base % 2, mu_prior=y.mean(0), lambda_prior=1e-3,
                         psi_prior=np.eye(D) if D > 1 else 1., nu_prior=D + 3., **kw)
    m.fit_gibbs(y.copy(), init_groups=k)
    return m, y


def logdens(x, p):
    """K x n weighted log densities"""
    L = []
    with np.errstate(divide="ignore"):
        for j in range(len(p["w"])):
            mu, S = np.asarray(p["theta"][j][0]), np.asarray(p["theta"][j][1])
            dev = x - mu
            q = np.einsum("ij,ij->i", dev, np.linalg.solve(S, dev.T).T)
            L.append(np.log(p["w"][j]) - .5 * (q + len(mu) * np.log(2 * np.pi) + np.linalg.slogdet(S)[1]))
    return np.array(L)


def clear(L):
    """every point's best component is beyond rounding"""
    if len(L) == 1:
        return np.ones(L.shape[1], bool)
    t = np.sort(L, axis=0)
    return t[-1] - t[-2] > 1e-7 * np.maximum(1, np.abs(L).max(0))


def execute(case, ctx):
    if case["h"] is None:
        return consensus(case, ctx)
    D = case["D"]
    for base in range(case["bases"]):
        m, y = many(case, base) if case["h"] == "many" else history(case, base)
        draws, mp = [G.copy_state(p) for p in m.sim_params], G.copy_state(m.map_sim_params)
        what = "%s base %d" % (case["id"], base)
        if case["h"] == "many":
            ctx.count("components over ten occupied by the MAP state", len(set(mp["d"].tolist())) > 10)
        ctx.states.add(hash(G.canon(mp)))
        n = len(y)
        A = np.mean([np.equal.outer(p["d"], p["d"]) for p in draws], 0)
        got = m.gibbs_eap_affinity_matrix()
        ctx.check(np.shape(got) == A.shape and np.allclose(got, A, atol=1e-12), "training-affinity", lambda: "%s: affinity %s, saved draws %s give %s" % (
            what, np.asarray(got).tolist(), [p["d"].tolist() for p in draws], A.tolist()))
        for x in [None, y] + ([np.vstack([y[::-1] + .3, y - 2.2])] if case["h"] == "many" else points(D)):
            xx = y if x is None else x
            L = logdens(xx, mp)
            comp = L.argmax(0)
            ok = clear(L)
            P = np.exp(L - L.max(0))
            P /= P.sum(0)
            unc = 1 - P.max(0)
            for kind, z in [("none", None)] if x is None else list(Q.forms(x)) + (list(Q.forms(x[:1])) if len(x) == 4 else []):
                before = copy.deepcopy(z)
                sel = slice(0, None) if z is None else slice(0, len(np.atleast_1d(z)))
                args = () if z is None else (z,)
                c = m.gibbs_map_cluster(*args)
                c2, u = m.gibbs_map_cluster(*args, full=True)
                B = m.gibbs_eap_affinity_matrix(*args) if z is not None else None
                ctx.ops += 3
                cs, o, un = comp[sel], ok[sel], unc[sel]
                w2 = "%s %s points %s" % (what, kind, xx[sel].tolist())
                good = np.shape(c) == cs.shape and np.shape(u) == cs.shape and np.array_equal(c, c2)
                if not ctx.check(good, "cluster-shape", lambda: "%s: %r, full %r" % (w2, c, (c2, u))):
                    continue
                c = np.asarray(c)
                ctx.check(np.issubdtype(c.dtype, np.integer) and sorted(set(c.tolist())) == list(range(len(set(c.tolist())))), "labels", lambda: "%s: labels %s are not 0..m-1" % (w2, c.tolist()))
                eq, want = np.equal.outer(c, c)[np.ix_(o, o)], np.equal.outer(cs, cs)[np.ix_(o, o)]
                ctx.check(np.array_equal(eq, want), "cluster", lambda: "%s: labels %s, largest weighted density in components %s" % (w2, c.tolist(), cs.tolist()))
                near = np.abs(xx[sel]).max(1) < 1e9
                ctx.check(np.all(np.isfinite(u)) and np.allclose(np.asarray(u)[near], un[near], atol=1e-8) and np.allclose(np.asarray(u)[o], un[o], atol=1e-6), "uncertainty", lambda: "%s: uncertainty %s, one minus posterior probability %s" % (w2, u, un))
                if B is not None:
                    k = len(cs)
                    Ls = [logdens(xx[sel], p) for p in draws]
                    oo = np.all([clear(l) for l in Ls], 0)
                    W = np.mean([np.equal.outer(l.argmax(0), l.argmax(0)) for l in Ls], 0)
                    B = np.asarray(B)
                    good = B.shape == (k, k) and np.allclose(B, B.T) and np.allclose(np.diag(B), 1) and np.all(B >= 0) and np.all(B <= 1 + 1e-12)
                    ctx.check(good and np.allclose(B[np.ix_(oo, oo)], W[np.ix_(oo, oo)], atol=1e-12), "affinity", lambda: "%s: affinity %s, saved mixtures give %s" % (w2, B.tolist(), W.tolist()))
                ctx.check(z is None or Q.same(z, before), "input-changed", lambda: "%s argument modified" % kind)
            if len(ctx.viol) > 4:
                return
        ctx.execs += 1
    ctx.sample({"model": case["id"].split("/")[0], "draws": [p["d"].tolist() for p in draws[:5]]})


def components(A):
    n = len(A)
    lab = [-1] * n
    k = 0
    for i in range(n):
        if lab[i] < 0:
            todo = [i]
            while todo:
                j = todo.pop()
                if lab[j] < 0:
                    lab[j] = k
                    todo += [q for q in range(n) if A[j, q] > 0 and lab[q] < 0]
            k += 1
    return np.array(lab), k


def consensus(case, ctx):
    D = case["D"]
    for base in range(case["bases"]):
        for T in (1, 2, 4):
            for n in range(len(G.DATA[D])):
                y = G.data(D, n)
                gen = E.ChoiceGen(E.Env(E.QuantilePolicy((.5, .2, .8, .05, .95)), frozen=base))
                m = G.make(case["m"], gen, F.PRIORS[D][(base + n) % 2 * (len(y) > D)] if len(y) > D else F.PRIORS[D][1], T, 0, 1)
                m.fit_gibbs(y.copy(), init_groups=G.GIBBS[case["m"]][3] or 3, init_method="random")
                for x in (None, y, np.vstack([y, y + .01])):
                    A = np.asarray(m.gibbs_eap_affinity_matrix() if x is None else m.gibbs_eap_affinity_matrix(x))
                    lab, k = components(A)
                    if not np.all(A[np.equal.outer(lab, lab)] > 0):
                        ctx.count("partial_blocks_skipped")
                        continue
                    r = m.gibbs_eap_spectral_consensus_cluster(n_clusters=k) if x is None else m.gibbs_eap_spectral_consensus_cluster(x, n_clusters=k)
                    r = np.asarray(r)
                    ctx.ops += 1
                    ctx.state(A.tolist())
                    ctx.check(r.shape == lab.shape and np.array_equal(np.equal.outer(r, r), np.equal.outer(lab, lab)), "consensus", lambda: "%s: affinity %s has blocks %s, consensus clustering %s" % (
                        G.GIBBS[case["m"]][0], A.tolist(), lab.tolist(), r.tolist()))
                    if k > 1:
                        ctx.count("disconnected_affinities")
                ctx.execs += 1
                if len(ctx.viol) > 4:
                    return

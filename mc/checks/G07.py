"""Histories of up to two (thorough: three) earlier operations - cold/warm Gibbs and variational fits on data of other
dimensions, queries, failing calls - before a cold fit, for every model and prior: the result must equal that of a newly
constructed model given the same generator state. Every split of a Gibbs run into cold and warm pieces equals the long run."""
import itertools
import numpy as np
from .. import fit as F, gibbs as G

Y1 = np.array([[0.], [1.], [4.], [4.5]])
Y2 = np.array([[10.], [12.], [17.], [13.]])
Z = np.array([[0., 0.], [1., .5], [6., 5.], [5., 7.], [6., 6.]])

OPS = ["gibbs-Y2", "gibbs-Z", "gibbs-random", "warm", "var-Y2", "var-Z", "var-warm", "var-single", "queries", "fail-type", "fail-init", "fail-nan"]
FINAL = ["gibbs-kmeans", "gibbs-random", "gibbs-none", "gibbs-variational", "var-kmeans", "var-random", "var-single"]


def cases(tier):
    for i in range(len(G.GIBBS)):
        for p in (0, 1):
            yield {"id": "%s/prior%d" % (G.GIBBS[i][0], p), "m": i, "p": p, "depth": 2 if tier == "quick" else 3, "cost": 2}
        yield {"id": "%s/split" % G.GIBBS[i][0], "m": i, "p": None, "L": 6 if tier == "quick" else 9}


def novar(i):
    return G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid"))


def apply(m, op, i, dims):
    K = G.GIBBS[i][3] or 2
    y2, z = (Y2, Z) if dims else (Y2[:3], Y1)      # the same number of observations, others; or fewer, then the same ones
    if op == "gibbs-Y2":
        m.fit_gibbs(y2.copy(), init_groups=K)
    elif op == "gibbs-Z":
        m.fit_gibbs(z.copy(), init_groups=K)
    elif op == "gibbs-random":
        m.fit_gibbs(y2.copy(), init_method="random")
    elif op == "warm":
        m.fit_gibbs(m.y.copy(), warm_start=True)
    elif op == "var-Y2":
        m.fit_variational(y2.copy(), n_groups=K, init_method="random")
    elif op == "var-Z":
        m.fit_variational(z.copy(), n_groups=K if G.GIBBS[i][3] or dims else K + 1, tol=1e3)
    elif op == "var-warm":
        m.fit_variational(m.y.copy(), n_groups=K, warm_start=True)
    elif op == "var-single":           # to convergence, on the data of the final fit
        m.total_iter, keep = 60, m.total_iter
        try:
            m.fit_variational(Y1.copy(), n_groups=G.GIBBS[i][3] or 1, init_method="random")
        finally:
            m.total_iter = keep
    elif op == "queries":
        done = 0
        for f in ("gibbs_eap_density", "gibbs_map_density", "gibbs_map_cluster", "gibbs_eap_affinity_matrix", "var_eap_density", "var_map_cluster", "var_eap_affinity_matrix"):
            if m.gibbs_fitted if f.startswith("gibbs") else m.var_fitted:
                getattr(m, f)()
                getattr(m, f)(m.y.copy())
                done += 1
        if not done:
            m.gibbs_eap_density()       # refused
    elif op == "fail-type":
        m.fit_gibbs("nonsense")
    elif op == "fail-init":
        m.fit_gibbs(y2.copy(), init_method="nonsense")
    elif op == "fail-nan":
        m.fit_gibbs(np.full((3, 1), np.nan), init_groups=2)


def final(m, op, i):
    K = G.GIBBS[i][3] or 2
    y = Y1.copy()
    if op == "gibbs-kmeans":
        m.fit_gibbs(y, init_groups=K)
    elif op == "gibbs-random":
        m.fit_gibbs(y, init_groups=K, init_method="random")
    elif op == "gibbs-none":
        m.fit_gibbs(y, init_method="random")
    elif op == "gibbs-variational":
        m.fit_gibbs(y, init_groups=K, init_method="variational")
    elif op == "var-kmeans":
        m.fit_variational(y, n_groups=K)
    elif op == "var-random":
        m.fit_variational(y, n_groups=K, init_method="random")
    elif op == "var-single":
        m.total_iter, keep = 1, m.total_iter
        try:
            m.fit_variational(y, n_groups=G.GIBBS[i][3] or 1, init_method="random")
        finally:
            m.total_iter = keep


def outcome(m, op):
    y = np.array([[0.], [2.], [40.]])
    if op.startswith("gibbs"):
        c, u = m.gibbs_map_cluster(y, full=True)
        return {"draws": [G.canon(p) for p in m.sim_params], "map": G.canon(m.map_sim_params), "groups": list(m.n_groups), "atoms": list(m.n_atoms),
                "saved": m.total_saved_steps, "affinity": m.gibbs_eap_affinity_matrix().tolist(), "density": m.gibbs_eap_density(y).tolist(),
                "train-density": m.gibbs_eap_density().tolist(), "train-cluster": m.gibbs_map_cluster().tolist(),
                "map-density": m.gibbs_map_density().tolist(), "cluster": (c.tolist(), u.tolist()), "fitted": m.gibbs_fitted}
    c, u = m.var_map_cluster(y, full=True)
    return {"d": m.var_d.tolist(), "theta": [[np.asarray(x).tolist() for x in t] for t in m.var_theta], "converged": bool(m.var_converged),
            "density": m.var_eap_density(y).tolist(), "cluster": (c.tolist(), u.tolist()), "affinity": m.var_eap_affinity_matrix().tolist(), "train": m.var_map_cluster().tolist(), "train-density": m.var_eap_density().tolist()}


def execute(case, ctx):
    if case["p"] is None:
        return split(case, ctx)
    i = case["m"]
    prior = F.PRIORS[1][case["p"]]
    finals = [f for f in FINAL if not (novar(i) and "var" in f)]
    K = G.GIBBS[i][3] or 2
    ref = {}
    gen = np.random.default_rng(77)
    m = G.make(i, gen, prior, 3, 1, 1)
    start = gen.bit_generator.state
    for f in finals:
        gen = np.random.default_rng(77)
        m = G.make(i, gen, prior, 3, 1, 1)
        gen.bit_generator.state = start
        final(m, f, i)
        ref[f] = outcome(m, f)
        ctx.states.add(hash(repr(ref[f])))
    for n in range(1, case["depth"] + 1):
        for ops in itertools.product(OPS, repeat=n):
            if novar(i) and any(o.startswith("var") for o in ops):
                continue
            if n > 1 and ops[-1] == "queries" and not any(o.startswith(("gibbs", "var")) for o in ops[:-1]):
                continue
            if n > 2 and (ops[0] in ("fail-type", "queries", "warm", "var-warm")):
                continue
            fs = finals if n == 1 else [finals[(OPS.index(ops[0]) + 3 * OPS.index(ops[1])) % len(finals)]]
            for f in fs:
                gen = np.random.default_rng(123)
                m = G.make(i, gen, prior, 3, 1, 1)
                for o in ops:
                    try:
                        apply(m, o, i, case["p"] == 0)
                    except Exception:
                        ctx.count("refused_operations")
                    ctx.ops += 1
                gen.bit_generator.state = start
                try:
                    final(m, f, i)
                    got = outcome(m, f)
                except Exception as e:
                    ctx.fail("cold", "%s prior %s: after %s the cold fit %s failed: %s: %s" % (G.GIBBS[i][0], prior, ops, f, type(e).__name__, e))
                    continue
                bad = [k for k in ref[f] if got[k] != ref[f][k]]
                ctx.check(not bad, "cold", lambda: "%s prior %s: after %s the cold fit %s differs from a new model's in %s: %s, new model %s" % (
                    G.GIBBS[i][0], prior, ops, f, bad, str(got[bad[0]])[:300], str(ref[f][bad[0]])[:300]))
                ctx.execs += 1
                if len(ctx.viol) > 4:
                    return
    ctx.sample({"model": G.GIBBS[i][0], "finals": finals})


def split(case, ctx):
    i, L = case["m"], case["L"]
    for D in (1, 2):
        for n in range(2):
            y = G.data(D, n)
            prior = F.PRIORS[D][n]

            def new(T):
                return G.make(i, np.random.default_rng(9), prior, T, 0, 1)
            for init in ("random", "kmeans"):
                m = new(L)
                m.fit_gibbs(y.copy(), init_groups=2, init_method=init)
                want, wmap = [G.canon(p) for p in m.sim_params], G.canon(m.map_sim_params)
                for k in range(1, 5):
                    for cut in itertools.combinations(range(1, L), k):
                        seg = [b - a for a, b in zip((0,) + cut, cut + (L,))]
                        m = new(seg[0])
                        m.fit_gibbs(y.copy(), init_groups=2, init_method=init)
                        for s in seg[1:]:
                            m.total_iter = s
                            m.fit_gibbs(y.copy(), warm_start=True)
                            ctx.ops += 1
                        got = [G.canon(p) for p in m.sim_params]
                        ctx.check(got == want and G.canon(m.map_sim_params) == wmap, "split", lambda: "%s D=%d data %d: run split into %s visits other states than one of %d sweeps" % (
                            G.GIBBS[i][0], D, n, seg, L))
                        ctx.execs += 1
                if len(ctx.viol) > 3:
                    return

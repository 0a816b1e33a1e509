"""Variational clustering and affinity of every fitted model of an enumerated family against the responsibilities: for the
training data, and for a lattice of new points reaching 1e100 from the data, in every accepted form."""
import copy
import numpy as np
from .. import fit as F, vb, forms as Q
from .V04 import DATA

FAR = [1e2, 1e4, 1e8, 1e30, 1e100]


def points(D):
    base = np.array([0., 1., 2.5, -3.])
    grid = np.array(np.meshgrid(*[[-2., 0., 3., 7.]] * D)).reshape(D, -1).T
    out = [grid, base[:, None] * np.ones(D) + np.arange(D)]
    for i, s in enumerate(FAR):
        e = np.ones(D)
        e[i % D] = -1
        out.append(np.array([s * e, -s * e, s * np.eye(D)[0]]))
    return out + [np.array([[1.0] + [2.0] * (D - 1)])]


def cases(tier):
    for i in range(len(F.VAR)):
        for D in (1, 2, 3):
            for K in (1, 2, 3, 4):
                for p in range(len(F.PRIORS[D])):
                    yield {"id": "%s-%d/D%d/K%d/prior%d" % (F.VAR[i][0], i, D, K, p), "m": i, "D": D, "K": K, "p": p,
                           "iters": (1, 6) if tier == "quick" else (1, 2, 3, 6, 25), "cost": D * K}
    for c in F.wide_cases(tier, 1):
        yield dict(c, iters=(3,) if tier == "quick" else (1, 3, 20))


def answers(ctx, m, x, r, what, exact=True):
    """compare every clustering query with responsibilities r"""
    a = m.var_map_cluster() if x is None else m.var_map_cluster(x)
    c, u = m.var_map_cluster(full=True) if x is None else m.var_map_cluster(x, full=True)
    A = m.var_eap_affinity_matrix() if x is None else m.var_eap_affinity_matrix(x)
    n = r.shape[1]
    ctx.ops += 3
    ok = np.shape(a) == (n,) and np.shape(c) == (n,) and np.shape(u) == (n,) and np.array_equal(a, c) and np.issubdtype(np.asarray(c).dtype, np.integer)
    if not ctx.check(ok, "cluster-shape", lambda: "%s: cluster %r full %r" % (what, a, (c, u))):
        return
    ok = np.all(c >= 0) and np.all(c < len(r))
    if ctx.check(ok, "cluster-range", lambda: "%s: labels %s" % (what, c)) and exact:
        pr = r[c, np.arange(n)]
        ctx.check(np.all(pr >= r.max(0) - 1e-9), "cluster", lambda: "%s: labels %s but responsibilities %s" % (what, c.tolist(), r.tolist()))
        ctx.check(np.allclose(u, 1 - pr, atol=1e-8), "uncertainty", lambda: "%s: uncertainty %s, one minus probability %s" % (what, u, 1 - pr))
    ctx.check(np.all(np.isfinite(u)) and np.all(u >= -1e-9) and np.all(u <= 1 - 1 / len(r) + 1e-9), "uncertainty", lambda: "%s: uncertainty %s" % (what, u))
    ok = np.shape(A) == (n, n) and np.allclose(A, np.transpose(A)) and np.all(np.isfinite(A)) and np.all(A >= 0) and np.all(A <= 1 + 1e-9)
    ctx.check(ok, "affinity", lambda: "%s: affinity %s" % (what, A))
    if ok and exact:
        ctx.check(np.allclose(A, r.T @ r, atol=1e-8), "affinity", lambda: "%s: affinity %s, responsibilities' inner products %s" % (what, A.tolist(), (r.T @ r).tolist()))


def execute(case, ctx):
    D, K = case["D"], case["K"]
    p = F.PRIORS[D][case["p"]]
    for n, y in enumerate(F.data_of(case, DATA.get(D))):
        y = np.array(y, float).reshape(-1, D)
        if p is None and not F.default_ok(y):
            continue
        for it in case["iters"]:
            for init in ("kmeans", "random"):
                if init == "kmeans" and len(y) < K:
                    continue
                m, law, k = F.var_model(case["m"], K, np.random.default_rng(11 + n), p, total_iter=it, burn_in=0)
                m.fit_variational(y.copy(), n_groups=K, tol=-1.0, init_method=init)
                r, th = F.state(m)
                wq = vb.W(law, k, r.sum(1), r.shape[1])
                th = [(a, b, np.linalg.inv(c), d) for a, b, c, d in th]
                what = "%s%s D=%d K=%d y=%s" % (law, k, D, K, y.tolist())
                answers(ctx, m, None, r, what + " training data")
                for x in [y] + points(D):
                    L = vb.log_rho(x, wq, th)
                    rr = vb.softmax(L)
                    top = np.sort(L, axis=0)
                    clear = K == 1 or bool(np.all(top[-1] - top[-2] > 1e-9 * np.abs(L).max(0)) or np.abs(x).max() < 1e3)
                    for kind, z in Q.forms(x):
                        before = copy.deepcopy(z)
                        answers(ctx, m, z, rr, what + " points(%s) %s" % (kind, x.tolist()), clear)
                        ctx.check(Q.same(z, before), "input-changed", lambda: "%s argument modified" % kind)
                    ctx.state(case["m"], D, K, np.round(rr, 6).tolist())
                ctx.execs += 1
                if len(ctx.viol) > 4:
                    return
    ctx.sample({"law": F.VAR[case["m"]][0], "D": D, "K": K})

"""Variational densities of every fitted model of an enumerated family (weighting models x truncations x priors x data
x initialisations) at every accepted form of points, coordinates and component, against closed-form Student/Gaussian
mixtures, additivity, marginals and numerical integrals."""
import copy
import numpy as np
from scipy import integrate
from .. import fit as F, vb, forms as Q

DATA = {1: [[0, 0, 1, 4, 4], [0, 2, 3], [5]], 2: [[(0, 0), (1, 0), (0, 1), (6, 5), (5, 7)], [(0, 0), (1, 2), (3, 1)]],
        3: [[(0, 0, 0), (1, 0, 2), (0, 1, -1), (8, 8, 9), (9, 7, 8), (7, 9, 9)]]}
POINTS = {1: [[0.], [1.], [2.5], [-30.], [1e6]], 2: [[0., 0.], [2., 3.], [5., 6.], [-40., 70.], [1e5, -1e5]],
          3: [[0., 0., 0.], [1., 2., 3.], [8., 8., 8.], [-30., 4., 50.]], 4: [[0., 0., 0., 0.], [3., -1., 2., 5.], [-30., 4., 50., 7.]]}


def cases(tier):
    for i in range(len(F.VAR)):
        for D in (1, 2, 3):
            for K in (1, 2, 3):
                for p in range(len(F.PRIORS[D])):
                    yield {"id": "%s-%d/D%d/K%d/prior%d" % (F.VAR[i][0], i, D, K, p), "m": i, "D": D, "K": K, "p": p,
                           "iters": (1, 6) if tier == "quick" else (1, 2, 6, 25), "cost": D * K, "quad": tier != "quick"}
    for c in F.wide_cases(tier, 1):
        yield dict(c, iters=(4,) if tier == "quick" else (1, 4, 20), quad=False)


def execute(case, ctx):
    D, K = case["D"], case["K"]
    p = F.PRIORS[D][case["p"]]
    for n, y in enumerate(F.data_of(case, DATA.get(D))):
        y = np.array(y, float).reshape(-1, D)
        if p is None and not F.default_ok(y):
            continue
        for it in case["iters"]:
            for init in ("kmeans", "random"):
                if init == "kmeans" and len(y) < K:
                    continue
                m, law, k = F.var_model(case["m"], K, np.random.default_rng(11 + n), p, total_iter=it, burn_in=0)
                m.fit_variational(y.copy(), n_groups=K, tol=-1.0, init_method=init)
                queries(case, ctx, m, law, k, y, p)
                if len(ctx.viol) > 4:
                    return
    ctx.sample({"law": F.VAR[case["m"]][0], "D": D, "K": K})


class Unit(vb.W):
    def __init__(self, K):
        self.K = K

    def mean(self, j):
        return 1.0

    mode = mean


def queries(case, ctx, m, law, k, y, p):
    D, K = case["D"], case["K"]
    r, th = F.state(m)
    wq = vb.W(law, k, r.sum(1), r.shape[1])
    th = [(a, b, np.linalg.inv(c), d) for a, b, c, d in th]
    what = "%s%s D=%d K=%d y=%s" % (law, k, D, K, y.tolist())
    X = np.array(POINTS[D])
    if "wide" in case:
        X = np.concatenate([X, y[:3] + .1])

    def agree(g, w, ref, pts, coords):
        """relative agreement, allowing the weights a rounding error"""
        if np.shape(g) != w.shape:
            return False
        if not np.all(np.asarray(g) >= 0):
            return False
        if np.all(np.abs(g - w) <= 1e-7 * w + 1e-300):
            return True
        slack = 1e-12 * sum(ref(pts, Unit(K), th, coords, j) for j in range(K))
        return bool(np.all(np.abs(g - w) <= 1e-7 * w + slack + 1e-300))
    unique_mode = all(wq.mode(j) is not None for j in range(K)) and all(t[3] > D for t in th)
    for name, ref in (("var_eap_density", vb.student_mixture), ("var_map_density", vb.normal_mixture)):
        if name == "var_map_density" and not unique_mode:
            continue
        f = getattr(m, name)
        for dim, coords in Q.dims(D):
            pts = X[:, coords]
            want = ref(pts, wq, th, coords)
            comps = []
            for kind, x in list(Q.forms(pts)) + list(Q.forms(pts[:1])) + [("none", None)]:
                if x is None:
                    w = ref(y[:, coords], wq, th, coords)
                else:
                    w = want if len(np.atleast_1d(x)) == len(pts) else want[:1]
                before = copy.deepcopy(x)
                g = f(x, dim=dim) if dim is not None else f(x)
                ctx.ops += 1
                ctx.check(agree(g, w, ref, (pts if x is not None else y[:, coords])[:len(w)], coords), name, lambda: "%s: %s at %s points %s, dim=%r: %s, closed form %s" % (
                    what, name, kind, None if x is None else np.asarray(x).tolist(), dim, np.asarray(g).tolist(), w.tolist()))
                if x is not None:
                    ctx.check(Q.same(x, before), "input-changed", lambda: "%s modified its %s argument" % (name, kind))
            for j in range(K):
                jj = np.int64(j) if j % 2 else j
                g = f(pts, dim=dim, component=jj)
                comps.append(g)
                w = ref(pts, wq, th, coords, j)
                ctx.ops += 1
                ctx.check(agree(g, w, ref, pts, coords), name + "-component", lambda: "%s: %s component %d dim=%r: %s, closed form %s" % (
                    what, name, j, dim, np.asarray(g).tolist(), w.tolist()))
                g = f(None, dim=dim, component=jj)
                w = ref(y[:, coords], wq, th, coords, j)
                ctx.check(agree(g, w, ref, y[:, coords], coords), name + "-component", lambda: "%s: %s component %d dim=%r at the training data: %s, closed form %s" % (
                    what, name, j, dim, np.asarray(g).tolist(), w.tolist()))
            ctx.check(agree(np.sum(comps, 0), want, ref, pts, coords), name + "-additive", lambda: "%s: components of %s sum to %s, density %s" % (what, name, np.sum(comps, 0), want))
            ctx.execs += 1
        # total mass of every one-dimensional marginal, by quadrature of the library's own answer on a compactified line
        if name == "var_eap_density" or all(t[3] - D > 1e-3 for t in th):
            mass = 1.0 if name == "var_eap_density" else sum(wq.mode(j) for j in range(K))
            for i in range(D):
                mid = np.mean([t[0][i] for t in th])
                sc = max(1.0, max(abs(t[0][i] - mid) for t in th))
                t = np.linspace(-np.pi / 2, np.pi / 2, 20003 if not case["quad"] else 200003)[1:-1]
                x = mid + sc * np.tan(t)
                g = f(x, dim=i) * sc / np.cos(t) ** 2
                v = integrate.simpson(g, x=t)
                ctx.ops += 1
                ctx.check(abs(v - mass) < 3e-2 or min(t_[3] - D + 1 for t_ in th) < 1, name + "-mass", lambda: "%s: %s marginal %d integrates to %r, expected %r" % (what, name, i, v, mass))
    ctx.state(case["m"], D, K, [np.round(t[0], 6).tolist() for t in th])

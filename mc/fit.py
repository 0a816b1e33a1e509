"""Mixtures, lattice data sets, priors and reference objects shared by the fit-level checks (no controlled generator here)."""
import itertools
import numpy as np
from . import vb

# variational weighting models: (name of the weight law in mc.vb, mixture class, keyword arguments)
VAR = [("DirichletProcess", "DirichletProcessMixture", dict(alpha=1)), ("DirichletProcess", "DirichletProcessMixture", dict(alpha=.3)),
       ("PitmanYorProcess", "PitmanYorMixture", dict(pyd=.25, alpha=1)), ("PitmanYorProcess", "PitmanYorMixture", dict(pyd=.5, alpha=-.25)),
       ("GeometricProcess", "GeometricProcessMixture", dict(a=1, b=1)), ("GeometricProcess", "GeometricProcessMixture", dict(a=2, b=.5)),
       ("DirichletDistribution", "DirichletDistributionMixture", dict(alpha=1)), ("DirichletDistribution", "DirichletDistributionMixture", dict(alpha="vec")),
       ("EqualWeighting", "EqualWeightedMixture", {}), ("FrequencyWeighting", "FrequencyWeightedMixture", {})]
VEC = [.5, 2., 1., 3.25, .75, 1.5, .25, 4., 1., .6, 2.2, .9]

# priors by dimension: None means the data-dependent defaults
PRIORS = {
    1: [None, (0.5, 1.0, 2.0, 1.0), (-3.0, .25, .5, 3.5), (10.0, 4.0, 9.0, 2.0)],
    2: [None, ([.5, -1.], 2.0, [[2., .5], [.5, 1.]], 2.0), ([3., 3.], .5, [[1., -.9], [-.9, 1.]], 4.5)],
    3: [None, ([1., 0., -1.], 1.5, [[2., .5, 0.], [.5, 1., .25], [0., .25, 3.]], 3.0)]}

P4 = ([1., 0., -1., 2.], .75, [[2., .5, 0., .1], [.5, 1., .25, 0.], [0., .25, 3., -.4], [.1, 0., -.4, 1.5]], 4.5)
PRIORS[4] = [None, P4]


def _grid(n, D, scale, shift, groups):
    """a fixed, irregular cloud in a few groups"""
    i = np.arange(n)[:, None]
    j = np.arange(D)[None, :]
    return (np.sin(1.7 * i + 2.3 * j + .4 * i * j) + 4 * (i % groups) * np.cos(j + i % groups)) * scale + shift


# many groups, many observations, many features, large scale: (D, K, prior index, observations)
WIDE = [(1, 6, 0, _grid(24, 1, 1., 0., 5)), (1, 5, 1, _grid(9, 1, 1., .5, 4)), (2, 3, 0, _grid(300, 2, 1e5, 1e6, 3)), (4, 2, 0, _grid(11, 4, 1., 0., 2)),
        (4, 5, 1, _grid(14, 4, 1., 1., 4)), (2, 8, 1, _grid(20, 2, 1., 0., 6)), (1, 2, 0, _grid(400, 1, .5, -3., 2)), (3, 4, 1, _grid(30, 3, 1e-3, 0., 3))]
# a small scale needs a large one as company: observations far from the prior mean
WIDE.append((3, 4, 1, _grid(30, 3, 50., 1e3, 3)))


def wide_cases(tier, step=1):
    for i in range(len(VAR)):
        for w, (D, K, p, y) in enumerate(WIDE):
            if tier == "quick" and (i + w) % step:
                continue
            yield {"id": "%s-%d/wide%d" % (VAR[i][0], i, w), "m": i, "D": D, "K": K, "p": p, "wide": w, "cost": 4 + len(y) / 20}


def data_of(case, default):
    return [WIDE[case["wide"]][3]] if "wide" in case else default


L1 = [0., 1., 4.]
P2 = [(0., 0.), (1., .5), (.5, 1.), (6., 5.), (5., 7.)]
P3 = [(0., 0., 0.), (1., 0., 2.), (0., 1., -1.), (8., 8., 9.), (9., 7., 8.), (7., 9., 9.)]


def datasets(D, nmax, nmin=1):
    """every multiset of the lattice up to size nmax, as tuples of rows"""
    pts = [(x,) for x in L1] if D == 1 else P2 if D == 2 else P3
    for n in range(nmin, nmax + 1):
        for t in itertools.combinations_with_replacement(pts, n):
            yield np.array(t, float)


def default_ok(y):
    """the data-dependent default prior is a proper one"""
    return len(y) > 1 and np.linalg.matrix_rank(np.atleast_2d(np.cov(y.T)), tol=1e-9) == y.shape[1]


def prior_kw(p):
    return {} if p is None else dict(mu_prior=p[0], lambda_prior=p[1], psi_prior=p[2], nu_prior=p[3])


def prior_of(p, y):
    """(mu0, lam0, psi0, nu0) the model has to use"""
    D = y.shape[1]
    if p is None:
        dev = y - y.mean(0)
        return y.mean(0), 1.0, dev.T @ dev / (len(y) - 1), float(D)
    return np.atleast_1d(np.array(p[0], float)), float(p[1]), np.atleast_2d(np.array(p[2], float)), float(p[3])


def var_model(i, K, rng, prior=None, **kw):
    """mixture i of VAR with K groups; returns (model, weight law name, weight law parameters)"""
    from pyrichlet import mixture_models as mm
    law, cls, k = VAR[i]
    k = dict(k)
    if k.get("alpha") == "vec":
        k["alpha"] = VEC[:K]
    ctor = dict(k)
    if law in ("DirichletDistribution", "EqualWeighting", "FrequencyWeighting"):
        ctor["n"] = K
    m = getattr(mm, cls)(rng=rng, **ctor, **prior_kw(prior), **kw)
    return m, law, k


def var_ref(law, k, r, y, prior):
    """reference weight posterior and component posteriors of responsibilities r"""
    return vb.W(law, k, r.sum(1), r.shape[1]), vb.theta_update(y, r, prior)


def state(m):
    return np.array(m.var_d, float), [(np.array(a[0], float), float(a[1]), np.array(a[2], float), float(a[3])) for a in m.var_theta]


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= tol * np.maximum(1, np.abs(b)))))

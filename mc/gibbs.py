"""Gibbs-fitted mixtures: model family, canonical states, reference likelihood (no controlled generator here)."""
import copy
import numpy as np
from scipy.stats import multivariate_normal
from . import fit as F

# (id, mixture class, keyword arguments, number of groups of a finite structure)
GIBBS = [("dp", "DirichletProcessMixture", dict(alpha=1), None), ("dp.3", "DirichletProcessMixture", dict(alpha=.3), None),
         ("py", "PitmanYorMixture", dict(pyd=.25, alpha=.5), None), ("geo", "GeometricProcessMixture", dict(a=1, b=1), None),
         ("dird", "DirichletDistributionMixture", dict(n=3, alpha=1), 3), ("dirdv", "DirichletDistributionMixture", dict(n=2, alpha=[.5, 2.]), 2),
         ("equal", "EqualWeightedMixture", dict(n=3), 3), ("freq", "FrequencyWeightedMixture", dict(n=2), 2),
         ("bib", "BetaInBetaMixture", dict(x=.5), None), ("bib0", "BetaInBetaMixture", dict(x=0, alpha=2), None), ("bib1", "BetaInBetaMixture", dict(x=1, a=2, b=1), None),
         ("bibi", "BetaInBetaMixture", dict(x=.5, p_method="independent"), None), ("bibs", "BetaInBetaMixture", dict(x=.25, p_method="static"), None),
         ("bern", "BetaBernoulliMixture", dict(p=.5), None), ("bern1", "BetaBernoulliMixture", dict(p=1, alpha=2), None), ("bern0", "BetaBernoulliMixture", dict(p=0), None),
         ("binm", "BetaBinomialMixture", dict(n=2), None), ("binm0", "BetaBinomialMixture", dict(n=0), None),
         ("bid", "BetaInDirichletMixture", dict(a=1), None), ("bid0", "BetaInDirichletMixture", dict(a=0), None)]
ID = {g[0]: i for i, g in enumerate(GIBBS)}

DATA = {1: [[0., 1., 4.], [0., 0., 5., 6.], [2., 3.]], 2: [[(0., 0.), (1., .5), (6., 5.), (5., 7.)], [(0., 1.), (2., 0.), (1., 3.)]],
        3: [[(0., 0., 0.), (1., 0., 2.), (0., 1., -1.), (8., 8., 9.), (9., 7., 8.)]]}


def data(D, n):
    return np.array(DATA[D][n], float).reshape(-1, D)


def make(i, rng, prior=None, T=1, B=0, s=1):
    from pyrichlet import mixture_models as mm
    _, cls, kw, _ = GIBBS[i]
    return getattr(mm, cls)(rng=rng, total_iter=T, burn_in=B, subsample_steps=s, **kw, **F.prior_kw(prior))


def canon(p):
    """comparable snapshot of one saved state"""
    th = p["theta"]
    return (np.array(p["w"], float).tobytes(), np.array(p["u"], float).tobytes(), tuple(int(x) for x in p["d"]),
            tuple((int(j), np.array(th[j][0], float).tobytes(), np.array(th[j][1], float).tobytes()) for j in sorted(th)))


def show(p):
    return {"w": np.round(p["w"], 5).tolist(), "u": np.round(p["u"], 5).tolist(), "d": np.asarray(p["d"]).tolist(),
            "theta": {int(j): (np.round(a[0], 4).tolist(), np.round(a[1], 4).tolist()) for j, a in sorted(p["theta"].items())}}


def copy_state(p):
    return copy.deepcopy({"w": np.array(p["w"]), "u": np.array(p["u"]), "d": np.array(p["d"]), "theta": {int(j): (np.array(a[0]), np.array(a[1])) for j, a in p["theta"].items()}})


def loglik(y, p):
    """joint log-likelihood of observations and assignments given weights and atoms"""
    t = 0.0
    for x, j in zip(y, p["d"]):
        mu, S = p["theta"][int(j)]
        w = p["w"][int(j)]
        t += multivariate_normal.logpdf(x, mu, S, allow_singular=True) + (np.log(w) if w > 0 else -np.inf)
    return float(t)


def complete(p, y, ctx, what):
    """the invariant of a saved state; True when it holds"""
    D = y.shape[1]
    w, u, d, th = np.asarray(p["w"]), np.asarray(p["u"]), np.asarray(p["d"]), p["theta"]
    bad = []
    if w.ndim != 1 or not len(w) or not np.all(np.isfinite(w)) or np.any(w < 0) or w.sum() > 1 + 1e-9:
        bad.append("weights %s" % w)
    if u.shape != (len(y),) or d.shape != (len(y),) or not np.issubdtype(d.dtype, np.integer):
        bad.append("shapes of u %s and d %s" % (u.shape, d.shape))
    elif np.any(d < 0) or np.any(d >= len(w)):
        bad.append("assignment without weight: d=%s, %d weights" % (d, len(w)))
    elif np.any(w[d] < u - 1e-12) or np.any(u < 0):
        bad.append("slice level above the weight of the observation's group: u=%s w[d]=%s" % (u, w[d]))
    elif 1 - w.sum() > u.min() + 1e-9:
        bad.append("mass %r left out although the lowest slice level is %r" % (1 - w.sum(), u.min()))
    for j in range(len(w)):
        if j not in th:
            bad.append("group %d has a weight but no atom (atoms %s)" % (j, sorted(th)))
            break
        mu, S = np.asarray(th[j][0]), np.asarray(th[j][1])
        if mu.shape != (D,) or S.shape != (D, D) or not np.all(np.isfinite(mu)) or not np.all(np.isfinite(S)) or not np.allclose(S, S.T) or np.linalg.eigvalsh(S)[0] <= 0:
            bad.append("atom %d: mean %s covariance %s" % (j, mu, S.tolist()))
            break
    for b in bad:
        ctx.fail("state", "%s: %s" % (what, b))
    return not bad

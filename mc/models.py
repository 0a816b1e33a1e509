"""The weighting models under check, with boring reference programs for their prior and posterior laws.

A reference program draws from an Env (same menu mechanism as the library, separate code) and returns
the first K weights as a list.  Programs are written from the definitions in the literature and the
library's documentation, not from its code."""
import itertools
import numpy as np
from . import env as E


def sticks(v):
    out, rest = [], 1.0
    for x in v:
        out.append(rest * x)
        rest *= 1 - x
    return out


def counts(d, K):
    n = [0] * K
    for x in d:
        if x < K:
            n[x] += 1
    return n


def tails(d, K):
    """number of assignments beyond each group"""
    return [sum(1 for x in d if x > k) for k in range(K)]


# ---- reference programs ------------------------------------------------------
def dp(alpha):
    def post(env, d, K):
        n, t = counts(d, K), tails(d, K)
        return sticks([env.beta(1 + n[k], alpha + t[k]) for k in range(K)])
    return post


def py(sigma, alpha):
    def post(env, d, K):
        n, t = counts(d, K), tails(d, K)
        return sticks([env.beta(1 - sigma + n[k], alpha + (k + 1) * sigma + t[k]) for k in range(K)])
    return post


def geo(a, b):
    def post(env, d, K):
        p = env.beta(a + len(d), b + sum(d))
        return [p * (1 - p) ** k for k in range(K)]
    return post


def dirichlet(alpha):
    def post(env, d, K):
        a = [x + c for x, c in zip(alpha, counts(d, len(alpha)))]
        out, rest, tot = [], 1.0, sum(a)
        for x in a[:-1]:
            tot -= x
            v = env.beta(x, tot)
            out.append(rest * v)
            rest *= 1 - v
        return (out + [rest])[:K]
    return post


def bib(x, alpha, a, b, p):
    """Beta-in-Beta; at x=0 a Dirichlet process, at x=1 a geometric process, otherwise the sticks are
    conditionally independent given an inner probability."""
    if x == 0:
        return dp(alpha)
    if x == 1:
        return geo(a, b)

    def post(env, d, K):
        assert not len(d)
        q = p if p is not None else env.beta(a, b)
        c = x / (1 - x)
        return sticks([env.beta(1 + c * q, alpha + c * (1 - q)) for _ in range(K)])
    return post


def bern(p, alpha):
    if p == 1:
        return dp(alpha)
    if p == 0:
        return geo(1, alpha)

    def post(env, d, K):
        assert not len(d)
        v = [env.beta(1, alpha)]
        while len(v) < K:
            v.append(env.beta(1, alpha) if env.binomial(1, p) else v[-1])
        return sticks(v)
    return post


def binm(n, alpha):
    if n == 0:
        return dp(alpha)

    def post(env, d, K):
        assert not len(d)
        v = [env.beta(1, alpha)]
        while len(v) < K:
            x = env.binomial(n, v[-1])
            v.append(env.beta(1 + x, alpha + n - x))
        return sticks(v)
    return post


def bid(a, alpha):
    if a == 0:
        return geo(1, alpha)

    def post(env, d, K):
        assert not len(d)
        tables, cnt, v = [], [], []
        for k in range(K):
            tot = k + a
            j = env.categorical([c / tot for c in cnt] + [a / tot])
            if j == len(tables):
                tables.append(env.beta(1, alpha))
                cnt.append(0)
            cnt[j] += 1
            v.append(tables[j])
        return sticks(v)
    return post


def equal(n):
    return lambda env, d, K: [1 / n] * min(n, K)


def freq(n):
    def post(env, d, K):
        if not len(d):
            return [1 / n] * min(n, K)
        c = counts(d, max(d) + 1)
        return [x / len(d) for x in c][:K]
    return post


class Spec:
    def __init__(self, id, cls, kw, law, finite=None, conj=True, maxd=None, degree=1, family=None, latent=False):
        self.id, self.cls, self.kw, self.law, self.finite = id, cls, kw, law, finite
        self.conj, self.maxd, self.degree, self.latent = conj, maxd, degree, latent
        self.family = family or cls
        self.slow = kw.get("p_method") in ("max-likelihood", "inverse-sampling")    # numerical optimisation per draw

    def make(self, rng):
        from pyrichlet import weight_models as wm
        return getattr(wm, self.cls)(rng=rng, **self.kw)


def zoo():
    Z = []
    for n, al in ((1, 1), (2, 1), (3, 1), (2, .5), (3, 2.5), (4, .75), (3, [.5, 1., 2.]), (2, [3., .25]), (4, [1., 2., .5, .5])):
        aa = list(al) if isinstance(al, list) else [al] * n
        alist = np.array(al) if (isinstance(al, list) and n == 2) else al
        Z.append(Spec("dird-n%d-%s" % (n, al), "DirichletDistribution", dict(n=n, alpha=alist), dirichlet(aa), finite=n, maxd=n))
    for al in (1, .5, 3, .1):
        Z.append(Spec("dp-%g" % al, "DirichletProcess", dict(alpha=al), dp(al)))
    for s, al in ((0, 1), (0, 2.5), (.25, 1), (.5, .5), (.5, 2), (.8, .3), (.5, 0), (.5, -.25)):
        Z.append(Spec("py-%g-%g" % (s, al), "PitmanYorProcess", dict(pyd=s, alpha=al), py(s, al)))
    for a, b in ((1, 1), (2, 1), (1, 3), (.5, .5), (2.5, 4)):
        Z.append(Spec("geo-%g-%g" % (a, b), "GeometricProcess", dict(a=a, b=b), geo(a, b), degree=4))
    for al in (1, .5, 2.5):
        Z.append(Spec("bib-x0-%g" % al, "BetaInBeta", dict(x=0, alpha=al), bib(0, al, 1, 1, 0)))
    for a, b in ((1, 1), (2, .5), (1.5, 3)):
        Z.append(Spec("bib-x1-%g-%g" % (a, b), "BetaInBeta", dict(x=1, a=a, b=b), bib(1, 1, a, b, 0), degree=4))
    for x, al, a, b in ((.5, 1, 1, 1), (.25, 2, 2, 1), (.8, .5, 1, 2)):
        for pm in ("geometric", "independent", "static", "max-likelihood", "inverse-sampling"):
            Z.append(Spec("bib-x%g-%g-%g-%g-%s" % (x, al, a, b, pm), "BetaInBeta",
                          dict(x=x, alpha=al, a=a, b=b, p_method=pm), bib(x, al, a, b, None), conj=False, degree=4, latent=True))
    for p in (1, 0):
        for al in (1, .5, 2.5):
            Z.append(Spec("bern-p%g-%g" % (p, al), "BetaBernoulli", dict(p=p, alpha=al), bern(p, al), degree=4))
    for p, al in ((.5, 1), (.25, 2), (.9, .5)):
        Z.append(Spec("bern-p%g-%g" % (p, al), "BetaBernoulli", dict(p=p, alpha=al), bern(p, al), conj=False, degree=4, latent=True))
    for al in (1, .5, 2.5):
        Z.append(Spec("binm-0-%g" % al, "BetaBinomial", dict(n=0, alpha=al), binm(0, al)))
    for n, al in ((1, 1), (2, .5), (3, 2)):
        Z.append(Spec("binm-%d-%g" % (n, al), "BetaBinomial", dict(n=n, alpha=al), binm(n, al), conj=False, degree=4, latent=True))
    for al in (1, .5, 2.5):
        Z.append(Spec("bid-0-%g" % al, "BetaInDirichlet", dict(a=0, alpha=al), bid(0, al), degree=4))
    for a, al in ((1, 1), (.5, 2), (3, .5)):
        Z.append(Spec("bid-%g-%g" % (a, al), "BetaInDirichlet", dict(a=a, alpha=al), bid(a, al), conj=False, degree=4, latent=True))
    for n in (1, 2, 3, 5):
        Z.append(Spec("equal-%d" % n, "EqualWeighting", dict(n=n), equal(n), finite=n, maxd=n))
        Z.append(Spec("freq-%d" % n, "FrequencyWeighting", dict(n=n), freq(n), finite=n, maxd=n))
    return Z


ZOO = {s.id: s for s in zoo()}
# one or two representatives per family, for history checks
REPS = [s for s in ("dird-n1-1", "dird-n3-[0.5, 1.0, 2.0]", "dp-1", "dp-0.5", "py-0.25-1", "py-0-1", "geo-2-1", "bib-x0-1",
                    "bib-x1-2-0.5", "bib-x0.5-1-1-1-geometric", "bib-x0.5-1-1-1-independent", "bib-x0.5-1-1-1-static",
                    "bib-x0.5-1-1-1-max-likelihood", "bib-x0.5-1-1-1-inverse-sampling", "bern-p1-1", "bern-p0-1", "bern-p0.5-1",
                    "binm-0-1", "binm-2-0.5", "bid-0-1", "bid-1-1", "equal-3", "freq-3")]
assert all(r in ZOO for r in REPS), [r for r in REPS if r not in ZOO]


# ---- exact laws ----------------------------------------------------------------
def monomials(K, D):
    return [c for c in itertools.product(range(D + 1), repeat=K) if 0 < sum(c) <= D]


def wide_monomials(K, D):
    """all first moments, and (D=2) all second ones, of many weights"""
    out = []
    for i in range(K):
        out.append([int(k == i) for k in range(K)])
        if D > 1:
            out += [[int(k == i) + int(k == j) for k in range(K)] for j in range(i, K)]
    return out


def moments(run, K, D, policy, max_exec=None, mons=None):
    """Exact E[prod w_k^c_k] over every enumerated execution; run(env) -> weights (list or array)."""
    mons = np.array(monomials(K, D) if mons is None else mons)
    acc = np.zeros(len(mons))
    ex = E.Explorer(lambda: policy, max_exec=max_exec)
    tot = 0.0
    for env, w in ex.executions_of(run):
        w = np.asarray(w, float).ravel()[:K]
        w = np.concatenate([w, np.zeros(K - len(w))])
        acc += env.prob * np.prod(w[None, :] ** mons, axis=1)
        tot += env.prob
    if ex.capped:
        raise RuntimeError("law enumeration capped")
    assert abs(tot - 1) < 1e-9, tot
    return acc, mons, ex

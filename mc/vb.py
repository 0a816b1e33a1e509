"""Reference mean-field variational inference for the truncated Gaussian mixture (textbook formulas, independent code)."""
import numpy as np
from math import lgamma, log, pi
from scipy.special import digamma


class W:
    """variational posterior of the weights of one model, from expected counts n (length K) over N observations"""

    def __init__(self, cls, kw, n, N):
        self.cls, self.kw, self.K = cls, kw, len(n)
        self.n, self.N = [float(x) for x in n], N
        K = self.K
        tail = [sum(self.n[j + 1:]) for j in range(K)]
        if cls == "DirichletProcess":
            self.ab = [(1 + self.n[j], kw["alpha"] + tail[j]) for j in range(K - 1)]
            self.prior = [(1.0, kw["alpha"])] * (K - 1)
        elif cls == "PitmanYorProcess":
            s, a = kw["pyd"], kw["alpha"]
            self.ab = [(1 - s + self.n[j], a + (j + 1) * s + tail[j]) for j in range(K - 1)]
            self.prior = [(1 - s, a + (j + 1) * s) for j in range(K - 1)]
        elif cls == "GeometricProcess":
            self.ab = [(kw["a"] + sum(self.n[:-1]), kw["b"] + sum(j * x for j, x in enumerate(self.n)))]
            self.prior = [(kw["a"], kw["b"])]
        elif cls == "DirichletDistribution":
            al = kw["alpha"]
            al = [float(x) for x in al] if np.ndim(al) else [float(al)] * K
            self.al0 = al
            self.al = [x + y for x, y in zip(al, self.n)]

    def _chain(self, first, rest):
        """first(a,b): functional of the stick; rest(a,b): of one minus the stick"""
        return first, rest

    def log_w(self, j):
        if j >= self.K:
            return -np.inf
        c = self.cls
        if c == "EqualWeighting":
            return -log(self.K)
        if c == "FrequencyWeighting":
            m = self.mean(j)
            return log(m) if m > 0 else -np.inf
        if c == "DirichletDistribution":
            return float(digamma(self.al[j]) - digamma(sum(self.al)))
        L = lambda a, b: float(digamma(a) - digamma(a + b))
        if c == "GeometricProcess":
            a, b = self.ab[0]
            return (L(a, b) if j < self.K - 1 else 0.0) + j * L(b, a)
        return sum(L(b, a) for a, b in self.ab[:j]) + (L(*self.ab[j]) if j < self.K - 1 else 0.0)

    def mean(self, j):
        if j >= self.K:
            return 0.0
        c = self.cls
        if c == "EqualWeighting":
            return 1 / self.K
        if c == "FrequencyWeighting":
            return self.n[j] / sum(self.n) if self.N else 1 / self.K
        if c == "DirichletDistribution":
            return self.al[j] / sum(self.al)
        if c == "GeometricProcess":
            a, b = self.ab[0]
            r = 1.0
            for i in range(j):                   # E (1-p)^j [p] by rising factorials
                r *= (b + i) / (a + b + i)
            return r * (a / (a + b + j) if j < self.K - 1 else 1.0)
        r = 1.0
        for a, b in self.ab[:j]:
            r *= b / (a + b)
        return r * (self.ab[j][0] / sum(self.ab[j]) if j < self.K - 1 else 1.0)

    def mode(self, j):
        """None when not unique"""
        if j >= self.K:
            return 0.0

        def m(a, b):
            if a > 1 and b > 1:
                return (a - 1) / (a + b - 2)
            if a <= 1 and b <= 1:
                return None
            return 1.0 if a > 1 else 0.0
        c = self.cls
        if c in ("EqualWeighting", "FrequencyWeighting"):
            return self.mean(j)
        if c == "DirichletDistribution":
            return m(self.al[j], sum(self.al) - self.al[j]) if self.K > 1 else None
        if c == "GeometricProcess":
            if self.K == 1:
                return 1.0
            p = m(*self.ab[0])
            return None if p is None else (1 - p) ** j * (p if j < self.K - 1 else 1.0)
        r = 1.0
        for i in range(j):
            x = m(*self.ab[i])
            if x is None:
                return None
            r *= 1 - x
        if j < self.K - 1:
            x = m(*self.ab[j])
            if x is None:
                return None
            r *= x
        return r

    def e_log_p_d(self, n=None):
        n = self.n if n is None else n
        return sum(x * self.log_w(j) for j, x in enumerate(n) if x > 0)

    def _lb(self, a, b, q):
        """E_q log Beta(v; a, b) density, q=(qa, qb)"""
        L = lambda s, t: float(digamma(s) - digamma(s + t))
        return lgamma(a + b) - lgamma(a) - lgamma(b) + (a - 1) * L(q[0], q[1]) + (b - 1) * L(q[1], q[0])

    def e_log_p(self):
        if self.cls in ("EqualWeighting", "FrequencyWeighting"):
            return 0.0
        if self.cls == "DirichletDistribution":
            return lgamma(sum(self.al0)) - sum(lgamma(x) for x in self.al0) + sum((x - 1) * self.log_w(j) for j, x in enumerate(self.al0))
        return sum(self._lb(a, b, q) for (a, b), q in zip(self.prior, self.ab))

    def e_log_q(self):
        if self.cls in ("EqualWeighting", "FrequencyWeighting"):
            return 0.0
        if self.cls == "DirichletDistribution":
            return lgamma(sum(self.al)) - sum(lgamma(x) for x in self.al) + sum((x - 1) * self.log_w(j) for j, x in enumerate(self.al))
        return sum(self._lb(q[0], q[1], q) for q in self.ab)


def theta_update(y, r, prior):
    """normal-inverse-Wishart posteriors given responsibilities r (K x N): (m, lambda, Psi, nu)"""
    mu0, lam0, psi0, nu0 = prior
    out = []
    for rj in r:
        n = rj.sum()
        s1 = (rj[:, None] * y).sum(0)
        lam, nu = lam0 + n, nu0 + n
        m = (lam0 * mu0 + s1) / lam
        dev = y - m
        psi = psi0 + (dev * rj[:, None]).T @ dev + lam0 * np.outer(m - mu0, m - mu0)
        out.append((m, lam, psi, nu))
    return out


def log_rho(y, wq, theta):
    D = y.shape[1]
    L = np.empty((len(theta), len(y)))
    for j, (m, lam, psi, nu) in enumerate(theta):
        e_logdet = sum(digamma((nu - i) / 2) for i in range(D)) + D * log(2) - np.linalg.slogdet(psi)[1]
        dev = y - m
        maha = np.einsum("ij,ij->i", dev, np.linalg.solve(psi, dev.T).T)
        L[j] = wq.log_w(j) + .5 * (e_logdet - D * log(2 * pi) - D / lam - nu * maha)
    return L


def softmax(L):
    L = L - L.max(0)
    r = np.exp(L)
    return r / r.sum(0)


def log_norm_wishart(psi, nu):
    """log normaliser B(W, nu) with W = inv(psi)"""
    D = len(psi)
    return nu / 2 * np.linalg.slogdet(psi)[1] - (nu * D / 2 * log(2) + D * (D - 1) / 4 * log(pi) + sum(lgamma((nu - i) / 2) for i in range(D)))


def elbo(y, r, wq, theta, prior):
    mu0, lam0, psi0, nu0 = prior
    D = y.shape[1]
    L = log_rho(y, wq, theta)
    tot = float((r * np.where(r > 0, L, 0)).sum())              # E log p(y|d,theta) + E log p(d|w)
    tot -= float((r * np.log(np.where(r > 0, r, 1))).sum())
    tot += wq.e_log_p() - wq.e_log_q()
    B0 = log_norm_wishart(psi0, nu0)
    for m, lam, psi, nu in theta:
        Winv = np.linalg.inv(psi)
        e_logdet = sum(digamma((nu - i) / 2) for i in range(D)) + D * log(2) - np.linalg.slogdet(psi)[1]
        dm = m - mu0
        p = .5 * (D * log(lam0 / (2 * pi)) + e_logdet - D * lam0 / lam - lam0 * nu * dm @ Winv @ dm)
        p += B0 + (nu0 - D - 1) / 2 * e_logdet - nu / 2 * np.trace(psi0 @ Winv)
        q = .5 * (D * log(lam / (2 * pi)) + e_logdet - D)
        q += log_norm_wishart(psi, nu) + (nu - D - 1) / 2 * e_logdet - nu * D / 2
        tot += p - q
    return tot


def student_mixture(x, wq, theta, dim=None, comp=None):
    from scipy.stats import multivariate_t
    D = len(theta[0][0])
    dim = np.arange(D) if dim is None else np.atleast_1d(dim)
    f = np.zeros(len(x))
    for j in (range(len(theta)) if comp is None else [comp]):
        m, lam, psi, nu = theta[j]
        df = nu - D + 1
        shape = (psi * (1 + lam) / (lam * df))[np.ix_(dim, dim)]
        f += wq.mean(j) * np.atleast_1d(multivariate_t.pdf(x, m[dim], shape, df))
    return f


def normal_mixture(x, wq, theta, dim=None, comp=None):
    from scipy.stats import multivariate_normal
    D = len(theta[0][0])
    dim = np.arange(D) if dim is None else np.atleast_1d(dim)
    f = np.zeros(len(x))
    for j in (range(len(theta)) if comp is None else [comp]):
        m, lam, psi, nu = theta[j]
        mode = wq.mode(j)
        if mode is None:
            return None
        f += mode * np.atleast_1d(multivariate_normal.pdf(x, m[dim], (psi / (nu - D))[np.ix_(dim, dim)], allow_singular=True))
    return f

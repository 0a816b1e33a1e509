"""The controlled environment: a random generator whose every answer is a choice point.

Importing this module replaces np.random.Generator / np.random.default_rng for this process, so that a
ChoiceGen can be handed to the library through its public `rng` parameter.
"""
import math
from functools import lru_cache
import numpy as np
from scipy.special import roots_jacobi, roots_legendre, ndtri, betaincinv, chdtri, gammaincinv

RealGenerator = np.random.Generator
real_default_rng = np.random.default_rng


class Horizon(Exception):
    """An execution used more random answers than any terminating execution could."""


class ReplayError(Exception):
    """A recorded choice does not exist in the replayed execution."""


# ------------------------------------------------------------------ menus
@lru_cache(maxsize=200000)
def beta_nodes(a, b, m):
    """Gauss-Jacobi nodes/weights of the Beta(a, b) law: exact for polynomials of degree <= 2m-1."""
    with np.errstate(all="ignore"):
        x, w = roots_jacobi(m, b - 1.0, a - 1.0)
        w = w / w.sum()
    if not (np.isfinite(w).all() and np.isfinite(x).all() and abs((w * (x + 1) / 2).sum() * (a + b) / a - 1) < 1e-9):
        x, w = _golub_welsch(a, b, m)       # large parameters overflow the closed form
    return tuple((x + 1) / 2), tuple(w)


def _golub_welsch(a, b, m):
    """The same nodes and weights from the eigenvectors of the Jacobi matrix (on [-1, 1])."""
    al, be = b - 1.0, a - 1.0
    k = np.arange(m)
    with np.errstate(all="ignore"):
        d = (be ** 2 - al ** 2) / ((2 * k + al + be) * (2 * k + al + be + 2))
    d[0] = (be - al) / (al + be + 2)
    k = np.arange(1, m)
    with np.errstate(all="ignore"):
        e = 4 * k * (k + al) * (k + be) * (k + al + be) / ((2 * k + al + be) ** 2 * (2 * k + al + be + 1) * (2 * k + al + be - 1))
    if m > 1:
        e[0] = 4 * (1 + al) * (1 + be) / ((2 + al + be) ** 2 * (3 + al + be))
    x, v = np.linalg.eigh(np.diag(d) + np.diag(np.sqrt(e), 1) + np.diag(np.sqrt(e), -1))
    return x, v[0] ** 2


@lru_cache(maxsize=64)
def uniform_nodes(m):
    x, w = roots_legendre(m)
    return tuple((x + 1) / 2), tuple(w / 2)


@lru_cache(maxsize=64)
def mid_nodes(m):
    return tuple((i + .5) / m for i in range(m)), tuple([1.0 / m] * m)


@lru_cache(maxsize=64)
def normal_nodes(m):
    x, w = np.polynomial.hermite_e.hermegauss(m)
    return tuple(x), tuple(w / w.sum())


@lru_cache(maxsize=100000)
def binom_pmf(n, p):
    return tuple(math.comb(n, k) * p ** k * (1 - p) ** (n - k) for k in range(n + 1))


class LawPolicy:
    """Menus that reproduce the law of every draw exactly (for polynomial functionals)."""

    def __init__(self, m=3, u="gauss", mu=None, mn=3):
        self.m, self.u, self.mu, self.mn = m, u, mu or m, mn

    def beta(self, a, b):
        return beta_nodes(float(a), float(b), self.m)

    def uniform01(self):
        return uniform_nodes(self.mu) if self.u == "gauss" else mid_nodes(self.mu)

    def normal(self):
        return normal_nodes(self.mn)

    def gamma(self, k):
        x, w = _gamma_nodes(float(k), self.m)
        return x, w


@lru_cache(maxsize=1000)
def _gamma_nodes(k, m):
    from scipy.special import roots_genlaguerre
    x, w = roots_genlaguerre(m, k - 1.0)
    return tuple(x), tuple(w / w.sum())


class QuantilePolicy:
    """Menus of quantiles (probabilities are the menu's, not the law's): for invariants and refinement.

    The default answer (index 0) rotates through the menu with the position of the choice, so that the
    deviation-free execution is a varied one; `base` selects another rotation."""

    def __init__(self, qs=(.5, .15, .85), base=0, rotate=True):
        self.qs, self.base, self.rotate = tuple(qs), base, rotate
        self.n = 0

    def _qs(self):
        if not self.rotate:
            return self.qs
        k = _rot(self.n + 7919 * self.base) % len(self.qs)
        self.n += 1
        return self.qs[k:] + self.qs[:k]

    def _menu(self, f):
        qs = self._qs()
        return tuple(f(q) for q in qs), tuple([1 / len(qs)] * len(qs))

    def beta(self, a, b):
        return self._menu(lambda q: _beta_q(float(a), float(b), q))

    def uniform01(self):
        return self._menu(lambda q: q)

    def normal(self):
        return self._menu(_norm_q)

    def gamma(self, k):
        return self._menu(lambda q: float(gammaincinv(float(k), q)))


@lru_cache(maxsize=200000)
def _beta_q(a, b, q):
    return float(betaincinv(a, b, q))


@lru_cache(maxsize=1000)
def _norm_q(q):
    return float(ndtri(q))


def _rot(i):
    # a fixed scrambling of positions; not random, the same in every process
    i = (i * 2654435761 + 12345) & 0xFFFFFFFF
    return (i >> 13) ^ (i & 0xFF)


# ------------------------------------------------------------------ one execution
class Env:
    def __init__(self, policy, prefix=(), horizon=20000, frozen=None):
        self.frozen = frozen  # not None: every answer is a fixed, varied one (no alternatives are explored)
        self.policy, self.prefix, self.horizon = policy, tuple(prefix), horizon
        self.points = []      # (kind, number of options, chosen index)
        self.draws = []       # (kind, parameters, answer) in request order, one per scalar draw
        self.prob = 1.0

    def choose(self, kind, params, values, probs):
        i = len(self.points)
        if self.frozen is not None:
            k = _rot(i + 7919 * self.frozen) % len(values)
            values, probs = [values[k]], [1.0]
        if i >= self.horizon:
            raise Horizon("more than %d random answers in one execution" % self.horizon)
        k = 0
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= len(values):
                raise ReplayError("choice %d has only %d options" % (i, len(values)))
        self.points.append((kind, len(values), k))
        self.prob *= probs[k]
        self.draws.append((kind, params, values[k]))
        return values[k]

    def choices(self):
        return [p[2] for p in self.points]

    # scalar draws -------------------------------------------------
    def beta(self, a, b):
        a, b = float(a), float(b)
        if not (a > 0 and b > 0):
            raise ValueError("a <= 0 or b <= 0 in beta(%r, %r)" % (a, b))
        v, p = self.policy.beta(a, b)
        return self.choose("beta", (a, b), v, p)

    def u01(self, kind="uniform", params=(0.0, 1.0)):
        v, p = self.policy.uniform01()
        return self.choose(kind, params, v, p)

    def binomial(self, n, p):
        n, p = int(n), float(p)
        if n < 0 or not (0 <= p <= 1):
            raise ValueError("n < 0 or p < 0, p > 1 or p is NaN")
        pm = binom_pmf(n, p)
        opts = [(k, q) for k, q in enumerate(pm) if q > 0]
        return self.choose("binomial", (n, p), [k for k, _ in opts], [q for _, q in opts])

    def categorical(self, probs):
        probs = [float(x) for x in probs]
        if any(not (x >= 0) for x in probs) or abs(sum(probs) - 1) > 1e-6:
            raise ValueError("probabilities do not sum to 1")
        opts = [(k, q) for k, q in enumerate(probs) if q > 0]
        return self.choose("choice", tuple(probs), [k for k, _ in opts], [q for _, q in opts])

    def normal(self):
        v, p = self.policy.normal()
        return self.choose("normal", (), v, p)

    def gamma(self, k):
        if not k > 0:
            raise ValueError("shape <= 0")
        v, p = self.policy.gamma(k)
        return self.choose("gamma", (float(k),), v, p)


def _shape(size, *params):
    if size is None:
        return np.broadcast(*[np.asarray(q) for q in params]).shape if params else ()
    if np.ndim(size) == 0:
        return (int(size),)
    return tuple(int(s) for s in size)


class ChoiceGen(RealGenerator):
    """A numpy Generator whose answers come from the current execution's Env."""

    def __new__(cls, env, seed=0):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, env, seed=0):
        super().__init__(np.random.PCG64(seed))
        self.env = env
        self.requests = []     # (method, parameters) vector level

    def _fill(self, size, params, f, dtype=np.float64):
        params = [np.asarray(q) for q in params]
        shape = _shape(size, *params)
        if params:
            params = [np.broadcast_to(q, shape) for q in params]
        if shape == () and size is None:
            return dtype(f(*[q[()] for q in params]))
        out = np.empty(shape, dtype=dtype)
        for idx in np.ndindex(*shape):
            out[idx] = f(*[q[idx] for q in params])
        return out

    def beta(self, a, b, size=None):
        return self._fill(size, (a, b), self.env.beta)

    def uniform(self, low=0.0, high=1.0, size=None):
        def f(lo, hi):
            lo, hi = float(lo), float(hi)
            return lo + (hi - lo) * self.env.u01("uniform", (lo, hi))
        return self._fill(size, (low, high), f)

    def random(self, size=None, dtype=np.float64, out=None):
        r = self._fill(size, (0.0,), lambda _: self.env.u01())
        if out is not None:
            out[...] = r
            return out
        return r

    def binomial(self, n, p, size=None):
        return self._fill(size, (n, p), self.env.binomial, np.int64)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pop = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if p is not None and len(p) != len(pop):
            raise ValueError("a and p must have same size")
        if size is not None and not replace:
            left = list(range(len(pop)))
            pp = [1 / len(pop)] * len(pop) if p is None else [float(q) for q in p]
            res = []
            for _ in range(int(np.prod(size))):
                tot = sum(pp[i] for i in left)
                k = left.pop(self.env.categorical([pp[i] / tot for i in left]))
                res.append(pop[k])
            return np.array(res).reshape(size)
        probs = [1 / len(pop)] * len(pop) if p is None else p
        if size is None:
            return pop[self.env.categorical(probs)]
        shape = _shape(size)
        out = np.empty(shape, dtype=pop.dtype)
        for idx in np.ndindex(*shape):
            out[idx] = pop[self.env.categorical(probs)]
        return out

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low

        def f(lo, hi):
            hi = int(hi) + (1 if endpoint else 0)
            n = hi - int(lo)
            if n <= 0:
                raise ValueError("low >= high")
            return int(lo) + self.env.categorical([1 / n] * n)
        return self._fill(size, (low, high), f, np.int64)

    def dirichlet(self, alpha, size=None):
        alpha = [float(x) for x in np.asarray(alpha).ravel()]
        if any(not (x > 0) for x in alpha):
            raise ValueError("alpha <= 0")

        def one():
            rest, out, tot = 1.0, [], sum(alpha)
            for x in alpha[:-1]:
                tot -= x
                v = self.env.beta(x, tot)
                out.append(rest * v)
                rest *= 1 - v
            return out + [rest]
        if size is None:
            return np.array(one())
        shape = _shape(size)
        out = np.empty(shape + (len(alpha),))
        for idx in np.ndindex(*shape):
            out[idx] = one()
        return out

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self._fill(size, (0.0,), lambda _: self.env.normal())

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, (loc, scale), lambda m, s: float(m) + float(s) * self.env.normal())

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8, *, method="svd"):
        mean, cov = np.atleast_1d(np.asarray(mean, float)), np.atleast_2d(np.asarray(cov, float))
        L = np.linalg.cholesky(cov)
        shape = () if size is None else _shape(size)
        out = np.empty(shape + mean.shape)
        for idx in np.ndindex(*shape):
            out[idx] = mean + L @ np.array([self.env.normal() for _ in mean])
        return out

    def standard_gamma(self, shape, size=None, dtype=np.float64, out=None):
        return self._fill(size, (shape,), self.env.gamma)

    def gamma(self, shape, scale=1.0, size=None):
        return self._fill(size, (shape, scale), lambda k, s: float(s) * self.env.gamma(k))

    def chisquare(self, df, size=None):
        return self._fill(size, (df,), lambda d: 2 * self.env.gamma(float(d) / 2))

    def standard_exponential(self, size=None, dtype=np.float64, method="zig", out=None):
        return self._fill(size, (0.0,), lambda _: -math.log1p(-self.env.u01()))

    def exponential(self, scale=1.0, size=None):
        return self._fill(size, (scale,), lambda s: -float(s) * math.log1p(-self.env.u01()))

    def gumbel(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, (loc, scale), lambda m, s: float(m) - float(s) * math.log(-math.log(self.env.u01())))

    def permutation(self, x, axis=0):
        pop = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return self.choice(pop, size=len(pop), replace=False)

    def multinomial(self, n, pvals, size=None):
        assert size is None
        out = np.zeros(len(pvals), dtype=np.int64)
        for _ in range(int(n)):
            out[self.env.categorical(pvals)] += 1
        return out


np.random.Generator = ChoiceGen          # `type(rng) is np.random.Generator` holds for a ChoiceGen


def _patched_default_rng(seed=None):
    if isinstance(seed, RealGenerator):
        return seed
    raise AssertionError("library built its own generator while running under the model checker")


# ------------------------------------------------------------------ exploration
class Explorer:
    """Depth-first enumeration of executions.

    `run(env)` performs one execution and returns anything; every combination of menu answers is
    explored (bound=None) or every combination with at most `bound` deviations from the default."""

    def __init__(self, policy_factory, bound=None, horizon=20000, max_exec=None, vary=None):
        self.pf, self.bound, self.horizon, self.max_exec, self.vary = policy_factory, bound, horizon, max_exec, vary
        self.executions = 0
        self.choice_points = 0
        self.capped = False

    def one(self, run, prefix):
        env = Env(self.pf(), prefix, self.horizon)
        res = run(env)
        if len(env.points) < len(prefix):
            raise ReplayError("execution shorter than its prefix: nondeterminism outside the controlled generator")
        self.executions += 1
        self.choice_points += len(env.points)
        return env, res

    def executions_of(self, run):
        stack = [((), 0)]
        while stack:
            prefix, dev = stack.pop()
            if self.max_exec is not None and self.executions >= self.max_exec:
                self.capped = True
                return
            env, res = self.one(run, prefix)
            yield env, res
            if self.bound is not None and dev >= self.bound:
                continue
            ch = env.choices()
            for i in range(len(env.points) - 1, len(prefix) - 1, -1):
                if self.vary is not None and not self.vary(env, i):
                    continue
                for alt in range(env.points[i][1] - 1, 0, -1):
                    stack.append((tuple(ch[:i]) + (alt,), dev + 1))

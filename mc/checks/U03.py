"""Categorical sampler: every vector of up to three log-probabilities of a lattice (minus infinity and large offsets included), every
answer of the generator on a fine grid and at both ends of its range; law, zero-probability entries, shifts, columns and repetitions
by disjoint influence. Rejection sampler: every execution of up to four (eight, vectorised) grid answers for a family of curves.
Initial clustering: every small multiset of lattice points, every number of groups, several seeds."""
import itertools
import math
import numpy as np
from .. import env as E

LOGS = [-math.inf, 0.0, math.log(.25), -3.0, 2.0]
OFF = [0.0, 1000.0, -2500.0]


def cases(tier):
    q = tier == "quick"
    for K in (1, 2, 3):
        for off in OFF:
            for first in range(len(LOGS)):
                yield {"id": "categorical/K%d/%g/%d" % (K, off, first), "kind": "cat", "K": K, "off": off, "first": first, "M": {1: 50, 2: 60 if q else 300, 3: 16 if q else 40}[K], "cost": K * 3}
    yield {"id": "categorical/ends", "kind": "ends"}
    for K in (2, 3, 5, 12):
        for n in (3, 20, 150, 400) if q else (3, 20, 150, 400, 1200):
            yield {"id": "categorical/many/K%d/n%d" % (K, n), "kind": "many", "K": K, "n": n, "cost": K * n / 300}
    for D in (1, 2, 4):
        for k in (2, 5, 12):
            yield {"id": "clusters/wide/D%d/k%d" % (D, k), "kind": "kmwide", "D": D, "k": k, "cost": 6}
    for c in range(len(CURVES)):
        yield {"id": "rejection/%d" % c, "kind": "rej", "c": c, "M": 10 if q else 20, "cost": 4}
        yield {"id": "rejection/%d/pair" % c, "kind": "rejvec", "c": c, "M": 4 if q else 5, "cost": 8}
    for D in (1, 2):
        for n in (1, 2, 3, 4, 5) + (() if q or D == 2 else (6,)):
            yield {"id": "clusters/D%d/n%d" % (D, n), "kind": "km", "D": D, "n": n, "seeds": 2 if q else 6, "cost": n * n * D}


class Grid:
    """uniform answers on a midpoint grid up to a position, a varied one afterwards"""

    def __init__(self, M, limit=99, ends=False):
        self.M, self.limit, self.ends, self.n = M, limit, ends, 0

    def uniform01(self):
        i, self.n = self.n, self.n + 1
        if self.ends:
            return (0.0, .5, 1 - 2.0 ** -53), (1 / 3, 1 / 3, 1 / 3)
        if i >= self.limit:
            return (((i * 7 + 3) % 13 + .5) / 13,), (1.0,)
        return tuple((k + .5) / self.M for k in range(self.M)), tuple([1 / self.M] * self.M)

    def beta(self, a, b):
        raise AssertionError("not a uniform draw")
    normal = gamma = beta


def explore(M, f, limit=99, ends=False):
    ex = E.Explorer(lambda: Grid(M, limit, ends))
    return ex, ex.executions_of(lambda env: f(E.ChoiceGen(env)))


def categorical(case, ctx):
    from pyrichlet.mixture_models import _utils as U
    K, M, off = case["K"], case["M"], case["off"]
    for lp in itertools.product(LOGS, repeat=K):
        lp = np.array(lp)
        if not np.any(np.isfinite(lp)) or lp[0] != LOGS[case["first"]]:
            continue
        p = np.exp(lp - lp.max())
        p /= p.sum()
        given = lp + off
        for form, call in (("column", lambda g: U.gumbel_max_sampling(given[:, None].copy(), rng=g)), ("size", lambda g: U.gumbel_max_sampling(given.copy(), size=1, rng=g)),
                           ("vector", lambda g: U.gumbel_max_sampling(given.copy(), rng=g))):
            if form != "column" and K == 3 and lp[0] != 0.0:
                continue
            freq = np.zeros(K)
            ex, it = explore(M, call)
            for env, r in it:
                r = int(np.ravel(r)[0])
                if not ctx.check(0 <= r < K and p[r] > 0, "support", lambda: "log-probabilities %s, answers %s: index %d" % (given, [d[2] for d in env.draws], r)):
                    return
                freq[r] += env.prob
                ctx.ops += 1
            ctx.execs += ex.executions
            tol = {1: 1e-9, 2: 1.1 / M, 3: 1.1 / M}[K]
            ctx.check(np.allclose(freq, p, atol=tol), "law", lambda: "log-probabilities %s (%s): frequencies %s over all answers, expected %s" % (given, form, freq, p))
            ctx.state(K, off, form, np.round(freq, 6).tolist())
    # columns and repetitions: disjoint influence and equal treatment
    for lp in ([0.0, -1.0], [0.0, -math.inf, 1.0], [-2.0, 0.0, 0.0]) if case["first"] == 1 and K == 1 else ():
        a = np.array(lp) + off
        b = a[::-1]
        for name, call, law in (("columns", lambda g: U.gumbel_max_sampling(np.column_stack([a, b]), rng=g), [a, b]), ("repetitions", lambda g: U.gumbel_max_sampling(a, size=2, rng=g), [a, a])):
            m = 8 if len(a) == 2 else 4
            joint = {}
            ex, it = explore(m, call)
            for env, r in it:
                ctx.check(np.shape(r) == (2,), "shape", lambda: "%s: %s" % (name, r))
                joint[tuple(int(x) for x in r)] = joint.get(tuple(int(x) for x in r), 0) + env.prob
                ctx.ops += 1
            ctx.execs += ex.executions
            marg = [{j: sum(v for k, v in joint.items() if k[q] == j) for j in range(len(a))} for q in (0, 1)]
            bad = [(k, v) for k, v in itertools.chain(joint.items()) if abs(v - marg[0][k[0]] * marg[1][k[1]]) > 1e-9]
            ctx.check(not bad, "independent", lambda: "%s of %s are dependent: joint %s" % (name, a, joint))
            for q in (0, 1):
                pq = np.exp(law[q] - law[q].max())
                pq /= pq.sum()
                ctx.check(all(abs(marg[q][j] - pq[j]) < 1.2 / m + .02 for j in range(len(a))) and all(marg[q][j] == 0 for j in range(len(a)) if pq[j] == 0), "law", lambda: "%s of %s: marginal %d is %s" % (name, a, q, marg[q]))


class Deviate:
    """a varied answer, or one near either end"""

    def __init__(self):
        self.n = 0

    def uniform01(self):
        self.n += 1
        return (((self.n * 29 + 11) % 61 + .5) / 61, 1e-9, 1 - 1e-9), (1 / 3, 1 / 3, 1 / 3)

    def beta(self, a, b):
        raise AssertionError("not a uniform draw")
    normal = gamma = beta


def many(case, ctx):
    """many columns or repetitions: every execution with at most one deviating answer; each answer decides one index at most"""
    from pyrichlet.mixture_models import _utils as U
    K, n = case["K"], case["n"]
    a = np.log(1.0 + (np.arange(K) * 5) % 7)
    A = np.array([np.roll(a, j) for j in range(n)]).T
    for name, call in (("columns", lambda g: U.gumbel_max_sampling(A.copy(), rng=g)), ("repetitions", lambda g: U.gumbel_max_sampling(a.copy(), size=n, rng=g))):
        ex = E.Explorer(Deviate, bound=1, vary=lambda env, i: n * K < 400 or i % (1 + n * K // 400) == 0 or i < 40 or i > len(env.points) - 40)
        first, owner, tried = None, {}, set()
        for env, r in ex.executions_of(lambda env: np.asarray(call(E.ChoiceGen(env)))):
            ctx.ops += 1
            if not ctx.check(r.shape == (n,) and np.all((r >= 0) & (r < K)), "shape", lambda: "%d %s: %s" % (n, name, r)):
                return
            if first is None:
                first = r
                continue
            t = next(i for i, p in enumerate(env.points) if p[2])
            tried.add(t)
            owner.setdefault(t, set()).update(np.flatnonzero(r != first).tolist())
        ctx.execs += ex.executions
        wide = [t for t in owner if len(owner[t]) > 1]
        ctx.check(not wide, "independent", lambda: "%d %s of %s: one answer decides results %s" % (n, name, a, sorted(owner[wide[0]])[:6]))
        own = {q for v in owner.values() for q in v}
        ctx.check(n * K >= 400 or own == set(range(n)), "independent", lambda: "%d %s: results %s are decided by no answer" % (n, name, sorted(set(range(n)) - own)[:6]))
        ctx.state(K, n, name, len(owner))
    ctx.sample({"categories": K, "results": n})


def clusters_wide(case, ctx):
    """many observations: the labels are the partition found, by decreasing size"""
    from pyrichlet.mixture_models import _utils as U
    from sklearn.cluster import KMeans
    from ..fit import _grid
    D, k = case["D"], case["k"]
    found = []
    orig = KMeans.fit

    def fit(self, *a, **kw):
        r = orig(self, *a, **kw)
        found.append(np.array(self.labels_))
        return r
    KMeans.fit = fit
    try:
        for n in (k, 30, 120, 1500):
            for scale in (1., 1e4):
                y = _grid(n, D, scale, 3., max(2, k - 1))
                for s in range(2):
                    del found[:]
                    keep = y.copy()
                    d = np.asarray(U.kmeans_cluster_size_biased(y, k, E.RealGenerator(np.random.PCG64(s))))
                    ctx.ops += 1
                    what = "%d points in %d dimensions, %d groups: %s.." % (n, D, k, d[:12].tolist())
                    if not ctx.check(d.shape == (n,) and np.issubdtype(d.dtype, np.integer), "shape", lambda: what):
                        return
                    m = len(set(d.tolist()))
                    size = np.bincount(d) if d.min() >= 0 else []
                    ctx.check(set(d.tolist()) == set(range(m)) and list(size) == sorted(size, reverse=True), "labels", lambda: "%s are not 0..m-1 by decreasing size %s" % (what, list(size)))
                    ctx.check(m <= k, "groups", lambda: "%s: %d groups" % (what, m))
                    if found:
                        same = lambda v: np.equal.outer(v, v)
                        ctx.check(any(np.array_equal(same(d), same(v)) for v in found), "partition", lambda: "%s is not the partition found" % what)
                    ctx.check(np.array_equal(y, keep), "arguments", lambda: "%s modified the points" % what)
                    ctx.state(D, n, k, s, scale)
                    ctx.execs += 1
    finally:
        KMeans.fit = orig
    ctx.sample({"last": what})


def ends(ctx):
    """the ends of the generator's range"""
    from pyrichlet.mixture_models import _utils as U
    for K in (1, 2, 3):
        for lp in itertools.product(LOGS, repeat=K):
            lp = np.array(lp)
            if not np.any(np.isfinite(lp)):
                continue
            for call in (lambda g: U.gumbel_max_sampling(lp[:, None].copy(), rng=g), lambda g: U.gumbel_max_sampling(lp.copy(), size=1, rng=g)):
                ex, it = explore(3, call, ends=True)
                for env, r in it:
                    r = int(np.ravel(r)[0])
                    ctx.ops += 1
                    ctx.check(0 <= r < K and lp[r] > -math.inf, "support", lambda: "log-probabilities %s, answers %s: index %d of probability zero" % (lp, [d[2] for d in env.draws], r))
                ctx.execs += ex.executions
                ctx.state(K, tuple(lp))


# (curve, bound, interval)
CURVES = [(lambda x: 2 * x, 2.0, (0, 1)), (lambda x: np.where(np.asarray(x) < .5, 1.0, .25), 1.0, (0, 1)), (lambda x: 6 * x * (1 - x), 2.0, (0, 1)), (lambda x: np.abs(np.asarray(x) - 3.0) / 2, 1.0, (2.0, 5.0)),
          (lambda x: np.where((np.asarray(x) > -1.5) & (np.asarray(x) < -1.25), 3.0, 0.5), 4.0, (-2, -1)), (lambda x: np.ones_like(np.asarray(x, float)), 1.0, (0, 1))]


def rejection(case, ctx, size=None):
    """law of the result given that it was found within the answers explored"""
    from pyrichlet.mixture_models import _utils as U
    f, top, (a, b) = CURVES[case["c"]]
    M = case["M"]
    limit = 4 if size is None else 8
    law = {}
    tot = 0.0
    ex, it = explore(M, lambda g: U.rejection_sample(f, top, a=a, b=b, size=size, rng=g) if (a, b) != (0, 1) else U.rejection_sample(f, top, size=size, rng=g), limit)
    for env, x in it:
        ctx.ops += 1
        x = np.atleast_1d(np.asarray(x, float))
        if not ctx.check(x.shape == (size or 1,) and np.all((x >= a) & (x <= b)) and np.all(f(x) > 0), "support", lambda: "curve %d: returned %s" % (case["c"], x)):
            return
        if len(env.points) > limit:
            continue
        key = tuple(np.round((x - a) / (b - a) * M - .5, 6).tolist())
        law[key] = law.get(key, 0) + env.prob
        tot += env.prob
    ctx.execs += ex.executions
    g = a + (np.arange(M) + .5) / M * (b - a)
    acc = np.array([np.mean((np.arange(M) + .5) / M * top <= f(x)) for x in g])
    acc /= acc.sum()
    ctx.check(tot > .05, "finished", lambda: "curve %d: only %r of the executions end within %d answers" % (case["c"], tot, limit))
    for key in set(law) | set(itertools.product(range(M), repeat=size or 1)):
        k = [int(v) for v in key]
        want = np.prod(acc[k]) if all(abs(v - round(v)) < 1e-6 and 0 <= v < M for v in key) else 0.0
        if not ctx.check(abs(law.get(tuple(float(v) for v in key), 0) / tot - want) < 1e-9, "law", lambda: "curve %d on %s: grid point %s has probability %r among finished executions, target curve gives %r" % (
                case["c"], (a, b), key, law.get(tuple(float(v) for v in key), 0) / tot, want)):
            return
        ctx.state(case["c"], size, key)
    ctx.sample({"curve": case["c"], "finished": tot, "executions": ex.executions})


def clusters(case, ctx):
    from pyrichlet.mixture_models import _utils as U
    from sklearn.cluster import KMeans
    D, n = case["D"], case["n"]
    lat = [(0.,), (1.,), (3.,), (10.,)] if D == 1 else [(0., 0.), (1., 0.), (4., 5.)]
    found = []
    orig = KMeans.fit

    def fit(self, *a, **k):
        r = orig(self, *a, **k)
        found.append(np.array(self.labels_))
        return r
    KMeans.fit = fit
    try:
        for pts in itertools.combinations_with_replacement(lat, n):
            orders = sorted(set(itertools.permutations(pts)))
            for order in {orders[0], orders[len(orders) // 2], orders[-1]}:
                y = np.array(order).reshape(n, D)
                for k in range(1, n + 1):
                    for s in range(case["seeds"]):
                        del found[:]
                        keep = y.copy()
                        d = U.kmeans_cluster_size_biased(y, k, E.RealGenerator(np.random.PCG64(s)))
                        ctx.ops += 1
                        what = "points %s, %d groups, seed %d: %s" % (y.tolist(), k, s, np.asarray(d).tolist())
                        d = np.asarray(d)
                        if not ctx.check(d.shape == (n,) and np.issubdtype(d.dtype, np.integer), "shape", lambda: what):
                            return
                        m = len(set(d.tolist()))
                        size = np.bincount(d) if d.min() >= 0 else []
                        ctx.check(set(d.tolist()) == set(range(m)) and list(size) == sorted(size, reverse=True), "labels", lambda: "%s are not 0..m-1 by decreasing size" % what)
                        ctx.check(m <= k and m == min(k, len(set(pts))), "groups", lambda: "%s: %d groups" % (what, m))
                        ctx.check(np.array_equal(y, keep), "arguments", lambda: "%s modified the points" % what)
                        if found:
                            same = lambda v: np.equal.outer(v, v)
                            ctx.check(any(np.array_equal(same(d), same(v)) for v in found), "partition", lambda: "%s is not the partition found, %s" % (what, found[-1].tolist()))
                        mu = np.array([y[d == j].mean(0) for j in range(m)])
                        dist = ((y[:, None] - mu) ** 2).sum(2)
                        ctx.check(np.all(dist[np.arange(n), d] <= dist.min(1) + 1e-9), "partition", lambda: "%s: an observation is nearer to another group's mean" % what)
                        ctx.state(D, n, pts, k, tuple(d.tolist()))
            ctx.execs += 1
    finally:
        KMeans.fit = orig
    ctx.sample({"last": what})


def execute(case, ctx):
    k = case["kind"]
    if k == "cat":
        categorical(case, ctx)
    elif k == "ends":
        ends(ctx)
    elif k == "many":
        many(case, ctx)
    elif k == "kmwide":
        clusters_wide(case, ctx)
    elif k == "km":
        clusters(case, ctx)
    else:
        rejection(case, ctx, None if k == "rej" else 2)

"""Posterior invariance of redraws for the latent-variable weighting models, by exact enumeration: start states
are prior draws (every answer, with its probability) re-weighted by the likelihood of the assignments, and the
moments of the weights must be the same before and after one fitted redraw.  Besides: the latent configurations
reachable in one redraw cover the support, sticks given the public latents follow their Beta law, the inner
probability of Beta-in-Beta follows its conditional, and redraws succeed after every enumerated history."""
import itertools, math
import numpy as np
from scipy import stats, integrate
from .. import env as E, models as M

ASSUMPTIONS = ["Gauss-Jacobi quadrature of stated order for smooth non-polynomial kernels (tolerance stated per model)"]


class Phases:
    """LawPolicy with its own number of nodes before and after the fitted redraw starts, optionally per draw"""

    def __init__(self, start, kernel, mu=8):
        self.start, self.kernel, self.mu = start, kernel, mu
        self.phase, self.i = 0, 0

    def beta(self, a, b):
        ms = self.kernel if self.phase else self.start
        m = ms if isinstance(ms, int) else ms[min(self.i, len(ms) - 1)]
        self.i += 1
        return E.beta_nodes(float(a), float(b), m)

    def uniform01(self):
        return E.uniform_nodes(self.mu)


def lik(w, d):
    r = 1.0
    for x in d:
        r *= w[x]
    return r


DS = {2: [[1], [0, 1], [0, 1, 1], [1, 0, 0, 1]], 3: [[2], [0, 2], [2, 1, 0], [0, 2, 2, 1]], 1: [[0], [0, 0, 0]]}


def cases(tier):
    full = tier != "quick"
    for sid in ("bern-p0.5-1", "bern-p0.25-2", "bern-p0.9-0.5"):
        for K in (2, 3):
            for d in DS[K]:
                deg = sum(x + 1 for x in d)
                start = (deg // 2 + 1, deg // 2 + 1, max(len(d), sum(d)) // 2 + 1)
                for extra in (0, 1) if K == 2 or full else (0,):
                    yield {"id": "inv/%s/%s/+%d" % (sid, d, extra), "kind": "inv", "spec": sid, "d": d, "S": K + extra,
                           "start": start, "kern": (K + 1, K + 1, 3, 2), "deg": 2, "tol": 1e-9, "size": None, "cost": 20 * K * deg}
                if deg <= 6 or full:
                  yield {"id": "inv/%s/%s/size" % (sid, d), "kind": "inv", "spec": sid, "d": d, "S": K, "start": start,
                       "kern": ((K + 1) // 2 + 1), "deg": 1, "tol": 1e-9, "size": K + 1, "cost": 20 * K * deg}
    for sid, Ms, tol in (("binm-1-1", 8, 1e-5), ("binm-2-0.5", 7, 1e-4), ("binm-3-2", 5, 2e-4)):
        for d in DS[2]:
            yield {"id": "inv/%s/%s" % (sid, d), "kind": "inv", "spec": sid, "d": d, "S": 2, "start": (2, Ms, Ms), "kern": 2, "deg": 2, "tol": tol,
                   "size": None, "cost": 300}
        for d in DS[1]:
            yield {"id": "inv/%s/%s" % (sid, d), "kind": "inv", "spec": sid, "d": d, "S": 1, "start": (2, Ms), "kern": 3, "deg": 3, "tol": tol, "size": 2, "cost": 30}
        if sid == "binm-1-1" or full:
            for d in DS[3][2:]:
                yield {"id": "inv/%s/%s" % (sid, d), "kind": "inv", "spec": sid, "d": d, "S": 3, "start": (2, 5, 5, 5), "kern": 1, "deg": 1, "tol": 1e-3,
                       "size": None, "cost": 400}
    for sid in ("bid-1-1", "bid-0.5-2", "bid-3-0.5"):
        for d in DS[2] if full else DS[2][:3]:
            yield {"id": "inv/%s/%s" % (sid, d), "kind": "inv", "spec": sid, "d": d, "S": 2, "start": sum(x + 1 for x in d) // 2 + 1,
                   "kern": (8, 6, 6) if full else (5, 4, 5) if len(d) < 3 else (4, 4, 4), "deg": 2, "tol": 4e-4 if full else 6e-4, "size": None, "cost": 300}
        # more sticks drawn than the fitted assignments cover
        for d in DS[2][:2] if full or sid == "bid-1-1" else []:
            m = sum(x + 1 for x in d) // 2 + 1
            yield {"id": "inv/%s/%s/+1" % (sid, d), "kind": "inv", "spec": sid, "d": d, "S": 3, "start": (m, m, 1),
                   "kern": (8, 6, 6) if full else (5, 4, 5), "deg": 2, "tol": 4e-4 if full else 6e-4, "size": None, "cost": 900}
        for d in DS[3][:3] if full else DS[3][:1] if sid == "bid-1-1" else []:
            yield {"id": "inv/%s/%s" % (sid, d), "kind": "inv", "spec": sid, "d": d, "S": 3, "start": (sum(x + 1 for x in d) // 2 + 1, 2, 2),
                   "kern": (7, 4, 3, 2) if full else (5, 2, 2, 2), "deg": 1, "tol": 5e-3 if full else 1e-2, "size": None, "cost": 500}
    for sid, s in M.ZOO.items():
        if s.latent and not s.slow:
            yield {"id": "ok/" + sid, "kind": "ok", "spec": sid, "cost": 100}
        elif s.slow:
            yield {"id": "ok/" + sid, "kind": "ok", "spec": sid, "cost": 400}
        if s.latent and s.cls in ("BetaInBeta", "BetaBernoulli", "BetaBinomial"):
            yield {"id": "cond/" + sid, "kind": "cond", "spec": sid, "cost": 150}
        if s.kw.get("p_method") == "inverse-sampling":
            for i, d in enumerate(PD):
                yield {"id": "plaw/%s/%d" % (sid, i), "kind": "plaw", "spec": sid, "d": d, "n": 16 if tier == "quick" else 64, "cost": 300}
        if s.latent and not s.slow:
            for i, d in enumerate(ED):
                yield {"id": "ext/%s/%d" % (sid, i), "kind": "ext", "spec": sid, "d": d, "cost": 40}
    yield {"id": "ok/rejection-sampling", "kind": "rejection"}


PD = [[0], [1, 0, 2], [0, 0, 3, 1, 1], [5], [0, 3, 3, 11]]


def execute(case, ctx):
    globals()[case["kind"]](case, ctx)


def inv(case, ctx):
    s, d, S, size = M.ZOO[case["spec"]], case["d"], case["S"], case["size"]
    K = max(max(d) + 1, size or 0, 1)
    Kd = max(d) + 1
    mons = np.array(M.monomials(K, case["deg"]))
    z = 0.0
    after = np.zeros(len(mons))
    before = np.zeros(len(mons))
    cover = {}
    # before: posterior moments by reference program (prior re-weighted by the likelihood)
    for env, w in E.Explorer(lambda: E.LawPolicy(m=len(d) * Kd // 2 + case["deg"] * K // 2 + 1)).executions_of(lambda env: np.array(s.law(env, [], K))):
        L = env.prob * lik(w, d)
        z += L
        before += L * np.prod(w[None, :] ** mons, axis=1)
    before /= z
    pol = None

    def make():
        nonlocal pol
        pol = Phases(case["start"], case["kern"])
        return pol

    def run(env):
        m = s.make(E.ChoiceGen(env))
        w0 = np.array(m.random(S))
        if len(w0) != S:
            raise AssertionError("random(%d) drew %d weights" % (S, len(w0)))
        L = lik(w0, d)
        env.policy.phase, env.policy.i = 1, 0
        m.fit(d)
        w = np.array(m.random() if size is None else m.random(size))
        return w0, L, w
    za = 0.0
    ex = E.Explorer(make, max_exec=3000000)
    for env, (w0, L, w) in ex.executions_of(run):
        za += env.prob * L
        if not ctx.check(len(w) >= K, "length", lambda: "%d weights for %s" % (len(w), d)):
            return
        w = w[:K]
        after += env.prob * L * np.prod(w[None, :] ** mons, axis=1)
        a, b = pattern(w0[:Kd]), pattern(w[:Kd])
        cover.setdefault(a, set()).add(b)
    ctx.execs += ex.executions
    ctx.ops += ex.executions
    ctx.check(not ex.capped, "capped", "enumeration capped")
    ctx.check(abs(za / z - 1) < 1e-8, "start", lambda: "prior likelihood of %s: library %.12g, reference %.12g" % (d, za, z))
    after /= za
    err = np.abs(after - before)
    ctx.extra["max_error_e9"] = int(1e9 * err.max())
    ctx.check(err.max() < case["tol"], "invariance", lambda: "%s given %s: E[prod w^%s] = %.8g under the posterior but %.8g after one redraw from it" % (
        s.id, d, list(mons[err.argmax()]), before[err.argmax()], after[err.argmax()]))
    for x in after:
        ctx.state(s.id, tuple(d), round(float(x), 8))
    if s.cls in ("BetaBernoulli", "BetaInDirichlet"):
        allp = set().union(*cover.values()) | set(cover)
        for a, bs in cover.items():
            ctx.check(bs >= allp, "stuck", lambda: "from sticks grouped %s a redraw only reaches %s of %s" % (a, sorted(bs), sorted(allp)))
    ctx.sample({"d": d, "after": [float(x) for x in after[:3]], "posterior": [float(x) for x in before[:3]]})


def pattern(w):
    """adjacent sticks equal or not (separate sticks may take the same menu value by chance)"""
    rest, v = 1.0, []
    for x in w:
        v.append(x / rest)
        rest -= x
    return tuple(int(abs(v[i] - v[i - 1]) > 1e-9) for i in range(1, len(v)))


def sticks_of(w):
    rest, v = 1.0, []
    for x in w:
        v.append(x / rest)
        rest -= x
    return v


HIST = [[0], [2], [0, 3, 3], [1] * 30 + [4] * 20, [0] * 40, [9], [6, 0, 6, 0, 2]]


DEEP = list(itertools.product((0, 1, 2, 5, 6), repeat=2))


ED = [[0], [0, 0, 1], [2, 0, 2], [1, 3, 3]]


def onward(s, v, p):
    """reference program: the next sticks given the ones present (and the inner probability)"""
    al = s.kw["alpha"]

    def prog(env, _, K):
        u = list(v)
        if s.cls == "BetaInDirichlet":
            tables, cnt = [], []
            for x in u:
                j = next((j for j, t in enumerate(tables) if abs(t - x) < 1e-9), len(tables))
                if j == len(tables):
                    tables.append(x)
                    cnt.append(0)
                cnt[j] += 1
        while len(u) < K:
            if s.cls == "BetaInDirichlet":
                tot = len(u) + s.kw["a"]
                j = env.categorical([c / tot for c in cnt] + [s.kw["a"] / tot])
                if j == len(tables):
                    tables.append(env.beta(1, al))
                    cnt.append(0)
                cnt[j] += 1
                u.append(tables[j])
            elif s.cls == "BetaBernoulli":
                u.append(env.beta(1, al) if env.binomial(1, s.kw["p"]) else u[-1])
            elif s.cls == "BetaBinomial":
                x = env.binomial(s.kw["n"], u[-1])
                u.append(env.beta(1 + x, al + s.kw["n"] - x))
            else:
                c = s.kw["x"] / (1 - s.kw["x"])
                u.append(env.beta(1 + c * p, al + c * (1 - p)))
        return np.array(M.sticks(u))
    return prog


def ext(case, ctx):
    """sticks beyond the fitted groups, given the fitted ones, follow the prior's continuation: exact moments of up to three
    further weights, by every route that extends, from several states of the fitted structure"""
    s, d = M.ZOO[case["spec"]], case["d"]
    n = max(d) + 1
    for base in range(4 if s.cls != "BetaBinomial" else 2):
        for routes in ([[n + 3]], [[n + 1, n + 3]], [[n + 1], [n + 2], [n + 3]], "loglik"):
            def start():
                gen = E.ChoiceGen(E.Env(E.QuantilePolicy(qs=(.5, .2, .8, .35), rotate=True), frozen=base))
                m = s.make(gen)
                m.random(2 + base % 2)
                m.fit(d)
                m.random()
                return m, gen
            m, _ = start()
            w0 = np.array(m.get_weights())
            p = float(m.p) if s.cls == "BetaInBeta" else None
            K = max(n + 3, len(w0) + 1)

            def lib(env):
                m, gen = start()
                if not np.array_equal(w0, m.get_weights()):
                    raise AssertionError("equal answers gave different weights")
                gen.env = env
                if routes == "loglik":
                    m.assignation_log_likelihood(d + [K - 1])
                else:
                    for r in routes:
                        m.complete(max(r))
                m.complete(K)
                return m.get_weights()[:K]
            pol = E.LawPolicy(m=3)
            got, mons, ex = M.moments(lib, K, 2, pol, max_exec=60000)
            want, _, _ = M.moments(lambda env: onward(s, sticks_of(w0), p)(env, None, K), K, 2, pol, max_exec=60000)
            ctx.execs += ex.executions
            ctx.ops += len(mons)
            err = np.abs(got - want)
            ctx.check(err.max() < 1e-9, "continuation", lambda: "%s fit %s sticks %s: extended via %s E[prod w^%s] = %.9g, the prior's continuation gives %.9g" % (
                s.id, d, np.round(sticks_of(w0), 4), routes, list(mons[err.argmax()]), got[err.argmax()], want[err.argmax()]))
            ctx.state(s.id, tuple(d), base, tuple(np.round(want, 9)))
            if len(ctx.viol) > 4:
                return
    ctx.sample({"d": d, "weights": [float(x) for x in w0]})


def ok(case, ctx):
    """fit/redraw histories never fail and give valid weights covering the assignments"""
    s = M.ZOO[case["spec"]]
    depth2 = list(itertools.product(range(len(HIST)), repeat=2))
    for i, j in depth2 if not s.slow else depth2[::5]:
        for mode in range(3) if not s.slow else (i % 3,):
            def run(env):
                m = s.make(E.ChoiceGen(env))
                if mode == 1:
                    m.random(2)
                    m.tail(.7)
                if mode == 2:
                    m.complete(5)
                for k in (i, j):
                    m.fit(HIST[k] if mode != 1 else np.array(HIST[k]))
                    w = m.random() if mode != 2 else m.random(max(HIST[k]) + 1)
                    ctx.ops += 1
                    if not ctx.check(np.ndim(w) == 1 and len(w) > max(HIST[k]) and np.all(np.isfinite(w)) and np.all(w >= 0) and w.sum() <= 1 + 1e-9, "redraw",
                                     lambda: "fit %s after %s: weights %r" % (HIST[k][:8], HIST[i][:8], w)):
                        return
                    m.tail(.9)
                ctx.state(s.id, i, j, mode, np.round(m.get_weights(), 6).tobytes())
            ex = E.Explorer(lambda: E.QuantilePolicy(qs=(.5, .2, .8, .01, .99), base=mode), bound=0 if s.slow else 1 if TIERF or (i, j) in DEEP else 0)
            for _ in ex.executions_of(run):
                ctx.execs += 1
                if len(ctx.viol) > 4:
                    return
    ctx.sample({"histories": len(depth2) if not s.slow else len(depth2[::5])})


from ..core import TIER
TIERF = TIER != "quick"


def rejection(case, ctx):
    m = M.Spec("r", "BetaInBeta", dict(x=.5, p_method="rejection-sampling"), None).make(E.ChoiceGen(E.Env(E.QuantilePolicy())))
    m.fit([0, 1])
    ctx.execs += 1
    try:
        w = m.random()
        ctx.check(len(w) >= 2, "rejection-sampling", "weights %r" % w)
    except Exception as e:
        ctx.fail("rejection-sampling", "BetaInBeta(x=0.5, p_method='rejection-sampling').fit([0, 1]).random() raises %s: %s" % (type(e).__name__, e))


def cond(case, ctx):
    """sticks given the public latents: exact conditional Beta law, per latent configuration seen"""
    s = M.ZOO[case["spec"]]
    K = 2
    for d in ([0], [1], [0, 1], [1, 1, 0]) if not s.slow else ([1, 0],):
        n, t = M.counts(d, K), M.tails(d, K)
        Kd = max(d) + 1

        def run(env):
            m = s.make(E.ChoiceGen(env))
            env.policy.phase = 1
            m.random(K)
            env.policy.phase, env.policy.i = 0, 0
            m.fit(d)
            w = np.array(m.random())
            return latent(s, m, Kd), sticks_of(w[:Kd])
        groups = {}
        pol = lambda: Phases(3, 1, mu=3) if s.cls != "BetaBinomial" else Phases(3, 1)
        for env, (lat, v) in E.Explorer(pol).executions_of(run):
            g = groups.setdefault(lat, [0.0, {}])
            g[0] += env.prob
            for e in itertools.product(range(3), repeat=Kd):
                g[1][e] = g[1].get(e, 0.0) + env.prob * np.prod([x ** k for x, k in zip(v, e)])
            ctx.execs += 1
        for lat, (z, mom) in groups.items():
            for e, got in mom.items():
                want = reference(s, lat, n, t, e, Kd)
                ctx.ops += 1
                ctx.check(abs(got / z - want) < 1e-8, "conditional", lambda: "%s fit %s: given latents %s E[prod v^%s] = %.9g, should be %.9g" % (s.id, d, lat, e, got / z, want))
            ctx.state(s.id, tuple(d), lat)
    ctx.sample({"latent configurations": len(groups)})


def latent(s, m, Kd):
    if s.cls == "BetaInBeta":
        return (round(float(m.p), 12),)
    if s.cls == "BetaBernoulli":
        return (1,) + tuple(int(x) for x in m.bernoullis[1:Kd])
    return tuple(int(x) for x in m.binomials[:Kd])


def bmom(a, b, k):
    r = 1.0
    for i in range(k):
        r *= (a + i) / (a + b + i)
    return r


def reference(s, lat, n, t, e, Kd):
    al = s.kw["alpha"]
    if s.cls == "BetaInBeta":
        c = s.kw["x"] / (1 - s.kw["x"])
        return np.prod([bmom(1 + c * lat[0] + n[j], al + c * (1 - lat[0]) + t[j], e[j]) for j in range(Kd)])
    if s.cls == "BetaBernoulli":
        r, j = 1.0, 0
        while j < Kd:
            k = j + 1
            while k < Kd and not lat[k]:
                k += 1
            r *= bmom(1 + sum(n[j:k]), al + sum(t[j:k]), sum(e[j:k]))
            j = k
        return r
    N = s.kw["n"]
    r = 1.0
    for j in range(Kd):
        a, b = 1 + n[j] + lat[j], al + t[j] + N - lat[j]
        if j + 1 < Kd:
            a, b = a + lat[j + 1], b + N - lat[j + 1]
        r *= bmom(a, b, e[j])
    return r


def plaw(case, ctx):
    """law of the inner probability given the sticks: the n equally spaced uniforms give n equally spaced quantiles"""
    s, d, n = M.ZOO[case["spec"]], case["d"], case["n"]
    x, al, a, b = (s.kw[k] for k in ("x", "alpha", "a", "b"))
    c = x / (1 - x)

    class Pol(Phases):
        def uniform01(self):
            return E.mid_nodes(n)
    starts = {}
    S = max(d) + 1

    class Start(Pol):
        def beta(self, A, B):
            self.i += 1
            q = ((.5,), (.2,), (.7,), (.1,), (.9,), (.4,))[(self.i + self.base) % 6] if not self.phase else (.5,)
            return (E._beta_q(float(A), float(B), q[0]),), (1.0,)
    for base in range(3):
        out = []

        def run(env):
            m = s.make(E.ChoiceGen(env))
            w = np.array(m.random(S))
            v = sticks_of(w)
            env.policy.phase = 1
            m.fit(d)
            m.random()
            return v, float(m.p)

        def mk():
            p = Start(1, 1)
            p.base = base
            return p
        for env, (v, p) in E.Explorer(mk).executions_of(run):
            out.append(p)
            ctx.execs += 1
        f = lambda p: stats.beta.pdf(p, a, b) * np.prod(stats.beta.pdf(v, 1 + c * p, al + c * (1 - p)))
        z = integrate.quad(f, 0, 1, epsabs=1e-12)[0]
        F = np.array([integrate.quad(f, 0, p, epsabs=1e-12)[0] / z for p in sorted(out)])
        dist = max(np.max(np.abs(F - np.arange(1, len(F) + 1) / len(F))), np.max(np.abs(F - np.arange(len(F)) / len(F))))
        ctx.ops += len(out)
        if len(out) == n:
            # one answer per draw: the quantiles themselves are equally spaced
            off = np.max(np.abs(F - (np.arange(n) + .5) / n))
            ctx.check(off < 1e-4, "inner-quantile", lambda: "%s sticks %s: equally spaced answers give quantiles %s of the conditional law" % (s.id, v, F))
        ctx.check(len(out) >= n and dist < 1.2 / n, "inner-law", lambda: "%s sticks %s: %d answers give p with Kolmogorov distance %.3f from its conditional law" % (s.id, v, len(out), dist))
        ctx.state(s.id, tuple(d), base, tuple(np.round(out, 6)))
    ctx.sample({"d": d, "p": sorted(out)[:4]})

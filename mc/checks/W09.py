"""Structure log-likelihood against an independent log density of the drawn structure (sticks and latents read from the
model's documented attributes), after every enumerated history and answer sequence within the deviation bound."""
import itertools, math
import numpy as np
from math import lgamma, log
from .. import env as E, models as M
from .W01 import apply

SIDS = [sid for sid in M.ZOO]


class Pol(E.QuantilePolicy):
    """distinct sticks get distinct values: the quantile depends on the position"""

    def _menu(self, f):
        k = E._rot(self.n + 7919 * self.base) % 3
        q = (.5, .22, .77)
        q = q[k:] + q[:k] + (.03, .96)
        eps = 1e-3 * ((self.n * 0.6180339887) % 1)
        self.n += 1
        return tuple(f(x + eps) for x in q), tuple([.2] * 5)


class Same(Pol):
    """every stick at the same quantile: sticks that are exactly equal are still separate draws"""

    def _menu(self, f):
        k = self.base % 3
        q = (.5, .22, .77)
        q = q[k:] + q[:k] + (.03, .96)
        return tuple(f(x) for x in q), tuple([.2] * 5)


def alphabet(s):
    top = (s.maxd or 5) - 1
    t = lambda x: min(x, 1 - s.kw.get("pyd", 0))   # heavy tails need very many sticks
    g = lambda *d: [min(x, top) for x in d]
    A = [[("random", 1)], [("random", 2)], [("random", 4)], [("complete", 1)], [("complete", 3)], [("random", 1), ("complete", 3)], [("complete", 2), ("complete", 4)],
         [("random", 2), ("tail", t(.7))], [("tail", t(.8))], [("random", 3), ("random", 2)]]
    for d in ([0], [1, 0, 1], [2, 0], [0, 0, 3]):
        A += [[("fit", g(*d)), ("random", None)], [("random", 2), ("fit", g(*d)), ("random", None), ("complete", 5)],
              [("fit", g(*d)), ("random", 2), ("tail", t(.9))], [("fit", g(*d)), ("random", None), ("fit", g(1, 1)), ("random", None)], [("fit", g(*d)), ("random", None), ("reset",), ("random", 2)]]
    return A


def cases(tier):
    for sid in SIDS:
        yield {"id": sid, "spec": sid, "bound": 1 if tier == "quick" else 2, "cost": 30 if M.ZOO[sid].slow else 5}
    for sid in SIDS:
        if not M.ZOO[sid].finite:
            yield {"id": sid + "/large", "spec": sid, "large": [300, 2000] if tier == "quick" else [300, 2000, 6000], "cost": 10}


def lbeta(v, a, b):
    if not 0 < v < 1:
        return None
    return lgamma(a + b) - lgamma(a) - lgamma(b) + (a - 1) * log(v) + (b - 1) * math.log1p(-v)


def lbin(x, n, p):
    return lgamma(n + 1) - lgamma(x + 1) - lgamma(n - x + 1) + x * log(p) + (n - x) * math.log1p(-p)


def xlog(k, p):
    return 0.0 if k == 0 else k * log(p) if p > 0 else -math.inf


def reference(s, m):
    """log prior density of the structure the model holds; None where the density is not defined (a stick at 0 or 1)"""
    kw = s.kw
    if s.cls in ("EqualWeighting", "FrequencyWeighting"):
        return 0.0
    w = [float(x) for x in m.get_weights()]
    if s.cls == "DirichletDistribution":
        a = kw["alpha"]
        a = [float(x) for x in a] if np.ndim(a) else [float(a)] * kw["n"]
        if any(x <= 0 for x in w):
            return None
        return lgamma(sum(a)) - sum(lgamma(x) for x in a) + sum((x - 1) * log(y) for x, y in zip(a, w))
    v = [float(x) for x in m.v]
    if len(v) != len(w) or not np.allclose(M.sticks(v), w, rtol=1e-9, atol=1e-300):
        raise AssertionError("sticks %s do not give the weights %s" % (v[:5], w[:5]))
    al = kw.get("alpha")
    if s.cls == "GeometricProcess":
        return lbeta(v[0], kw["a"], kw["b"])
    if s.cls == "DirichletProcess":
        parts = [lbeta(x, 1, al) for x in v]
    elif s.cls == "PitmanYorProcess":
        parts = [lbeta(x, 1 - kw["pyd"], al + (j + 1) * kw["pyd"]) for j, x in enumerate(v)]
    elif s.cls == "BetaInBeta":
        x = kw["x"]
        a, b = kw.get("a", 1), kw.get("b", 1)
        if x == 1:
            return lbeta(v[0], a, b)
        c = x / (1 - x)
        p = float(m.p)
        parts = [lbeta(y, 1 + c * p, al + c * (1 - p)) for y in v] + ([lbeta(p, a, b)] if x > 0 else [])
    elif s.cls == "BetaBernoulli":
        p, ind = kw["p"], [int(i) for i in m.bernoullis]
        if len(ind) != len(v):
            raise AssertionError("%d indicators for %d sticks" % (len(ind), len(v)))
        for j in range(1, len(v)):
            if not ind[j] and v[j] != v[j - 1]:
                raise AssertionError("indicator %d says the stick is kept: %s" % (j, v))
        parts = [lbeta(v[0], 1, al)] + [lbeta(v[j], 1, al) if ind[j] else 0.0 for j in range(1, len(v))] + [
            xlog(sum(ind[1:]), p), xlog(len(ind) - 1 - sum(ind[1:]), 1 - p)]
    elif s.cls == "BetaBinomial":
        n, x = kw["n"], [int(i) for i in m.binomials]
        if len(x) != len(v):
            raise AssertionError("%d counts for %d sticks" % (len(x), len(v)))
        if any(not 0 < y < 1 for y in v):
            return None
        B = lambda a, b: lgamma(a) + lgamma(b) - lgamma(a + b)
        parts = [lgamma(n + 1) - lgamma(x[0] + 1) - lgamma(n - x[0] + 1) + B(1 + x[0], al + n - x[0]) - B(1, al)]
        for j in range(len(v)):
            parts.append(lbeta(v[j], 1 + x[j], al + n - x[j]))
            if j:
                parts.append(lbin(x[j], n, v[j - 1]))
    elif s.cls == "BetaInDirichlet":
        a = kw["a"]
        tabs = {}
        for y in v:
            tabs[y] = tabs.get(y, 0) + 1
        parts = [lbeta(y, 1, al) for y in tabs]
        if a > 0:
            parts.append(len(tabs) * log(a) + sum(lgamma(c) for c in tabs.values()) + lgamma(a) - lgamma(a + len(v)))
    if any(q is None for q in parts):
        return None
    return sum(parts)


def compare(s, m, ctx, tag):
    want = reference(s, m)
    got = m.weighting_log_likelihood()
    ctx.ops += 1
    if want is None:
        ctx.count("undefined")
        return
    ok = np.ndim(got) == 0 and np.isfinite(got) and abs(float(got) - want) <= 1e-7 * max(1.0, abs(want))
    ctx.check(ok, "loglik", lambda: "%s after %s: weights %s, structure log-likelihood %r, log prior density %.10g" % (s.id, tag, m.get_weights()[:6], got, want))
    return want


def execute(case, ctx):
    s = M.ZOO[case["spec"]]
    if "large" in case:
        for n in case["large"]:
            if s.cls == "BetaInDirichlet" and n > 2000:
                continue
            for base in range(2):
                gen = E.ChoiceGen(E.Env(Pol(base=base, rotate=False), frozen=base, horizon=10 ** 7))
                m = s.make(gen)
                m.random(1)
                m.complete(n)
                ctx.execs += 1
                r = compare(s, m, ctx, "random(1); complete(%d)" % n)
                ctx.state(s.id, n, base, r)
        return
    A = alphabet(s)
    for n, h in enumerate(A):
        if s.slow and n % 4:
            continue
        for base, pol in ((0, Pol), (1, Pol), (0, Same), (2, Same)):
            # equal sticks of a Dirichlet process are one table; those of a Pitman-Yor process have laws of their own
            if pol is Same and (s.cls in ("BetaInDirichlet", "PitmanYorProcess") or s.slow):
                continue
            def run(env):
                m = s.make(E.ChoiceGen(env))
                for o in h:
                    apply(m, o)
                    if o[0] not in ("fit", "reset"):
                        r = compare(s, m, ctx, h)
                        ctx.state(s.id, n, r)
            for _ in E.Explorer(lambda: pol(base=base), bound=0 if s.slow else case["bound"]).executions_of(run):
                ctx.execs += 1
                if len(ctx.viol) > 4:
                    return
    ctx.sample({"histories": len(A)})

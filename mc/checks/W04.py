"""Exact prior law: all joint moments up to degree D of the first K weights, by enumerating every answer
of the generator with its probability, against reference generative programs; several construction
routes (one draw, extension in steps, redraw after earlier draws, after reset).  Wide cases: second
moments of ten weights and means of sixty, exact because every weight is multilinear in the sticks."""
import numpy as np
from .. import env as E, models as M


def routes():
    return {"random": lambda m, K: m.random(K),
            "complete": lambda m, K: m.complete(K),
            "random1+complete": lambda m, K: (m.random(1), m.complete(K)),
            "steps": lambda m, K: [m.complete(k) for k in range(2, K + 1)],
            "redraw": lambda m, K: m.random(K),
            "reset": lambda m, K: m.random(K)}


def pre(m, route):
    """history before the draw whose law is measured; its generator answers are fixed, not enumerated"""
    if route == "redraw":
        m.random(3)
        m.complete(5)
    if route == "reset":
        m.fit([0, 0, 0])
        m.random(2)
        m.reset()


def deg(s, K, D):
    if s.cls == "BetaBinomial":
        return (D + s.kw["n"]) // 2 + 1
    if s.degree == 4:
        return (D * K) // 2 + 1
    return D // 2 + 1


def wide(s):
    if s.cls == "BetaBernoulli" and s.kw["p"] not in (0, 1):
        return [(5, 1)]
    if s.cls == "BetaInDirichlet" and s.kw["a"] > 0:
        return [(5, 1)]
    if s.cls == "BetaBinomial" and s.kw["n"] > 0:
        return [(6, 1)] if s.kw["n"] == 1 else [(5, 1)] if s.kw["n"] == 2 else []
    if s.cls == "BetaInBeta" and s.kw["x"] not in (0, 1):
        return [(5, 1)]
    if s.finite:
        return []
    return [(10, 2), (60, 1)]


def wide_m(s, K, D):
    """quadrature nodes that make the moments exact (degree of the monomials in one generator answer, halved, plus one)"""
    if s.cls == "BetaBernoulli" and s.kw["p"] == 1:
        return D // 2 + 1
    if s.degree == 4 and s.cls != "BetaBinomial" or s.cls == "GeometricProcess":
        return (D * K) // 2 + 1
    return deg(s, K, D)


def cases(tier):
    for sid, s in M.ZOO.items():
        heavy = s.latent or s.cls == "BetaBernoulli"
        for r in routes():
            if s.cls in ("BetaBinomial",) and s.latent:
                KD = [(2, 3), (3, 2)] if s.kw["n"] == 1 or tier != "quick" else [(2, 3)]
            elif heavy:
                KD = [(2, 3), (3, 2)] if s.cls != "BetaInDirichlet" else [(3, 2)]
            else:
                KD = [(3, 3), (4, 2)]
            if tier != "quick" and not heavy:
                KD = KD + [(5, 2), (4, 3)]
            for K, D in wide(s):
                if not s.slow and r in ("random", "random1+complete", "steps"):
                    yield {"id": "%s/%s/%d-%d" % (sid, r, K, D), "spec": sid, "route": r, "K": K, "D": D, "cost": 10}
            for K, D in KD:
                yield {"id": "%s/%s/%d-%d" % (sid, r, K, D), "spec": sid, "route": r, "K": K, "D": D, "cost": 20 if heavy else 1}


def execute(case, ctx):
    s, K, D, r = M.ZOO[case["spec"]], case["K"], case["D"], case["route"]
    big = K > 5 or (K > 4 and D == 1)
    m = wide_m(s, K, D) if big else deg(s, K, D)
    mons = M.wide_monomials(K, D) if big else M.monomials(K, D)
    want, mons, ex0 = M.moments(lambda env: s.law(env, [], K), K, D, E.LawPolicy(m=m), mons=mons)
    n = min(K, s.finite) if s.finite else K
    bad = []

    def run(env):
        wm = s.make(E.ChoiceGen(env))
        if r in ("redraw", "reset"):
            frozen(env, lambda: pre(wm, r))
        routes()[r](wm, K)
        w = wm.get_weights()
        if (len(w) != n and not s.finite) or (s.finite and len(w) != s.finite):
            bad.append(len(w))
        return w

    def frozen(env, f):
        pol, env.policy = env.policy, FixedPolicy()
        bino, env.binomial = env.binomial, lambda n_, p_: int(round(n_ * p_))
        cat, env.categorical = env.categorical, lambda p_: int(np.argmax(p_))
        try:
            f()
        finally:
            env.policy = pol
            del env.binomial, env.categorical
    got, _, ex = M.moments(run, K, D, E.LawPolicy(m=m), max_exec=250000, mons=mons)
    ctx.execs += ex.executions
    ctx.ops += len(mons)
    for mon, g in zip(mons, got):
        ctx.state(s.id, tuple(mon), round(float(g), 8))
    ctx.check(not bad, "length", lambda: "%s: asked %d weights, got %s" % (r, K, bad[0]))
    d = np.abs(got - want) > 1e-8 * np.maximum(1, np.abs(want))
    ctx.check(not d.any(), "law", lambda: "%s via %s: E[prod w^%s] = %.10g, prior law says %.10g" % (
        s.id, r, list(mons[d.argmax()]), got[d.argmax()], want[d.argmax()]))
    ctx.count("reference_executions", ex0.executions)
    ctx.sample({"moment": [int(x) for x in mons[-1]], "library": float(got[-1]), "reference": float(want[-1]), "executions": ex.executions})


class FixedPolicy(E.LawPolicy):
    def beta(self, a, b):
        return (a / (a + b),), (1.0,)

    def uniform01(self):
        return (.37,), (1.0,)

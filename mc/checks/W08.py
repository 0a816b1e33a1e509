"""Pairs of weighting models that coincide mathematically: equality of the exact joint moments of the weights after
every enumerated history (all generator answers), and of all variational summaries, library against library."""
import itertools
import numpy as np
from .. import env as E, models as M
from .W01 import apply


def S(cls, **kw):
    return M.Spec("%s%s" % (cls, sorted(kw.items())), cls, kw, None)


PAIRS = []
for al in (1, .5, 2.5):
    base = S("DirichletProcess", alpha=al)
    PAIRS += [("dp%g-py" % al, S("PitmanYorProcess", pyd=0, alpha=al), base, 2), ("dp%g-bib" % al, S("BetaInBeta", x=0, alpha=al), base, 2),
              ("dp%g-bib-ind" % al, S("BetaInBeta", x=0, alpha=al, p_method="independent", a=2, b=3, p=.4), base, 2),
              ("dp%g-bern" % al, S("BetaBernoulli", p=1, alpha=al), base, 2), ("dp%g-binm" % al, S("BetaBinomial", n=0, alpha=al), base, 2)]
    g = S("GeometricProcess", a=1, b=al)
    PAIRS += [("geo%g-bid" % al, S("BetaInDirichlet", a=0, alpha=al), g, 4), ("geo%g-bern" % al, S("BetaBernoulli", p=0, alpha=al), g, 4),
              ("geo%g-bib" % al, S("BetaInBeta", x=1, a=1, b=al), g, 4)]
for a, b in ((2, .5), (.5, .5), (3, 4)):
    for pm in ("geometric", "static", "independent", "max-likelihood", "inverse-sampling"):
        PAIRS.append(("geo%g,%g-bib-%s" % (a, b, pm), S("BetaInBeta", x=1, a=a, b=b, alpha=3, p_method=pm), S("GeometricProcess", a=a, b=b), 4))
DS = [[0], [2], [0, 1], [1, 0, 2], [0, 0, 1, 1, 2], [3, 0], [1] * 9 + [0] * 4]
WIDE = [0] * 3 + [2, 5, 5, 8] + [11] * 2


def hists(tier):
    H = [[("random", k)] for k in (1, 2, 3)] + [[("random", 1), ("complete", 3)], [("complete", 3)], [("complete", 1), ("complete", 2)], [("random", 2), ("tail", .5)],
         [("random", 3), ("random", 2)]]
    for d in DS:
        H += [[("fit", d), ("random", None)], [("fit", d), ("random", 1)], [("fit", d), ("random", max(d) + 2)]]
    H += [[("fit", [0, 2]), ("random", None), ("tail", .6)], [("fit", [2, 1]), ("reset",), ("random", 2)], [("fit", [1]), ("random", None), ("fit", [0, 0, 1]), ("random", None)],
          [("random", 2), ("fit", [1, 1, 0]), ("random", None)], [("fit", [0, 1]), ("random", None), ("complete", 4)]]
    return H


def cases(tier):
    for name, a, b, deg in PAIRS:
        yield {"id": name, "pair": name, "tier": tier, "cost": 6 if "bern" in name or "binm" in name else 3}
        yield {"id": name + "/wide", "pair": name, "tier": tier, "cost": 20}
    for al in (.3, 1, 4.5):
        yield {"id": "var/%g" % al, "pair": None, "alpha": al}


def execute(case, ctx):
    if case["pair"] is None:
        return variational(case, ctx)
    pair = next(p for p in PAIRS if p[0] == case["pair"])
    if case["id"].endswith("/wide"):
        return wide(case, ctx, pair)
    _, a, b, deg = pair
    K = 3
    for h in hists(case["tier"]):
        D = 3
        m = 2 if deg == 2 else D * K // 2 + 1
        if any(o[0] == "tail" for o in h):
            m = 2
        nsteps = sum(o[0] in ("random", "complete", "tail") for o in h)
        if nsteps > 1 and h[0][0] != "complete" and sum(o[0] == "random" for o in h) > 1:
            m = min(m, 2)
        res = []
        for s in (a, b):
            def run(env):
                wm = s.make(E.ChoiceGen(env))
                for o in h:
                    apply(wm, o)
                w = wm.get_weights()
                return w[:h[-1][1]] if h[-1][0] == "random" and h[-1][1] else w   # models may return more than requested
            got, mons, ex = M.moments(run, K, D, E.LawPolicy(m=m), max_exec=200000)
            ctx.execs += ex.executions
            ctx.ops += len(mons)
            res.append(got)
        err = np.abs(res[0] - res[1])
        ctx.check(err.max() < 1e-9, "law", lambda: "%s: after %s E[prod w^%s] is %.10g, the equal model gives %.10g" % (
            a.id, h, list(mons[err.argmax()]), res[0][err.argmax()], res[1][err.argmax()]))
        ctx.state(case["pair"], str(h), tuple(np.round(res[0], 9)))
        ctx.sample({"history": h, "moments": [float(x) for x in res[0][:3]]})


def wide(case, ctx, pair):
    """means of twelve weights and of every product of two, after a fit with gaps and after an extension"""
    _, a, b, deg = pair
    # the latent structure is drawn before the weights: twice as many answers
    d = WIDE if a.cls != "BetaBinomial" else [0, 0, 2, 4, 4]
    for h, K in (([("fit", d), ("random", None)], max(d) + 1), ([("fit", d), ("random", 3)], 3), ([("random", 9)], 9), ([("random", 3), ("complete", 10)], 10)):
        res = []
        for s in (a, b):
            def run(env):
                wm = s.make(E.ChoiceGen(env))
                for o in h:
                    apply(wm, o)
                return wm.get_weights()[:K]
            got, mons, ex = M.moments(run, K, 2, E.LawPolicy(m=2 if deg == 2 else 13), max_exec=200000)
            ctx.execs += ex.executions
            ctx.ops += len(mons)
            res.append(got)
        err = np.abs(res[0] - res[1])
        ctx.check(err.max() < 1e-9, "law-wide", lambda: "%s: after %s E[prod w^%s] is %.10g, the equal model gives %.10g" % (
            a.id, h, list(mons[err.argmax()]), res[0][err.argmax()], res[1][err.argmax()]))
        ctx.state(case["pair"], str(h), tuple(np.round(res[0], 9)))


def variational(case, ctx):
    al = case["alpha"]
    for K in (1, 2, 3, 4, 15, 50):
        if K < 15:
            lattice = list(itertools.product((0, 1, 2), repeat=K))
        else:
            lattice = [tuple((i * s) % 7 for i in range(K)) for s in (1, 2, 5)] + [tuple([0] * (K - 1) + [1])]
        for cols in itertools.combinations_with_replacement(lattice, 2):
            if any(sum(c) == 0 for c in cols):
                continue
            vd = np.array([[x / sum(c) for x in c] for c in cols], float).T
            if len(cols) == 2 and cols[0] == cols[1]:
                vd = vd[:, :1] if K != 3 else np.empty((K, 0))
            out = []
            for s in (S("PitmanYorProcess", pyd=0, alpha=al), S("DirichletProcess", alpha=al)):
                m = s.make(E.ChoiceGen(E.Env(E.LawPolicy())))
                m.fit_variational(vd)
                o = [m.variational_mean_log_p_d__w(), m.variational_mean_log_p_w(), m.variational_mean_log_q_w()]
                for j in range(K + 2):
                    o += [m.variational_mean_w_j(j), m.variational_mean_log_w_j(j)]
                    try:
                        o.append(m.variational_mode_w_j(j))
                    except ValueError:
                        o.append(-1.0)
                out.append(np.array(o, float))
                ctx.execs += 1
            ctx.ops += len(out[0])
            ctx.check(np.allclose(out[0], out[1], rtol=1e-10, atol=1e-10), "variational", lambda: "alpha=%g responsibilities %s: Pitman-Yor %s, Dirichlet process %s" % (al, vd.tolist(), out[0], out[1]))
            ctx.state(al, K, tuple(np.round(out[1], 8)))

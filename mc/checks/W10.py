"""Histories of operations (fixed varied answers) followed by a fresh draw whose generator answers are enumerated with
their probabilities: its exact moments must be those of a new object, whatever happened before; input forms and
mutations of the caller's array must not matter either."""
import itertools
import numpy as np
from .. import env as E, models as M
from .W01 import apply

SIDS = [s for s in M.REPS if not (M.ZOO[s].slow)] + ["dp-3", "py-0.5-2", "geo-0.5-0.5", "bern-p1-0.5", "binm-0-2.5", "bid-0-2.5", "freq-5", "equal-5",
                                                     "dird-n4-[1.0, 2.0, 0.5, 0.5]", "binm-3-2", "bid-0.5-2", "bern-p0.9-0.5"]


def ops(s):
    top = (s.maxd or 4) - 1
    g = lambda *d: [min(x, top) for x in d]
    return [("fit", g(0, 1, 1)), ("fit", g(3, 0)), ("fit", [0] * 6), ("random", 3), ("random", 1), ("complete", 5), ("tail", .6), ("reset",), ("assign", 3), ("loglik", g(2, 0)), ("redraw",), ("wll",),
            ("norm",), ("fit", g(0, 0, 2)), ("fit", [i * i % (top + 2 if top < 4 else 7) % (top + 1) for i in range(31)])]


def do(m, o, finite=None):
    if o[0] == "redraw":
        return m.random(2)
    if o[0] == "wll":
        if m.get_size():
            m.weighting_log_likelihood()
        return
    if o[0] == "norm":
        if m.get_size():
            m.get_normalized_cumulative_weights()
        return
    if o[0] == "loglik" and finite and max(o[1]) >= m.get_size():
        return       # scoring groups a finite structure does not have is not claimed
    if o[0] == "assign" and not m.get_size():
        return
    return apply(m, o)


def finals(s):
    top = (s.maxd or 4) - 1
    g = lambda *d: [min(x, top) for x in d]
    F = [[("reset",), ("random", 2)]]
    if s.conj:
        F += [[("fit", g(1, 0, 1)), ("random", None)], [("fit", g(0, 2)), ("random", 2)], [("fit", g(0,)), ("random", 2)], [("fit", g(2, 0, 0)), ("random", 2)],
              [("fit", [i * 3 % 7 % min(top + 1, 3) for i in range(31)]), ("random", 2)]]
    return F


def cases(tier):
    for sid in SIDS:
        for i, _ in enumerate(ops(M.ZOO[sid])):
            yield {"id": "%s/%d" % (sid, i), "spec": sid, "first": i, "depth": (3 if M.ZOO[sid].conj and (sid != "binm-0-1" or tier != "quick") else 2) + (tier != "quick")}
        yield {"id": sid + "/forms", "spec": sid}


def final_law(s, m_of, fin, K):
    """exact moments of the weights after `fin`, all answers of the final phase enumerated"""
    def run(env):
        m = m_of(env)
        for o in fin:
            do(m, o, s.finite)
        w = m.get_weights()
        return w[:fin[-1][1]] if fin[-1][1] and not s.finite else w
    return M.moments(run, K, 2, E.LawPolicy(m=2 if s.degree == 2 else 3), max_exec=20000)


def execute(case, ctx):
    s = M.ZOO[case["spec"]]
    if case["id"].endswith("/forms"):
        return forms(s, ctx)
    A = ops(s)
    fins = finals(s)
    K = 2
    fresh = [final_law(s, lambda env: s.make(E.ChoiceGen(env)), f, K)[0] for f in fins]
    hs = [[A[case["first"]]] + [A[i] for i in t] for n in range(case["depth"]) for t in itertools.product(range(len(A)), repeat=n)
          if n < 2 or all(A[i][0] not in ("wll", "norm", "loglik") for i in t)]
    for n, h in enumerate(hs):
        pick = range(len(fins)) if len(h) < 3 else [(n + k) % len(fins) for k in range(1)]
        for fi in pick:
            def m_of(env):
                gen = E.ChoiceGen(E.Env(E.QuantilePolicy(qs=(.5, .2, .8), rotate=False), frozen=n % 3))
                m = s.make(gen)
                for o in h:
                    do(m, o, s.finite)
                gen.env = env
                return m
            got, mons, ex = final_law(s, m_of, fins[fi], K)
            ctx.execs += ex.executions
            ctx.ops += len(h) + len(fins[fi])
            err = np.abs(got - fresh[fi])
            ctx.check(err.max() < 1e-9, "memory", lambda: "%s: %s after %s gives E[prod w^%s]=%.9g, a new object gives %.9g" % (
                s.id, fins[fi], h, list(mons[err.argmax()]), got[err.argmax()], fresh[fi][err.argmax()]))
            ctx.state(s.id, n, fi)
            if len(ctx.viol) > 4:
                return
    ctx.sample({"histories": len(hs), "finals": len(fins), "fresh": [float(x) for x in fresh[0][:3]]})


def forms(s, ctx):
    top = (s.maxd or 200) - 1
    for d0 in ([0, 1, 1], [3, 0, 3], [0], [127, 0], [2, 1, 0, 0, 0]):
        d = [min(x, top) for x in d0]
        if s.cls == "BetaInDirichlet" and max(d) > 50 and s.kw["a"] > 0:
            d = [12, 0]
        ref = None
        for form in ("list", "int64", "int32", "int16", "int8", "uint8", "uint64", "mutated", "mutated-list", "tuple-list", "strided", "readonly"):
            for size in (None, max(d) + 3):
                if form == "list" or form == "mutated-list":
                    a = list(d)
                elif form in ("mutated",):
                    a = np.array(d)
                elif form == "tuple-list":
                    a = [np.int64(x) for x in d]
                elif form == "strided":
                    a = np.repeat(np.array(d), 2)[::2]
                elif form == "readonly":
                    a = np.array(d)
                    a.setflags(write=False)
                else:
                    a = np.array(d, dtype=form)
                gen = E.ChoiceGen(E.Env(E.QuantilePolicy(qs=(.5, .2, .8), rotate=False), frozen=1))
                m = s.make(gen)
                m.fit(a)
                if form.startswith("mutated"):
                    for i in range(len(a)):
                        a[i] = 0 if a[i] else min(1, top)
                w1 = np.array(m.random() if size is None else m.random(size))
                out = (w1.tolist(), float(m.assignation_log_likelihood()), float(m.assignation_log_likelihood(a)) if not form.startswith("mut") else None)
                key = (size is None,)
                if ref is None:
                    ref = {}
                if key not in ref:
                    ref[key] = out
                ctx.execs += 1
                ctx.ops += 3
                same = all(p is None or q is None or p == q for p, q in zip(ref[key], out))
                ctx.check(same, "form", lambda: "%s fit(%s) given as %s: %s, as list: %s" % (s.id, d, form, str(out)[:300], str(ref[key])[:300]))
                if not form.startswith("mut"):
                    ctx.check(list(a) == list(d), "input-changed", lambda: "fit changed its argument to %s" % a)
                ctx.state(s.id, tuple(d), form, size)
    if s.cls != "DirichletDistribution":
        return
    # the concentrations: every form, and a caller that changes its array afterwards
    n, al = s.kw["n"], np.ones(s.kw["n"]) * np.asarray(s.kw["alpha"], dtype=float)
    outs = {}
    for form in ("list", "array", "mutated", "mutated-list", "mutated-after-fit", "readonly"):
        a = [float(x) for x in al] if form in ("list", "mutated-list") else np.array(al)
        if form == "readonly":
            a.setflags(write=False)
        m = type(s.make(E.ChoiceGen(E.Env(E.QuantilePolicy(), frozen=1))))(n=n, alpha=a, rng=E.ChoiceGen(E.Env(E.QuantilePolicy(qs=(.5, .2, .8), rotate=False), frozen=1)))
        if form in ("mutated", "mutated-list"):
            for i in range(n):
                a[i] = 7.5
        out = [m.random().tolist(), m.weighting_log_likelihood()]
        m.fit([0] * 3 + [n - 1])
        out += [m.random().tolist()]
        if form == "mutated-after-fit":
            a *= 3
        out += [m.random().tolist(), m.weighting_log_likelihood()]
        m.reset()
        out += [m.random().tolist(), m.weighting_log_likelihood()]
        m.fit_variational(np.full((n, 2), 1 / n))
        out += [m.variational_mean_w_j(0), m.variational_mean_log_p_w()]
        outs[form] = out
        ctx.execs += 1
        ctx.ops += 9
        ctx.check(out == outs["list"], "alpha-form", lambda: "alpha given as %s: %s, as list %s" % (form, str(out)[:300], str(outs["list"])[:300]))
        if not form.startswith("mut"):
            ctx.check(list(a) == list(al), "alpha-changed", lambda: "the caller's alpha was changed to %s" % (a,))

"""tail(x) for every x of the grid from every short-history state of every weighting model, all generator
answers within the deviation bound; out-of-range requests must be refused without any change."""
import numpy as np
from .. import env as E, models as M
from .W01 import Policy, apply
from .W02 import prefixes

GRID = (0, .05, .3, .5, .75, .9, .97, .99)
BAD = (1, 1.0, 1.5, -.1, -1e-9, np.float64(1.0), float("inf"))
SIDS = M.REPS + ["dp-3", "py-0.5-2", "py-0.8-0.3", "geo-1-1", "geo-1-3", "geo-0.5-0.5", "bern-p0.25-2", "binm-3-2", "bid-3-0.5", "equal-5", "freq-5", "equal-1"]


def cases(tier):
    for sid in SIDS:
        yield {"id": sid + "/ladder", "spec": sid, "pre": 0, "dev": 0, "grid": [1 - M.ZOO[sid].kw["pyd"]] if M.ZOO[sid].kw.get("pyd") else [.999, .9999, 1 - 1e-6, 1 - 1e-9, 1 - 1e-12]}
        for i, _ in enumerate(prefixes(M.ZOO[sid])):
            yield {"id": "%s/p%d" % (sid, i), "spec": sid, "pre": i, "dev": 0 if M.ZOO[sid].slow else 1 if tier == "quick" else 2,
                   "grid": [x for x in GRID if x <= 1 - M.ZOO[sid].kw.get("pyd", 0)]}
    yield {"id": "rounding", "spec": None}


def rounding(ctx):
    """finite structures whose total rounds to less than the largest float below one"""
    x = float(np.nextafter(1, 0))
    for n in range(1, 120):
        for sp in (M.Spec("e", "EqualWeighting", dict(n=n), None, finite=n), M.Spec("f", "FrequencyWeighting", dict(n=n), None, finite=n),
                   M.Spec("d", "DirichletDistribution", dict(n=n, alpha=1.5), None, finite=n)):
            m = sp.make(E.ChoiceGen(E.Env(Policy())))
            w = m.tail(x)
            ctx.execs += 1
            ctx.ops += 1
            ctx.check(len(w) == n and abs(w.sum() - 1) < 1e-9 and np.array_equal(w, m.get_weights()), "rounding", lambda: "%s n=%d tail(%r) gives %s" % (sp.cls, n, x, w))


def execute(case, ctx):
    if case["id"] == "rounding":
        return rounding(ctx)
    s = M.ZOO[case["spec"]]
    pre = prefixes(s)[case["pre"]]
    for x in case["grid"]:
        for y in (None, .4, min(.95, max(case["grid"]))):
            def run(env):
                m = s.make(E.ChoiceGen(env))
                for op in pre:
                    apply(m, op)
                for t in (x,) if y is None else (x, y):
                    before, used = np.array(m.get_weights()), len(env.points)
                    ret = m.tail(t)
                    w = m.get_weights()
                    tag = "%s then tail(%s)" % (pre, t)
                    ctx.ops += 1
                    if not ctx.check(isinstance(ret, np.ndarray) and np.array_equal(ret, w), "returned", lambda: "%s returned %r" % (tag, ret)):
                        return
                    ctx.check(len(w) >= 1, "empty", lambda: "%s gives no weights" % tag)
                    ctx.check(w.sum() >= t - 1e-9, "mass", lambda: "%s covers only %s with %s" % (tag, w.sum(), w[:8]))
                    if not (s.cls == "FrequencyWeighting" and len(before)):
                        ctx.check(len(w) >= len(before) and np.allclose(w[:len(before)], before, rtol=1e-12, atol=0), "prefix",
                                  lambda: "%s changed %s to %s" % (tag, before, w))
                    if len(before) and before.sum() >= t + 1e-9:
                        ctx.check(len(w) == len(before) and len(env.points) == used, "grown", lambda: "%s grew %d -> %d weights" % (tag, len(before), len(w)))
                    elif not s.finite and len(before) and len(w) > len(before):
                        ctx.check(w[:-1].sum() < t + 1e-9, "excess", lambda: "%s has mass %s without its last weight" % (tag, w[:-1].sum()))
                    ctx.state(s.id, case["pre"], t, len(before), len(w))
                ctx.execs += 1
            ex = E.Explorer(Policy, bound=case["dev"], horizon=4000)
            for _ in ex.executions_of(run):
                if len(ctx.viol) > 6:
                    return
    for t in BAD:
        env = E.Env(Policy())
        m = s.make(E.ChoiceGen(env))
        for op in pre:
            apply(m, op)
        before, used = np.array(m.get_weights()), len(env.points)
        try:
            m.tail(t)
            ctx.fail("accepted", "%s then tail(%s) was accepted" % (pre, t))
        except ValueError:
            pass
        ctx.check(np.array_equal(before, m.get_weights()) and used == len(env.points), "dirty", lambda: "refused tail(%s) changed the model" % t)
        ctx.execs += 1
        ctx.ops += 1
    ctx.sample({"prefix": pre, "grid": case["grid"]})

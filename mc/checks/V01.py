"""Variational weight summaries on every responsibility matrix of a lattice (K groups up to 4, hard and soft columns),
every supporting weighting model over a parameter grid, against closed-form moments of the truncated posterior."""
import itertools
import numpy as np
from .. import env as E, models as M, vb

SPECS = []
for al in (1, .5, 3, .1):
    SPECS.append(("DirichletProcess", dict(alpha=al)))
for s, al in ((0, 1), (.25, 1), (.5, .5), (.8, .3), (.5, 0), (.5, -.25)):
    SPECS.append(("PitmanYorProcess", dict(pyd=s, alpha=al)))
for a, b in ((1, 1), (2, .5), (.5, .5), (3, 4)):
    SPECS.append(("GeometricProcess", dict(a=a, b=b)))
for al in (1, .5, 2.5, "vec"):
    SPECS.append(("DirichletDistribution", dict(alpha=al)))
SPECS += [("EqualWeighting", {}), ("FrequencyWeighting", {})]
VEC = [.5, 2., 1., 3.25, .75, 1.5, .25, 4., 1., .6, 2.2, .9] * 8


def columns(K):
    c = [tuple(1.0 if i == j else 0.0 for i in range(K)) for j in range(K)]
    c += [tuple([1 / K] * K)]
    if K > 1:
        c += [tuple((i + 1) / (K * (K + 1) / 2) for i in range(K)), tuple(.9 if i == 0 else .1 / (K - 1) for i in range(K)),
              tuple(.75 if i == K - 1 else .25 / (K - 1) for i in range(K))]
    u = []
    for x in c:
        if x not in u:
            u.append(x)
    return u


def wide(K):
    """many groups, many observations: tiny, zero and huge expected counts, non-monotone over the groups"""
    j = np.arange(K)
    hard = np.zeros((K, 300))
    hard[(np.arange(300) ** 2) % K, np.arange(300)] = 1
    soft = np.abs(np.sin(np.outer(j + 1, np.arange(1, 41)))) ** 3 + 1e-12
    soft /= soft.sum(0)
    last = np.zeros((K, 2000))
    last[K - 1, :1200] = 1
    last[K // 2, 1200:] = 1
    yield np.empty((K, 0))
    yield from (hard, soft, last, np.concatenate([hard, soft], 1), np.full((K, 7), 1 / K))


def matrices(K, nmax):
    if nmax < 0:
        yield from wide(K)
        return
    C = columns(K)
    yield np.empty((K, 0))
    for n in range(1, nmax + 1):
        for t in itertools.combinations_with_replacement(C, n):
            yield np.array(t).T
    yield np.array([C[0]] * 17 + [C[-1]] * 5).T
    yield np.array([C[-1]] * 60).T


def make(cls, kw, K, rng=None):
    kw = dict(kw)
    if kw.get("alpha") == "vec":
        kw["alpha"] = VEC[:K]
    if cls in ("DirichletDistribution", "EqualWeighting", "FrequencyWeighting"):
        kw["n"] = K
    return M.Spec("x", cls, kw, None).make(rng or E.ChoiceGen(E.Env(E.LawPolicy()))), kw


def cases(tier):
    for i, (cls, kw) in enumerate(SPECS):
        for K in (1, 2, 3, 4, 6, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12):
            yield {"id": "%s-%s/K%d" % (cls, kw, K), "spec": i, "K": K, "n": 3 if K < 4 or tier != "quick" and K < 8 else 2, "cost": K}
        for K in (25, 70):
            yield {"id": "%s-%s/K%d" % (cls, kw, K), "spec": i, "K": K, "n": -1, "cost": K}
        yield {"id": "%s-%s/unfitted" % (cls, kw), "spec": i, "K": 3, "n": 0}
    for cls, kw in (("BetaInBeta", {}), ("BetaInDirichlet", {}), ("BetaBernoulli", {}), ("BetaBinomial", {})):
        yield {"id": cls + "/unsupported", "spec": None, "cls": cls}


def unfitted(m, ctx):
    from pyrichlet.exceptions import NotFittedError
    for f in ("variational_mean_w_j", "variational_mean_log_w_j", "variational_mode_w_j"):
        for a in ((0,), (2,)):
            try:
                r = getattr(m, f)(*a)
                ctx.fail("unfitted", "%s%s before any variational fit returned %r" % (f, a, r))
            except NotFittedError:
                pass
            ctx.ops += 1
    for f in ("variational_mean_log_p_d__w", "variational_mean_log_p_w", "variational_mean_log_q_w"):
        try:
            r = getattr(m, f)()
            ctx.fail("unfitted", "%s before any variational fit returned %r" % (f, r))
        except NotFittedError:
            pass
        ctx.ops += 1


def execute(case, ctx):
    if case["spec"] is None:
        m = M.Spec("x", case["cls"], {}, None).make(E.ChoiceGen(E.Env(E.LawPolicy())))
        try:
            m.fit_variational(np.ones((1, 1)))
            ctx.fail("accepted", "%s accepted a variational fit it does not support" % case["cls"])
        except NotImplementedError:
            pass
        ctx.execs += 1
        return
    cls, kw0 = SPECS[case["spec"]]
    K = case["K"]
    m, kw = make(cls, kw0, K)
    if case["n"] == 0:
        unfitted(m, ctx)
        m.fit([0, 1, 1])
        m.random()
        unfitted(m, ctx)
        ctx.execs += 2
        return
    for vd in matrices(K, case["n"]):
        m.fit_variational(vd)                 # the same object is refitted again and again
        ref = vb.W(cls, kw, vd.sum(1), vd.shape[1])
        tot = 0.0
        for j in list(range(K + 2)) + [np.int64(K - 1), K + 7]:
            a, b = m.variational_mean_w_j(j), ref.mean(j)
            tot += a if type(j) is int and j < K else 0
            ctx.ops += 2
            what = "%s%s K=%d counts %s group %d" % (cls, kw, K, np.round(vd.sum(1), 3), j)
            ctx.check(np.ndim(a) == 0 and abs(a - b) <= (1e-10 if K < 20 else 1e-8 * b + 1e-300), "mean", lambda: "%s: mean weight %r, posterior says %.12g" % (what, a, b))
            a, b = m.variational_mean_log_w_j(j), ref.log_w(j)
            ctx.check(a == b or abs(a - b) <= 1e-9 * max(1, abs(b)), "mean-log", lambda: "%s: mean log weight %r, posterior says %.12g" % (what, a, b))
            b = ref.mode(j)
            if b is not None:
                ctx.ops += 1
                try:
                    a = m.variational_mode_w_j(j)
                    ctx.check(abs(a - b) <= 1e-10, "mode", lambda: "%s: mode %r, posterior says %.12g" % (what, a, b))
                except ValueError as e:
                    # an order-dependent early exit is possible only when some stick has no unique mode
                    ctx.fail("mode", "%s: %s but the mode is %.6g" % (what, e, b))
        ctx.check(abs(tot - 1) < 1e-9, "sum", lambda: "means of %s%s K=%d sum to %r" % (cls, kw, K, tot))
        ctx.execs += 1
        ctx.state(cls, kw, K, tuple(np.round([ref.mean(j) for j in range(K)], 9)))
        if len(ctx.viol) > 4:
            return
    ctx.sample({"spec": cls, "kw": kw, "K": K})

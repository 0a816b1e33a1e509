"""Exact posterior law of fitted draws for conjugate models: every assignment vector up to the bounds,
every requested size, moments by enumeration of all generator answers.  Wide cases: second moments of up to
ten weights and means of all of up to sixty, after fits to many groups (with gaps) and many observations."""
import itertools
import numpy as np
from .. import env as E, models as M


def vectors(s, tier):
    G = s.maxd or 3
    G3 = min(G, 3)
    out = [list(d) for n in (1, 2, 3) for d in itertools.product(range(G3), repeat=n)]
    out += [list(d) for d in itertools.combinations_with_replacement(range(min(s.maxd or 4, 4)), 4)]
    out += [list(d)[::-1] for d in itertools.combinations_with_replacement(range(min(s.maxd or 4, 4)), 4)]
    if tier != "quick":
        out += [list(d) for d in itertools.product(range(G3), repeat=4)]
        out += [list(d) for d in itertools.combinations_with_replacement(range(min(s.maxd or 4, 4)), 6)]
    big = [0] * 7 + [1] * 5 + [0, 1] * 3
    out.append([min(x, G - 1) for x in big])
    out.append([min(x, G - 1) for x in [1] * 40 + [0] * 25 + [2] * 60])
    u, seen = [], set()
    for d in out:
        if tuple(d) not in seen:
            seen.add(tuple(d))
            u.append(d)
    return u


WIDE = [list(range(12)), [9] * 300 + [2] * 5 + [4], [31] + list(range(0, 30, 2)) * 2, [0] * 150 + [1] * 70 + [17] * 40, list(range(8)) * 9 + [7] * 30]


def cases(tier):
    for sid, s in M.ZOO.items():
        if s.conj and (s.maxd is None or s.cls in ("DirichletDistribution", "FrequencyWeighting")):
            for i in range(len(WIDE)):
                yield {"id": "%s/wide%d" % (sid, i), "spec": sid, "wide": i, "cost": 5}
    for sid, s in M.ZOO.items():
        if s.conj:
            v = vectors(s, tier)
            for i in range(0, len(v), 12):
                yield {"id": "%s/%d" % (sid, i), "spec": sid, "vecs": v[i:i + 12], "tier": tier,
                       "cost": 20 if s.cls == "BetaBernoulli" else 1}


def execute(case, ctx):
    s = M.ZOO[case["spec"]]
    if "wide" in case:
        d = WIDE[case["wide"]]
        if s.maxd:
            d = [x % s.maxd for x in d]
        top = max(d) + 1
        for size in (None, 1, max(1, top - 3), top + 5):
            if s.cls != "BetaBinomial" and max(size or top, top if s.cls == "BetaBernoulli" else 0) <= 10 or s.finite:   # every stick drawn is enumerated
                one(s, d, size, ctx, 10 if s.degree == 1 else 6, 2)
            one(s, d, size, ctx, 60 if s.degree == 1 else 24, 1)
        return
    for d in case["vecs"]:
        top = max(d) + 1
        for size in [None] + list(range(1, top + 3)):
            one(s, d, size, ctx)
            if len(ctx.viol) > 5:
                return


def one(s, d, size, ctx, wide=None, D=2):
    n = size if size is not None else max(d) + 1
    if s.finite:
        n = s.finite if s.cls != "FrequencyWeighting" else max(d) + 1
    K = min(n, 4 if s.cls != "BetaBernoulli" else 3)
    mons = None
    if wide:
        K = min(n, wide if s.cls != "BetaBernoulli" or s.kw["p"] == 0 or D == 1 else 8)
        mons = M.wide_monomials(K, D)
    m = D // 2 + 1
    if s.degree == 4:
        m = (D * K) // 2 + 1
        if s.cls == "BetaBernoulli" and s.kw["p"] == 1:
            m = D // 2 + 1
    pol = E.LawPolicy(m=m)
    want, mons, _ = M.moments(lambda env: s.law(env, d, K), K, D, pol, mons=mons)
    lens = set()
    forms = [list(d), np.array(d), np.array(d, dtype=np.int32)]

    def run(env):
        wm = s.make(E.ChoiceGen(env))
        wm.fit(forms[len(d) % 3])
        r = wm.random() if size is None else wm.random(size)
        lens.add(len(r))
        return r
    got, _, ex = M.moments(trim(s, run), K, D, pol, max_exec=300000, mons=mons)
    ctx.execs += ex.executions
    ctx.ops += len(mons)
    ctx.state(s.id, tuple(sorted(d)), size, tuple(np.round(got, 8)))
    ctx.check(min(lens) >= n, "length", lambda: "fit(%s); random(%s) gives %s weights" % (d, size, lens))
    bad = np.abs(got - want) > 1e-8
    ctx.check(not bad.any(), "law", lambda: "%s fit(%s) random(%s): E[prod w^%s] = %.10g, posterior says %.10g" % (
        s.id, d, size, list(mons[bad.argmax()]), got[bad.argmax()], want[bad.argmax()]))
    ctx.sample({"d": d[:8], "size": size, "library": [float(x) for x in got[:3]], "reference": [float(x) for x in want[:3]]})


def trim(s, run):
    return run

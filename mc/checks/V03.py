"""Variational transition system on every lattice data set (N up to 4-6, D up to 3), every supporting weighting model,
prior, initialisation and truncation: consecutive states S_1..S_T of the real fit are compared with the mean-field
coordinate-ascent update; responsibilities, evidence monotonicity and warm continuation checked on every transition."""
import numpy as np
from .. import fit as F, vb

T = 4


def cases(tier):
    for i in range(len(F.VAR)):
        for D in (1, 2, 3):
            for K in (1, 2, 3):
                for p in range(len(F.PRIORS[D])):
                    for init in ("kmeans", "random"):
                        if tier == "quick" and (i + D + K + p) % 2 == (init == "random") and not (i < 1 and K == 2):
                            continue
                        yield {"id": "%s-%d/D%d/K%d/prior%d/%s" % (F.VAR[i][0], i, D, K, p, init), "m": i, "D": D, "K": K, "p": p,
                               "init": init, "n": {1: 4, 2: 3, 3: 4}[D] + (tier != "quick"), "T": T if tier == "quick" else 7, "cost": K * D}


    for c in F.wide_cases(tier):
        for init in ("kmeans", "random"):
            if tier != "quick" or (c["m"] + c["wide"]) % 2 == (init == "random"):
                yield dict(c, id=c["id"] + "/" + init, init=init, T=T if tier == "quick" else 9)


def run(case, y, rng_seed, total, prior, then=None):
    m, law, k = F.var_model(case["m"], case["K"], np.random.default_rng(rng_seed), prior, total_iter=total, burn_in=0)
    kw = dict(n_groups=case["K"], tol=-1.0)
    m.fit_variational(y.copy(), init_method=case["init"], **kw)
    if then:
        m.total_iter = then
        m.fit_variational(y.copy(), warm_start=True, **kw)
    return m, law, k


def execute(case, ctx):
    D, K = case["D"], case["K"]
    p = F.PRIORS[D][case["p"]]
    for n, y in enumerate([F.WIDE[case["wide"]][3]] if "wide" in case else F.datasets(D, case["n"])):
        if p is None and not F.default_ok(y):
            continue
        if D == 3 and (len(y) < 4 and p is None or n % 3 and len(y) == 4):
            continue
        if case["init"] == "kmeans" and len(y) < K:
            continue
        if case["init"] == "kmeans" and len(np.unique(y, axis=0)) < K and n % 2:
            continue
        prior = F.prior_of(p, y)
        states = []
        for t in range(1, case["T"] + 1):
            m, law, k = run(case, y, 5 + n % 3, t, p)
            states.append(F.state(m))
        prev = None
        what = "%s%s y=%s %s" % (law, k, y.tolist(), case["init"])
        for t, (r, th) in enumerate(states):
            ctx.ops += 1
            ok = r.shape == (K, len(y)) and np.all(r >= 0) and np.all(np.isfinite(r)) and np.allclose(r.sum(0), 1, atol=1e-9)
            if not ctx.check(ok, "responsibilities", lambda: "%s: after %d iterations responsibilities %s" % (what, t + 1, r.tolist())):
                break
            wq, ref = F.var_ref(law, k, r, y, prior)
            good = len(th) == K
            for (m0, l0, P0, n0), (a, b, c, d) in zip(th, ref):
                good = good and F.close(m0, a, 1e-8) and F.close(l0, b) and F.close(np.linalg.inv(P0), c, 1e-7) and F.close(n0, d)
            ctx.check(good, "component-update", lambda: "%s: component parameters after iteration %d are %s, update of its responsibilities gives %s" % (
                what, t + 1, [(x[0].tolist(), x[1], np.linalg.inv(x[2]).tolist(), x[3]) for x in th], [(x[0].tolist(), x[1], x[2].tolist(), x[3]) for x in ref]))
            if prev is not None:
                want = vb.softmax(vb.log_rho(y, prev[0], prev[1]))
                ctx.check(np.allclose(r, want, atol=1e-8), "responsibility-update", lambda: "%s: iteration %d responsibilities %s, exact update of the previous state %s" % (
                    what, t + 1, r.tolist(), want.tolist()))
            e = vb.elbo(y, r, wq, ref, prior)
            if prev is not None:
                ctx.check(e >= prev[2] - 1e-8 * max(1, abs(e)), "evidence", lambda: "%s: evidence bound fell from %r to %r at iteration %d" % (what, prev[2], e, t + 1))
            prev = (wq, ref, e)
            ctx.state(case["m"], K, np.round(r, 7).tolist(), y.tolist())
        a, b = (1, 2) if n % 2 else (2, 1)
        m, _, _ = run(case, y, 5 + n % 3, a, p, b)
        w = F.state(m)
        s = states[a + b - 1]
        ctx.ops += 2
        ctx.check(np.allclose(w[0], s[0], atol=1e-9) and all(F.close(x[q], z[q], 1e-8) for x, z in zip(w[1], s[1]) for q in range(4)), "continuation",
                  lambda: "%s: %d iterations then %d more by warm start give %s, %d iterations give %s" % (what, a, b, w[0].tolist(), a + b, s[0].tolist()))
        ctx.execs += case["T"] + 1
        if len(ctx.viol) > 4:
            return
    ctx.sample({"law": F.VAR[case["m"]][0], "D": D, "K": K})

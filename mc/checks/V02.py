"""Variational evidence terms of the weights on every responsibility matrix of the lattice against closed-form
expectations, cross-checked by Gauss quadrature of the log densities; divergence sign and zero."""
import numpy as np
from scipy import integrate, stats
from .. import vb
from .V01 import SPECS, matrices, make


def cases(tier):
    for i, (cls, kw) in enumerate(SPECS):
        for K in (1, 2, 3, 4, 6, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12):
            yield {"id": "%s-%s/K%d" % (cls, kw, K), "spec": i, "K": K, "n": 3 if K < 4 or tier != "quick" and K < 8 else 2, "cost": K}
        for K in (25, 70):
            yield {"id": "%s-%s/K%d" % (cls, kw, K), "spec": i, "K": K, "n": -1, "cost": K}


def quad_check(ref, ctx):
    """the closed forms of the reference itself, by numerical integration (sticks)"""
    for (a, b), (qa, qb) in zip(ref.prior, ref.ab):
        for A, B in ((a, b), (qa, qb)):
            f = lambda t: stats.beta.pdf(t, qa, qb) * stats.beta.logpdf(t, A, B)
            num = integrate.quad(f, 0, .5)[0] + integrate.quad(f, .5, 1)[0]
            assert abs(num - ref._lb(A, B, (qa, qb))) < 1e-4 * max(1, abs(num)), "reference disagrees with quadrature"


def execute(case, ctx):
    cls, kw0 = SPECS[case["spec"]]
    K = case["K"]
    m, kw = make(cls, kw0, K)
    col = np.array([(i + 1.0) / (K * (K + 1) / 2) for i in range(K)])
    others = [np.array([col] * 2).T, col[:, None], np.eye(K)[:, :1], np.array([col, col[::-1], np.eye(K)[K // 2], col, col]).T, np.zeros((K, 0)), np.array([col[::-1]] * 60).T]
    for n, vd in enumerate(matrices(K, case["n"])):
        m.fit_variational(vd)
        ref = vb.W(cls, kw, vd.sum(1), vd.shape[1])
        what = "%s%s K=%d counts %s" % (cls, kw, K, np.round(vd.sum(1), 3))
        if n == 3 and K < 20 and hasattr(ref, "ab"):
            quad_check(ref, ctx)
        checks = [("variational_mean_log_p_d__w", (), ref.e_log_p_d()), ("variational_mean_log_p_w", (), ref.e_log_p()), ("variational_mean_log_q_w", (), ref.e_log_q())]
        checks.append(("variational_mean_log_p_d__w", (vd,), ref.e_log_p_d()))
        if not (cls == "FrequencyWeighting" and any(x == 0 for x in ref.n)):
            for other in others:
                checks.append(("variational_mean_log_p_d__w", (other,), ref.e_log_p_d(list(other.sum(1)))))
        got = {}
        for f, args, want in checks:
            g = getattr(m, f)(*args)
            got[f, len(args)] = g
            ctx.ops += 1
            ctx.check(np.ndim(g) == 0 and (g == want or abs(g - want) <= 1e-9 * max(1, abs(want))), f, lambda: "%s: %s(%s) = %r, exact expectation %.12g" % (
                what, f, "responsibilities" if args else "", g, want))
        kl = got["variational_mean_log_q_w", 0] - got["variational_mean_log_p_w", 0]
        ctx.check(kl >= -1e-8, "divergence", lambda: "%s: negative divergence %r" % (what, kl))
        if vd.shape[1] == 0:
            ctx.check(abs(kl) < 1e-9, "divergence-zero", lambda: "%s: no observations but divergence %r" % (what, kl))
        ctx.execs += 1
        ctx.state(cls, kw, K, round(float(kl), 8))
        if len(ctx.viol) > 4:
            return
    ctx.sample({"spec": cls, "kw": kw, "K": K, "divergence": float(kl)})

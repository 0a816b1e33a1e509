"""Every set partition of up to seven (thorough nine) items under every concentration of a lattice: probabilities sum to one, agree
with the sequential seating rule and are consistent under deletion of an item. Gaussian, Student-t and Wishart helpers on every
point of lattices in dimensions one to four against independent formulas, and integrated to one; Beta and binomial helpers against
quadrature and exact sums."""
import itertools
import math
from fractions import Fraction
import numpy as np
from scipy import integrate, stats
from scipy.special import gammaln, digamma

PREC = {1: [[[1.]], [[.01]], [[250.]]],
        2: [np.eye(2), [[2., .9], [.9, .5]], [[1., -.99], [-.99, 1.]], [[1e4, 3.], [3., 1e-2]]],
        3: [np.eye(3), [[2., .5, .1], [.5, 1., -.7], [.1, -.7, 3.]], [[1e3, 1., 0.], [1., .01, 0.], [0., 0., 1.]]],
        4: [np.eye(4) + .5, np.diag([1., 2., 3., 4.]) + np.eye(4)[::-1] * .5],
        5: [np.eye(5) - .15, np.diag([1e2, 1., 3., .4, 5.]) + np.eye(5)[::-1] * .3]}


def cases(tier):
    for a in (1e-3, .1, .5, 1, 1.0, 2.5, 40., 1e4):
        yield {"id": "partitions/%r" % a, "kind": "partitions", "alpha": a, "n": 7 if tier == "quick" else 9}
    for D in PREC:
        for p in range(len(PREC[D])):
            yield {"id": "densities/D%d/%d" % (D, p), "kind": "densities", "D": D, "p": p}
            yield {"id": "wishart/D%d/%d" % (D, p), "kind": "wishart", "D": D, "p": p}
    for D in (1, 2):
        for p in range(len(PREC[D])):
            yield {"id": "integral/D%d/%d" % (D, p), "kind": "integral", "D": D, "p": p, "fine": tier != "quick"}
    for a in (1e-3, .3, 1, 2.5, 60.):
        yield {"id": "blocks/%r" % a, "kind": "blocks", "alpha": a, "n": 25 if tier == "quick" else 40}
    yield {"id": "beta", "kind": "beta"}
    yield {"id": "binomial", "kind": "binomial", "n": 6 if tier == "quick" else 12}


def partitions(n):
    """block sizes of every set partition of n items, in the order of the blocks' first items"""
    def go(k, blocks):
        if k == n:
            yield tuple(blocks)
            return
        for j in range(len(blocks)):
            blocks[j] += 1
            yield from go(k + 1, blocks)
            blocks[j] -= 1
        blocks.append(1)
        yield from go(k + 1, blocks)
        blocks.pop()
    yield from go(0, [])


def seating(alpha, sizes):
    """probability that items seated one by one end in these blocks (any order gives the same)"""
    p, n = 1.0, 0
    for s in sizes:
        for k in range(s):
            p *= (alpha if k == 0 else k) / (alpha + n)
            n += 1
    return p


def eppf(ctx, case):
    from pyrichlet.utils.functions import dirichlet_log_eppf as f
    alpha = case["alpha"]
    for n in range(1, case["n"] + 1):
        tot = 0.0
        cache = {}
        for sizes in partitions(n):
            ctx.ops += 1
            if sizes not in cache:
                v = float(f(alpha, list(sizes)))
                cache[sizes] = v
                ctx.check(math.isclose(v, math.log(seating(alpha, sizes)), rel_tol=1e-8, abs_tol=1e-8), "seating", lambda: "dirichlet_log_eppf(%r, %s) = %r, seating rule %r" % (alpha, sizes, v, math.log(seating(alpha, sizes))))
                for form in (tuple(sizes), np.array(sizes), np.array(sizes, float), list(sizes)[::-1]):
                    ctx.check(math.isclose(float(f(alpha, form)), v, rel_tol=1e-9, abs_tol=1e-9), "form", lambda: "dirichlet_log_eppf(%r, %r) differs from the list's" % (alpha, form))
                ext = sum(math.exp(f(alpha, list(sizes[:j]) + [sizes[j] + 1] + list(sizes[j + 1:]))) for j in range(len(sizes))) + math.exp(f(alpha, list(sizes) + [1]))
                ctx.check(math.isclose(ext, math.exp(v), rel_tol=1e-7), "consistent", lambda: "alpha %r sizes %s: probability %r, with one more item in any place %r" % (alpha, sizes, math.exp(v), ext))
                ctx.state(alpha, sizes)
                ctx.execs += 1
            tot += math.exp(cache[sizes])
        ctx.check(math.isclose(tot, 1.0, rel_tol=1e-7), "sum", lambda: "alpha %r: the partitions of %d items have total probability %r" % (alpha, n, tot))
    ctx.sample({"alpha": alpha, "n": case["n"], "total": tot})


def integers(n, most=None):
    """every integer partition of n"""
    if n == 0:
        yield ()
    for k in range(min(n, most or n), 0, -1):
        for r in integers(n - k, k):
            yield (k,) + r


def blocks(ctx, case):
    """every shape of a partition of many items; the shapes' total probability, with their numbers of set partitions, is one"""
    from pyrichlet.utils.functions import dirichlet_log_eppf as f
    alpha = case["alpha"]
    for n in sorted({8, 13, 19, case["n"]}):
        tot = 0.0
        for sizes in integers(n):
            v = float(f(alpha, np.array(sizes)))
            w = math.log(seating(alpha, sizes))
            ctx.ops += 1
            ctx.check(math.isclose(v, w, rel_tol=1e-8, abs_tol=1e-8), "seating", lambda: "dirichlet_log_eppf(%r, %s) = %r, seating rule %r" % (alpha, sizes, v, w))
            many = math.factorial(n)
            for k in set(sizes):
                many //= math.factorial(k) ** sizes.count(k) * math.factorial(sizes.count(k))
            tot += math.exp(v + math.log(many))
            ctx.state(alpha, sizes)
        ctx.check(math.isclose(tot, 1.0, rel_tol=1e-7), "sum", lambda: "alpha %r: the partitions of %d items have total probability %r" % (alpha, n, tot))
        ctx.execs += 1
    for sizes in ([300], [1] * 300, [170, 171, 172], [1000, 1, 1, 50], [5000, 5000]):
        for form in (list(sizes), np.array(sizes), np.array(sizes, np.int32)):
            v = float(f(alpha, form))
            n, w = 0, 0.0
            for q in sizes:
                for k in range(q):
                    w += math.log((alpha if k == 0 else k) / (alpha + n))
                    n += 1
            ctx.ops += 1
            ctx.check(math.isclose(v, w, rel_tol=1e-7), "seating", lambda: "dirichlet_log_eppf(%r, %s) = %r, seating rule %r" % (alpha, sizes[:5], v, w))
        ctx.state(alpha, sizes)


MEANS = {D: [np.zeros(D), np.array([1., -2., 300., .5, -40.])[:D]] for D in PREC}


def points(D, mu, P):
    L = np.linalg.inv(np.linalg.cholesky(P)).T
    z = np.array(list(itertools.product((-3., -.5, 0., 1., 6.), repeat=D)))
    return mu + z @ L.T


def densities(ctx, case):
    from pyrichlet.utils.functions import density_normal, density_students_t
    D = case["D"]
    P = np.array(PREC[D][case["p"]], float)
    ld = np.linalg.slogdet(P)[1]
    for mu in MEANS[D]:
        x = points(D, mu, P)
        q = np.array([(r - mu) @ P @ (r - mu) for r in x])
        keep = x.copy(), mu.copy(), P.copy()
        got = density_normal(x, mu, P)
        ref = np.exp(.5 * ld - D / 2 * math.log(2 * math.pi) - q / 2)
        ctx.ops += len(x)
        ctx.check(got.shape == (len(x),) and np.allclose(got, ref, rtol=1e-8, atol=0), "normal", lambda: "density_normal, precision %s mean %s: %s, expected %s" % (P.tolist(), mu, got[:4], ref[:4]))
        one = np.array([density_normal(r[None, :], mu, P)[0] for r in x])
        ctx.check(np.allclose(one, got, rtol=1e-12, atol=0), "rows", lambda: "density_normal of rows one by one differs")
        for nu in (.5, 1, 2., 3.7, 30., 1e4):
            got = density_students_t(x, mu, P, nu)
            ref = np.exp(gammaln((nu + D) / 2) - gammaln(nu / 2) + .5 * ld - D / 2 * math.log(nu * math.pi) - (nu + D) / 2 * np.log1p(q / nu))
            ctx.ops += len(x)
            ctx.check(got.shape == (len(x),) and np.allclose(got, ref, rtol=1e-7, atol=0), "students", lambda: "density_students_t, precision %s mean %s nu %r: %s, expected %s" % (P.tolist(), mu, nu, got[:4], ref[:4]))
            ctx.state(D, case["p"], nu)
        # degrees of freedom beyond which the normal density is the limit
        ctx.check(np.allclose(density_students_t(x, mu, P, 1e7), density_normal(x, mu, P), rtol=1e-3), "limit", lambda: "Student's t with many degrees of freedom is not normal")
        ctx.check(np.array_equal(x, keep[0]) and np.array_equal(mu, keep[1]) and np.array_equal(P, keep[2]), "arguments", "arguments modified")
        ctx.execs += 7


def integral(ctx, case):
    from pyrichlet.utils.functions import density_normal, density_students_t
    D = case["D"]
    P = np.array(PREC[D][case["p"]], float)
    L = np.linalg.inv(np.linalg.cholesky(P)).T
    mu = MEANS[D][1]
    m = 400 if case["fine"] else 200
    # substitution x = mu + L z, z = tan-like map of a midpoint grid of (0, 1)^D
    u = (np.arange(m) + .5) / m
    z1 = np.tan(math.pi * (u - .5))
    w1 = math.pi * (1 + z1 ** 2) / m
    Z = np.array(list(itertools.product(z1, repeat=D)))
    W = np.prod(np.array(list(itertools.product(w1, repeat=D))), axis=1) * abs(np.linalg.det(L))
    x = mu + Z @ L.T
    for name, v in [("normal", density_normal(x, mu, P))] + [("students nu=%r" % nu, density_students_t(x, mu, P, nu)) for nu in (2., 3.7, 30.)]:
        tot = float((v * W).sum())
        ctx.ops += len(x)
        ctx.check(abs(tot - 1) < 5e-3, "integral", lambda: "%s density with precision %s integrates to %r" % (name, P.tolist(), tot))
        ctx.state(name, P.tolist())
    ctx.execs += 4


def wishart(ctx, case):
    from pyrichlet.mixture_models import _utils as U
    D = case["D"]
    W = np.array(PREC[D][case["p"]], float)
    for nu in (D - .5, D, D + .3, D + 1., D + 2.5, 40.):
        if nu <= D - 1:
            continue
        what = "scale matrix %s, %r degrees of freedom" % (W.tolist(), nu)
        ref = -nu / 2 * np.linalg.slogdet(W)[1] - (nu * D / 2 * math.log(2) + D * (D - 1) / 4 * math.log(math.pi) + sum(math.lgamma((nu - i) / 2) for i in range(D)))
        got = float(U.log_wishart_normalization_term(W, nu))
        ctx.check(math.isclose(got, ref, rel_tol=1e-9, abs_tol=1e-9), "norm", lambda: "log_wishart_normalization_term, %s: %r, expected %r" % (what, got, ref))
        # E log det = log det W + sum of E log of independent chi-squares, by quadrature
        e = np.linalg.slogdet(W)[1] + sum(elogchi2(nu - i) for i in range(D))
        got = float(U.e_log_norm_wishart(W, nu))
        ctx.check(math.isclose(got, e, rel_tol=1e-5, abs_tol=1e-5), "logdet", lambda: "e_log_norm_wishart, %s: %r, expected %r" % (what, got, e))
        h = -ref - (nu - D - 1) / 2 * (np.linalg.slogdet(W)[1] + D * math.log(2) + sum(digamma((nu - i) / 2) for i in range(D))) + nu * D / 2
        got = float(U.entropy_wishart(W, nu))
        ctx.check(math.isclose(got, h, rel_tol=1e-8, abs_tol=1e-8), "entropy", lambda: "entropy_wishart, %s: %r, expected %r" % (what, got, h))
        if nu >= D:
            s = float(stats.wishart.entropy(nu, W))
            ctx.check(math.isclose(got, s, rel_tol=1e-6, abs_tol=1e-6), "entropy", lambda: "entropy_wishart, %s: %r, scipy %r" % (what, got, s))
        ctx.ops += 3
        ctx.execs += 1
        ctx.state(D, case["p"], nu)


def elogchi2(k):
    """E log X of a chi-square law by quadrature over log X"""
    f = lambda t: t * math.exp(k / 2 * t - math.exp(t) / 2 - k / 2 * math.log(2) - math.lgamma(k / 2))
    c = math.log(k)
    return integrate.quad(f, c - 160 / k - 10, c, limit=400)[0] + integrate.quad(f, c, c + 8, limit=400)[0]


def beta(ctx):
    from pyrichlet.utils import functions as U
    lat = (.05, .3, 1., 1.5, 7., 300.)
    for a, b in itertools.product(lat, lat):
        got = float(U.mean_log_beta(a, b))
        # E log v = integral of log v, with v = e^-t
        f = lambda t: -t * math.exp(-a * t + (b - 1) * math.log(-math.expm1(-t)) - (math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)))
        ref = integrate.quad(f, 0, min(1., 1 / a), limit=400)[0] + integrate.quad(f, min(1., 1 / a), 60 / a + 20, limit=400)[0]
        ctx.check(math.isclose(got, ref, rel_tol=2e-4, abs_tol=1e-7), "meanlog", lambda: "mean_log_beta(%r, %r) = %r, by quadrature %r" % (a, b, got, ref))
        arr = U.mean_log_beta(np.array([a, a]), np.array([b, 1.]))
        ctx.check(np.allclose(arr, [got, float(U.mean_log_beta(a, 1.))]), "meanlog", lambda: "mean_log_beta of arrays differs from scalars")
        for v in (1e-6, .2, .5, .93):
            got = float(U.log_likelihood_beta(v, a, b))
            ref = (a - 1) * math.log(v) + (b - 1) * math.log1p(-v) - (math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b))
            ctx.check(math.isclose(got, ref, rel_tol=1e-7, abs_tol=1e-7), "beta", lambda: "log_likelihood_beta(%r, %r, %r) = %r, expected %r" % (v, a, b, got, ref))
            ctx.ops += 1
        vs = np.array([.2, .7])
        ctx.check(np.allclose(U.log_likelihood_beta(vs, a, b), [U.log_likelihood_beta(.2, a, b), U.log_likelihood_beta(.7, a, b)]), "beta", "log_likelihood_beta of an array")
        ctx.ops += 1
        ctx.execs += 1
        ctx.state(a, b)


def binomial(ctx, case):
    from pyrichlet.utils import functions as U
    for n in range(case["n"] + 1):
        for p in (Fraction(0), Fraction(1, 7), Fraction(1, 2), Fraction(9, 10), Fraction(1)):
            tot = 0.0
            for x in range(n + 1):
                ref = math.comb(n, x) * p ** x * (1 - p) ** (n - x)
                got = math.exp(float(U.log_likelihood_binom(x, n, float(p))))
                tot += got
                ctx.ops += 1
                ctx.check(math.isclose(got, float(ref), rel_tol=1e-8, abs_tol=1e-12), "binom", lambda: "log_likelihood_binom(%d, %d, %s): %r, expected %r" % (x, n, p, got, float(ref)))
            ctx.check(math.isclose(tot, 1, rel_tol=1e-9), "binom", lambda: "binomial n=%d p=%s sums to %r" % (n, p, tot))
            ctx.check(np.allclose(np.exp(U.log_likelihood_binom(np.arange(n + 1), n, float(p))).sum(), 1), "binom", "array form of log_likelihood_binom")
            for x in (-1, n + 1):
                ctx.check(float(U.log_likelihood_binom(x, n, float(p))) == -math.inf, "binom", lambda: "log_likelihood_binom(%d, %d, %s) outside the support" % (x, n, p))
        for a, b in ((1, 1), (Fraction(1, 2), 3), (7, Fraction(1, 4)), (30, 40)):
            tot = 0.0
            for x in range(n + 1):
                ref = Fraction(math.comb(n, x))
                for k in range(x):
                    ref *= Fraction(a) + k
                for k in range(n - x):
                    ref *= Fraction(b) + k
                for k in range(n):
                    ref /= Fraction(a) + b + k
                got = math.exp(float(U.log_likelihood_beta_binom(x, n, float(a), float(b))))
                tot += got
                ctx.ops += 1
                ctx.check(math.isclose(got, float(ref), rel_tol=1e-7), "betabinom", lambda: "log_likelihood_beta_binom(%d, %d, %s, %s): %r, expected %r" % (x, n, a, b, got, float(ref)))
            ctx.check(math.isclose(tot, 1, rel_tol=1e-8), "betabinom", lambda: "beta-binomial n=%d a=%s b=%s sums to %r" % (n, a, b, tot))
        ctx.execs += 1
        ctx.state(n)


def execute(case, ctx):
    k = case["kind"]
    if k == "partitions":
        eppf(ctx, case)
    elif k == "blocks":
        blocks(ctx, case)
    elif k == "densities":
        densities(ctx, case)
    elif k == "integral":
        integral(ctx, case)
    elif k == "wishart":
        wishart(ctx, case)
    elif k == "beta":
        beta(ctx)
    else:
        binomial(ctx, case)

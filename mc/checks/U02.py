"""Every multiset of one to four points of a lattice in dimensions one to three, every order and every split into two batches, under
every prior of a lattice: the posterior parameters against exact rational arithmetic; prior density times likelihood over posterior
density constant on a grid of means and covariances. Draws: every combination of exact quadrature answers of the generator, moments
of precision and mean against the normal-inverse-Wishart law."""
import itertools
import math
from fractions import Fraction as Q
import numpy as np
from .. import env as E

PTS = {1: [(0,), (1,), (-3,), (Q(5, 2),)], 2: [(0, 0), (1, 2), (-3, Q(1, 2))], 3: [(0, 0, 1), (2, -1, Q(1, 2)), (-4, 3, 0)],
       4: [(0, 0, 1, 2), (2, -1, Q(1, 2), 0), (-4, 3, 0, 1)], 6: [(0, 0, 1, 2, -1, 3), (2, -1, Q(1, 2), 0, 4, 5), (-4, 3, 0, 1, 1, -2)]}
PRIORS = {1: [((0,), Q(1), ((Q(1),),), Q(1)), ((Q(7, 2),), Q(1, 4), ((Q(3, 10),),), Q(5, 2)), ((-20,), Q(50), ((Q(400),),), Q(30))],
          2: [((0, 0), Q(1), ((Q(1), 0), (0, Q(1))), Q(2)), ((1, -2), Q(1, 8), ((Q(2), Q(3, 2)), (Q(3, 2), Q(2))), Q(7, 2)), ((30, 5), Q(20), ((Q(1, 100), 0), (0, Q(900))), Q(12))],
          3: [((0, 0, 0), Q(1), ((Q(1), 0, 0), (0, Q(1), 0), (0, 0, Q(1))), Q(3)), ((1, -2, 3), Q(1, 2), ((Q(3), Q(1), 0), (Q(1), Q(2), Q(1, 2)), (0, Q(1, 2), Q(1))), Q(9, 2))]}
for _D in (4, 6):
    PRIORS[_D] = [((1, -2, 3, 0, 2, -1)[:_D], Q(3, 4), tuple(tuple(Q(2 + a) if a == b else Q(1, 2) if abs(a - b) == 1 else Q(0) for b in range(_D)) for a in range(_D)), Q(_D) + Q(1, 2))]


def cases(tier):
    for D in PTS:
        for p in range(len(PRIORS[D])):
            for n in range(1, (4 if D < 3 or tier != "quick" else 3 if D == 3 else 2) + 1):
                yield {"id": "update/D%d/prior%d/n%d" % (D, p, n), "kind": "update", "D": D, "p": p, "n": n, "cost": n}
            yield {"id": "long/D%d/prior%d" % (D, p), "kind": "long", "D": D, "p": p, "N": 40 if tier == "quick" else 120, "cost": 3}
            if D < 6:
                yield {"id": "draws/D%d/prior%d" % (D, p), "kind": "draws", "D": D, "p": p, "m": 2 if D == 4 else 3 if D == 3 else 4 if tier == "quick" or D == 2 else 8, "cost": 3 ** D}


def floats(prior):
    mu, lam, psi, nu = prior
    return np.array([float(v) for v in mu]), float(lam), np.array([[float(v) for v in r] for r in psi]), float(nu)


def exact(y, prior):
    """the conjugate update in rational arithmetic"""
    mu, lam, psi, nu = prior
    n, D = len(y), len(mu)
    m = [sum(Q(r[k]) for r in y) / n for k in range(D)]
    lam1 = lam + n
    mu1 = [(lam * mu[k] + n * m[k]) / lam1 for k in range(D)]
    S = [[sum((Q(r[a]) - m[a]) * (Q(r[b]) - m[b]) for r in y) for b in range(D)] for a in range(D)]
    psi1 = [[psi[a][b] + S[a][b] + lam * n / lam1 * (m[a] - mu[a]) * (m[b] - mu[b]) for b in range(D)] for a in range(D)]
    return mu1, lam1, psi1, nu + n


def agree(got, want):
    mu, lam, psi, nu = floats(want)
    D = len(mu)
    s = max(1.0, np.abs(psi).max())
    return (np.allclose(np.ravel(got["mu"]), mu, rtol=1e-9, atol=1e-10 * s) and np.size(got["mu"]) == D and math.isclose(float(got["lambda"]), lam, rel_tol=1e-12) and np.shape(np.atleast_2d(got["psi"])) == (D, D)
            and np.allclose(np.atleast_2d(got["psi"]), psi, rtol=1e-9, atol=1e-9 * s) and math.isclose(float(got["nu"]), nu, rel_tol=1e-12))


def niw(mu, S, mu0, lam, psi, nu):
    """log density of the normal-inverse-Wishart law"""
    D = len(mu)
    ld, P = np.linalg.slogdet(S)[1], np.linalg.inv(S)
    iw = nu / 2 * np.linalg.slogdet(psi)[1] - nu * D / 2 * math.log(2) - (D * (D - 1) / 4 * math.log(math.pi) + sum(math.lgamma((nu - i) / 2) for i in range(D))) - (nu + D + 1) / 2 * ld - np.trace(psi @ P) / 2
    return iw - D / 2 * math.log(2 * math.pi) - .5 * (ld - D * math.log(lam)) - lam / 2 * (mu - mu0) @ P @ (mu - mu0)


def update(case, ctx):
    from pyrichlet.mixture_models import _utils as U
    D, n = case["D"], case["n"]
    prior = PRIORS[D][case["p"]]
    mu0, lam0, psi0, nu0 = floats(prior)
    thetas = [(np.array(m, float)[:D], S) for m in ((0., 0., 0., 0., 0., 0.), (2., -3., .5, 1., -1., 3.), (-8., 11., 4., 0., 2., -5.)) for S in (np.eye(D) * .5, np.eye(D) * 3 + 1.5, np.diag(np.arange(1., D + 1)) * 20)]
    for pts in itertools.combinations_with_replacement(PTS[D], n):
        want = exact(pts, prior)
        y = np.array([[float(v) for v in r] for r in pts]).reshape(n, D)
        for perm in set(itertools.permutations(range(n))):
            ctx.ops += 1
            yy, given = y[list(perm)], [mu0.copy(), psi0.copy()]
            keep = yy.copy()
            got = U.posterior_norm_invw_params(yy, given[0], lam0, given[1], nu0)
            what = "posterior_norm_invw_params(%s, %s)" % (yy.tolist(), [mu0.tolist(), lam0, psi0.tolist(), nu0])
            if not ctx.check(agree(got, want), "update", lambda: "%s = %s, exact %s" % (what, {k: np.asarray(v).tolist() for k, v in got.items()}, [np.asarray(v).tolist() for v in floats(want)])):
                return
            ctx.check(np.array_equal(keep, yy) and np.array_equal(given[0], mu0) and np.array_equal(given[1], psi0), "arguments", lambda: "%s modified its arguments" % what)
        for k in range(1, n):
            for first in itertools.combinations(range(n), k):
                rest = [i for i in range(n) if i not in first]
                a = U.posterior_norm_invw_params(y[list(first)], mu0, lam0, psi0, nu0)
                b = U.posterior_norm_invw_params(y[rest], a["mu"], a["lambda"], a["psi"], a["nu"])
                ctx.ops += 2
                ctx.check(agree(b, want), "batches", lambda: "observations %s then %s: %s, all at once %s" % (y[list(first)].tolist(), y[rest].tolist(), b, floats(want)))
        # Bayes' rule with the library's own density
        post = U.posterior_norm_invw_params(y, mu0, lam0, psi0, nu0)
        c = []
        for m, S in thetas:
            P = np.linalg.inv(S)
            like = sum(-.5 * (D * math.log(2 * math.pi) + np.linalg.slogdet(S)[1] + (r - m) @ P @ (r - m)) for r in y)
            mm = m if D > 1 else m[:1]
            pr = float(U.log_likelihood_normal_invw(mm, S, mu0, lam0, psi0, nu0))
            po = float(U.log_likelihood_normal_invw(mm, S, np.ravel(post["mu"]), post["lambda"], np.atleast_2d(post["psi"]), post["nu"]))
            ctx.ops += 2
            ref = niw(m, S, mu0, lam0, psi0, nu0)
            ctx.check(math.isclose(pr, ref, rel_tol=1e-8, abs_tol=1e-8), "density", lambda: "log_likelihood_normal_invw(%s, %s | %s) = %r, expected %r" % (m, S.tolist(), [mu0, lam0, psi0, nu0], pr, ref))
            c.append(pr + like - po)
        ctx.check(np.ptp(c) < 1e-7 * max(1, np.abs(c).max()), "bayes", lambda: "observations %s: log prior + log likelihood - log posterior is not constant: %s" % (y.tolist(), c))
        ctx.execs += 1
        ctx.state(D, case["p"], pts)
    ctx.sample({"observations": y.tolist(), "posterior": {k: np.asarray(v).tolist() for k, v in post.items()}})


MANY = [130, 257, 700, 2100]


def long(case, ctx):
    """every prefix of a long irregular sequence, forwards, backwards and rotated, and every split of it into two batches"""
    from pyrichlet.mixture_models import _utils as U
    D, N = case["D"], case["N"]
    prior = PRIORS[D][case["p"]]
    mu0, lam0, psi0, nu0 = floats(prior)
    pts = [tuple(Q((17 * i * (k + 2) + 5 * i * i + 3 * k) % 41 - 20, 4) + (30 if i % 3 == 0 else 0) for k in range(D)) for i in range(MANY[-1])]
    y = np.array([[float(v) for v in r] for r in pts])
    for n in list(range(1, N + 1)) + MANY:
        want = exact(pts[:n], prior)
        orders = {"forwards": y[:n], "backwards": y[:n][::-1], "rotated": np.roll(y[:n], n // 3, axis=0), "fortran": np.asfortranarray(y[:n])}
        for o, yy in orders.items():
            got = U.posterior_norm_invw_params(yy, mu0, lam0, psi0, nu0)
            ctx.ops += 1
            ctx.check(agree(got, want), "update", lambda: "D=%d prior %s: %d observations %s: %s, exact %s" % (D, case["p"], n, o, got, floats(want)))
        for k in range(1, n, 1 if n in (10, 31, N) else 7 if n <= N else n // 3):
            a = U.posterior_norm_invw_params(y[:k], mu0, lam0, psi0, nu0)
            b = U.posterior_norm_invw_params(y[k:n], a["mu"], a["lambda"], a["psi"], a["nu"])
            ctx.ops += 2
            ctx.check(agree(b, want), "batches", lambda: "D=%d prior %s: %d then %d observations: %s, all at once %s" % (D, case["p"], k, n - k, b, floats(want)))
        ctx.execs += 1
        ctx.state(D, case["p"], n)
        if len(ctx.viol) > 3:
            return
    ctx.sample({"observations": n})


def draws(case, ctx):
    from pyrichlet.mixture_models import _utils as U
    D = case["D"]
    mu0, lam, psi, nu = floats(PRIORS[D][case["p"]])
    W = np.linalg.inv(psi)
    mom = {}
    ex = E.Explorer(lambda: E.LawPolicy(m=case["m"], mn=min(3, case["m"])))

    def run(env):
        gen = E.ChoiceGen(env)
        return U.random_normal_invw(mu0 if D > 1 else mu0, lam, psi, nu, rng=gen)
    tot = 0.0
    for env, (mu, S) in ex.executions_of(run):
        mu, S = np.atleast_1d(np.asarray(mu, float)), np.atleast_2d(np.asarray(S, float))
        if not ctx.check(mu.shape == (D,) and S.shape == (D, D) and np.allclose(S, S.T) and np.linalg.eigvalsh(S)[0] > 0, "shape", lambda: "draw %s %s" % (mu, S)):
            return
        P = np.linalg.inv(S)
        e = mu - mu0
        v = P @ e
        for name, val in (("precision", P), ("precision2", np.einsum("ij,kl->ijkl", P, P)), ("scaled deviation", v), ("scaled deviation squares", np.outer(v, v)),
                          ("quadratic", np.array(e @ v)), ("quadratic2", np.array((e @ v) ** 2)), ("deviation", e * np.linalg.det(P)), ("dev*prec", np.einsum("i,j->ij", v, e))):
            mom[name] = mom.get(name, 0) + env.prob * val
        tot += env.prob
        ctx.ops += 1
    ctx.execs += ex.executions
    ctx.check(abs(tot - 1) < 1e-6, "total", lambda: "total probability %r" % tot)
    I = np.eye(D)
    EW = nu * W
    E2 = nu ** 2 * np.einsum("ij,kl->ijkl", W, W) + nu * (np.einsum("ik,jl->ijkl", W, W) + np.einsum("il,jk->ijkl", W, W))
    want = {"precision": EW, "precision2": E2, "scaled deviation": np.zeros(D), "scaled deviation squares": EW / lam, "quadratic": D / lam, "quadratic2": D * (D + 2) / lam ** 2,
            "deviation": np.zeros(D), "dev*prec": I / lam}
    for k in want:
        if case["m"] == 2 and k.endswith("2"):
            continue      # two nodes are exact for the first moments only
        s = np.abs(want[k]).max() if k not in ("scaled deviation", "deviation") else max(1.0, np.abs(EW).max())
        ctx.check(np.allclose(mom[k], want[k], rtol=1e-6, atol=1e-6 * max(s, 1e-12)), "law", lambda: "D=%d prior %s: mean of %s over all draws is %s, its law's %s" % (D, [mu0.tolist(), lam, psi.tolist(), nu], k, np.asarray(mom[k]).tolist(), np.asarray(want[k]).tolist()))
        ctx.state(D, case["p"], k, np.round(mom[k], 6).tolist())
    ctx.sample({"draws": ex.executions, "mean precision": np.asarray(mom["precision"]).tolist()})


def execute(case, ctx):
    {"update": update, "long": long, "draws": draws}[case["kind"]](case, ctx)

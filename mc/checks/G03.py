"""One Gibbs sweep from every distinct assignment reachable in a first sweep: the choice points of the sweep are classified by
what they influence (one point at a time), then enumerated with exact quadrature menus: atoms of every group against
normal-inverse-Wishart posterior (prior for empty groups) moments, weights against the posterior law's moments, slice levels
against uniform moments, reassignments against normalised densities on a midpoint grid; independence by disjoint influence."""
import itertools
import numpy as np
from scipy.stats import multivariate_normal
from .. import env as E, fit as F, gibbs as G, models as M, vb

# Gibbs model -> law of its weights given assignments (conjugate models)
LAW = {"dp": M.dp(1), "dp.3": M.dp(.3), "py": M.py(.25, .5), "geo": M.geo(1, 1), "dird": M.dirichlet([1., 1., 1.]), "dirdv": M.dirichlet([.5, 2.]),
       "equal": M.equal(3), "freq": M.freq(2), "bib0": M.dp(2), "bib1": M.geo(2, 1), "bern1": M.dp(2), "bern0": M.geo(1, 1), "binm0": M.dp(1), "bid0": M.geo(1, 1)}
Y = {1: [[0., 1.], [0., 1., 4.], [3., 3., -2., 5.]], 2: [[(0., 0.), (2., 1.)], [(0., 0.), (1., .5), (6., 5.), (5., 7.)]],
     3: [[(0., 0., 0.), (1., 0., 2.), (0., 1., -1.), (8., 8., 9.), (9., 7., 8.)]]}
# large groups, many features: (model, observations, prior index)
WIDE = [("dirdv", F._grid(44, 1, 1., 0., 2), 0), ("dp", F._grid(36, 2, .5, 3., 3), 1), ("equal", F._grid(40, 3, 2., 0., 2), 1), ("py", F._grid(34, 1, 3., -2., 5), 1),
        ("freq", F._grid(26, 4, 1., 0., 2), 0), ("bern", F._grid(30, 1, 1., 0., 2), 2), ("geo", F._grid(130, 1, 1., 0., 3), 0)]


def cases(tier):
    for i, g in enumerate(G.GIBBS):
        for D in (1, 2, 3):
            for n in range(len(Y[D])):
                for p in range(len(F.PRIORS[D])):
                    if tier == "quick" and (i + n + p) % 3 and i:
                        continue
                    if tier == "quick" and (D == 3 and i % 4 or D == 2 and n and (i + p) % 2):
                        continue
                    yield {"id": "%s/D%d/data%d/prior%d" % (g[0], D, n, p), "m": i, "D": D, "n": n, "p": p, "cost": D, "T": 1 if (i + n + p) % 2 else 3,
                           "starts": 2 if tier == "quick" else 6, "M": 16 if tier == "quick" else 40, "quick": tier == "quick"}
    for k, (mid, y, p) in enumerate(WIDE):
        yield {"id": "%s/wide%d" % (mid, k), "m": G.ID[mid], "D": y.shape[1], "n": 0, "p": p, "cost": 20, "wide": k, "T": 1,
               "starts": 1 if tier == "quick" else 4, "M": 16 if tier == "quick" else 24, "quick": tier == "quick"}


class Menu:
    """exact law menus at the chosen positions, one fixed varied answer elsewhere, a midpoint grid where asked"""

    def __init__(self, base, law=(), grid=(), m=3, M=20, alt=None):
        self.base, self.law, self.grid, self.M, self.alt = base, frozenset(law), frozenset(grid), M, alt
        self.L, self.n = E.LawPolicy(m=m, mn=m), 0

    def _menu(self, exact, q):
        i, self.n = self.n, self.n + 1
        if i in self.law:
            return exact()
        if i in self.grid:
            return tuple(q((k + .5) / self.M) for k in range(self.M)), tuple([1 / self.M] * self.M)
        qs = (.37, .62, .21, .84, .5)
        k = E._rot(i + 7919 * self.base) % 5
        if i == self.alt:
            k = (k + 1) % 5      # a different answer here
        return (q(qs[k]),), (1.0,)

    def beta(self, a, b):
        return self._menu(lambda: self.L.beta(a, b), lambda q: E._beta_q(a, b, q))

    def uniform01(self):
        return self._menu(self.L.uniform01, lambda q: q)

    def normal(self):
        return self._menu(self.L.normal, E._norm_q)

    def gamma(self, k):
        return self._menu(lambda: self.L.gamma(k), lambda q: float(E.gammaincinv(k, q)))


class SweepEnv(E.Env):
    """answers outside the varied positions are fixed, whatever their kind"""

    def choose(self, kind, params, values, probs):
        i = len(self.points)
        pol = self.policy
        if i not in pol.law and i not in pol.grid and len(values) > 1:
            k = E._rot(i + 7919 * pol.base) % len(values)
            if i == pol.alt:
                k = (k + 1) % len(values)
            values, probs = [values[k]], [1.0]
        return super().choose(kind, params, values, probs)

    def _sync(f):
        def g(self, *a):
            self.policy.n = len(self.points)      # menus are addressed by position
            return f(self, *a)
        return g
    beta, u01, normal, gamma = _sync(E.Env.beta), _sync(E.Env.u01), _sync(E.Env.normal), _sync(E.Env.gamma)


class Sweep:
    """cold fit with a fixed first sweep (choices `prefix` of its last points), then one warm sweep under a given menu"""

    def __init__(self, case):
        self.case = case
        self.y = WIDE[case["wide"]][1] if "wide" in case else np.array(Y[case["D"]][case["n"]], float).reshape(-1, case["D"])
        self.prior = F.PRIORS[case["D"]][case["p"]]
        self.runs = 0

    def prepare(self, base, tail):
        gen = E.ChoiceGen(SweepEnv(Menu(base)))
        m = G.make(self.case["m"], gen, self.prior, self.case["T"], 0, 1)
        m.fit_gibbs(self.y.copy(), init_groups=2, init_method="random")
        self.length = len(gen.env.points)
        return m, gen

    def starts(self, limit):
        """distinct visible assignments after the first sweep over base executions"""
        seen, kept = {}, {}
        for base in range(24):
            m, gen = self.prepare(base, ())
            d = tuple(int(x) for x in m.sim_params[-1]["d"])
            seen.setdefault(d, base)
            if len(m.sim_params) > 1 and np.array_equal(m.sim_params[-2]["d"], d):
                kept.setdefault(d, base)
        # prefer assignments that did not change in the last sweep, with gaps, several groups
        order = sorted(seen, key=lambda d: (d not in kept, -(max(d) + 1 - len(set(d)) > 0), -len(set(d)), d))
        return [(d, kept.get(d, seen[d])) for d in order[:limit]]

    def sweep(self, base, menu, prefix=()):
        m, gen = self.prepare(base, ())
        before = m.sim_params[-1]
        m.total_iter = 1
        env = SweepEnv(menu, prefix)
        gen.env = env
        m.fit_gibbs(self.y.copy(), warm_start=True)
        self.runs += 1
        return env, m.sim_params[-1], before

    def all(self, base, law=(), grid=(), m=3, M=20):
        stack = [()]
        while stack:
            prefix = stack.pop()
            env, s, _ = self.sweep(base, Menu(base + 1, law, grid, m, M), prefix)
            yield env.prob, s
            ch = env.choices()
            for i in range(len(env.points) - 1, len(prefix) - 1, -1):
                for alt in range(env.points[i][1] - 1, 0, -1):
                    stack.append(tuple(ch[:i]) + (alt,))


def parts(s, K):
    """named components of a state restricted to the first K groups"""
    out = {"w%d" % j: float(s["w"][j]) for j in range(min(K, len(s["w"])))}
    out.update({"u%d" % i: float(x) for i, x in enumerate(s["u"])})
    out.update({"d%d" % i: int(x) for i, x in enumerate(s["d"])})
    out.update({"t%d" % j: (np.array(a[0]).tobytes(), np.array(a[1]).tobytes()) for j, a in s["theta"].items() if j < K})
    return out


def execute(case, ctx):
    sw = Sweep(case)
    if sw.prior is None and not F.default_ok(sw.y):
        return
    for d, base in sw.starts(case["starts"]):
        one(case, ctx, sw, d, base)
        if len(ctx.viol) > 4:
            break
    ctx.execs += sw.runs


def by_halves(case, ctx, sw, base, j, th, pts, what):
    """an atom of many random answers: its precision over those that move the covariance, then its mean over the others"""
    m_, lam, psi, nu = th
    ref = sw.sweep(base, Menu(base + 1))[1]["theta"][j]
    cov = [i for i in pts if not np.array_equal(sw.sweep(base, Menu(base + 1, alt=i))[1]["theta"][j][1], ref[1])]
    loc = [i for i in pts if i not in cov]
    D = len(m_)
    if 2 ** len(cov) <= 1200:
        acc = sum(pr * np.linalg.inv(s["theta"][j][1]) for pr, s in sw.all(base, law=cov, m=2))
        want = nu * np.linalg.inv(psi)
        ctx.check(np.allclose(acc, want, rtol=1e-6, atol=1e-8 * np.abs(want).max()), "atom-law", lambda: "%s: mean precision of the atom of group %d is %s, posterior says %s" % (what, j, acc.tolist(), want.tolist()))
    m1 = m2 = 0
    for pr, s in sw.all(base, law=loc, m=2):
        mu, S = s["theta"][j]
        m1, m2 = m1 + pr * np.asarray(mu), m2 + pr * np.outer(mu - m_, mu - m_)
    ctx.check(np.allclose(m1, m_, rtol=1e-6, atol=1e-7) and np.allclose(m2, ref[1] / lam, rtol=1e-6, atol=1e-9), "atom-law", lambda: "%s: given its covariance the mean of the atom of group %d has mean %s and covariance %s, posterior says %s and %s" % (
        what, j, m1.tolist(), m2.tolist(), m_.tolist(), (ref[1] / lam).tolist()))
    ctx.ops += 2


def one(case, ctx, sw, d0, base):
    y, D = sw.y, case["D"]
    latent = G.GIBBS[case["m"]][0] not in LAW     # a changed latent answer may shift the later ones
    mid = G.GIBBS[case["m"]][0]
    prior = F.prior_of(sw.prior, y)
    env, s0, before = sw.sweep(base, Menu(base + 1))
    what = "%s data %s prior %s from d=%s" % (mid, str(y.tolist())[:300], sw.prior, str(list(d0))[:300])
    few = [0, len(y) // 2, len(y) - 1] if "wide" in case else range(len(y))      # observations followed one by one
    d0 = np.array(d0)
    K0 = len(before["w"])
    npts = len(env.points)
    # influence of every choice point of the sweep
    ref = parts(s0, 10 ** 6)
    infl = {}
    for i in range(npts):
        e, s, _ = sw.sweep(base, Menu(base + 1, alt=i))
        p = parts(s, 10 ** 6)
        infl[i] = {k for k in ref if p.get(k) != ref[k]}
        ctx.ops += 1
    ctx.state(mid, case["n"], case["p"], d0.tolist(), G.canon(s0))
    # ---- atoms ---------------------------------------------------------------
    K = len(s0["w"])
    done = {}          # quick tier: atoms of high dimension checked, occupied and empty
    for j in range(K):
        tn = "t%d" % j
        pts = [i for i in infl if tn in infl[i] and not any(k[0] in "wu" for k in infl[i]) and (not latent or len([k for k in infl[i] if k[0] == "t"]) == 1)]
        mine = y[d0 == j]
        if len(mine) == 0 and j in before["theta"]:
            # an atom kept from an earlier sweep is a draw from the same law: either it stays or it is redrawn
            if not pts:
                continue
        if not ctx.check(pts, "atom-not-drawn", lambda: "%s: the atom of group %d (%d observations) depends on no random answer of the sweep" % (what, j, len(mine))):
            continue
        for i in pts:
            other = {k for k in infl[i] if k[0] == "t" and k != tn}
            ctx.check(not other, "atom-dependence", lambda: "%s: random answer %d moves atoms %s and %s" % (what, i, tn, other))
        th = vb.theta_update(y, (d0 == j)[None, :].astype(float), prior)[0]
        m_, lam, psi, nu = th
        order = 3 if len(pts) <= 5 else 2
        if "wide" in case and order ** len(pts) > 800:
            by_halves(case, ctx, sw, base, j, th, pts, what)
            continue
        if order ** len(pts) > 800 or case["quick"] and order ** len(pts) > 100 and done.setdefault(len(mine) > 0, 0) >= 2:
            continue
        done[len(mine) > 0] = done.get(len(mine) > 0, 0) + 1
        acc = 0
        tot = 0.0
        for pr, s in sw.all(base, law=pts, m=order):
            if j not in s["theta"]:
                tot = None
                break
            mu, S = s["theta"][j]
            P = np.linalg.inv(S)
            dev = np.asarray(mu) - m_
            f = [np.asarray(mu), P, np.outer(dev, dev) @ P, np.array([dev @ P @ dev])]
            if order > 2:
                f += [np.outer(P.ravel(), P.ravel()), np.array([(dev @ P @ dev) ** 2])]
            f = np.concatenate([np.ravel(x) for x in f])
            acc = acc + pr * f
            tot += pr
        if tot is None:
            ctx.count("skipped_atoms")
            continue
        W = np.linalg.inv(psi)
        want = [m_, nu * W, np.eye(D) / lam, np.array([D / lam])]
        if order > 2:
            cov = nu * (np.einsum("ik,jl->ijkl", W, W) + np.einsum("il,jk->ijkl", W, W))
            want += [(np.outer((nu * W).ravel(), (nu * W).ravel()) + cov.reshape(D * D, D * D)), np.array([(D * D + 2 * D) / lam ** 2])]
        want = np.concatenate([np.ravel(x) for x in want])
        ctx.ops += 1
        ctx.check(abs(tot - 1) < 1e-9 and np.allclose(acc, want, rtol=1e-6, atol=1e-8), "atom-law" if len(mine) else "atom-prior", lambda: (
            "%s: atom of group %d with observations %s: moments (mean, precision, ...) %s, normal-inverse-Wishart %s gives %s" % (
                what, j, mine.tolist(), np.round(acc, 6)[:12].tolist(), "posterior" if len(mine) else "prior", np.round(want, 6)[:12].tolist())))
    # ---- weights -------------------------------------------------------------
    kd = int(max(d0)) + 1
    if mid in LAW:
        wk = {"w%d" % j for j in range(min(kd, K))}
        pts = [i for i in infl if infl[i] & wk]
        if 3 ** len(pts) <= 800:
            mons = M.monomials(min(kd, K), 3)
            acc = np.zeros(len(mons))
            for pr, s in sw.all(base, law=pts, m=4 if len(pts) <= 2 else 3):
                w = np.concatenate([s["w"][:kd], np.zeros(max(0, kd - len(s["w"])))])[:min(kd, K)]
                acc += pr * np.prod(w[None, :] ** np.array(mons), axis=1)
            want, mm, _ = M.moments(lambda e: LAW[mid](e, [int(x) for x in d0], kd), min(kd, K), 3, E.LawPolicy(m=8))
            ctx.ops += 1
            # quadrature of order m is exact for the moments only up to its degree in every stick
            ok = np.array([sum(c) <= 2 for c in mm]) if mid in ("geo", "bib1", "bern0", "bid0") and kd > 2 else np.ones(len(mm), bool)
            deg = 3
            if mid in ("geo", "bib1", "bern0", "bid0"):
                ok = np.array([sum(c * (k + 1) for k, c in enumerate(r)) <= (7 if len(pts) <= 2 else 5) for r in mm])
            ctx.check(np.allclose(acc[ok], want[ok], rtol=1e-7, atol=1e-10), "weights-law", lambda: "%s: moments of the weights %s, posterior %s" % (what, acc[ok].tolist(), want[ok].tolist()))
    # ---- slice levels ----------------------------------------------------------
    upts = {}
    for i in few:
        name = "u%d" % i
        pts = [q for q in infl if name in infl[q] and not any(k[0] == "w" and int(k[1:]) < kd for k in infl[q]) and (not latent or len([k for k in infl[q] if k[0] == "u"]) == 1)]
        upts[i] = pts
        if not ctx.check(len(pts) >= 1, "slice-not-drawn", lambda: "%s: slice level %d depends on no random answer of its own" % (what, i)):
            continue
        acc = np.zeros(3)
        for pr, s in sw.all(base, law=pts, m=4):
            r = s["u"][i] / s["w"][d0[i]]
            acc += pr * np.array([r, r ** 2, r ** 3])
        ctx.ops += 1
        ctx.check(np.allclose(acc, [1 / 2, 1 / 3, 1 / 4], atol=1e-6), "slice-law", lambda: "%s: slice level %d over its weight has moments %s, uniform has 1/2, 1/3, 1/4" % (what, i, acc.tolist()))
    for a, b in itertools.combinations(few, 2):
        ctx.check(not set(upts[a]) & set(upts[b]), "slice-dependence", lambda: "%s: slice levels %d and %d share random answers" % (what, a, b))
    # ---- reassignment ------------------------------------------------------------
    w, u, th = np.asarray(s0["w"]), np.asarray(s0["u"]), s0["theta"]
    last = [q for q in infl if not any(k[0] in "wut" for k in infl[q])]
    # points which determine nothing but assignments form the tail of the sweep
    determ = max([q for q in infl if any(k[0] in "wut" for k in infl[q])], default=-1)
    tail = [q for q in range(determ + 1, npts)]
    ctx.check(all(not any(k[0] in "wut" for k in infl[q]) for q in tail), "order", lambda: "unexpected order of draws in %s" % what)
    N = len(y)
    if len(tail) % N == 0:
        reach = {}
        for i in few:
            if case["quick"] and "wide" not in case and N > 3 and (i + base) % 2:
                reach[i] = []
                continue
            cand = [j for j in range(len(w)) if w[j] > u[i]]
            lp = np.array([multivariate_normal.logpdf(y[i], th[j][0], th[j][1]) for j in cand])
            pr = np.exp(lp - lp.max())
            pr /= pr.sum()
            want = dict(zip(cand, pr))
            # which tail points can move observation i: a winning answer at one position, then at a second one
            half = {q: .5 for q in tail}
            hi = 1 - 1e-15

            def become(over):
                return int(sw.sweep(base, Fixed(base + 1, {**half, **over}))[1]["d"][i])
            d_half = become({})
            pts = [q for q in tail if become({q: hi}) != d_half or become({q: 1e-15}) != d_half]
            if pts:
                d1 = become({pts[0]: hi})
                pts = sorted(set(pts) | {q for q in tail if q != pts[0] and become({pts[0]: hi, q: 1 - 1e-16}) != d1})
            reach[i] = pts
            if len(cand) == 1:
                ctx.check(not pts and s0["d"][i] == cand[0], "reassign", lambda: "%s: observation %d has the single candidate %s but became %s" % (what, i, cand, s0["d"][i]))
                continue
            Mg = case["M"] if len(pts) <= 2 else 8 if len(pts) == 3 else 0
            if not Mg:
                ctx.check(int(s0["d"][i]) in want, "reassign", lambda: "%s: observation %d assigned to %d outside its slice %s" % (what, i, s0["d"][i], cand))
                continue
            got = {}
            for p_, s in sw.all(base, grid=pts, M=Mg):
                got[int(s["d"][i])] = got.get(int(s["d"][i]), 0) + p_
            ctx.ops += 1
            tol = .5 / Mg + .02 if len(pts) > 1 else 1.01 / Mg
            ctx.check(set(got) <= set(want) and all(abs(got.get(j, 0) - want[j]) <= tol for j in want), "reassign", lambda: (
                "%s: observation %d (weights %s slice %s) is reassigned with probabilities %s, conditional says %s" % (what, i, w.tolist(), u[i], got, want)))
        for a, b in itertools.combinations(few, 2):
            ctx.check(not set(reach[a]) & set(reach[b]), "reassign-dependence", lambda: "%s: observations %d and %d share random answers of the reassignment" % (what, a, b))
    ctx.sample({"from": d0.tolist(), "state": G.show(s0)})


class Fixed(Menu):
    def __init__(self, base, at):
        super().__init__(base)
        self.at = at

    def _menu(self, exact, q):
        if self.n in self.at:
            v = self.at[self.n]
            self.n += 1
            return (q(v),), (1.0,)
        return super()._menu(exact, q)

"""Stopping of the variational fit: for every data set of a lattice, model, truncation and initialisation, every tolerance
separating two consecutive changes of the reference evidence bound and every iteration cap; cold and warm histories
of up to three fits; the iteration reached is identified by exact comparison with the single-step states."""
import contextlib
import io
import itertools
import numpy as np
from .. import fit as F, vb
from .V04 import DATA

T = 12


def cases(tier):
    for i in range(len(F.VAR)):
        for D in (1, 2, 3):
            for K in (1, 2, 3):
                for p in range(len(F.PRIORS[D])):
                    if tier == "quick" and (i + p + K) % 2 and i > 1:
                        continue
                    yield {"id": "%s-%d/D%d/K%d/prior%d" % (F.VAR[i][0], i, D, K, p), "m": i, "D": D, "K": K, "p": p,
                           "T": T if tier == "quick" else 20, "cost": D * K}


    for c in F.wide_cases(tier, 1):
        yield dict(c, T=T if tier == "quick" else 20)
    for i in range(len(F.VAR)):
        for D in (1, 2):
            for K in (1, 2, 3):
                yield {"id": "%s-%d/stationary/D%d/K%d" % (F.VAR[i][0], i, D, K), "m": i, "D": D, "K": K, "p": 1, "still": True,
                       "T": 150 if tier == "quick" else 800, "cost": 6}


class Sys:
    """reference trajectory S_1.. S_T of one configuration and its evidence bounds"""

    def __init__(self, case, y, p, init, seed, T):
        self.case, self.y, self.p, self.init, self.seed = case, y, p, init, seed
        self.S, self.E = [], []
        m = self.new(1)
        self.fit(m, -1.0)
        prior = F.prior_of(p, y)
        for t in range(T):
            if t:
                self.fit(m, -1.0, True)
            r, th = F.state(m)
            wq, ref = F.var_ref(self.law, self.k, r, y, prior)
            self.S.append(r)
            self.E.append(vb.elbo(y, r, wq, ref, prior))
        self.diff = np.abs(np.diff(self.E))             # diff[i]: change at iteration i+2

    def new(self, total):
        m, self.law, self.k = F.var_model(self.case["m"], self.case["K"], np.random.default_rng(self.seed), self.p, total_iter=total, burn_in=0)
        return m

    def fit(self, m, tol, warm=False, show=None):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()) if show else contextlib.nullcontext():
            m.fit_variational(self.y.copy(), n_groups=self.case["K"], tol=tol, init_method=self.init, warm_start=warm, **({} if show is None else {"show_progress": show}))

    def where(self, m):
        """iterations after which the model stands, all candidates"""
        return [t + 1 for t, r in enumerate(self.S) if r.shape == m.var_d.shape and np.array_equal(r, m.var_d)]

    def expect(self, start, tol, cap):
        """(iterations, converged) options of one fit starting after `start` iterations"""
        out = set()
        firsts = [None]
        if start and self.diff[start - 1] <= tol:
            firsts.append(1)       # whether the previous fit's bound counts is not specified
        for f in firsts:
            n, conv = cap, False
            for i in range(1, cap + 1):
                if i == 1:
                    if f == 1:
                        n, conv = 1, True
                        break
                    continue
                if self.diff[start + i - 2] <= tol:
                    n, conv = i, True
                    break
            out.add((n, conv))      # reaching the tolerance in the last permitted iteration counts as converged
        return out


def execute(case, ctx):
    D, K = case["D"], case["K"]
    p = F.PRIORS[D][case["p"]]
    if case.get("still"):
        return stationary(case, ctx)
    for n, y in enumerate(F.data_of(case, DATA.get(D))):
        y = np.array(y, float).reshape(-1, D)
        if p is None and not F.default_ok(y):
            continue
        for init in ("kmeans", "random"):
            if init == "kmeans" and len(y) < K:
                continue
            s = Sys(case, y, p, init, 3 + n, case["T"])
            d = s.diff
            floor = 1e-7 * max(1, max(abs(e) for e in s.E))
            tols = [1e6]
            cand = sorted(set(x for x in d if x > floor))
            for a, b in zip(cand, cand[1:]):
                if b > a * 1.01:
                    tols.append(float(np.sqrt(a * b)))
            if cand:
                tols += [cand[-1] * 2]
                if cand[0] > floor * 3:
                    tols.append(cand[0] * .7 if not any(x <= floor for x in d) else float(np.sqrt(cand[0] * floor)))
            tols = [t for t in tols if all(abs(t - x) > 1e-3 * max(t, floor) for x in d)]
            if len(tols) > 5:
                tols = [tols[0], tols[1], tols[len(tols) // 2], tols[-2], tols[-1]]
            runs = [[(t, c)] for t in tols + [-1.0] for c in (1, 2, 3, 5, 9)]
            runs += [[(a, c), (b, e)] for a in (tols[0], tols[-1], -1.0) for b in (tols[0], tols[-1], -1.0) for c in (1, 2, 4) for e in (1, 2, 4)]
            runs += [[(tols[0], 3), (-1.0, 2), (tols[-1], 3)], [(-1.0, 2), (tols[0], 5), (-1.0, 1)]]
            for k, hist in enumerate(runs):
                m = s.new(hist[0][1])
                start = m.rng.bit_generator.state
                at = {0}
                for q, (tol, cap) in enumerate(hist):
                    m.total_iter = cap
                    s.fit(m, tol, warm=q > 0, show=(None, None, False, True)[k % 4] if not k % 7 else None)
                    ctx.ops += 1
                    here = s.where(m)
                    opts = [(a + it, cv) for a in at for it, cv in s.expect(a, tol, cap) if a + it <= len(s.S)]
                    good = [w for w, cv in opts if w in here and cv == bool(m.var_converged)]
                    what = "%s%s y=%s K=%d %s history(tol,cap) %s" % (s.law, s.k, y.tolist(), K, init, hist[:q + 1])
                    if not ctx.check(good, "stop", lambda: "%s: stands after iteration %s, converged=%r; evidence changes %s allow %s" % (
                            what, here, m.var_converged, d[:9].tolist(), opts)):
                        break
                    ctx.check(m.var_converged is True or m.var_converged is False or isinstance(m.var_converged, np.bool_), "flag", lambda: "converged flag %r" % m.var_converged)
                    at = set(good)
                    ctx.state(case["id"], n, init, tuple(good), bool(m.var_converged))
                # a cold fit afterwards starts afresh
                m.total_iter = 2
                m.rng.bit_generator.state = start
                s.fit(m, -1.0)
                ctx.check(2 in s.where(m) and not m.var_converged, "cold", lambda: "%s then a cold fit of 2 iterations: stands after %s, converged=%r" % (hist, s.where(m), m.var_converged))
                ctx.execs += 1
                if len(ctx.viol) > 4:
                    return
    ctx.sample({"law": F.VAR[case["m"]][0], "D": D, "K": K})


def counted(m):
    """counts evaluations of the evidence term of the weights (once or a fixed number of times per iteration)"""
    n = [0]
    f = m.weight_model.variational_mean_log_q_w

    def g(*a, **k):
        n[0] += 1
        return f(*a, **k)
    m.weight_model.variational_mean_log_q_w = g
    return n


def stationary(case, ctx):
    """tolerance zero: two consecutive states that are equal have equal evidence, so the fit stops there as converged"""
    D, K = case["D"], case["K"]
    p = F.PRIORS[D][case["p"]]

    def new(total):
        m = F.var_model(case["m"], K, np.random.default_rng(7), p, total_iter=total, burn_in=0)[0]
        return m, counted(m)
    for n, y in enumerate(DATA[D]):
        y = np.array(y, float).reshape(-1, D)
        for init in ("kmeans", "random"):
            if init == "kmeans" and len(y) < K:
                continue
            kw = dict(n_groups=K, init_method=init)
            per = []
            for c in (1, 2, 3, 5):
                m, cnt = new(c)
                m.fit_variational(y.copy(), tol=-1.0, **kw)
                per.append((c, cnt[0]))
            a = per[1][1] - per[0][1]
            b = per[0][1] - a
            linear = a > 0 and all(k == a * c + b for c, k in per)
            m, _ = new(1)
            m.fit_variational(y.copy(), tol=-1.0, **kw)
            last, still = F.state(m), None
            for t in range(2, case["T"] + 1):
                m.fit_variational(y.copy(), tol=-1.0, warm_start=True, **kw)
                s = F.state(m)
                ctx.ops += 1
                if repr_state(s) == repr_state(last):
                    still = t
                    break
                last = s
            if still is None:
                continue
            what = "%s y=%s K=%d %s" % (F.VAR[case["m"]], y.tolist(), K, init)
            for tol in (0.0, 0):
                for cap in (still, still + 1, still + 9):
                    m, cnt = new(cap)
                    m.fit_variational(y.copy(), tol=tol, **kw)
                    ctx.execs += 1
                    ctx.check(m.var_converged, "stationary", lambda: "%s: the state does not change in iteration %d but a fit with tolerance zero and cap %d is not reported as converged" % (what, still, cap))
                    if linear:
                        it = (cnt[0] - b) / a
                        ctx.check(it <= still, "stationary", lambda: "%s: stationary at iteration %d but %g iterations were done with tolerance zero and cap %d" % (what, still, it, cap))
            if still == 2:
                m, cnt = new(1)
                m.fit_variational(y.copy(), tol=0.0, **kw)
                ctx.check(not m.var_converged, "first-iteration", lambda: "%s: converged after one iteration" % what)
            ctx.state(case["id"], n, init, still)
    ctx.sample({"law": F.VAR[case["m"]][0], "D": D, "K": K})


def repr_state(s):
    return s[0].tobytes(), [(a[0].tobytes(), a[1], a[2].tobytes(), a[3]) for a in s[1]]

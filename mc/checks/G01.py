"""Every schedule (total_iter<=7 quick / 10, burn_in, subsample_steps<=4) of every Gibbs model, cold, then every pair of warm and cold
continuations with changed schedules, compared with the transition system's own single-step trajectory (same generator
state): the stored draws must be exactly the scheduled states, and all per-draw records must describe them."""
import contextlib
import io
import itertools
import numpy as np
from .. import fit as F, gibbs as G


def cases(tier):
    for i in range(len(G.GIBBS)):
        for D in (1, 2):
            yield {"id": "%s/D%d" % (G.GIBBS[i][0], D), "m": i, "D": D, "T": 6 if tier == "quick" else 10, "cost": 2}
        yield {"id": "%s/long" % G.GIBBS[i][0], "m": i, "D": 1 + i % 3, "T": 0, "cost": 6, "L": 1100 if tier != "quick" or not i % 6 else 150}
    yield {"id": "rejected", "m": None}


def scheds(T, S=4):
    for t in range(1, T + 1):
        for b in range(t):
            for s in range(1, S + 1):
                yield t, b, s


def rejected(ctx):
    for g in range(len(G.GIBBS)):
        for T in range(0, 5):
            for B in range(T, 6):
                for conv in (int, np.int64, float):
                    ctx.ops += 1
                    try:
                        G.make(g, np.random.default_rng(0), None, conv(T), conv(B))
                    except (AssertionError, ValueError):
                        continue
                    ctx.fail("rejected", "%s accepted total_iter=%r burn_in=%r" % (G.GIBBS[g][0], T, B))
        ctx.execs += 1


def setup(m, sch):
    m.total_iter, m.burn_in, m.subsample_steps = sch


def records(ctx, m, want, y, what):
    """the records of m must be those of the list of states want"""
    got = [G.canon(p) for p in m.sim_params]
    ctx.ops += 1
    ok = got == [G.canon(p) for p in want]
    ctx.check(ok, "draws", lambda: "%s: %d draws saved, %d scheduled; %s" % (what, len(got), len(want), "first difference at %s" % next(
        (k for k, (a, b) in enumerate(zip(got, [G.canon(p) for p in want])) if a != b), "the end")))
    c = [len(set(int(x) for x in p["d"])) for p in m.sim_params]
    a = [len(p["theta"]) for p in m.sim_params]
    ctx.check(list(m.n_groups) == c and list(m.get_n_groups()) == c, "group-counts", lambda: "%s: group counts %s, draws have %s" % (what, m.n_groups, c))
    ctx.check(list(m.n_atoms) == a and list(m.get_n_theta()) == a, "atom-counts", lambda: "%s: atom counts %s, draws have %s" % (what, m.n_atoms, a))
    ctx.check(m.total_saved_steps == len(want), "saved-steps", lambda: "%s: total_saved_steps %r, %d draws" % (what, m.total_saved_steps, len(want)))
    ctx.check(m.get_sim_params() is m.sim_params or [G.canon(p) for p in m.get_sim_params()] == got, "get_sim_params", "differs from sim_params")
    n = len(y)
    aff = np.zeros((n, n))
    for p in want:
        aff += np.equal.outer(np.asarray(p["d"]), np.asarray(p["d"]))
    ctx.check(np.allclose(m.gibbs_eap_affinity_matrix(), aff / len(want)), "affinity", lambda: "%s: affinity not that of the scheduled draws" % what)


def long(case, ctx):
    """long schedules, the default one included, with and without a progress bar"""
    i, D, L = case["m"], case["D"], case["L"]
    y = G.data(D, 0)

    def run(sch, show, y=y):
        m = G.make(i, np.random.default_rng(60 + i), F.PRIORS[D][1], *(sch or (5, 0, 1)))
        if sch is None:
            from pyrichlet import mixture_models as mm
            _, cls, kw, _ = G.GIBBS[i]
            m = getattr(mm, cls)(rng=np.random.default_rng(60 + i), **kw, **F.prior_kw(F.PRIORS[D][1]))
        if show == "attribute":
            m.show_progress = True
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            m.fit_gibbs(y.copy(), init_groups=2, **(dict(show_progress=show) if isinstance(show, bool) else {}))
        ctx.execs += 1
        return m
    ref = run((L, 0, 1), None)
    S = [G.copy_state(p) for p in ref.sim_params]
    if not ctx.check(len(S) == L, "draws", "%d sweeps saved %d states" % (L, len(S))):
        return
    records(ctx, ref, S, y, "%s schedule %s" % (case["id"], (L, 0, 1)))
    for p in S:
        ctx.states.add(hash(G.canon(p)))
    for k, sch in enumerate([(120, 100, 1), (121, 7, 10), (150, 20, 25), (100, 99, 7), (60, 10, 1000), (64, 32, 2), (149, 0, 12), (11, 10, 1)]):
        for show in (None, True, False, "attribute"):
            if show is not None and (k + i) % 4 and k:
                continue
            m = run(sch, show)
            records(ctx, m, S[sch[1]:sch[0]:sch[2]], y, "%s schedule %s show_progress %s" % (case["id"], sch, show))
    if L >= 1000:
        m = run(None, None)
        records(ctx, m, S[100:1000], y, "%s default schedule" % case["id"])
        m.total_iter, m.burn_in = 60, 20
        m.fit_gibbs(y.copy(), warm_start=True)
        records(ctx, m, S[100:1000] + S[1020:1060], y, "%s default schedule, then warm" % case["id"])
    ctx.sample({"model": case["id"], "sweeps": L})


def execute(case, ctx):
    if case["m"] is None:
        return rejected(ctx)
    if "L" in case:
        return long(case, ctx)
    i, D = case["m"], case["D"]
    for n in range(2):
        y = G.data(D, n)
        prior = F.PRIORS[D][(i + n) % 2]
        init = ("random", "kmeans")[(i + n) % 2]
        L = 3 * case["T"]

        def fresh(sch):
            return G.make(i, np.random.default_rng(40 + i), prior, *sch)
        ref = fresh((L, 0, 1))
        start = ref.rng.bit_generator.state
        ref.fit_gibbs(y.copy(), init_groups=2, init_method=init)
        S = [G.copy_state(p) for p in ref.sim_params]
        if not ctx.check(len(S) == L, "draws", "%d sweeps saved %d states" % (L, len(S))):
            return
        for p in S:
            ctx.states.add(hash(G.canon(p)))

        def pick(first, sch):
            t, b, s = sch
            return S[first + b:first + t:s]
        alls = list(scheds(case["T"]))
        some = [x for x in alls if x[0] <= 3] + [(case["T"], 2, 3), (5, 1, 2)]
        what = "%s D=%d data %d init %s" % (G.GIBBS[i][0], D, n, init)
        for sch in alls:
            m = fresh(sch)
            m.fit_gibbs(y.copy(), init_groups=2, init_method=init)
            records(ctx, m, pick(0, sch), y, what + " schedule %s" % (sch,))
            ctx.execs += 1
        for k, (a, b) in enumerate(itertools.product(some, some)):
            if (k + i) % 5:
                continue
            m = fresh(a)
            m.fit_gibbs(y.copy(), init_groups=2, init_method=init)
            setup(m, b)
            m.fit_gibbs(y.copy(), warm_start=True)
            want = pick(0, a) + pick(a[0], b)
            records(ctx, m, want, y, what + " schedules %s then warm %s" % (a, b))
            c = some[k % len(some)]
            if k % 2:
                setup(m, c)
                m.fit_gibbs(y.copy(), warm_start=True)
                records(ctx, m, want + pick(a[0] + b[0], c), y, what + " schedules %s, warm %s, warm %s" % (a, b, c))
            else:
                setup(m, c)
                m.rng.bit_generator.state = start
                m.fit_gibbs(y.copy(), init_groups=2, init_method=init)
                records(ctx, m, pick(0, c), y, what + " schedules %s, warm %s, cold %s" % (a, b, c))
            ctx.execs += 1
            if len(ctx.viol) > 4:
                return
    ctx.sample({"model": G.GIBBS[i][0], "first states": [G.show(p) for p in S[:2]]})

"""MAP tracking over fit histories (cold, warm, queries, variational, cold again; every burn-in and subsampling) of every
Gibbs model: all visited states are read off a single-step twin run with the same random answers (the initial state by
stopping the generator right after it), and the MAP state must be a visited one of highest reference likelihood. Short
histories in every execution with at most one deviating answer, long ones on many varied base executions."""
import numpy as np
from .. import env as E, fit as F, gibbs as G


def cases(tier):
    for i in range(len(G.GIBBS)):
        for D in (1, 2):
            for init in ("random", "kmeans", "variational"):
                if init == "variational" and G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid")):
                    continue
                yield {"id": "%s/D%d/%s" % (G.GIBBS[i][0], D, init), "m": i, "D": D, "init": init, "bases": 3 if tier == "quick" else 30,
                       "pos": 25 if tier == "quick" else 300, "cost": 1 + (init == "kmeans")}


def program(case, env, hist, single, stop=None):
    """run hist = [(kind, T, B, s)...]; with single=True every sweep is saved; returns per-step (visited, map)"""
    i, D = case["m"], case["D"]
    y = G.data(D, env.data)
    gen = E.ChoiceGen(env)
    m = G.make(i, gen, F.PRIORS[D][env.data], 9, 0, 1)
    out = []
    nsaved = 0
    for kind, T, B, s in hist:
        if kind == "query":
            m.gibbs_eap_density(y), m.gibbs_map_cluster(), m.gibbs_map_density(y[::-1].copy()), m.gibbs_eap_affinity_matrix(y)
            out.append(([], m.map_sim_params))
            continue
        if kind == "var":
            if G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid")):
                out.append(([], m.map_sim_params))
                continue
            m.total_iter = 2
            m.fit_variational(y, n_groups=G.GIBBS[i][3] or 2, tol=-1.0, init_method="random")
            out.append(([], m.map_sim_params))
            continue
        m.total_iter, m.burn_in, m.subsample_steps = (T, 0, 1) if single else (T, B, s)
        if kind == "cold":
            nsaved = 0
            m.fit_gibbs(y, init_groups=G.GIBBS[i][3] or 2, init_method=case["init"])
        else:
            m.fit_gibbs(y, warm_start=True)
        out.append(([G.copy_state(p) for p in m.sim_params[nsaved:]], G.copy_state(m.map_sim_params)))
        nsaved = len(m.sim_params)
    return out, y


def initial(case, make_env, hist, k, draws_before):
    """the state right after the k-th (cold) fit's initialisation: the shortest execution that has one"""
    # the generator is stopped after h answers; the first h at which a MAP state of the new fit exists shows the initial state
    i, D = case["m"], case["D"]
    lo = draws_before
    for h in range(lo, lo + 400):
        env = make_env()
        env.horizon = h
        y = G.data(D, env.data)
        gen = E.ChoiceGen(env)
        m = None
        try:
            m = G.make(i, gen, F.PRIORS[D][env.data], 9, 0, 1)
            for q, (kind, T, B, s) in enumerate(hist[:k + 1]):
                if kind == "query":
                    continue
                if kind == "var":
                    if not G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid")):
                        m.total_iter = 2
                        m.fit_variational(y, n_groups=G.GIBBS[i][3] or 2, tol=-1.0, init_method="random")
                    continue
                m.total_iter, m.burn_in, m.subsample_steps = T, 0, 1
                if q == k:
                    m.map_sim_params = None
                if kind == "cold":
                    m.fit_gibbs(y, init_groups=G.GIBBS[i][3] or 2, init_method=case["init"])
                else:
                    m.fit_gibbs(y, warm_start=True)
        except E.Horizon:
            pass
        if len(env.points) < h:
            return None
        if m is not None and m.map_sim_params is not None and env.points and len(env.points) >= lo:
            return G.copy_state(m.map_sim_params)
    return None


def judge(case, ctx, make_env, hist):
    envs = [make_env(), make_env()]
    ref, y = program(case, envs[0], hist, True)
    got, _ = program(case, envs[1], hist, False)
    ctx.execs += 2
    visited = []
    best = None
    what = "%s history %s data %s" % (case["id"], hist, y.tolist())
    for k, ((kind, T, B, s), (new, mp_single), (_, mp)) in enumerate(zip(hist, ref, got)):
        ctx.ops += 1
        if kind == "cold":
            visited, had_init = [], False
        visited += new
        cm = G.canon(mp)
        lls = [G.loglik(y, p) for p in visited]
        ll = G.loglik(y, mp)
        if kind == "cold" or not had_init:
            if cm not in [G.canon(p) for p in visited]:
                cold = max(q for q in range(k + 1) if hist[q][0] == "cold")
                # answers consumed before that fit
                e = make_env()
                program(case, e, hist[:cold], True) if cold else None
                init = initial(case, make_env, hist, cold, len(e.points))
                ctx.count("initial_state_is_map")
                if init is not None:
                    visited.insert(0, init)
                    had_init = True
                    lls = [G.loglik(y, p) for p in visited]
        ok = cm in [G.canon(p) for p in visited]
        ctx.check(ok, "map-not-visited", lambda: "%s step %d: the MAP state %s is none of the states visited since the cold start" % (what, k, G.show(mp)))
        top = max(lls) if lls else -np.inf
        ctx.check(ll >= top - 1e-8 * max(1, abs(top)), "map-not-best", lambda: "%s step %d: likelihood of the MAP state %r, best visited state %r" % (what, k, ll, top))
        if kind not in ("cold",):
            ctx.check(best is None or ll >= best - 1e-9 * max(1, abs(best)), "map-worsened", lambda: "%s step %d: MAP likelihood fell from %r to %r" % (what, k, best, ll))
        best = ll
        ctx.check(G.canon(mp_single) == cm, "map-schedule", lambda: "%s step %d: MAP state depends on burn-in or subsampling" % (what, k))
        for p in new:
            ctx.states.add(hash(G.canon(p)))
    return len(envs[0].points)


LONG = [[("cold", 4, 3, 2), ("query", 0, 0, 0), ("warm", 3, 1, 2), ("var", 0, 0, 0), ("warm", 2, 1, 1), ("cold", 3, 2, 1), ("warm", 2, 0, 2)],
        [("cold", 7, 6, 1), ("cold", 1, 0, 1), ("query", 0, 0, 0), ("warm", 5, 0, 4)],
        [("cold", 1, 0, 3), ("warm", 1, 0, 1), ("warm", 6, 5, 1), ("cold", 8, 2, 3)]]
SHORT = [("cold", 2, 1, 1), ("warm", 1, 0, 1)]


def execute(case, ctx):
    for d in (0, 1):
        for base in range(case["bases"]):
            for h in LONG:
                def mk():
                    e = E.Env(E.QuantilePolicy((.5, .2, .8, .05, .95)), frozen=base + 17 * d)
                    e.data = d
                    return e
                judge(case, ctx, mk, h)
                if len(ctx.viol) > 4:
                    return

        def mk(prefix=()):
            e = E.Env(E.QuantilePolicy((.5, .1, .9), base=d), prefix)
            e.data = d
            return e
        n = judge(case, ctx, mk, SHORT)
        e0 = mk()
        program(case, e0, SHORT, True)
        ch = e0.choices()
        step = max(1, n // case["pos"])
        for i in range(0, n, step):
            for alt in range(1, e0.points[i][1]):
                judge(case, ctx, lambda: mk(tuple(ch[:i]) + (alt,)), SHORT)
                if len(ctx.viol) > 4:
                    return
    ctx.sample({"model": G.GIBBS[case["m"]][0]})

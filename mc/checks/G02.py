"""Fit histories of every Gibbs model, initialisation and dimension. Short histories (cold fit, queries, warm fit) in every
execution with at most one deviating random answer from a varied base execution (at every position of executions with up to 50
answers, at 40 evenly spread positions of longer ones; thorough 400); long histories (cold, queries, warm,
variational, warm, cold refit on other data, queries) on varied base executions (thorough: with every single deviation). Each
saved state is checked complete and consistent when saved, and bit-identical after every later step."""
import numpy as np
from .. import env as E, fit as F, gibbs as G

QS = (.5, .1, .9)


def cases(tier):
    for i in range(len(G.GIBBS)):
        for D in (1, 2) if tier == "quick" else (1, 2, 3):
            for init in ("random", "kmeans", "variational"):
                if init == "variational" and G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid")):
                    continue
                for groups in (None, 3) if init != "variational" else (3,):
                    yield {"id": "%s/D%d/%s/%s" % (G.GIBBS[i][0], D, init, groups), "m": i, "D": D, "init": init, "groups": groups,
                           "bases": 2 if tier == "quick" else 6, "pos": 40 if tier == "quick" else 400, "long_dev": tier != "quick", "cost": 1 + (init != "random")}


QUERIES = ["gibbs_eap_density", "gibbs_map_density", "gibbs_map_cluster", "gibbs_eap_affinity_matrix"]


def execute(case, ctx):
    i, D = case["m"], case["D"]
    finite = G.GIBBS[i][3]

    def program(env):
        y = G.data(D, env.data)
        gen = E.ChoiceGen(env)
        prior = F.PRIORS[D][env.data % 2]
        m = G.make(i, gen, prior, 1 if env.short else 3, 0, 1)
        saved, log = [], []

        def look(what, yy):
            for k, (p, c) in enumerate(saved):
                if G.canon(p) != c:
                    ctx.fail("changed", "state %d saved earlier was altered by %s (%s)" % (k, what, log))
                    return
            have = {id(p) for p, _ in saved}
            for p in m.sim_params:
                if id(p) not in have:
                    G.complete(p, yy, ctx, "%s after %s" % (case["id"], log + [what]))
                    saved.append((p, G.canon(p)))
            mp = m.map_sim_params
            if id(mp) not in have:
                saved.append((mp, G.canon(mp)))
            log.append(what)
            ctx.ops += 1
        kw = dict(init_method=case["init"])
        if case["groups"]:
            kw["init_groups"] = case["groups"]
        m.fit_gibbs(y, **kw)
        look("cold fit", y)
        for q in QUERIES:
            r = getattr(m, q)()
            look(q, y)
        m.fit_gibbs(y, warm_start=True)
        look("warm fit", y)
        if env.short:
            return finish(env, saved)
        if not G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid")):
            m.total_iter = 2
            m.fit_variational(y, n_groups=finite or 2, tol=-1.0)
            look("variational fit", y)
            m.total_iter = 3
        m.fit_gibbs(y, warm_start=True)
        look("warm fit", y)
        m.fit_gibbs(y[::-1].copy(), **kw)
        look("cold refit", y)
        for q in QUERIES:
            getattr(m, q)()
        look("queries", y)
        return finish(env, saved)

    def finish(env, saved):
        for p, _ in saved:
            ctx.states.add(hash(G.canon(p)))
        return len(env.points)

    for base in range(case["bases"]):
        for d in (0, 1):
            for short in (True, False):
                def run(env):
                    env.data, env.short = d, short
                    return program(env)
                pol = lambda: E.QuantilePolicy(QS, base=base + 3 * d)
                ex = E.Explorer(pol, bound=1 if (short and base == 0) or case["long_dev"] else 0,
                                vary=lambda env, i: len(env.points) <= case["pos"] + 10 or i % (len(env.points) // case["pos"]) == 0)
                for env, r in ex.executions_of(run):
                    ctx.execs += 1
                    if len(ctx.viol) > 4:
                        return
    ctx.sample({"model": G.GIBBS[i][0], "choice points": r})

"""Every ordered pair (thorough: triple) of queries of both families, in several argument forms, on every mixture after a Gibbs, a
variational or both fits: each answer equals that of a fresh twin asked only that; generator, arguments and earlier answers are
unchanged. After every single query, and after the whole sequence of pairs, each later warm and cold fit of either kind gives what
it gives on a twin that was never queried."""
import copy
import numpy as np
import pandas as pd
from .. import gibbs as G, fit as F

DATA = {1: np.array([[0.], [1.], [4.], [4.5]]), 2: np.array([[0., 0.], [1., .5], [6., 5.], [5., 7.]])}
LATER = ["gibbs-warm", "gibbs-cold", "gibbs-random", "gibbs-variational", "var-cold", "var-warm", "gibbs-warm2"]


def cases(tier):
    for i in range(len(G.GIBBS)):
        for D in (1, 2):
            for f in ("gibbs", "var", "both"):
                if f != "gibbs" and novar(i):
                    continue
                if tier == "quick" and D == 2 and f == "both":
                    continue
                if D == 1 and (tier != "quick" or i % 3 == (f != "gibbs")):
                    yield {"id": "%s/long/%s" % (G.GIBBS[i][0], f), "m": i, "D": D, "fit": f, "triples": False, "long": True, "cost": 9}
                yield {"id": "%s/D%d/%s" % (G.GIBBS[i][0], D, f), "m": i, "D": D, "fit": f, "triples": tier != "quick", "cost": 9 if f == "both" else 3}


def novar(i):
    return G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid"))


def fresh(i, D, f, long=False):
    g = np.random.default_rng(17)
    m = G.make(i, g, F.PRIORS[D][1] if i % 2 else None, *((14, 1, 1) if long else (3, 1, 1)))
    K = G.GIBBS[i][3] or 2
    if f in ("var", "both"):
        m.fit_variational(DATA[D].copy(), n_groups=K, tol=-1.0)
    if f in ("gibbs", "both"):
        m.fit_gibbs(DATA[D].copy(), init_groups=K)
    return m, g


def points(D):
    x = np.array([[.5, -1.], [3., 2.], [300., 7.]])[:, :D]
    return {"points": x.copy(), "frame": pd.DataFrame(x.copy()), "list": x.tolist(), "fortran": np.asfortranarray(x.copy()), "training": DATA[D].copy(), "moved": DATA[D][::-1] + .7}


def asks(i, D, f):
    """(label, query, keyword arguments with `y` naming the points)"""
    out = []
    if f != "var":
        q = "gibbs_eap_density"
        out += [(q, dict()), (q, dict(y="points")), (q, dict(y="points", dim=0)), (q, dict(y="frame", component=0)), (q, dict(y="list", periods=1)), (q, dict(y="fortran", periods=2, dim=[D - 1]))]
        q = "gibbs_map_density"
        out += [(q, dict()), (q, dict(y="points", dim=D - 1)), (q, dict(y="frame")), (q, dict(y="training", component=0))]
        q = "gibbs_eap_affinity_matrix"
        out += [(q, dict()), (q, dict(y="moved")), (q, dict(y="frame"))]
        q = "gibbs_eap_spectral_consensus_cluster"
        out += [(q, dict()), (q, dict(n_clusters=2)), (q, dict(y="list"))]
        q = "gibbs_map_cluster"
        out += [(q, dict()), (q, dict(full=True)), (q, dict(y="moved", full=True)), (q, dict(y="fortran"))]
        out += [("get_n_groups", dict()), ("get_n_theta", dict()), ("get_sim_params", dict())]
    if f != "gibbs":
        q = "var_eap_density"
        out += [(q, dict()), (q, dict(y="points")), (q, dict(y="points", dim=0)), (q, dict(y="frame", component=0))]
        if G.GIBBS[i][0] not in ("dirdv",):
            q = "var_map_density"
            out += [(q, dict()), (q, dict(y="points", dim=D - 1))]
        q = "var_eap_affinity_matrix"
        out += [(q, dict()), (q, dict(y="points")), (q, dict(y="moved"))]
        q = "var_eap_spectral_consensus_cluster"
        out += [(q, dict()), (q, dict(y="list"))]
        q = "var_map_cluster"
        out += [(q, dict()), (q, dict(full=True)), (q, dict(y="moved", full=True)), (q, dict(y="frame"))]
    return out


def args(D, kw):
    p = points(D)
    if kw.get("dim") is not None:      # points in the coordinates asked for
        p = {k: (np.array(v, order="F")[:, :1] if k != "list" else v) for k, v in p.items()}
    return {k: (p[v] if k == "y" else copy.deepcopy(v)) for k, v in kw.items()}


def ask(m, q, kw, D, ctx, what):
    from .. import forms as Q
    kw = args(D, kw)
    before = copy.deepcopy(kw)
    r = getattr(m, q)(**kw)
    ctx.ops += 1
    ctx.check(all(Q.same(kw[k], before[k]) for k in kw), "arguments", lambda: "%s: %s changed its arguments %s to %s" % (what, q, before, kw))
    return r


def plain(r):
    if isinstance(r, tuple):
        return tuple(plain(x) for x in r)
    if isinstance(r, list):
        return [G.canon(x) if isinstance(x, dict) else x for x in r]
    return (r.dtype.kind, r.shape, np.asarray(r, float).tobytes())


def overwrite(r):
    for a in (r if isinstance(r, tuple) else (r,)):
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
            a[...] = 1


def later(m, g, op, i, D):
    K = G.GIBBS[i][3] or 2
    y = DATA[D].copy()
    if op.startswith("gibbs-warm"):
        if not m.gibbs_fitted:
            return None
        m.fit_gibbs(y, warm_start=True)
        if op.endswith("2"):
            m.fit_gibbs(y, warm_start=True)
    elif op.startswith("gibbs"):
        m.fit_gibbs(y, init_groups=K, init_method={"cold": "kmeans"}.get(op[6:], op[6:]))
    else:
        if op == "var-warm" and not m.var_fitted:
            return None
        m.fit_variational(y, n_groups=K, tol=-1.0, warm_start=op == "var-warm")
    out = [str(g.bit_generator.state)]
    if op.startswith("gibbs"):
        out += [[G.canon(p) for p in m.sim_params], G.canon(m.map_sim_params), plain(m.gibbs_eap_affinity_matrix()), plain(m.gibbs_eap_density()), list(m.get_n_groups())]
    else:
        out += [plain(m.var_d), [plain(np.asarray(v)) for t in m.var_theta for v in t], plain(m.var_eap_density())]
    return out


def execute(case, ctx):
    i, D, f = case["m"], case["D"], case["fit"]
    name, long = case["id"], "long" in case
    Q = asks(i, D, f)
    import matplotlib.pyplot as plt
    want = []
    for q, kw in Q:
        m, g = fresh(i, D, f, long)
        want.append(plain(ask(m, q, kw, D, ctx, name)))
    ops = [o for o in LATER if not (novar(i) and "var" in o) and not (o == "var-warm" and f == "gibbs") and not (o.startswith("gibbs-warm") and f == "var")]
    ref = {}
    for o in ops:
        m, g = fresh(i, D, f, long)
        ref[o] = later(m, g, o, i, D)
        ctx.state(name, o, ref[o])
    if long:
        ops = ops[:1] + ops[-1:]
    # single queries (asked twice) and the pair plot before every later fit
    plots = [("gibbs_map_pairplot", None)] if f != "var" and (case["triples"] or i in (0, 4, 8) and not long) else []
    for q, kw in Q + plots:
        for o in ops:
            if plots and q == plots[0][0] and o != ops[0] and not case["triples"]:
                continue
            m, g = fresh(i, D, f, long)
            if kw is None:
                s = str(g.bit_generator.state)
                m.gibbs_map_pairplot()
                plt.close("all")
                ctx.check(s == str(g.bit_generator.state), "generator", lambda: "%s: %s advanced the generator" % (name, q))
            else:
                r = ask(m, q, kw, D, ctx, name)
                kept = copy.deepcopy(r)
                ask(m, q, kw, D, ctx, name)
                if not q.startswith("get_"):
                    overwrite(r) if ops.index(o) % 2 else None
            got = later(m, g, o, i, D)
            ctx.ops += 1
            ctx.check(got == ref[o], "later-fit", lambda: "%s: after %s(%s) the fit %s differs from the one of a model that was not queried" % (name, q, kw, o))
            if kw is not None and not q.startswith("get_") and not ops.index(o) % 2:
                ctx.check(plain(r) == plain(kept), "returned", lambda: "%s: the fit %s changed the answer returned before by %s(%s)" % (name, o, q, kw))
            ctx.execs += 1
            if len(ctx.viol) > 4:
                return
    # all ordered pairs (triples) on one model
    m, g = fresh(i, D, f, long)
    s = str(g.bit_generator.state)
    held = []
    seq = [t for a in range(len(Q)) for b in range(len(Q)) if not long or (a + b) % 4 == 0 for t in (a, b)]
    if case["triples"]:
        seq = [t for a in range(len(Q)) for b in range(len(Q)) for c in range(len(Q)) for t in (a, b, c)]
    for n, a in enumerate(seq):
        q, kw = Q[a]
        r = ask(m, q, kw, D, ctx, name)
        what = lambda: "%s: %s(%s) after %s" % (name, q, kw, [Q[b] for b in seq[max(0, n - 2):n]])
        ctx.check(plain(r) == want[a], "answer", lambda: "%s differs from the answer of a fresh model" % what())
        ctx.check(str(g.bit_generator.state) == s, "generator", lambda: "%s advanced the generator" % what())
        held.append((r, a))
        held = held[-3:]
        ctx.check(all(plain(x) == want[b] for x, b in held), "returned", lambda: "%s changed an answer returned before" % what())
        if not q.startswith("get_") and n % 3 == 0:
            overwrite(r)
            held.pop()
        if len(ctx.viol) > 4:
            return
    ctx.execs += 1
    got = later(m, g, ops[0], i, D)
    ctx.check(got == ref[ops[0]], "later-fit", lambda: "%s: after all queries the fit %s differs from the one of a model that was not queried" % (name, ops[0]))
    ctx.count("queries", len(seq))
    ctx.sample({"model": name, "queries": len(Q), "later": ops})

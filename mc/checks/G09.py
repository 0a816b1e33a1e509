"""Every first fit interrupted at every random answer and at every call of its weighting model. Every history of up to three (thorough four) operations - successful and failing Gibbs and variational fits - on every
mixture: after each operation all queries of both families, in several argument forms, are answered or refused exactly as
the completed fits say. Every invalid request of an enumerated list is rejected at the call and leaves the model unfitted."""
import itertools
import numpy as np
from .. import env as E, gibbs as G, fit as F

Y = np.array([[0.], [1.], [4.], [4.5]])
GQ = ["gibbs_eap_density", "gibbs_map_density", "gibbs_eap_affinity_matrix", "gibbs_eap_spectral_consensus_cluster", "gibbs_map_cluster"]
VQ = ["var_eap_density", "var_map_density", "var_eap_affinity_matrix", "var_eap_spectral_consensus_cluster", "var_map_cluster"]
ARGS = [((), {}), ((Y[:2],), {}), (([0.5, 1.],), {}), ((), {"y": Y[:2]})]
EXTRA = {"gibbs_eap_density": [((), {"dim": 0}), ((), {"component": 0}), ((), {"periods": 1}), ((2.5,), {})], "gibbs_map_density": [((), {"dim": 0}), ((), {"component": 0})],
         "gibbs_map_cluster": [((), {"full": True})], "var_eap_density": [((), {"dim": 0}), ((), {"component": 0})], "var_map_density": [((), {"dim": 0})],
         "var_map_cluster": [((), {"full": True}), ((Y[:2],), {"full": True})]}
OPS = ["gibbs", "var", "bad-type", "bad-init", "bad-warm", "bad-none", "vbad-type", "vbad-init", "vbad-k", "vbad-warm"]


def cases(tier):
    for i in range(len(G.GIBBS)):
        yield {"id": G.GIBBS[i][0], "m": i, "depth": 2 if tier == "quick" else 3}
        yield {"id": "%s/interrupted" % G.GIBBS[i][0], "m": i, "faults": True, "step": 2 if tier == "quick" else 1}
    yield {"id": "constructors", "m": None}


def novar(i):
    return G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid"))


def apply(m, op, i):
    K = G.GIBBS[i][3] or 2
    if op == "gibbs":
        m.fit_gibbs(Y.copy(), init_groups=K)
    elif op == "var":
        m.fit_variational(Y.copy(), n_groups=K)
    elif op == "bad-type":
        m.fit_gibbs({"a": 1})
    elif op == "bad-none":
        m.fit_gibbs(None)
    elif op == "bad-init":
        m.fit_gibbs(Y.copy(), init_groups=K, init_method="Kmeans")
    elif op == "bad-warm":
        m.fit_gibbs(Y.copy(), warm_start=True)
    elif op == "vbad-type":
        m.fit_variational((1., 2.), n_groups=K)
    elif op == "vbad-init":
        m.fit_variational(Y.copy(), n_groups=K, init_method="variational")
    elif op == "vbad-k":
        m.fit_variational(Y.copy())
    elif op == "vbad-warm":
        m.fit_variational(Y.copy(), n_groups=K, warm_start=True)


def asks(names):
    for q in names:
        for a, k in ARGS + EXTRA.get(q, []):
            yield q, a, k


def probe(m, ctx, what, gok, vok, plot, short=0):
    bad = len(ctx.viol)
    from pyrichlet.exceptions import NotFittedError
    import matplotlib.pyplot as plt
    for names, ok in ((GQ, gok), (VQ, vok)):
        if ok is None:
            continue
        for n, (q, a, k) in enumerate(list(asks(names)) + ([("gibbs_map_pairplot", (), {})] if names is GQ and (plot or not ok) else [])):
            if short and (n + short) % 3:
                continue
            ctx.ops += 1
            if q == "var_map_density" and ok:
                continue
            try:
                getattr(m, q)(*a, **k)
                res = True
            except NotFittedError:
                res = False
            except Exception as e:
                ctx.fail("query-error", "%s: %s%s raised %s: %s" % (what, q, k, type(e).__name__, e))
                continue
            ctx.check(res == ok, "fitted", lambda: "%s: %s(%s) was %s" % (what, q, ", ".join(map(str, k)), "answered" if res else "refused as not fitted"))
    if gok is not None:
        ctx.check(bool(m.gibbs_fitted) == gok, "flag", lambda: "%s: gibbs_fitted is %r" % (what, m.gibbs_fitted))
    if vok is not None:
        ctx.check(bool(m.var_fitted) == vok, "flag", lambda: "%s: var_fitted is %r" % (what, m.var_fitted))
    plt.close("all")
    return len(ctx.viol) == bad


class Fault(Exception):
    pass


def faulty(w, k, error):
    """every public method of the weighting model raises at the k-th call to any of them (k None: only counts)"""
    n = [0]

    def wrap(f):
        def g(*a, **kw):
            n[0] += 1
            if n[0] == k:
                raise error("call %d" % k)
            return f(*a, **kw)
        return g
    for name in dir(w):
        if not name.startswith("_") and callable(getattr(w, name)):
            setattr(w, name, wrap(getattr(w, name)))
    return n


def interrupted(case, ctx):
    """the first fit fails at every random answer, and at every call of the weighting model, in turn"""
    i = case["m"]
    name = G.GIBBS[i][0]
    def pol(**kw):
        return E.Env(E.QuantilePolicy((.5, .2, .8, .05, .95)), frozen=1, **kw)
    K = G.GIBBS[i][3] or 2

    def fit(m, op):
        if op == "var":
            m.fit_variational(Y.copy(), n_groups=K, tol=-1.0)
        else:
            m.fit_gibbs(Y.copy(), init_groups=K, init_method=op)
    for op in ("random", "kmeans") + (() if novar(i) else ("variational", "var")):
        def new(env):
            return G.make(i, E.ChoiceGen(env), F.PRIORS[1][1], 4, 1, 2)
        env = pol(horizon=10 ** 6)
        m = new(env)
        built = len(env.points)
        fit(m, op)
        total = len(env.points)
        m = new(pol(horizon=10 ** 6))
        n = faulty(m.weight_model, None, Fault)
        fit(m, op)
        calls = n[0]
        points = [("answer", k) for k in range(built, total, case["step"] if total - built > 40 else 1)] + [("call", k) for k in range(1, calls + 1)]
        for kind, k in points:
            m = new(pol(horizon=k if kind == "answer" else 10 ** 6))
            err = (Fault, KeyboardInterrupt, ValueError)[k % 3]
            if kind == "call":
                faulty(m.weight_model, k, err)
            try:
                fit(m, op)
            except (Fault, KeyboardInterrupt, ValueError, E.Horizon):
                pass
            else:
                ctx.count("faults_absorbed")
                continue
            ctx.execs += 1
            # a variational initialisation of a Gibbs fit may have completed a variational fit
            if not probe(m, ctx, "%s: first fit %s failing at %s %d of %d" % (name, op, kind, k, total if kind == "answer" else calls), None if op == "var" else False, False if op != "variational" else None, False, short=k % 5):
                return
            if op == "var":
                ctx.check(not m.gibbs_fitted, "flag", "gibbs_fitted after a failed variational fit")
            ctx.state(name, op, kind, k)
    ctx.sample({"model": name, "answers": total, "calls": calls})


def execute(case, ctx):
    np.random.Generator = E.ChoiceGen if "faults" in case else E.RealGenerator      # the controlled generator only where faults are placed
    if case["m"] is None:
        return constructors(ctx)
    if "faults" in case:
        return interrupted(case, ctx)
    i = case["m"]
    name = G.GIBBS[i][0]
    seen = set()
    for n in range(0, case["depth"] + 1):
        for ops in itertools.product(OPS, repeat=n):
            m = G.make(i, np.random.default_rng(3), F.PRIORS[1][1], 2, 1, 1)
            g = v = False
            for q, o in enumerate(ops):
                # True: has to be refused, None: unspecified (continuing without, or after a failed, fit)
                bad = None if o.endswith("warm") and q else o not in ("gibbs", "var") or o == "var" and novar(i)
                if o == "vbad-k" and G.GIBBS[i][3] is not None and not novar(i):
                    bad = False          # the number of groups is that of the finite structure
                try:
                    apply(m, o, i)
                    failed = False
                except Exception:
                    failed = True
                ctx.ops += 1
                if bad is not None:
                    ctx.check(failed == bad, "accepted" if bad else "refused", lambda: "%s after %s: the %s request %s was %s" % (
                        name, ops, "invalid" if bad else "valid", o, "refused" if failed else "accepted"))
                mine = "v" if o == "var" or o.startswith("v") else "g"
                if failed:
                    # what a failed fit leaves of an earlier success is not specified
                    g, v = g and None, v and None
                elif bad is None:
                    g, v = (None, v) if mine == "g" else (g, None)
                elif mine == "g":
                    g = True
                else:
                    v = True
            probe(m, ctx, "%s after %s" % (name, ops), g, v, n == 1)
            ctx.state(name, g, v, n, ops[-1:] if ops else None)
            ctx.execs += 1
            if len(ctx.viol) > 4:
                return
    ctx.sample({"model": name, "operations": OPS})


def constructors(ctx):
    from pyrichlet import mixture_models as mm, weight_models as wm
    bad = []
    for cls in [g[1] for g in G.GIBBS]:
        for T, B in ((1, 1), (0, 0), (5, 6), (100, 100), (99, 100)):
            bad.append((getattr(mm, cls), dict(total_iter=T, burn_in=B)))
        for r in ("seed", 1.5, np.random.RandomState(0), [1], object()):
            bad.append((getattr(mm, cls), dict(rng=r)))
    for cls in ("DirichletDistribution", "DirichletProcess", "PitmanYorProcess", "GeometricProcess", "BetaInBeta", "BetaInDirichlet", "BetaBernoulli", "BetaBinomial", "EqualWeighting", "FrequencyWeighting"):
        for r in ("seed", 1.5, np.random.RandomState(0), [1], object()):
            bad.append((getattr(wm, cls), dict(rng=r)))
    for pm in ("Geometric", "foo", "", None, 3):
        bad.append((wm.BetaInBeta, dict(x=.5, p_method=pm)))
        bad.append((mm.BetaInBetaMixture, dict(x=.5, p_method=pm)))
    for c, kw in bad:
        ctx.ops += 1
        try:
            c(**kw)
        except Exception:
            continue
        ctx.fail("accepted", "%s(%s) was accepted" % (c.__name__, kw))
    ctx.execs += len(bad)

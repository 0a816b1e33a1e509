"""Every history of up to two (thorough three) operations on every mixing and weighting model: built twice with the same integer
seed under different states of numpy's and Python's global generators, once with the equal generator object, once with another
seed; results identical (respectively different), global generators untouched, the given generator used and advanced.
The same histories in fresh processes with different hash seeds give the same digests."""
import hashlib
import itertools
import os
import random
import subprocess
import sys
import numpy as np
from .. import gibbs as G, fit as F

WEIGHTS = [("DirichletDistribution", dict(n=3, alpha=1)), ("DirichletDistribution", dict(n=2, alpha=[.5, 2.])), ("DirichletProcess", dict(alpha=1.5)), ("PitmanYorProcess", dict(pyd=.25, alpha=.5)),
           ("GeometricProcess", dict(a=1, b=2)), ("BetaInBeta", dict(x=.5)), ("BetaInBeta", dict(x=0)), ("BetaInBeta", dict(x=1)), ("BetaInBeta", dict(x=.5, p_method="independent")),
           ("BetaInBeta", dict(x=.25, p_method="static")), ("BetaInDirichlet", dict(a=1)), ("BetaInDirichlet", dict(a=0)), ("BetaBernoulli", dict(p=.5)), ("BetaBernoulli", dict(p=1)), ("BetaBernoulli", dict(p=0)),
           ("BetaBinomial", dict(n=2)), ("BetaBinomial", dict(n=0)), ("EqualWeighting", dict(n=3)), ("FrequencyWeighting", dict(n=3))]
DATA = {1: np.array([[0.], [1.], [4.], [4.5], [9.]]), 2: np.array([[0., 0.], [1., .5], [6., 5.], [5., 7.], [0., 1.]]), 40: F._grid(40, 2, 1., 0., 3), 130: F._grid(130, 3, 1., 0., 4), 2500: F._grid(2500, 1, 1., 0., 2)}
OPS = ["gibbs-kmeans", "gibbs-random", "gibbs-default", "gibbs-variational", "gibbs-warm", "var-kmeans", "var-random", "var-warm", "consensus", "progress"]
WOPS = ["random", "random1", "fit", "tail", "assign", "complete", "reset", "var", "unfit"]


def cases(tier):
    n = 2 if tier == "quick" else 3
    for i in range(len(G.GIBBS)):
        yield {"id": "mix/%s" % G.GIBBS[i][0], "kind": "mix", "m": i, "depth": n, "cost": 5}
    for i in range(len(WEIGHTS)):
        yield {"id": "weight/%s%d" % (WEIGHTS[i][0], i), "kind": "weight", "m": i, "depth": n + (1 if i in (7, 11, 14) else 2), "cost": 2}
    yield {"id": "processes", "kind": "proc", "cost": 9}


def novar(i):
    return G.GIBBS[i][0].startswith(("bib", "bern", "binm", "bid"))


def rounded(a):
    return np.asarray(a, float).tobytes()


def step(m, op, i, D):
    """the outcome of one operation, or the type of its refusal"""
    y = DATA[D].copy()
    K = G.GIBBS[i][3] or 2
    try:
        if op == "gibbs-kmeans":
            m.fit_gibbs(y, init_groups=K)
        elif op == "gibbs-random":
            m.fit_gibbs(y, init_groups=K, init_method="random")
        elif op == "gibbs-default":
            m.fit_gibbs(y)
        elif op == "gibbs-variational":
            m.fit_gibbs(y, init_groups=K, init_method="variational")
        elif op == "gibbs-warm":
            m.fit_gibbs(y, warm_start=True)
        elif op == "progress":
            m.fit_gibbs(y, init_groups=K, show_progress=True)
        elif op == "var-kmeans":
            m.fit_variational(y, n_groups=K, tol=-1.0)
        elif op == "var-random":
            m.fit_variational(y, n_groups=K, tol=-1.0, init_method="random")
        elif op == "var-warm":
            m.fit_variational(y, n_groups=K, tol=-1.0, warm_start=True)
        else:
            return ("consensus", m.gibbs_eap_spectral_consensus_cluster(n_clusters=2).tolist() if op == "consensus" else None)
    except Exception as e:
        return (op, "refused", type(e).__name__)
    if op.startswith("var"):
        return (op, rounded(m.var_d), tuple(rounded(v) for t in m.var_theta for v in t), rounded(m.var_eap_density()))
    return (op, [G.canon(p) for p in m.sim_params], G.canon(m.map_sim_params), rounded(m.gibbs_eap_affinity_matrix()), list(map(int, m.get_n_groups())))


def wstep(w, op):
    try:
        if op == "random":
            return rounded(w.random(3))
        if op == "random1":
            return rounded(w.random())
        if op == "fit":
            return w.fit([0, 1, 0, 1, 0]) and None
        if op == "unfit":
            return w.fit([]) and None
        if op == "tail":
            return rounded(w.tail(.8))
        if op == "assign":
            return np.asarray(w.random_assignment(6)).tolist()
        if op == "complete":
            return rounded(w.complete(5))
        if op == "reset":
            return w.reset() and None
        if op == "var":
            w.fit_variational(np.full((2, 3), .5))
            return rounded([w.variational_mean_log_w_j(j) for j in range(2)])
    except Exception as e:
        return ("refused", type(e).__name__)


def globals_state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2:], random.getstate()


def build(kind, i, rng, T=2):
    from pyrichlet import weight_models as wm
    if kind == "mix":
        return G.make(i, rng, F.PRIORS[1][1] if G.GIBBS[i][0] != "dp" else None, T, 0, 1)
    cls, kw = WEIGHTS[i]
    return getattr(wm, cls)(rng=rng, **kw)


def run(kind, i, ops, rng, gseed, D=1):
    np.random.seed(gseed)
    random.seed(gseed)
    before = globals_state()
    m = build(kind, i, rng) if D == 1 else G.make(i, rng, None, 2, 0, 1)
    out = [step(m, o, i, D) if kind == "mix" else wstep(m, o) for o in ops]
    return out, globals_state() == before


def useful(kind, i, ops):
    if kind == "mix":
        if novar(i) and any("var" in o for o in ops):
            return False
        return True
    name = WEIGHTS[i][0]
    return not ("var" in ops and name.startswith(("BetaIn", "BetaB")))


def execute(case, ctx):
    kind = case["kind"]
    saved = np.random.get_state(), random.getstate()
    err, out = sys.stderr, sys.stdout
    try:
        if kind == "proc":
            processes(ctx)
        else:
            sys.stderr = sys.stdout = open(os.devnull, "w")      # the progress bar
            histories(case, ctx)
    finally:
        if sys.stderr is not err:
            sys.stderr.close()
            sys.stderr, sys.stdout = err, out
        np.random.set_state(saved[0])
        random.setstate(saved[1])


def histories(case, ctx):
    kind, i = case["kind"], case["m"]
    name = G.GIBBS[i][0] if kind == "mix" else "%s%s" % WEIGHTS[i]
    for n in range(1, case["depth"] + 1):
        for ops in itertools.product(OPS if kind == "mix" else WOPS, repeat=n):
            if not useful(kind, i, ops) or "progress" in ops and n > 1 and kind == "mix":
                continue
            what = "%s %s" % (name, list(ops))
            a, ok1 = run(kind, i, ops, 7, 1)
            b, ok2 = run(kind, i, ops, 7, 99)
            g = np.random.default_rng(7)
            s0 = str(g.bit_generator.state)
            c, ok3 = run(kind, i, ops, g, 5)
            s1 = str(g.bit_generator.state)
            g2 = np.random.default_rng(8)
            d, ok4 = run(kind, i, ops, g2, 1)
            e, ok5 = run(kind, i, ops, g, 1)          # the advanced generator
            f, ok6 = run(kind, i, ops, None, 1)
            h, ok7 = run(kind, i, ops, None, 1)
            ctx.ops += 7 * n
            ctx.execs += 1
            ctx.state(name, a)
            ctx.check(ok1 and ok2 and ok3 and ok4 and ok5 and ok6 and ok7, "global-advanced", lambda: "%s changes a global generator" % what)
            ctx.check(a == b, "repeat", lambda: "%s: two models with seed 7 differ: %s / %s" % (what, str(a)[:300], str(b)[:300]))
            # the geometric weights draw once on construction, before the mixture replaces an integer seed by its own generator
            ctx.check(a == c or kind == "mix" and G.GIBBS[i][0] == "geo", "seed-object", lambda: "%s: seed 7 and default_rng(7) give different results: %s / %s" % (what, str(a)[:300], str(c)[:300]))
            # an operation with a continuous random result has one value per stream of numbers
            cont = [q for q, o in enumerate(ops) if continuous(kind, i, o, a[q])]
            if cont:
                q = cont[0]
                ctx.check(s0 != s1, "not-advanced", lambda: "%s: the generator passed in was not advanced" % what)
                same = [t for t, o in (("another seed", d), ("the advanced generator", e), ("no seed", f)) if o[q] == a[q]]
                ctx.check(not same, "seed-ignored", lambda: "%s: %s reproduces the result of seed 7" % (what, same))
                ctx.check(f[q] != h[q], "unseeded", lambda: "%s: two models without a seed give the same draws" % what)
                for q2 in cont[1:]:
                    ctx.check(a[q] != a[q2] or ops[q] != ops[q2], "repeated-draws", lambda: "%s: operations %d and %d drew the same numbers" % (what, q, q2))
            if len(ctx.viol) > 4:
                return
    if kind == "mix":       # more observations and features, one operation (and a clustering of the result)
        for D in (2,) if name == "bid0" and case["depth"] < 3 else (2, 40, 130, 2500):
            for ops in [(o,) for o in OPS if o not in ("progress", "consensus")] + [("gibbs-kmeans", "consensus")]:
                if D > 1000 and (ops[0] not in ("gibbs-kmeans", "var-kmeans", "gibbs-random") or i % 5 and case["depth"] < 3):
                    continue
                if D > 40 and not case["depth"] > 2 and (i % 5 or "default" not in ops[0]) and ops[0] != "gibbs-kmeans" or not useful(kind, i, ops):
                    continue
                g = np.random.default_rng(7)
                rs = [run(kind, i, ops, s, t, D) for s, t in ((7, 1), (7, 99), (g, 5))]
                what = "%s %s on %d observations" % (name, list(ops), len(DATA[D]))
                ctx.ops += 3
                ctx.execs += 1
                ctx.check(all(r[1] for r in rs), "global-advanced", lambda: "%s changes a global generator" % what)
                ctx.check(rs[0][0] == rs[1][0] and (rs[0][0] == rs[2][0] or G.GIBBS[i][0] == "geo"), "repeat", lambda: "%s: models with the same seed differ" % what)
    ctx.sample({"model": name, "operations": OPS if kind == "mix" else WOPS, "depth": case["depth"]})


def continuous(kind, i, op, result):
    """the operation's result is a continuous random quantity"""
    if "refused" in str(result)[:40] or result is None:
        return False
    if kind == "mix":
        return op.startswith("gibbs") or op == "progress"
    return op in ("random", "random1") and not WEIGHTS[i][0].startswith(("Equal", "Freq"))


def digest():
    """all single operations and some pairs of every model; run in a fresh process"""
    sys.stderr = open(os.devnull, "w")
    h = hashlib.sha256()
    for i in range(len(G.GIBBS)):
        for ops in [("gibbs-kmeans", "gibbs-warm"), ("gibbs-random", "consensus"), ("gibbs-default",), ("gibbs-variational",), ("var-kmeans", "gibbs-warm"), ("var-random", "var-warm")]:
            if useful("mix", i, ops):
                for D in (1, 2):
                    m = G.make(i, 11, F.PRIORS[D][1], 2, 0, 1)
                    h.update(repr([step(m, o, i, D) for o in ops]).encode())
    for i in range(len(WEIGHTS)):
        h.update(repr(run("weight", i, ("fit", "random", "tail", "assign", "complete"), 11, 1)[0]).encode())
    print(h.hexdigest())


def processes(ctx):
    import warnings
    warnings.simplefilter("ignore")
    out = []
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    for hs in ("0", "1", "424242"):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=os.pathsep.join(["/repo", root]), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from mc import core; from mc.checks import G10; core.assert_repo(); G10.digest()"], env=env, capture_output=True, text=True, cwd=root)
        if r.returncode:
            ctx.fail("process", "a fresh process fails: %s" % r.stderr[-800:])
            return
        out.append(r.stdout.strip())
        ctx.execs += 1
        ctx.ops += 1
        ctx.state(r.stdout)
    ctx.check(len(set(out)) == 1, "process", lambda: "fresh processes with different hash seeds disagree: %s" % out)

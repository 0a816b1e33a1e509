"""Extension histories: a prefix history, then complete(k1), complete(k2), complete(k3) for all size
triples; every step is compared with the state before it and with the number of generator answers used.
Split and single extensions are compared as laws (exact joint moments over all answers)."""
import itertools
import numpy as np
from .. import env as E, models as M
from .W01 import Policy, apply, alphabet

SIDS = [r for r in M.REPS]


def prefixes(s):
    top = (s.maxd or 4) - 1
    g = lambda *d: [min(x, top) for x in d]
    return [[], [("random", 1)], [("random", 3)], [("fit", g(0, 1, 1)), ("random", None)], [("fit", g(2, 0)), ("random", 1)],
            [("fit", g(0, 1))], [("tail", .6)], [("random", 2), ("fit", g(0, 0, 1)), ("random", 4), ("reset",)],
            [("fit", g(0, 3, 1)), ("random", None), ("reset",), ("random", 2)], [("random", 2), ("assign", 2)],
            [("fit", g(0, 1, 1)), ("random", None), ("random", None), ("loglik", g(1, 0) if s.finite else g(1, 3))],
            [("fit", g(*[i * i % 13 for i in range(40)])), ("random", None)]]


def cases(tier):
    for sid in SIDS:
        s = M.ZOO[sid]
        for i, _ in enumerate(prefixes(s)):
            yield {"id": "%s/p%d" % (sid, i), "kind": "hist", "spec": sid, "pre": i,
                   "dev": 0 if s.slow else 1 if tier == "quick" else 2}
        yield {"id": sid + "/ladder", "kind": "ladder", "spec": sid}
        if not s.finite:
            for i in (0, 1, 3):
                yield {"id": "%s/law%d" % (sid, i), "kind": "law", "spec": sid, "pre": i, "cost": 20}


def refused(s, ctx):
    """an infinite model refuses sizes that are not integers and stays as it was"""
    for pre in prefixes(s):
        for bad in (2.5, 3.0, np.float64(9), "4", [3], np.array([9]), (5,)):
            env = E.Env(E.QuantilePolicy(), frozen=1)
            m = s.make(E.ChoiceGen(env))
            for op in pre:
                apply(m, op)
            before, used = np.array(m.get_weights()), len(env.points)
            try:
                m.complete(bad)
                err = None
            except Exception as e:
                err = e
            ctx.execs += 1
            ctx.ops += 1
            ctx.check(isinstance(err, TypeError), "size-type", lambda: "%s: complete(%r) after %s: %r instead of TypeError" % (s.id, bad, pre, err))
            ctx.check(np.array_equal(before, m.get_weights()) and used == len(env.points), "refused-changed",
                      lambda: "%s: refused complete(%r) after %s changed the model" % (s.id, bad, pre))


def execute(case, ctx):
    s = M.ZOO[case["spec"]]
    if case["kind"] == "ladder":
        if not s.finite:
            refused(s, ctx)
        for pre in (prefixes(s)[i] for i in (0, 2, 3)):
            case["pre"] = pre
            hist(case, s, pre, ctx, [(7, 8, 9), (6, 12, 11), (16, 17, 33), (64, 40, 65), (130, 257, 1)], 0)
        return
    pre = prefixes(s)[case["pre"]]
    if case["kind"] == "law":
        return law(case, s, pre, ctx)
    hist(case, s, pre, ctx, itertools.product((1, 2, 3, 5), repeat=3), case["dev"])


def hist(case, s, pre, ctx, triples, dev):
    sizes = [int, np.int64, np.int32]
    for n, ks in enumerate(triples):
        def run(env):
            m = s.make(E.ChoiceGen(env))
            for op in pre:
                apply(m, op)
            for j, k in enumerate(ks):
                before, used = np.array(m.get_weights()), len(env.points)
                ref = m.get_weights()
                ret = m.complete(sizes[(n + j) % 3](k))
                ctx.ops += 1
                tag = "%s then complete%s" % (pre, ks[:j + 1])
                w = m.get_weights()
                if not ctx.check(isinstance(ret, np.ndarray) and np.array_equal(ret, w), "returned", lambda: "%s returned %r, exposes %r" % (tag, ret, w)):
                    return
                if s.finite:
                    want = s.finite
                    if s.cls == "FrequencyWeighting":
                        d = [o for o in pre if o[0] in ("fit", "reset")]
                        want = max(d[-1][1]) + 1 if d and d[-1][0] == "fit" else s.finite
                    ctx.check(len(w) == want and abs(w.sum() - 1) < 1e-9, "finite", lambda: "%s gives %s" % (tag, w))
                    continue
                ctx.check(len(w) >= k, "short", lambda: "%s gives only %d weights" % (tag, len(w)))
                ctx.check(len(w) >= len(before) and np.allclose(w[:len(before)], before, rtol=1e-12, atol=0), "prefix",
                          lambda: "%s changed the prefix %s to %s" % (tag, before, w))
                ctx.check(np.array_equal(ref, before), "inplace", lambda: "%s modified the weights handed out earlier" % tag)
                if len(before) >= k:
                    ctx.check(len(env.points) == used and len(w) == len(before), "redraw",
                              lambda: "%s used %d generator answers with %d weights present" % (tag, len(env.points) - used, len(before)))
                else:
                    ctx.check(len(env.points) > used or s.degree == 4, "nodraw", lambda: "%s drew nothing" % tag)
                    ctx.check(len(w) == k, "over", lambda: "%s gives %d weights" % (tag, len(w)))
                ctx.state(s.id, case["pre"], len(before), len(w), tuple(np.round(w, 5)))
            ctx.execs += 1
        ex = E.Explorer(Policy, bound=dev)
        for _ in ex.executions_of(run):
            if len(ctx.viol) > 6:
                return
    ctx.sample({"prefix": pre, "last sizes": ks})


def law(case, s, pre, ctx):
    K, D = 3, 2
    m = {"BetaBinomial": 2, "BetaInBeta": 3, "BetaInDirichlet": 3, "BetaBernoulli": 3, "GeometricProcess": 4}.get(s.cls, 2)
    pol = E.LawPolicy(m=m)
    heavy = s.latent or s.cls in ("BetaBernoulli", "BetaBinomial")
    K = 2 + (not heavy) if case["pre"] else 3 if not (s.cls == "BetaBinomial" and s.latent) else 2
    if case["pre"] == 3 and s.latent:
        K = 2

    def mk(path):
        def run(env):
            md = s.make(E.ChoiceGen(env))
            for op in pre:
                apply(md, op)
            for k in path:
                md.complete(k)
            return md.get_weights()[:K + 1] if len(md.get_weights()) > K else md.get_weights()
        return run
    base = len(mk([])(E.Env(E.QuantilePolicy())))
    end = max(K, base + 1)
    if end > 3:
        end = base + 1
    K = end
    if end - base > 1:
        path = [list(range(base + 1, end + 1))]
    else:
        path = [[end, end]]
    one, mons, ex = M.moments(mk([end]), K, D, pol, max_exec=60000)
    ctx.execs += ex.executions
    for p in path:
        got, _, ex = M.moments(mk(p), K, D, pol, max_exec=60000)
        ctx.execs += ex.executions
        ctx.ops += len(p)
        bad = np.abs(got - one) > 1e-9
        ctx.check(not bad.any(), "split-law", lambda: "after %s, complete via %s vs %s: E[w^%s] %s vs %s" % (
            pre, p, end, mons[bad.argmax()], got[bad.argmax()], one[bad.argmax()]))
    ctx.sample({"prefix": pre, "end": end, "moments": [float(x) for x in one[:3]]})
    ctx.state(s.id, case["pre"], tuple(np.round(one, 9)))

"""Assignment sampling and scoring in every state reached by short histories of every weighting model: the law of
sampled indices by enumerating the uniform answer on a fine grid, joint law of two by a product grid, and the
log-likelihood of every assignment vector up to the bound."""
import itertools
import numpy as np
from .. import env as E, models as M
from .W01 import apply

N1, N2 = 400, 24
HISTS = [[("random", 1)], [("random", 3)], [("random", 2), ("tail", .9)], [("fit", [0, 2, 2]), ("random", None)],
         [("fit", [1, 1, 0]), ("random", 3), ("complete", 5)], [("complete", 4), ("fit", [0]), ("random", None), ("tail", .8)], [("tail", .97)]]


class Grid:
    def __init__(self, n):
        self.n = n

    def uniform01(self):
        return E.mid_nodes(self.n)

    def beta(self, a, b):
        raise AssertionError("weights redrawn while sampling assignments")


def cases(tier):
    for sid in M.REPS + ["dp-0.1", "geo-1-3", "equal-1", "freq-5", "dird-n4-[1.0, 2.0, 0.5, 0.5]"]:
        for h in range(len(HISTS)):
            yield {"id": "%s/%d" % (sid, h), "spec": sid, "h": h, "len": 3 if tier == "quick" else 4, "cost": 5 if M.ZOO[sid].slow else 1}


def ops(s, h):
    top = (s.maxd or 99) - 1
    return [(o[0], [min(x, top) for x in o[1]]) if o[0] == "fit" else o for o in HISTS[h]]


def build(s, h, base):
    gen = E.ChoiceGen(E.Env(E.QuantilePolicy(qs=(.5, .3, .75), rotate=False), frozen=base))
    m = s.make(gen)
    for o in ops(s, h):
        apply(m, o)
    return m, gen


def execute(case, ctx):
    s, h = M.ZOO[case["spec"]], case["h"]
    for base in range(3):
        law(s, h, base, ctx)
        if h in (1, 5) and base == h % 3:
            many(s, h, base, ctx)
        score(s, h, base, case["len"], ctx)


def law(s, h, base, ctx):
    m, gen = build(s, h, base)
    for size, n in ((None, N1), (1, N1), (np.int64(1), 40), (2, N2)):
        joint = {}

        def run(env):
            gen.env = env
            before = np.array(m.get_weights())
            nb = np.array(m.get_normalized_weights())
            r = m.random_assignment() if size is None else m.random_assignment(size)
            ctx.check(np.array_equal(before, m.get_weights()), "weights-changed", lambda: "random_assignment(%r) changed the weights" % size)
            return nb, r
        for env, (nb, r) in E.Explorer(lambda: Grid(n)).executions_of(run):
            ctx.execs += 1
            if size is None:
                if not ctx.check(np.ndim(r) == 0 and int(r) == r, "scalar", lambda: "random_assignment() gives %r" % (r,)):
                    return
                key = (int(r),)
            else:
                if not ctx.check(np.shape(r) == (int(size),) and np.issubdtype(np.asarray(r).dtype, np.integer), "shape", lambda: "random_assignment(%d) gives %r" % (size, r)):
                    return
                key = tuple(int(x) for x in r)
            joint[key] = joint.get(key, 0) + env.prob
        k = len(nb)
        ctx.check(all(0 <= x < k for key in joint for x in key), "range", lambda: "index out of range: %s of %d weights" % (sorted(joint)[-1], k))
        dim = len(next(iter(joint)))
        for key in itertools.product(range(k), repeat=dim) if k ** dim < 5000 else joint:
            want, got = float(np.prod([nb[x] for x in key])), joint.get(key, 0.0)
            tol = (1.05 if dim == 1 else 2.2) / n
            ctx.ops += 1
            ctx.check(abs(want - got) <= tol, "law", lambda: "%s weights %s: index %s has probability %.5f, normalised weights say %.5f" % (s.id, np.round(nb[:6], 4), key, got, want))
        # exact: cumulative comparison is finer than single cells
        if dim == 1:
            c1 = np.cumsum([joint.get((j,), 0.0) for j in range(k)])
            ctx.check(np.all(np.abs(c1 - np.cumsum(nb)) <= 1.05 / n), "law", lambda: "%s cumulative law %s vs %s" % (s.id, c1, np.cumsum(nb)))
        ctx.state(s.id, h, base, size, sorted(joint.items())[:20])
    ctx.sample({"history": ops(s, h), "law": {str(k): v for k, v in list(joint.items())[:4]}})


def many(s, h, base, ctx):
    """a long sample: every answer of the generator decides one assignment, by the law of the weights"""
    m, gen = build(s, h, base)
    nb = np.array(m.get_normalized_weights())
    for size in (7, 130):
        grid = 12

        def run(env):
            gen.env = env
            return np.asarray(m.random_assignment(size))
        ex = E.Explorer(lambda: Grid(grid), bound=1)
        first, owner, freq = None, {}, {}
        for env, r in ex.executions_of(run):
            ctx.ops += 1
            if not ctx.check(r.shape == (size,) and np.all((r >= 0) & (r < len(nb))), "shape", lambda: "random_assignment(%d) gives %s" % (size, r)):
                return
            if first is None:
                first = r
                continue
            t = next(i for i, p in enumerate(env.points) if p[2])
            freq.setdefault(t, []).append(r)
            for q in np.flatnonzero(r != first):
                owner.setdefault(t, set()).add(int(q))
        ctx.execs += ex.executions
        ctx.check(all(len(v) <= 1 for v in owner.values()), "independent", lambda: "%s size %d: one answer of the generator decides assignments %s" % (s.id, size, sorted(max(owner.values(), key=len))[:6]))
        own = [min(v) for v in owner.values()]
        ctx.check(len(own) == len(set(own)) and (nb.max() > 1 - 1.5 / grid or len(own) == size), "independent", lambda: "%s weights %s size %d: %d assignments are decided by the generator" % (s.id, nb[:5], size, len(set(own))))
        for t, q in ((t, min(v)) for t, v in owner.items()):
            got = np.bincount([r[q] for r in freq[t]] + [first[q]], minlength=len(nb)) / grid
            if not ctx.check(np.all(np.abs(np.cumsum(got) - np.cumsum(nb)) <= 1.05 / grid), "law", lambda: "%s assignment %d of %d has law %s, weights %s" % (s.id, q, size, got, nb)):
                break
        ctx.state(s.id, h, size, len(own))


def score(s, h, base, L, ctx):
    m0 = build(s, h, base)[0]
    fitted = next((o[1] for o in reversed(ops(s, h)) if o[0] == "fit"), None)
    size0 = m0.get_size()
    lim = min(size0 + 2, 5) if not s.finite else min(size0, 4)
    vecs = [list(d) for n in range(1, L + 1) for d in itertools.product(range(lim), repeat=n)]
    if fitted is not None:
        vecs.append(None)
    vecs.append([0] * 3000 + [lim - 1] * 2000)
    for n, d in enumerate(vecs):
        if s.slow and n % 5:
            continue
        m = build(s, h, base)[0] if (n % 3 == 0 and not s.slow) else m0
        before = np.array(m.get_weights())
        dd = d
        if d is not None:
            dd = [d, np.array(d), np.array(d, dtype=np.int8), np.array(d, dtype=np.int32)][n % 4]
        got = m.assignation_log_likelihood() if d is None else m.assignation_log_likelihood(dd)
        w = np.array(m.get_weights())
        use = fitted if d is None else d
        ctx.execs += 1
        ctx.ops += 1
        ctx.check(len(w) >= len(before) and np.allclose(w[:len(before)], before, rtol=1e-12, atol=0) and (len(w) > max(use)), "extend",
                  lambda: "%s scoring %s turned %s into %s" % (s.id, use[:5], before, w))
        with np.errstate(divide="ignore"):
            want = float(sum(np.log(w[x]) for x in use))
        ctx.check(got == want or abs(got - want) <= 1e-9 * max(1, abs(want)), "score", lambda: "%s weights %s d=%s: log-likelihood %r, should be %r" % (s.id, w[:6], use[:6], got, want))
        if d is not None and fitted is not None:
            again = m.assignation_log_likelihood()
            want = None
            with np.errstate(divide="ignore"):
                want = float(sum(np.log(m.get_weights()[x]) for x in fitted))
            ctx.check(again == want or abs(again - want) < 1e-9 * max(1, abs(want)), "fitted-replaced", lambda: "%s scoring %s replaced the fitted assignments" % (s.id, use[:5]))
        ctx.state(s.id, h, base, n, round(float(got), 6) if np.isfinite(got) else "inf")

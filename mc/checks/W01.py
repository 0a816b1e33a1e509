"""All operation histories up to the depth bound on every representative weighting model, under every
answer sequence within the deviation bound (menu: three central quantiles rotating by position, two
extreme ones); the weight-vector invariants are evaluated after every operation."""
import itertools
import numpy as np
from .. import env as E, models as M

EXTRA = {"dp-0.1": M.ZOO["dp-0.1"], "bern-p0.9-0.5": M.ZOO["bern-p0.9-0.5"], "bid-0.5-2": M.ZOO["bid-0.5-2"],
         "py-0.5--0.25": M.ZOO["py-0.5--0.25"], "geo-0.5-0.5": M.ZOO["geo-0.5-0.5"]}


def spec(sid):
    return EXTRA.get(sid) or M.ZOO[sid]


def alphabet(s):
    top = (s.maxd or 4) - 1
    g = lambda *d: [min(x, top) for x in d]
    return [("fit", g(0, 1, 1)), ("fit", g(0, 0)), ("fit", g(2, 0, 2, 3)), ("random", None), ("random", 1), ("random", 3),
            ("complete", 1), ("complete", 4), ("tail", .6), ("reset",), ("assign", 2), ("loglik", g(1, 0))]


class Policy(E.QuantilePolicy):
    """central quantiles rotate; extreme ones are always deviations"""

    def _qs(self):
        k = E._rot(self.n + 7919 * self.base) % 3
        self.n += 1
        q = (.5, .2, .8)
        return q[k:] + q[:k] + (.02, .999)


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for sid in M.REPS + list(EXTRA):
        s = spec(sid)
        for i, op in enumerate(alphabet(s)):
            yield {"id": "%s/%d" % (sid, i), "spec": sid, "first": i, "depth": depth, "dev": 1}


def apply(m, op):
    k = op[0]
    if k == "fit":
        return m.fit(list(op[1]))
    if k == "random":
        return m.random() if op[1] is None else m.random(op[1])
    if k == "complete":
        return m.complete(op[1])
    if k == "tail":
        return m.tail(op[1])
    if k == "reset":
        return m.reset()
    if k == "assign":
        return m.random_assignment(op[1])
    if k == "loglik":
        return m.assignation_log_likelihood(np.array(op[1]))


def invariant(s, m, op, ret, fitted, ctx, tag):
    w = m.get_weights()
    exposed, w = w, np.array(w)
    ok = ctx.check(isinstance(exposed, np.ndarray) and w.ndim == 1, "shape", lambda: "weights are %r after %s" % (w, tag))
    if not ok:
        return
    ctx.check(np.all(np.isfinite(w)) and np.all(w >= 0) and np.all(w <= 1 + 1e-12) and w.sum() <= 1 + 1e-9, "range",
              lambda: "weights %s after %s" % (w, tag))
    ctx.check(m.get_size() == len(w), "size", lambda: "reported size %s for %d weights after %s" % (m.get_size(), len(w), tag))
    if op[0] in ("random", "complete", "tail"):
        ctx.check(isinstance(ret, np.ndarray) and ret.shape == w.shape and np.array_equal(ret, w), "returned",
                  lambda: "%s returned %r but exposes %r" % (tag, ret, w))
        if not (op[0] == "random" and op[1] is None):
            need = op[1] if op[0] != "tail" else 1
            ctx.check(len(w) >= min(need, s.finite or need) or s.cls == "FrequencyWeighting", "length", lambda: "%d weights after %s" % (len(w), tag))
        if s.finite and not (s.cls == "FrequencyWeighting" and fitted is not None):
            ctx.check(len(w) == s.finite and abs(w.sum() - 1) < 1e-9, "finite", lambda: "finite model has %s after %s" % (w, tag))
        if s.cls == "FrequencyWeighting" and fitted is not None and op[0] == "random":
            ctx.check(np.allclose(w, np.bincount(fitted) / len(fitted)), "frequency", lambda: "%s for %s" % (w, fitted))
    if len(w) and w.sum() > 0:
        nw, cw = m.get_normalized_weights(), m.get_normalized_cumulative_weights()
        ctx.check(np.allclose(nw, w / w.sum(), atol=1e-12) and abs(np.sum(nw) - 1) < 1e-9, "normalised", lambda: "%s from %s after %s" % (nw, w, tag))
        ctx.check(np.allclose(cw, np.cumsum(w) / w.sum(), atol=1e-9) and np.all(np.diff(cw) >= 0) and abs(cw[-1] - 1) < 1e-9, "cumulative",
                  lambda: "%s from %s after %s" % (cw, w, tag))
        ctx.check(np.array_equal(w, m.get_weights()), "accessor", lambda: "reading accessors changed the weights after %s" % tag)


def execute(case, ctx):
    s = spec(case["spec"])
    ops = alphabet(s)
    for rest in itertools.product(range(len(ops)), repeat=case["depth"] - 1):
        hist = [ops[case["first"]]] + [ops[i] for i in rest]

        def run(env):
            m = s.make(E.ChoiceGen(env))
            fitted, drawn = None, False
            for n, op in enumerate(hist):
                if op[0] == "random" and op[1] is None and fitted is None and not s.finite:
                    try:
                        m.random()
                    except ValueError:
                        continue
                    ctx.fail("unsized-unfitted", "random() without size on an unfitted infinite model returned weights: %s" % (hist[:n + 1],))
                    continue
                if op[0] == "assign" and not drawn:
                    continue
                if s.cls == "FrequencyWeighting" and op[0] == "loglik" and fitted is not None and max(op[1]) > max(fitted):
                    continue
                ret = apply(m, op)
                ctx.ops += 1
                drawn = drawn or op[0] in ("random", "complete", "tail", "loglik")
                fitted = op[1] if op[0] == "fit" else None if op[0] == "reset" else fitted
                invariant(s, m, op, ret, fitted, ctx, hist[:n + 1])
            ctx.execs += 1
            w = m.get_weights()
            ctx.state(s.id, fitted, len(w), tuple(np.round(w[:6], 6)))
            return None
        ex = E.Explorer(Policy, bound=case["dev"])
        for env, _ in ex.executions_of(run):
            if len(ctx.viol) > 6:
                return
        ctx.sample({"history": hist, "executions": ex.executions})

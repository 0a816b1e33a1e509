"""Running checks: case enumeration, workers, known findings, evidence, replay."""
import fnmatch, hashlib, importlib, json, os, resource, signal, sys, time, traceback, warnings
import multiprocessing as mp
import numpy, pandas, scipy.stats, scipy.optimize, scipy.integrate, sklearn.cluster, matplotlib  # noqa: F401
sys.pycache_prefix = "/nonexistent-pycache"   # from here on (pyrichlet, harness): always compile the current source

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CPU_LIMIT = 240.0 if TIER == "quick" else 1500.0      # CPU seconds of one case; the longest case uses a small fraction of this


class CaseTimeout(Exception):
    pass


class Ctx:
    """Collects what one case did."""

    def __init__(self, case):
        self.case = case
        self.execs = 0          # executions of the real library compared with the oracle
        self.ops = 0            # transitions: library operations (or model steps) compared
        self.states = set()     # canonical states observed
        self.viol = []          # (key, detail, extra)
        self.samples = []
        self.extra = {}

    def state(self, *parts):
        self.states.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, key, detail, **extra):
        """A violation; at most a few per key are kept."""
        if sum(1 for k, _, _ in self.viol if k == key) < 2:
            self.viol.append((key, str(detail)[:1500], extra))

    def check(self, cond, key, detail, **extra):
        if not cond:
            self.fail(key, detail() if callable(detail) else detail, **extra)
        return bool(cond)


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("open:"):
                f = dict(x.split("=", 1) for x in line[5:].split(" | ")[0].split() if "=" in x)
                out.append((f["property"], f["key"], line.split(" | ", 1)[1]))
    return out


def _alarm(sig, frame):
    raise CaseTimeout("no termination within %g CPU seconds" % CPU_LIMIT)


def run_case(args):
    mod, case = args
    m = importlib.import_module("mc.checks." + mod)
    ctx = Ctx(case)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.execute(case, ctx)
    except CaseTimeout as e:
        ctx.fail("timeout:" + case["id"], e)
    except MemoryError as e:
        ctx.fail("memory:" + case["id"], e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "/pyrichlet/" in f.filename]
        ctx.fail("exception:" + case["id"], "%s: %s (in %s)\n%s" % (
            type(e).__name__, e, where[-1] if where else "harness/library boundary",
            "".join(traceback.format_exception(e))[-1800:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return case, ctx.execs, ctx.ops, ctx.states, ctx.viol, ctx.samples, ctx.extra


def _init():
    os.environ["MPLBACKEND"] = "Agg"
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def assert_repo():
    import pyrichlet
    p = os.path.realpath(pyrichlet.__file__)
    assert p.startswith("/repo/"), p


def main(pid, module=None):
    t0 = time.time()
    mod = module or pid
    try:
        m = importlib.import_module("mc.checks." + mod)
        assert_repo()
        cases = list(m.cases(TIER))
    except Exception as e:   # the library cannot even be imported / a model cannot be built
        m, cases = None, []
        import_error = "".join(traceback.format_exception(e))[-2000:]
    known = [(k, w) for q, k, w in load_known() if q == pid]
    hit = {}
    new = []
    execs = ops = 0
    states = set()
    samples = []
    extra = {}
    if m is None:
        new.append(("import", import_error, {}, {"id": "import"}))
    else:
        ids = [c["id"] for c in cases]
        assert len(set(ids)) == len(ids), "duplicate case ids"
        workers = min(8, os.cpu_count() or 1, max(1, len(cases)))
        order = sorted(cases, key=lambda c: -c.get("cost", 1))
        ctxm = mp.get_context("fork")
        with ctxm.Pool(workers, initializer=_init) as pool:
            it = pool.imap_unordered(run_case, [(mod, c) for c in order], chunksize=1)
            for case, e, o, st, viol, smp, ex in it:
                execs += e
                ops += o
                states |= st
                if len(samples) < 6:
                    samples += [{"case": case["id"], "observed": s} for s in smp[:1]]
                for k, v in ex.items():
                    extra[k] = extra.get(k, 0) + v
                for key, detail, x in viol:
                    full = key if ":" in key and key.split(":", 1)[1].startswith(case["id"]) else key + "@" + case["id"]
                    for pat, what in known:
                        if fnmatch.fnmatchcase(full, pat):
                            hit.setdefault((pat, what), (full, detail))
                            break
                    else:
                        new.append((full, detail, x, case))
                if len(new) > 60 or sum(1 for v in new if v[0].startswith("timeout")) >= 3:
                    pool.terminate()
                    break
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    rc = 0
    new.sort(key=lambda v: v[0])
    for n, (full, detail, x, case) in enumerate(new[:12]):
        path = os.path.join(VERIF, "evidence", "replays", "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump({"property": pid, "module": mod, "key": full, "case": case, "detail": detail, **x}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   ", full, "--", detail.strip().splitlines()[0][:300] if detail.strip() else "")
        rc = 1
    for (pat, what), (full, detail) in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    level = getattr(m, "LEVEL", "model_checking")
    cov = {"states": len(states), "transitions": ops, "traces_validated_against_impl": execs,
           "samples": samples[:5], "cases": len(cases), "exhaustive": True,
           "rule": (m.__doc__ or "").strip() if m else "", **extra}
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": getattr(m, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "known_findings_seen": len(hit)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: cases=%d executions=%d transitions=%d states=%d violations=%d known=%d wall=%.1fs" % (
        pid, len(cases), execs, ops, len(states), len(new), len(hit), time.time() - t0))
    return rc


def replay(path):
    r = json.load(open(path))
    case, *_, viol, smp, ex = run_case((r["module"], r["case"]))
    for key, detail, x in viol:
        print(key, "--", detail)
    print("reproduced" if any(v[0].split("@")[0] in r["key"] for v in viol) else "NOT reproduced")


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    if sys.argv[1] == "replay":
        replay(sys.argv[2])
    else:
        from mc import core
        sys.exit(core.main(sys.argv[1]))

"""C11: score ensemblers."""
import itertools

from mc.core import Violation, reset_rng
from mc.util import close, mean, median, num, same

BOUNDS = {
    "quick": "average/maximum/median: every score vector over {-1,0,2.5} for 1-5 detectors (all weightings over {1,2,0.5} to 4 detectors); "
             "bucket ensemblers: every vector over {-1,0,2} (4 detectors) / {0,1} plus distinct-power vectors (6 and 8 detectors), every bucket "
             "count that divides, bootstrapping on and off, 6-12 seeds; the set of reachable values over all bucket divisions is enumerated; history words of length "
             "<= 3 over fit/transform/batch calls before each evaluation; one-hot and one-zero weights to 5 detectors, score vectors multiplied by -1, 1e3, -1e7, 2^-40 and -2^40; every number of detectors to 69 and 11 sizes to 1025; bucket ensemblers with up to 200 detectors: a spike at every position",
    "thorough": "as quick with 6 detectors exhaustively over 3 values and 24 seeds",
}
ASSUMPTIONS = ["bucket membership is random: the oracle is the set of values over all divisions", "method='dynamic' is not covered here (buckets of varying size)"]


def make(cfg):
    import numpy as np
    import pysad.transform.ensemble as e
    n = cfg["name"]
    if n == "average":
        return e.AverageScoreEnsembler() if cfg.get("weights") is None else \
            e.AverageScoreEnsembler(estimator_weights=np.array([cfg["weights"]], dtype=float))
    if n == "maximum":
        return e.MaximumScoreEnsembler()
    if n == "median":
        return e.MedianScoreEnsembler()
    cls = e.AverageOfMaximumScoreEnsembler if n == "aom" else e.MaximumOfAverageScoreEnsembler
    if cfg.get("default"):
        return cls()
    return cls(n_buckets=cfg["b"], bootstrap_estimators=cfg["boot"]) if cfg["boot"] else cls(cfg["b"])


def partitions(idx, size):
    if not idx:
        yield []
        return
    first, rest = idx[0], idx[1:]
    for c in itertools.combinations(rest, size - 1):
        left = [i for i in rest if i not in c]
        for p in partitions(left, size):
            yield [(first,) + c] + p


_PART = {}


_ALLOWED = {}


def allowed(cfg, v):
    key = (cfg["name"], cfg["b"], cfg["boot"], tuple(v))
    if key not in _ALLOWED:
        if len(_ALLOWED) > 3000:
            _ALLOWED.clear()
        _ALLOWED[key] = _allowed(cfg, v)
    return _ALLOWED[key]


def _allowed(cfg, v):
    n, b = len(v), cfg["b"]
    k = n // b
    key = (n, b, cfg["boot"])
    if key not in _PART:
        _PART[key] = list(itertools.combinations(range(n), k)) if cfg["boot"] else list(partitions(list(range(n)), k))
    inner = max if cfg["name"] == "aom" else mean
    outer = mean if cfg["name"] == "aom" else max
    if cfg["boot"]:
        vals = sorted(set(inner([v[i] for i in c]) for c in _PART[key]))
        if outer is max:
            return set(round(x, 9) for x in vals)  # the largest bucket value decides
        sums = {0.0}
        for _ in range(b):
            sums = set(round(x + y, 9) for x in sums for y in vals)
        return set(round(x / b, 9) for x in sums)
    return set(round(outer([inner([v[i] for i in c]) for c in p]), 9) for p in _PART[key])


def ref(cfg, v):
    n = cfg["name"]
    if n == "average":
        w = cfg.get("weights")
        return mean(v) if w is None else sum(a * b for a, b in zip(v, w)) / sum(w)
    return max(v) if n == "maximum" else median(v)


def cases(tier):
    q = tier == "quick"
    for name in ("average", "maximum", "median"):
        for n in range(1, 6 if q else 8):
            yield {"cfg": {"name": name}, "n": n, "vals": [-1.0, 0.0, 2.5]}
    for n in (1, 2, 3, 4):
        for w in itertools.product([1.0, 2.0, 0.5], repeat=n):
            if n == 4 and w[0] != 2.0 and q:
                continue
            yield {"cfg": {"name": "average", "weights": list(w)}, "n": n, "vals": [-1.0, 3.0] if n == 4 else [-1.0, 0.0, 3.0]}
    for n in (2, 3, 4, 5):
        for k in range(n):
            yield {"cfg": {"name": "average", "weights": [2.0 if i == k else 0.0 for i in range(n)]}, "n": n, "vals": [-1.0, 0.0, 3.0]}
            yield {"cfg": {"name": "average", "weights": [0.0 if i == k else 1.5 for i in range(n)]}, "n": n, "vals": [-1.0, 3.0]}
    for mul in (-1.0, 1e3, -1e7, 2.0 ** -40, -(2.0 ** 40)):
        for name in ("average", "maximum", "median", "aom", "moa"):
            for n, b in ((4, 2), (6, 3), (6, 2)):
                yield {"cfg": {"name": name, "b": b, "boot": False, "mul": mul}, "n": n, "vals": [0.0, 1.0, 5.0] if n == 4 else [1.0, 2.5], "seeds": 4 if name in ("aom", "moa") else 1}
        yield {"cfg": {"name": "average", "weights": [1.0, 0.5, 2.0], "mul": mul}, "n": 3, "vals": [0.0, 1.0, 5.0]}
    for name in ("aom", "moa"):
        for boot in (False, True):
            for n, b in ((2, 2), (3, 3), (4, 2), (4, 4), (6, 2), (6, 3), (6, 6), (8, 4), (8, 2), (10, 5)):
                cfg = {"name": name, "b": b, "boot": boot, "default": (b == 5 and not boot)}
                vals = [-1.0, 0.0, 2.0] if n <= 4 or (n == 6 and not q) else [0.0, 1.0]
                if n > 6:
                    vals = None
                yield {"cfg": cfg, "n": n, "vals": vals, "seeds": 12 if n <= 4 else (6 if q else 24)}
    for name in ("average", "maximum", "median", "aom", "moa"):
        yield {"cfg": {"name": name, "b": 2, "boot": False}, "n": 4, "hist": 2 if q else 3}
    for name in ("average", "maximum", "median"):
        for w in (False, True) if name == "average" else (False,):
            yield {"cfg": {"name": name, "w": w}, "many": 1, "n": 0, "ns": list(range(1, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025]}
    for name in ("aom", "moa"):
        for boot in (False, True):
            for b in (5, 10):
                yield {"cfg": {"name": name, "b": b, "boot": boot, "default": b == 5 and not boot}, "many": 1, "n": 0, "ns": [b, 2 * b, 20, 50, 100, 130, 200]}


def many(case, cov):
    """Many detectors: closed-form statistics for every vector size; for buckets, spikes at every position."""
    import numpy as np
    cfg = case["cfg"]
    for n in case["ns"]:
        vs = [[((i * i * 31 + i * 17 + s * 7) % 101 - 50) / 8.0 for i in range(n)] for s in range(3)]
        if cfg["name"] in ("average", "maximum", "median"):
            c = dict(cfg)
            if cfg.get("w"):
                c["weights"] = [1.0 + (i % 5) for i in range(n)]
            p = make(c)
            vs += [[-50.0 - i for i in range(n)]] + [[1.0 if i != k else 9.0 for i in range(n)] for k in (0, n // 2, n - 1)] + [[1.0 if i != k else -9.0 for i in range(n)] for k in (0, n - 1)]
            for v in vs:
                cov.trace()
                cov.step((str(cfg), n), tuple(v[:8]))
                got = num(p.transform_partial(np.array(v)), "ensembler result")
                cov.comp()
                if not close(got, ref(c, v), 1e-12 * (1 + max(abs(a) for a in v)) * (1 + n / 8)):
                    raise Violation("%s of %d scores is %r, expected %r" % (cfg, n, got, ref(c, v)), {"scores": v})
            continue
        b = cfg["b"]
        p = make(cfg)
        k = n // b
        for pos in range(n):
            for spike in (9.0, -9.0):
                v = [1.0] * n
                v[pos] = spike
                m = ([1] if not cfg["boot"] else range(b + 1))     # buckets holding the spike
                if cfg["name"] == "aom":
                    one = max(spike, 1.0) if k > 1 else spike
                    ok = [(j * one + (b - j)) / b for j in m]
                else:
                    avg = (spike + (k - 1)) / k
                    ok = [max([avg] * j + [1.0] * (b - j)) for j in m]
                reset_rng(pos)
                got = num(p.transform_partial(np.array(v)), "ensembler result")
                cov.trace()
                cov.comp()
                cov.step((str(cfg), n), (pos, spike))
                if not any(close(got, o, 1e-9) for o in ok):
                    raise Violation("%s of %d scores, all 1 but score %d = %r, is %r; possible are %r" % (cfg, n, pos, spike, got, ok), {"position": pos, "spike": spike})
        for v in vs:
            reset_rng(5)
            got = num(p.transform_partial(np.array(v)), "ensembler result")
            cov.comp()
            s = sorted(v)
            if cfg["name"] == "aom":
                lo, hi = (mean(s[k - 1::k]) if not cfg["boot"] else s[k - 1]), (mean(s[-b:]) if not cfg["boot"] else s[-1])
            else:
                lo, hi = (mean(s) if not cfg["boot"] else mean(s[:k])), mean(s[-k:])
            if not lo - 1e-9 <= got <= hi + 1e-9:
                raise Violation("%s of %d scores is %r, no bucket division gives less than %r or more than %r" % (cfg, n, got, lo, hi), {"scores": v})
    cov.sample({"cfg": cfg, "detectors": n})


_BUF = {}


def evalv(p, cfg, v, cov, trace, reuse=False):
    import numpy as np
    mul = cfg.get("mul", 1.0)
    x = np.array(v, dtype=float) * mul
    if reuse:    # one array object for all instances, as a caller with a scratch buffer would do
        b = _BUF.setdefault(len(v), np.empty(len(v)))
        b[:] = x
        x = b
    r = num(p.transform_partial(x), "ensembler result") / mul
    if mul < 0:    # the extreme of the multiples is the multiple of the other extreme
        v, r = tuple(-a for a in v), -r
    cov.comp()
    cov.outcome((str(cfg), r))
    if cfg["name"] in ("aom", "moa"):
        ok = any(close(r, a, 1e-8) for a in allowed(cfg, v))
        if not ok:
            raise Violation("%s of %r is %r, which no bucket division gives" % (cfg, v, r), trace)
    elif not close(r, ref(cfg, v), 1e-12 * (1 + max(abs(a) for a in v))):
        raise Violation("%s of %r is %r, expected %r" % (cfg, v, r, ref(cfg, v)), trace)
    if not np.array_equal(x, np.array(v, dtype=float) * abs(mul)):
        raise Violation("the score vector was changed", trace)
    return r


def vectors(n, vals):
    if vals is not None:
        yield from itertools.product(vals, repeat=n)
    base = [float(2 ** i) for i in range(n)]
    yield tuple(base)
    yield tuple(-x for x in base)
    yield tuple(reversed(base))
    for k in range(n):
        yield tuple(base[k:] + base[:k])
    for k in range(n):
        yield tuple(0.1 if i != k else -5.5 for i in range(n))


def run(case, cov):
    import numpy as np
    cfg, n = case["cfg"], case["n"]
    if "many" in case:
        return many(case, cov)
    if "hist" in case:
        vs = [(0.0, 1.0, 2.0, 4.0), (4.0, 2.0, 1.0, 0.0), (-1.0, -1.0, 3.0, 3.0), (5.0,) * 4]
        ops = [("F", i) for i in range(3)] + [("T", i) for i in range(4)] + [("B", 0), ("P", 1), ("T2", 0)]
        for d in range(0, case["hist"] + 1):
            for word in itertools.product(ops, repeat=d):
                for j in range(len(vs)):
                    p = make(cfg)
                    cov.trace()
                    buf = np.empty(4)
                    for o, i in word:
                        cov.step((str(cfg), n), (o, i))
                        buf[:] = vs[i]
                        x = buf if d % 2 else np.array(vs[i])
                        if o == "F":
                            if p.fit_partial(x) is not p:
                                raise Violation("fit_partial does not return the ensembler", word)
                        elif o == "T":
                            p.transform_partial(x)
                        elif o == "T2":
                            p.transform_partial(np.array([9.0, 8.0]))
                        elif o == "B":
                            p.fit_transform(np.array(vs))
                        else:
                            p.fit_transform_partial(x)
                    reset_rng(j)
                    if d % 2:
                        _BUF[4] = buf
                    a = evalv(p, cfg, vs[j], cov, [word, vs[j]], d % 2 == 1)
                    reset_rng(j)
                    b = evalv(make(cfg), cfg, vs[j], cov, [vs[j]])
                    if not same(a, b):
                        raise Violation("result depends on earlier calls: %r after %r, %r alone" % (a, word, b), word)
        return
    p = make(cfg)
    for v in vectors(n, case["vals"]):
        cov.trace()
        cov.step((str(cfg), n), v)
        for s in range(case.get("seeds", 1)):
            reset_rng(s)
            evalv(p, cfg, v, cov, {"cfg": cfg, "vector": v, "seed": s})
    p = make(cfg)
    for v in vectors(n, case["vals"]):
        reset_rng(1)
        evalv(p, cfg, v, cov, {"cfg": cfg, "vector": v, "seed": 1, "array": "one object reused for all instances"}, True)
    cov.sample({"cfg": cfg, "vector": v})

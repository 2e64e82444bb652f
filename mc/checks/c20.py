"""C20: windowed detectors forget - scores are a function of the documented horizon only."""
import itertools

from mc.checks.c14 import expected_rows
from mc.core import Violation, reset_rng
from mc.util import num

BOUNDS = {
    "quick": "ExactStorm (window 1-4), half-space trees and xStream (window 1-3, 3 random structures), seasonal ESD, hybrid ESD and modified-STL residual (window 4-5), IForestASD and reference-window models (window 1-3, sliding 1-3): "
             "all histories up to length 7 over 3 instances (ESD up to 6, forests 5 over 2 instances); every pair with equal horizon content must give identical scores to 4 probes (order inside the window ignored for half-space trees and xStream); "
             "two-history lassos with windows up to 60, differing in up to 8 whole windows before the common part; windows up to 130 in four other orders for half-space trees and xStream",
    "thorough": "as quick with histories up to length 9 (ESD 8, forests 7), 8 random structures, windows up to 300",
}
ASSUMPTIONS = ["the global generators are re-seeded before every fit; the detector behind the reference window is seeded the same for equal windows"]
TECHNIQUE = "exhaustive exploration of bounded histories of the real code, functional-dependence check over all history pairs"

P2 = [(0.125, 0.25), (0.875, 0.375), (3.0, -4.0)]
U3 = [(0.0,), (1.0,), (20.0,)]


def kinds():
    """name -> (factory(cfg), alphabet, horizon(cfg, history as list of symbols) -> key)"""
    import numpy as np
    from pyod.models.iforest import IForest
    from pyod.models.knn import KNN
    from pysad import models as M
    from pysad.models.integrations import ReferenceWindowModel
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer

    def last(cfg, h):
        return tuple(h[-cfg["W"]:])

    def lastwin(cfg, h):
        W = cfg["W"]
        k = len(h) // W
        return tuple(sorted(h)) if k == 0 else tuple(sorted(h[(k - 1) * W:k * W]))

    def two(cfg, h):
        W = cfg["W"]
        k = len(h) // W
        if k == 0:
            return (tuple(sorted(h)), None)
        return (tuple(sorted(h[(k - 1) * W:k * W])), tuple(sorted(h[(k - 2) * W:(k - 1) * W])) if k > 1 else None)

    def train(cfg, h):
        return tuple(expected_rows([], list(h), cfg["W"], cfg.get("S", cfg["W"])))
    return {
        "ExactStorm": (lambda c: M.ExactStorm(window_size=c["W"], max_radius=1.0), P2, last),
        "HalfSpaceTrees": (lambda c: M.HalfSpaceTrees(np.array([0.0, -5.0]), np.array([4.0, 1.0]), window_size=c["W"], num_trees=3, max_depth=c.get("depth", 3)), P2, lastwin),
        "xStream": (lambda c: M.xStream(num_components=3, n_chains=2, depth=3, window_size=c["W"]), P2, two),
        "SeasonalESD": (lambda c: M.SeasonalESD(period=2, window_size=c["W"], max_anomalies=1, alpha=0.3), U3, last),
        "SeasonalHybridESD": (lambda c: M.SeasonalHybridESD(period=2, window_size=c["W"], max_anomalies=1, alpha=0.3), U3, last),
        "ModifiedSTL": (lambda c: ModifiedSTLResidualTransformer(period=2, window_size=c["W"]), U3, last),
        "IForestASD": (lambda c: M.IForestASD(window_size=c["W"], n_estimators=2), P2, train),
        "RefWindow": (lambda c: ReferenceWindowModel(IForest, c["W"], c["S"], n_estimators=2), P2, train),
    }


def cases(tier):
    q = tier == "quick"
    n = 7 if q else 9
    for W in (1, 2, 3, 4):
        yield {"mode": "dep", "name": "ExactStorm", "W": W, "len": n, "k": 3, "seed": 1}
    for name in ("HalfSpaceTrees", "xStream"):
        for W in (1, 2, 3):
            for s in range(3 if q else 8):
                yield {"mode": "dep", "name": name, "W": W, "len": n if name == "HalfSpaceTrees" else n - 1, "k": 3, "seed": s}
    for name in ("SeasonalESD", "SeasonalHybridESD", "ModifiedSTL"):
        for W in (4, 5):
            for pre in itertools.product(range(3), repeat=1 if W == 4 else 2):
                yield {"mode": "dep", "name": name, "W": W, "len": W + (2 if q else 3), "k": 3, "seed": 1, "tail": list(pre)}
    for W in (1, 2, 3):
        yield {"mode": "dep", "name": "IForestASD", "W": W, "len": 5 if q else 7, "k": 2, "seed": 1}
        for S in (1, 2, 3):
            yield {"mode": "dep", "name": "RefWindow", "W": W, "S": S, "len": 5 if q else 7, "k": 2, "seed": 1}
    big = 60 if q else 300
    for name, W, d in (("ExactStorm", 130, 0), ("HalfSpaceTrees", 64, 11), ("HalfSpaceTrees", 130, 4), ("SeasonalESD", 64, 0), ("SeasonalHybridESD", 64, 0), ("ModifiedSTL", 64, 0), ("xStream", 70, 0)):
        yield {"mode": "pair", "name": name, "W": W, "n": W + (40 if name[0] != "x" else W), "seed": 5, "starts": [W, W + 3], "depth": d}
    for name, W, n in (("ExactStorm", big, 4), ("HalfSpaceTrees", big, 4), ("xStream", 20 if q else 60, 4), ("SeasonalESD", 24 if q else 60, 3), ("SeasonalHybridESD", 24 if q else 60, 3),
                       ("ModifiedSTL", 24 if q else 60, 3), ("IForestASD", 8 if q else 20, 4)):
        yield {"mode": "pair", "name": name, "W": W, "n": W * n, "seed": 2}
    yield {"mode": "pair", "name": "RefWindow", "W": 7, "S": 4, "n": 30, "seed": 2}
    for name, W in (("ExactStorm", 5), ("ExactStorm", 17), ("HalfSpaceTrees", 4), ("HalfSpaceTrees", 9), ("HalfSpaceTrees", 30), ("xStream", 4), ("xStream", 9), ("xStream", 40), ("SeasonalESD", 8), ("SeasonalHybridESD", 8), ("ModifiedSTL", 8), ("IForestASD", 4)):
        for k in (3, 5, 8) if q else (3, 5, 8, 12, 20):
            if W * k > (250 if name == "xStream" else 400):
                continue
            yield {"mode": "pair", "name": name, "W": W, "n": 3 * W + 2, "seed": 3, "starts": [k * W - 1, k * W, k * W + 1]}
    for name, W in (("HalfSpaceTrees", 7), ("HalfSpaceTrees", 50), ("HalfSpaceTrees", 130), ("xStream", 7), ("xStream", 50), ("xStream", 130)):
        for how in ("reverse", "sort", "rotate", "swap"):
            yield {"mode": "perm", "name": name, "W": W, "n": 3 * W + 2 if W > 100 else 4 * W + 3, "seed": 4, "how": how}


def probe(m, name, alpha, more=()):
    import numpy as np
    out = []
    pts = [np.array(a) for a in alpha] + [np.array(alpha[0]) * 0.5 + 0.3] + [np.array(p) for p in more]
    for j, p in enumerate(pts):
        reset_rng(500 + j)
        out.append(num(m.transform_partial(p) if name == "ModifiedSTL" else m.score_partial(p)))
    return tuple(out)


def run(case, cov):
    import numpy as np
    name = case["name"]
    mk, alpha, horizon = kinds()[name]
    if case["mode"] == "dep":
        tail = tuple(case.get("tail", ()))
        table = {}
        lo = 1 if not tail else max(1, len(tail))
        for n in range(lo, case["len"] + 1):
            for head in itertools.product(range(case["k"]), repeat=n - len(tail)):
                h = head + tail
                reset_rng(case["seed"])
                m = mk(case)
                for i in h:
                    reset_rng(77)
                    m.fit_partial(np.array(alpha[i]))
                got = probe(m, name, alpha)
                key = horizon(case, h)
                cov.trace()
                cov.step((name, case["W"], case.get("S"), case["seed"], str(key)), h[-1])
                cov.comp()
                cov.outcome(got)
                if key in table and table[key][0] != got:
                    raise Violation("%s: histories %r and %r agree on the horizon %r but score %r and %r" % (name, table[key][1], h, key, table[key][0], got),
                                    {"config": case, "history_1": table[key][1], "history_2": h})
                table.setdefault(key, (got, h))
        cov.sample({"config": case, "distinct_horizons": len(table)})
        return
    if case["mode"] == "perm":
        return perm(case, cov, mk, alpha)
    # two long histories: different beginning, then the same stream
    W = case["W"]
    for start in case.get("starts", (W - 1, W, W + 1, 2 * W + 1)):
        for mul in (1.0, -3.0):
            ms, hs = [], [[], []]
            for k in (0, 1):
                reset_rng(case["seed"])
                ms.append(mk(case))
            d = len(alpha[0])
            cov.trace()
            for t in range(start + case["n"]):
                for k in (0, 1):
                    v = 0.5 + 0.45 * np.sin(1.3 * t)
                    if t < start and k == 1:
                        v = mul * (2 + (t % 5))
                    x = tuple(float(v * (1 + 0.5 * j)) for j in range(d))
                    hs[k].append(x)
                    reset_rng(t)
                    ms[k].fit_partial(np.array(x))
                if horizon(case, hs[0]) == horizon(case, hs[1]):
                    if name in ("IForestASD", "RefWindow") and t % 5:
                        continue
                    if name in ("SeasonalESD", "SeasonalHybridESD", "ModifiedSTL", "xStream", "HalfSpaceTrees") and t % 3 and t > start + 2 * W + 2:
                        continue
                    more = hs[1][:4] + hs[0][-1:] if name in ("ExactStorm", "HalfSpaceTrees", "xStream") else ()
                    a, b = probe(ms[0], name, alpha, more), probe(ms[1], name, alpha, more)
                    cov.comp()
                    cov.step((name, "pair", start, t), mul)
                    cov.outcome(a)
                    if a != b:
                        raise Violation("%s: after %d common instances the scores still differ: %r and %r" % (name, t + 1 - start, a, b),
                                        {"config": case, "different_prefix": start})
    cov.sample({"config": case})


def perm(case, cov, mk, alpha):
    """The same instances in another order inside every window: equal scores at every window boundary and inside the next window."""
    import numpy as np
    W, n, d = case["W"], case["n"], len(alpha[0])
    rows = [tuple(float(0.5 + 0.45 * np.sin(1.3 * t + 2 * j) + (2.5 if t % 11 == 3 else 0) + (7.0 if t % W == 1 else 0) + 0.01 * (t // W)) for j in range(d)) for t in range(n)]
    other = []
    for k in range(0, n - n % W, W):
        b = rows[k:k + W]
        b = {"reverse": b[::-1], "sort": sorted(b), "rotate": b[W // 2:] + b[:W // 2], "swap": [b[-1]] + b[1:-1] + [b[0]]}[case["how"]]
        other += b
    other += rows[len(other):]
    ms = []
    for k in (0, 1):
        reset_rng(case["seed"])
        ms.append(mk(case))
    cov.trace()
    for t in range(n):
        for m, h in zip(ms, (rows, other)):
            reset_rng(t)
            m.fit_partial(np.array(h[t]))
        if t + 1 >= W and ((t + 1) % W < 3 or t % 17 == 0):
            a, b = probe(ms[0], case["name"], alpha), probe(ms[1], case["name"], alpha)
            reset_rng(9)
            a += tuple(num(ms[0].score_partial(np.array(rows[j]))) for j in (0, W // 2, W - 1))
            reset_rng(9)
            b += tuple(num(ms[1].score_partial(np.array(rows[j]))) for j in (0, W // 2, W - 1))
            cov.comp()
            cov.step((case["name"], "perm", W, t), case["how"])
            cov.outcome(a)
            if a != b:
                raise Violation("%s: the same instances in another order within the windows of %d score %r and %r" % (case["name"], W, a, b), {"config": case, "instances": t + 1})
    cov.sample({"config": case})

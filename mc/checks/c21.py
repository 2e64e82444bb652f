"""C21: higher scores mean more anomalous."""
import itertools

from mc.core import Violation, reset_rng
from mc.util import num

BOUNDS = {
    "quick": "19 detector configurations x 3 normal groups (one repeated instance, two instances, five tightly grouped) x 3 stream lengths past warm-up x 10 far instances (both directions, 5 magnitudes to 1e12) x 8 random seeds (2 for forests), "
             "with and without earlier far instances in the stream (where the window has forgotten them); every member of the normal group is compared",
    "thorough": "as quick with 40 seeds (10 for forests) and 6 stream lengths",
}
ASSUMPTIONS = ["the isolation-forest model is compared on the densest member of a group only (a forest cannot rank the rim of a group)",
               "strict comparison only for detectors whose score reacts to a change in every feature",
               "constant streams for the forest: only 'not lower'",
               "half-space trees: far instances on the other side of the configured ranges (an instance beyond the nearer bound falls into the outermost cell)"]
TECHNIQUE = "bounded exhaustive exploration of streams x far instances x random seeds on the real code"


def spec():
    """name -> dict(mk, uni, base, step, far, warm lengths, fitted, strict)"""
    import numpy as np
    from pyod.models.knn import KNN
    from pysad import models as M
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    lo, hi = np.array([0.0, 0.0]), np.array([1.0, 1.0])
    D = {}

    def add(name, mk, warm, d=2, fitted=False, strict=True, cost=1, const=True, init=False, far=(5.0, 50.0, 4000.0, 3e7, 1e12), groups=("one", "two", "five"), up=False):
        D[name] = dict(mk=mk, warm=warm, d=d, fitted=fitted, strict=strict, cost=cost, const=const, init=init, far=far, groups=groups, up=up)
    add("ExactStorm", lambda X: M.ExactStorm(window_size=8, max_radius=0.5), (8, 30))
    add("HalfSpaceTrees", lambda X: M.HalfSpaceTrees(lo.copy(), hi.copy(), window_size=10, num_trees=5, max_depth=6), (5, 10, 35), up=True)
    add("HalfSpaceTrees-deep", lambda X: M.HalfSpaceTrees(lo.copy(), hi.copy(), window_size=5, num_trees=2, max_depth=9), (5, 23), up=True)
    add("IForestASD", lambda X: M.IForestASD(window_size=20, n_estimators=15), (20, 40), cost=40, groups=("one", "dense"))
    add("Inqmad", lambda X: M.Inqmad(input_shape=2, dim_x=32, gamma=1), (10,), cost=200, groups=("one",), far=(5.0,))
    add("KitNet", lambda X: M.KitNet(max_size_ae=2, grace_feature_mapping=10, grace_anomaly_detector=40), (52, 80), d=3, cost=5)
    add("KitNet-1", lambda X: M.KitNet(max_size_ae=1, grace_feature_mapping=5, grace_anomaly_detector=30), (40, 60), d=2, cost=5)
    add("KNNCAD", lambda X: M.KNNCAD(probationary_period=60), (70, 130), d=1, fitted=True, strict=False, cost=30)
    add("LocalOutlierProbability", lambda X: M.LocalOutlierProbability(X, num_neighbors=3), (1, 5), strict=False, cost=10, init=True, groups=("five",))
    add("LODA", lambda X: M.LODA(num_bins=10, num_random_cuts=30), (1, 2, 20), groups=("one",))
    add("MedianAbsoluteDeviation", lambda X: M.MedianAbsoluteDeviation(), (3, 10, 41), d=1)
    add("MedianAbsoluteDeviation-b", lambda X: M.MedianAbsoluteDeviation(b=3.0), (4, 25), d=1)
    add("OneFit-KNN", lambda X: OneFitModel(KNN, X, n_neighbors=2), (1, 6), cost=10, init=True)
    add("RefWindow-KNN", lambda X: ReferenceWindowModel(KNN, 10, 5, initial_window_X=X, n_neighbors=2), (5, 13, 30), cost=20, init=True)
    add("RelativeEntropy", lambda X: M.RelativeEntropy(-10.0, 10.0, num_bins=5, window_size=10), (10, 35), d=1, fitted=True, strict=False, far=(8.0, 9.5))
    add("RobustRandomCutForest", lambda X: M.RobustRandomCutForest(num_trees=3, tree_size=12), (3, 12, 30), cost=4)
    add("RSHash", lambda X: M.RSHash(lo.copy(), hi.copy(), sampling_points=10, num_components=10, num_hash_fns=2, decay=0.01), (5, 10, 40), fitted=True)
    add("SeasonalESD", lambda X: M.SeasonalESD(period=2, window_size=16, max_anomalies=2), (16, 17, 40), d=1, cost=8, groups=("one", "two", "five"))
    add("SeasonalHybridESD", lambda X: M.SeasonalHybridESD(period=2, window_size=16, max_anomalies=2), (16, 17, 40), d=1, strict=False, cost=8, groups=("one", "two", "five"))
    add("StandardAbsoluteDeviation", lambda X: M.StandardAbsoluteDeviation(), (3, 10, 40), d=1)
    add("StandardAbsoluteDeviation-median", lambda X: M.StandardAbsoluteDeviation("median"), (3, 10, 40), d=1)
    add("xStream", lambda X: M.xStream(num_components=30, n_chains=10, depth=4, window_size=10), (10, 25), cost=10)
    add("xStream-deep", lambda X: M.xStream(num_components=30, n_chains=8, depth=10, window_size=6), (13,), cost=20)
    return D


def group(kind, d, t):
    """Normal instance number t of the stream."""
    base = [0.2 + 0.05 * j for j in range(d)]
    if kind == "one":
        return base
    if kind == "two":
        return [b + 0.001 * (t % 2) for b in base]
    if kind == "dense":
        return base if t % 5 else [b + 0.001 * (1 if t % 10 else -1) for b in base]
    return [b + 0.001 * ((t * 7 + 3 * j) % 5) for j, b in enumerate(base)]


def cases(tier):
    q = tier == "quick"
    for name, s in spec().items():
        seeds = (8 if s["cost"] < 20 else 2) if q else (40 if s["cost"] < 20 else 10)
        if s["cost"] >= 200:
            seeds = 1
        for g in s["groups"]:
            for r in range(seeds):
                yield {"name": name, "group": g, "seed": r, "quick": q}


def run(case, cov):
    import numpy as np
    s = spec()[case["name"]]
    d, g = s["d"], case["group"]
    warm = s["warm"] if case["quick"] else tuple(s["warm"]) + tuple(w + 3 for w in s["warm"])

    def build(n):
        reset_rng(case["seed"])
        X = np.array([group(g, d, t) for t in range(9)])
        m = s["mk"](X)
        for t in range(n):
            reset_rng(case["seed"] * 1000 + t)
            m.fit_partial(np.array(group(g, d, t)))
        return m
    fars = []
    for mag in s["far"]:
        for sign in (1.0,) if s["up"] else (1.0, -1.0):
            fars.append([sign * mag * (1 + 0.25 * j) + 0.2 for j in range(d)])
    if s["cost"] >= 20:
        fars = fars[:2] + fars[-1:]
    for n in warm:
        per = {"one": 1, "two": 2, "five": 5, "dense": 1}[g]
        # members of the normal group
        if s["fitted"]:
            ns = []
            for t in range(n, n + per):
                m = build(n)
                reset_rng(5)
                m.fit_partial(np.array(group(g, d, t)))
                ns.append(num(m.score_partial(np.array(group(g, d, t)))))
        else:
            m = build(n)
            ns = []
            for t in ([n] if "ESD" in case["name"] else range(1, 1 + per)):
                reset_rng(5)
                ns.append(num(m.score_partial(np.array(group(g, d, t)))))
        for f in fars:
            tr = {"detector": case["name"], "group": g, "fits": n, "far": f, "seed": case["seed"]}
            if s["fitted"]:
                m = build(n)
                reset_rng(5)
                x = np.array(f)
                fs = [num(m.fit_partial(x).score_partial(x))]
                if case["name"] == "RelativeEntropy":
                    for _ in range(9):
                        fs.append(num(m.fit_partial(x).score_partial(x)))
            else:
                reset_rng(5)
                fs = [num(m.score_partial(np.array(f)))]
            cov.trace()
            cov.comp()
            cov.step((case["name"], g, n, case["seed"]), tuple(f))
            cov.outcome((case["name"], tuple(fs)))
            strict = s["strict"] and not (case["name"] == "IForestASD" and g == "one") or case["name"] == "SeasonalHybridESD" and g == "five"
            for v in ns:
                for w in fs:
                    if w < v or (strict and not w > v):
                        if case["name"] == "Inqmad" and w < v:
                            cov.finding("Inqmad scores the far instance %r lower (%r) than the normal one (%r)" % (f, w, v), tr, "inqmad-density")
                            return
                        raise Violation("the far instance %r scores %r, the normal instance %r" % (f, w, v), tr)
            if case["name"] == "RelativeEntropy" and fs[-1] <= max(ns):
                raise Violation("a window full of far values scores %r, the normal values %r" % (fs[-1], max(ns)), tr)
    cov.sample(tr)

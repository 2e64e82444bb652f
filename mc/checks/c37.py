"""C37: results depend on the numbers in an array only, not on how the array stores them."""
import itertools

from mc.core import Violation, reset_rng
from mc.util import num
from mc.zoo import lfsr

BOUNDS = {
    "quick": "43 model, transformer and ensembler configurations incl. array arguments of constructors, every argument in 8 storages (contiguous float64 as reference; 64/32-bit integers, Fortran order, strided, reversed, read-only, row of a larger array / transposed): all call words of length 3 over "
             "{fit, evaluate, fit-and-evaluate, batch fit, batch evaluate, batch fit-and-evaluate} after 8 warm-up fits in every uniform storage and in two rotations of all storages over the calls; integers of three magnitudes (to 4, 60000, 4e9 (64 bit)); "
             "streamers, precision/recall/AUROC/AUPR labels and calibrator score arrays in the same storages",
    "thorough": "as quick with call words of length 4",
}
ASSUMPTIONS = ["the global generators are re-seeded before every call", "results are compared within a relative 1e-9 (sums over differently laid out arrays may be added up in another order)",
               "integer types of at least 32 bits; text, boolean and unsigned arrays are not instances"]
TECHNIQUE = "bounded exhaustive exploration of call words under argument storages, history against history on the real code"
OPS = ("F", "T", "FT", "BF", "BT", "BFT")
REGIMES = ("int64", "int32", "fortran", "strided", "reversed", "ro", "row")


def store(v, kind):
    """The numbers v (nested list) as an array stored in the given way."""
    import numpy as np
    a = np.array(v, dtype=float)
    if kind == "base":
        return a
    if kind in ("int64", "int32"):
        return a.astype(kind)
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "ro":
        a.setflags(write=False)
        return a
    if kind == "strided":
        b = np.full(tuple(2 * s for s in a.shape), 777.25)
        w = b[tuple(slice(None, None, 2) for _ in a.shape)]
        w[...] = a
        return w
    if kind == "reversed":
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return a[r].copy()[r]
    if a.ndim == 1:
        b = np.full((3, len(a)), -55.5)
        b[1] = a
        return b[1]
    return a.T.copy().T


class C:
    def __init__(self, name, fam, mk, d, cost=1, labels=False, zero=True, warm=8, frac=0, mags=(1,)):
        self.name, self.fam, self.mk, self.d, self.cost, self.labels, self.warm, self.mags = name, fam, mk, d, cost, labels, warm, mags
        self.frac = frac      # instances are fractions: integer storages for constructor arrays only

    def value(self, t, mag):
        """Integer rows, never constant and never zero."""
        v = [(t * 7 + j * 3 + t * t + j * t) % 5 for j in range(self.d)]
        if self.name == "KNNCAD" or self.name.startswith("Seasonal"):
            v = [int(lfsr(t + 2)[-1] * 64) % 23]
        if self.d > 1 and len(set(v)) == 1:
            v[0] += 1
        if self.d == 1 and not any(v):
            v[0] = 5
        return [(x * mag + (t if mag > 1 else 0)) * (self.frac or 1) for x in v]


def comps():
    from pysad import models as M
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    from pysad.transform import ensemble as X
    from pysad.transform import preprocessing as Q
    from pysad.transform import projection as J

    def knn():
        from pyod.models.knn import KNN
        return KNN
    I2 = [[(3 * i + j * i * i) % 5 + (j and 1), (i * i + 2) % 7] for i, j in zip(range(8), [0, 1] * 4)]
    B = (1, 60000, 4000000000)
    L = []

    def m(*a, **k):
        L.append(C(a[0], "models", *a[1:], **k))

    def t(*a, **k):
        L.append(C(a[0], "transformers", *a[1:], **k))

    def e(name, mk):
        L.append(C(name, "ensemblers", mk, 4, mags=B))
    m("ExactStorm", lambda A: M.ExactStorm(window_size=4, max_radius=2.5), 2, mags=B)
    m("ExactStorm-far", lambda A: M.ExactStorm(window_size=6, max_radius=130000.0), 2, mags=(60000,))
    m("HalfSpaceTrees", lambda A: M.HalfSpaceTrees(A([0, -1]), A([5, 6]), window_size=3, num_trees=4, max_depth=5), 2)
    m("HalfSpaceTrees-bounds", lambda A: M.HalfSpaceTrees(A([0, -1]), A([3, 2]), window_size=4, num_trees=6, max_depth=5), 2, frac=0.61)
    m("RSHash-bounds", lambda A: M.RSHash(A([0, -1]), A([3, 4]), sampling_points=50, num_components=6, num_hash_fns=1, decay=0.25), 2, frac=0.61)
    m("HalfSpaceTrees-init", lambda A: M.HalfSpaceTrees(A([0, 0]), A([7, 5]), window_size=3, num_trees=3, max_depth=4, initial_window_X=A(I2)), 2)
    m("IForestASD", lambda A: M.IForestASD(initial_window_X=A(I2), window_size=3, n_estimators=2), 2, cost=30)
    m("KitNet", lambda A: M.KitNet(max_size_ae=2, grace_feature_mapping=2, grace_anomaly_detector=3), 3, cost=2, mags=(1, 60000))
    m("KNNCAD", lambda A: M.KNNCAD(probationary_period=50), 1, cost=12, warm=70)
    m("KNNCAD-wide", lambda A: M.KNNCAD(probationary_period=50), 1, cost=12, warm=70, mags=(60001, 4000000007))
    m("LocalOutlierProbability", lambda A: M.LocalOutlierProbability(A(I2), num_neighbors=3), 2, cost=8, mags=(1, 60000))
    m("LODA", lambda A: M.LODA(num_bins=4, num_random_cuts=4), 3, cost=2)
    m("MedianAbsoluteDeviation", lambda A: M.MedianAbsoluteDeviation(), 1, mags=B)
    m("MedianAbsoluteDeviation-signed", lambda A: M.MedianAbsoluteDeviation(absolute=False, b=2), 1, mags=B)
    m("PerfectModel", lambda A: M.PerfectModel(), 2, labels=True)
    m("OneFit-KNN", lambda A: OneFitModel(knn(), A(I2), n_neighbors=2), 2, cost=6)
    m("OneFit-KNN-y", lambda A: OneFitModel(knn(), A(I2), A([0, 1] * 4), n_neighbors=2), 2, cost=6)
    m("RefWindow-KNN", lambda A: ReferenceWindowModel(knn(), 5, 2, initial_window_X=A(I2), n_neighbors=2), 2, cost=8, mags=(1, 60000))
    m("RefWindow-KNN-y", lambda A: ReferenceWindowModel(knn(), 5, 2, A(I2), A([0, 1] * 4), n_neighbors=2), 2, cost=8, labels=True)
    m("RelativeEntropy", lambda A: M.RelativeEntropy(0, 9, num_bins=3, window_size=4), 1)
    m("RobustRandomCutForest", lambda A: M.RobustRandomCutForest(num_trees=2, tree_size=6), 2, cost=3, mags=(1, 60000))
    m("RSHash", lambda A: M.RSHash(A([0, 0]), A([5, 5]), sampling_points=5, num_components=4, num_hash_fns=2, decay=0.5), 2, mags=(1, 60000))
    m("SeasonalESD", lambda A: M.SeasonalESD(period=2, window_size=6, max_anomalies=2, alpha=0.3), 1, cost=5, mags=(1, 60000))
    m("SeasonalHybridESD", lambda A: M.SeasonalHybridESD(period=2, window_size=6, max_anomalies=2, alpha=0.3), 1, cost=5)
    m("StandardAbsoluteDeviation", lambda A: M.StandardAbsoluteDeviation(), 1, mags=B)
    m("StandardAbsoluteDeviation-median", lambda A: M.StandardAbsoluteDeviation("median", absolute=False), 1, mags=B)
    m("xStream", lambda A: M.xStream(num_components=3, n_chains=2, depth=3, window_size=3), 2, cost=2, mags=(1, 60000))
    t("IdentityScaler", lambda A: Q.IdentityScaler(), 3, mags=B)
    t("InstanceStandardScaler", lambda A: Q.InstanceStandardScaler(), 3, mags=B)
    t("InstanceUnitNormScaler", lambda A: Q.InstanceUnitNormScaler(), 3, mags=(1, 60000))
    t("InstanceUnitNormScaler-1", lambda A: Q.InstanceUnitNormScaler(pow=1), 3, mags=B)
    t("InstanceUnitNormScaler-4", lambda A: Q.InstanceUnitNormScaler(pow=4), 3)
    t("SeasonalTrendDecomposer", lambda A: Q.SeasonalTrendDecomposer(season_length=2, trend_window=3), 2, mags=B)
    t("ModifiedSTLResidual", lambda A: Q.ModifiedSTLResidualTransformer(period=2, window_size=5), 1, cost=4, mags=(1, 60000))
    t("GaussianRandomProjector", lambda A: J.GaussianRandomProjector(num_components=2), 3, cost=2, mags=B)
    t("SparseRandomProjector", lambda A: J.SparseRandomProjector(num_components=2), 3, cost=2, mags=B)
    t("StreamhashProjector", lambda A: J.StreamhashProjector(num_components=3), 3, mags=B)
    e("AverageScoreEnsembler", lambda A: X.AverageScoreEnsembler())
    e("AverageScoreEnsembler-w", lambda A: X.AverageScoreEnsembler(estimator_weights=A([[1, 2, 3, 4]])))
    e("MaximumScoreEnsembler", lambda A: X.MaximumScoreEnsembler())
    e("MedianScoreEnsembler", lambda A: X.MedianScoreEnsembler())
    e("AverageOfMaximum", lambda A: X.AverageOfMaximumScoreEnsembler(n_buckets=2))
    e("MaximumOfAverage", lambda A: X.MaximumOfAverageScoreEnsembler(n_buckets=2))
    return {c.name: c for c in L}


def cases(tier):
    q = tier == "quick"
    for name, c in comps().items():
        n = 3 if q else 4
        if c.cost >= 30:
            n -= 1
        for mag in c.mags:
            for f in OPS:
                yield {"name": name, "mag": mag, "first": f, "len": n}
    yield {"name": "utils", "mode": "utils"}


def execute(c, mag, word, pick):
    """pick(k): storage of the arguments of call k (k = -1: constructor)."""
    import numpy as np
    reset_rng(7)
    m = c.mk(lambda v: store(v, pick(-1)))
    out, pend = [], 0
    seq = ["F"] * c.warm + list(word)
    for k, op in enumerate(seq):
        reset_rng(100 + k)
        kind = pick(k)
        if c.frac and kind[:3] == "int":
            kind = "base"
        if op[0] != "B":
            x = store(c.value(k, mag), kind)
            y = [k % 2] if c.labels else []
            a = {"F": "fit_partial", "T": "score_partial" if c.fam == "models" else "transform_partial", "FT": "fit_score_partial" if c.fam == "models" else "fit_transform_partial"}[op]
        else:
            x = store([c.value(k + j, mag) for j in range(3)], kind)
            y = [store([1, 0, 1], kind)] if c.labels else []
            a = {"BF": "fit", "BT": "score" if c.fam == "models" else "transform", "BFT": "fit_score" if c.fam == "models" else "fit_transform"}[op]
        if c.name == "PerfectModel":
            w = 3 if op[0] == "B" else 1
            if op in ("T", "BT"):
                if pend < w:
                    continue
                pend -= w
            elif op in ("F", "BF"):
                pend += w
        r = getattr(m, a)(x, *(y if op not in ("T", "BT") else []))
        if op in ("F", "BF"):
            if r is not m:
                raise Violation("%s.%s does not return the object" % (c.name, a))
        else:
            out.append(np.asarray(r, dtype=float).ravel())
    for j in range(3):
        if c.name == "PerfectModel":
            break
        reset_rng(900 + j)
        x = store(c.value(j, mag), "base" if c.frac else pick(len(seq) + j))
        out.append(np.asarray(m.score_partial(x) if c.fam == "models" else m.transform_partial(x), dtype=float).ravel())
    return out


def near(a, b):
    import numpy as np
    return len(a) == len(b) and all(u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-9 * max(1.0, float(np.max(np.abs(v))) if v.size else 0), equal_nan=True) for u, v in zip(a, b))


def run(case, cov):
    if case.get("mode") == "utils":
        return _utils(cov)
    c, mag = comps()[case["name"]], case["mag"]
    tr = None
    rg = [r for r in REGIMES if not (r == "int32" and mag > 10 ** 6)]
    for i, w in enumerate(itertools.product(OPS, repeat=case["len"] - 1)):
        word = (case["first"],) + w
        base = execute(c, mag, word, lambda k: "base")
        cov.outcome(str([b.tolist() for b in base])[:400])
        picks = [(r, lambda k, r=r: r) for r in rg] + [("mixed-%d" % s, lambda k, s=s: (("base",) + tuple(rg))[(k * s + i) % (len(rg) + 1)]) for s in (1, 3)]
        for j, (nm, pick) in enumerate(picks):
            if c.cost >= 4 and (i + j) % (3 if c.cost < 10 else 6):
                continue
            tr = {"component": c.name, "calls": word, "warm_up_fits": c.warm, "magnitude": mag, "storage": nm}
            cov.trace()
            for k in range(len(word)):
                cov.step((c.name, mag, nm, word[:k]), word[k])
            got = execute(c, mag, word, pick)
            cov.comp(len(got))
            if not near(got, base):
                k = [not near([u], [v]) for u, v in zip(got, base)]
                k = k.index(True) if True in k else 0
                raise Violation("%s: result %d is %r for contiguous float64 arrays and %r for the same numbers stored as '%s'" % (c.name, k, base[k].tolist(), got[k].tolist(), nm), tr)
    cov.sample(tr)


def _utils(cov):
    import numpy as np
    import pandas as pd
    from pysad import evaluation as V
    from pysad.transform import probability_calibration as P
    from pysad.transform import postprocessing as Q
    from pysad.utils import ArrayStreamer, PandasStreamer
    # streamers
    for n, d in ((1, 1), (3, 2), (7, 3), (40, 2)):
        rows = [[(3 * i + 5 * j + i * j) % 9 - 2 for j in range(d)] for i in range(n)]
        ys = [(i * 3 // 2) % 2 for i in range(n)]
        for sh in (False, True):
            for lab in (False, True):
                ref = None
                for kind in ("base",) + REGIMES:
                    reset_rng(5)
                    X, y = store(rows, kind), store(ys, kind)
                    it = ArrayStreamer(shuffle=sh).iter(X, y) if lab else ArrayStreamer(shuffle=sh).iter(X)
                    got = [(np.asarray(r[0], float).tolist(), float(r[1])) if lab else np.asarray(r, float).tolist() for r in it]
                    cov.step(("streamer", n, d, sh, lab), kind)
                    cov.comp()
                    ref = got if ref is None else ref
                    if got != ref:
                        raise Violation("ArrayStreamer delivers %r for contiguous float64 arrays, %r for the same numbers stored as '%s'" % (ref, got, kind), {"rows": rows, "shuffle": sh})
                    cov.outcome(str(got)[:200])
                cov.trace()
    # scores of postprocessors and calibrators
    sc = [(i * 5 + i * i) % 11 - 3 for i in range(30)]
    mk = [("Running%s" % n, lambda n=n: getattr(Q, "Running%sPostprocessor" % n)(4)) for n in ("Average", "Max", "Median", "ZScore")] + \
         [(n, lambda n=n: getattr(Q, "%sPostprocessor" % n)()) for n in ("Average", "Max", "Median", "ZScore")] + \
         [("Conformal", lambda: P.ConformalProbabilityCalibrator(window_size=5)), ("Gaussian", lambda: P.GaussianTailProbabilityCalibrator(window_size=5))]
    for mag in (1, 60000):
        for name, f in mk:
            ref = None
            for kind in ("base",) + REGIMES:
                m = f()
                v = store([s * mag for s in sc], kind)
                m.fit(v[:9])
                got = [np.asarray(m.fit_transform(v[9:20]), float).ravel(), np.asarray(m.transform(v[15:]), float).ravel()]
                for s in v[20:]:
                    got.append(np.asarray(m.fit_transform_partial(s), float).ravel())
                cov.step((name, mag), kind)
                cov.comp()
                cov.trace()
                ref = got if ref is None else ref
                if not near(got, ref):
                    raise Violation("%s gives %r for float64 scores, %r for the same numbers stored as '%s'" % (name, ref, got, kind), {"scores": sc, "magnitude": mag})
    # labels and scores of metrics
    for name in ("PrecisionMetric", "RecallMetric", "AUROCMetric", "AUPRMetric"):
        ref = None
        for kind in ("base",) + REGIMES:
            m = getattr(V, name)()
            y, s = store([0, 1, 1, 0, 1, 0, 0, 1], kind), store([1, 1, 0, 0, 1, 0, 1, 1] if "A" != name[0] else [3, 5, 1, 0, 5, 2, 4, 9], kind)
            got = []
            for k in range(8):
                m.update(y[k], s[k])
                if k > 1:
                    got.append(num(m.get()))
            cov.step((name,), kind)
            cov.comp()
            cov.trace()
            ref = got if ref is None else ref
            if any(abs(u - v) > 1e-12 for u, v in zip(got, ref)):
                raise Violation("%s gives %r for float64 labels and scores, %r for '%s'" % (name, ref, got, kind), {})
    cov.sample({"parts": "streamers, postprocessors, calibrators, metrics"})

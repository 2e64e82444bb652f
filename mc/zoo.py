"""All public components with tiny configurations: factories, instance alphabets, properties.

Only documented constructor arguments are used.  Every factory seeds the global generators itself, so
that two objects of the same entry are built from the same random numbers.
"""
from mc.core import reset_rng

BIN = [1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 0, 1, 1, 0, 0, 0, 0, 1, 1, 1, 1, 0, 1, 0, 1, 1]


def lfsr(n):
    """A fixed aperiodic-looking value stream in (0, 1) (the explored part is not random)."""
    s, out = 0xACE1, []
    for _ in range(n):
        b = ((s >> 0) ^ (s >> 2) ^ (s >> 3) ^ (s >> 5)) & 1
        s = (s >> 1) | (b << 15)
        out.append(((s & 0xFF) + 0.5) / 256.0)
    return out


U = [(0.25,), (0.5,), (3.0,)]
M2 = [(0.125, 0.25), (0.875, 0.375), (0.5, 0.9)]


class E:
    def __init__(self, name, mk, alpha, warm=(), rng=True, scores_pure=True, fitless=False, labels=False, cost=1, grow=None):
        self.name, self.mk, self.alpha, self.warm = name, mk, alpha, list(warm)
        self.rng, self.scores_pure, self.fitless, self.labels, self.cost = rng, scores_pure, fitless, labels, cost
        self.grow = grow

    def make(self, seed=7):
        reset_rng(seed)
        return self.mk()

    def inst(self, i):
        import numpy as np
        return np.array(self.alpha[i], dtype=float)


def _init2(n=6):
    import numpy as np
    v = lfsr(2 * n)
    return np.array(v).reshape(n, 2)


def models():
    import numpy as np
    from pysad import models as M
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel

    def iforest():
        from pyod.models.iforest import IForest
        return IForest

    def knn():
        from pyod.models.knn import KNN
        return KNN
    mins, maxes = np.array([0.0, 0.0]), np.array([1.0, 1.0])
    w2 = [tuple(r) for r in _init2(9)]
    L = []

    def add(*a, **k):
        L.append(E(*a, **k))
    add("ExactStorm", lambda: M.ExactStorm(window_size=3, max_radius=0.5), M2, w2[:5], rng=False)
    add("HalfSpaceTrees", lambda: M.HalfSpaceTrees(mins.copy(), maxes.copy(), window_size=3, num_trees=3, max_depth=3), M2, w2[:5])
    add("IForestASD", lambda: M.IForestASD(window_size=3, n_estimators=2), M2, w2[:4], cost=40)
    add("IForestASD-init", lambda: M.IForestASD(initial_window_X=_init2(4), window_size=3, n_estimators=2), M2, w2[:2], cost=40)
    add("Inqmad", lambda: M.Inqmad(input_shape=2, dim_x=8, gamma=1), M2, w2[:3], cost=60)
    add("KitNet", lambda: M.KitNet(max_size_ae=2, grace_feature_mapping=2, grace_anomaly_detector=3),
        [(0.125, 0.25, 0.5), (0.875, 0.375, 0.1), (0.5, 0.9, 0.7)],
        [tuple(lfsr(30)[3 * i:3 * i + 3]) for i in range(7)], rng=False)
    add("KNNCAD", lambda: M.KNNCAD(probationary_period=50), U, [(v,) for v in lfsr(60)], rng=False, scores_pure=False, cost=6)
    add("LocalOutlierProbability", lambda: M.LocalOutlierProbability(_init2(6), num_neighbors=3), M2, w2[:2], rng=False, cost=10)
    add("LODA", lambda: M.LODA(num_bins=4, num_random_cuts=4), M2, w2[:3], cost=2)
    add("MedianAbsoluteDeviation", lambda: M.MedianAbsoluteDeviation(), U, [(v,) for v in lfsr(5)], rng=False)
    add("MedianAbsoluteDeviation-signed", lambda: M.MedianAbsoluteDeviation(absolute=False, b=2.0), U, [(v,) for v in lfsr(4)], rng=False)
    add("NullModel", lambda: M.NullModel(), M2, w2[:2], rng=False)
    add("PerfectModel", lambda: M.PerfectModel(), M2, w2[:2], rng=False, scores_pure=False, labels=True)
    add("RandomModel", lambda: M.RandomModel(), M2, w2[:2], scores_pure=False)
    add("OneFit-KNN", lambda: OneFitModel(knn(), _init2(6), n_neighbors=2), M2, w2[:2], cost=6)
    add("RefWindow-KNN", lambda: ReferenceWindowModel(knn(), window_size=5, sliding_size=2, initial_window_X=_init2(6), n_neighbors=2), M2, w2[:3], cost=10)
    add("RefWindow-IForest", lambda: ReferenceWindowModel(iforest(), 3, 2, n_estimators=2), M2, w2[:4], cost=40)
    add("RelativeEntropy", lambda: M.RelativeEntropy(0.0, 4.0, num_bins=3, window_size=4), U, [(v * 4,) for v in lfsr(6)], rng=False)
    add("RobustRandomCutForest", lambda: M.RobustRandomCutForest(num_trees=2, tree_size=4), M2, w2[:6], cost=3)
    add("RSHash", lambda: M.RSHash(mins.copy(), maxes.copy(), sampling_points=5, num_components=4, num_hash_fns=2, decay=0.5), M2, w2[:4], cost=2)
    add("SeasonalESD", lambda: M.SeasonalESD(period=2, window_size=5, max_anomalies=2), U, [(v,) for v in lfsr(6)], rng=False, cost=6)
    add("SeasonalHybridESD", lambda: M.SeasonalHybridESD(period=2, window_size=5, max_anomalies=2, alpha=0.2), U, [(v,) for v in lfsr(6)], rng=False, cost=6)
    add("StandardAbsoluteDeviation", lambda: M.StandardAbsoluteDeviation(), U, [(v,) for v in lfsr(5)], rng=False)
    add("StandardAbsoluteDeviation-median", lambda: M.StandardAbsoluteDeviation("median", absolute=False), U, [(v,) for v in lfsr(5)], rng=False)
    add("xStream", lambda: M.xStream(num_components=3, n_chains=2, depth=3, window_size=3), M2, w2[:7], cost=3)
    return {e.name: e for e in L}


def transformers():
    from pysad.transform import preprocessing as P
    from pysad.transform import projection as J
    w2 = [tuple(r) for r in _init2(6)]
    L = [
        E("IdentityScaler", lambda: P.IdentityScaler(), M2, w2[:2], rng=False),
        E("InstanceStandardScaler", lambda: P.InstanceStandardScaler(), M2, w2[:2], rng=False),
        E("InstanceUnitNormScaler", lambda: P.InstanceUnitNormScaler(), M2, w2[:2], rng=False),
        E("InstanceUnitNormScaler-1", lambda: P.InstanceUnitNormScaler(pow=1), M2, w2[:2], rng=False),
        E("SeasonalTrendDecomposer", lambda: P.SeasonalTrendDecomposer(season_length=2, trend_window=3), M2, w2[:5], rng=False),
        E("ModifiedSTLResidual", lambda: P.ModifiedSTLResidualTransformer(period=2, window_size=5), U, [(v,) for v in lfsr(6)], rng=False, cost=6),
        E("GaussianRandomProjector", lambda: J.GaussianRandomProjector(num_components=2), [a + (0.3,) for a in M2], [a + (0.1,) for a in w2[:2]], cost=4),
        E("SparseRandomProjector", lambda: J.SparseRandomProjector(num_components=2), [a + (0.3,) for a in M2], [a + (0.1,) for a in w2[:2]], cost=4),
        E("StreamhashProjector", lambda: J.StreamhashProjector(num_components=3), M2, w2[:2], rng=False),
        E("StreamhashProjector-1", lambda: J.StreamhashProjector(num_components=1), M2, w2[:2], rng=False),
    ]
    return {e.name: e for e in L}


def postprocessors():
    from pysad.transform import postprocessing as P
    from pysad.transform import probability_calibration as C
    S = [0.25, 0.5, -3.0]
    W = lfsr(7)
    L = []
    for n in ("Average", "Max", "Median", "ZScore"):
        L.append(E(n + "Postprocessor", (lambda c: lambda: c())(getattr(P, n + "Postprocessor")), S, W[:3], rng=False))
        L.append(E("Running" + n + "Postprocessor", (lambda c: lambda: c(3))(getattr(P, "Running" + n + "Postprocessor")), S, W, rng=False))
    L.append(E("Conformal", lambda: C.ConformalProbabilityCalibrator(window_size=3), S, W, rng=False))
    L.append(E("Conformal-all", lambda: C.ConformalProbabilityCalibrator(windowed=False), S, W[:3], rng=False))
    L.append(E("GaussianTail", lambda: C.GaussianTailProbabilityCalibrator(window_size=3), S, W, rng=False))
    L.append(E("GaussianTail-all", lambda: C.GaussianTailProbabilityCalibrator(running_statistics=False), S, W[:3], rng=False))
    return {e.name: e for e in L}


def ensemblers():
    import numpy as np
    from pysad.transform import ensemble as X
    S = [(0.5, 1.5, -1.0, 4.0), (2.0, 2.0, 0.0, 1.0), (-3.0, 8.0, 5.0, 0.25)]
    W = [(1.0, 2.0, 3.0, 4.0)]
    L = [
        E("AverageScoreEnsembler", lambda: X.AverageScoreEnsembler(), S, W, rng=False),
        E("AverageScoreEnsembler-w", lambda: X.AverageScoreEnsembler(estimator_weights=np.array([[1.0, 2.0, 3.0, 4.0]])), S, W, rng=False),
        E("MaximumScoreEnsembler", lambda: X.MaximumScoreEnsembler(), S, W, rng=False),
        E("MedianScoreEnsembler", lambda: X.MedianScoreEnsembler(), S, W, rng=False),
        E("AverageOfMaximum", lambda: X.AverageOfMaximumScoreEnsembler(n_buckets=2), S, W),
        E("MaximumOfAverage", lambda: X.MaximumOfAverageScoreEnsembler(n_buckets=2), S, W),
        E("MaximumOfAverage-boot", lambda: X.MaximumOfAverageScoreEnsembler(n_buckets=2, bootstrap_estimators=True), S, W),
    ]
    return {e.name: e for e in L}


def variants():
    """Same class, one setting changed: name -> (entry of the first object, factory of the second)."""
    import numpy as np
    from pysad import models as M
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    from pysad.transform import ensemble as X
    from pysad.transform import postprocessing as P
    from pysad.transform import preprocessing as Q
    from pysad.transform import probability_calibration as C
    from pysad.transform import projection as J

    def knn():
        from pyod.models.knn import KNN
        return KNN
    o, l = (lambda: np.array([0.0, 0.0])), (lambda: np.array([1.0, 1.0]))
    V = {
        "ExactStorm": [lambda: M.ExactStorm(window_size=4, max_radius=0.5), lambda: M.ExactStorm(window_size=3, max_radius=0.25)],
        "HalfSpaceTrees": [lambda: M.HalfSpaceTrees(o(), l(), window_size=4, num_trees=3, max_depth=3),
                           lambda: M.HalfSpaceTrees(o(), l(), window_size=3, num_trees=2, max_depth=3),
                           lambda: M.HalfSpaceTrees(o(), l(), window_size=3, num_trees=3, max_depth=2),
                           lambda: M.HalfSpaceTrees(o() - 1, l(), window_size=3, num_trees=3, max_depth=3),
                           lambda: M.HalfSpaceTrees(o(), l() * 1.5, window_size=3, num_trees=3, max_depth=3)],
        "Inqmad": [lambda: M.Inqmad(input_shape=2, dim_x=8, gamma=2), lambda: M.Inqmad(input_shape=2, dim_x=8, gamma=1, random_state=3)],
        "KitNet": [lambda: M.KitNet(max_size_ae=1, grace_feature_mapping=2, grace_anomaly_detector=3),
                   lambda: M.KitNet(max_size_ae=2, grace_feature_mapping=2, grace_anomaly_detector=3, learning_rate=0.3),
                   lambda: M.KitNet(max_size_ae=2, grace_feature_mapping=2, grace_anomaly_detector=3, hidden_ratio=0.4)],
        "KNNCAD": [lambda: M.KNNCAD(probationary_period=54)],
        "LocalOutlierProbability": [lambda: M.LocalOutlierProbability(_init2(6), num_neighbors=2), lambda: M.LocalOutlierProbability(_init2(7), num_neighbors=3)],
        "LODA": [lambda: M.LODA(num_bins=5, num_random_cuts=4), lambda: M.LODA(num_bins=4, num_random_cuts=5)],
        "MedianAbsoluteDeviation": [lambda: M.MedianAbsoluteDeviation(b=3.0), lambda: M.MedianAbsoluteDeviation(absolute=False)],
        "OneFit-KNN": [lambda: OneFitModel(knn(), _init2(6), n_neighbors=3), lambda: OneFitModel(knn(), _init2(6) * 2, n_neighbors=2)],
        "RefWindow-KNN": [lambda: ReferenceWindowModel(knn(), window_size=4, sliding_size=2, initial_window_X=_init2(6), n_neighbors=2),
                          lambda: ReferenceWindowModel(knn(), window_size=5, sliding_size=2, initial_window_X=_init2(6), n_neighbors=3)],
        "RelativeEntropy": [lambda: M.RelativeEntropy(0.0, 4.0, num_bins=4, window_size=4), lambda: M.RelativeEntropy(0.0, 4.0, num_bins=3, window_size=5),
                            lambda: M.RelativeEntropy(-2.0, 4.0, num_bins=3, window_size=4)],
        "RobustRandomCutForest": [lambda: M.RobustRandomCutForest(num_trees=3, tree_size=4), lambda: M.RobustRandomCutForest(num_trees=2, tree_size=3)],
        "RSHash": [lambda: M.RSHash(o(), l(), sampling_points=5, num_components=4, num_hash_fns=2, decay=0.25),
                   lambda: M.RSHash(o(), l(), sampling_points=5, num_components=3, num_hash_fns=2, decay=0.5),
                   lambda: M.RSHash(o(), l(), sampling_points=5, num_components=4, num_hash_fns=1, decay=0.5)],
        "SeasonalESD": [lambda: M.SeasonalESD(period=2, window_size=6, max_anomalies=2), lambda: M.SeasonalESD(period=2, window_size=5, max_anomalies=1),
                        lambda: M.SeasonalESD(period=2, window_size=5, max_anomalies=2, alpha=0.4), lambda: M.SeasonalESD(period=2, window_size=5, max_anomalies=2, robust=False)],
        "SeasonalHybridESD": [lambda: M.SeasonalESD(period=2, window_size=5, max_anomalies=2, alpha=0.2)],
        "StandardAbsoluteDeviation": [lambda: M.StandardAbsoluteDeviation("median"), lambda: M.StandardAbsoluteDeviation(absolute=False)],
        "xStream": [lambda: M.xStream(num_components=4, n_chains=2, depth=3, window_size=3), lambda: M.xStream(num_components=3, n_chains=3, depth=3, window_size=3),
                    lambda: M.xStream(num_components=3, n_chains=2, depth=2, window_size=3), lambda: M.xStream(num_components=3, n_chains=2, depth=3, window_size=4)],
        "InstanceUnitNormScaler": [lambda: Q.InstanceUnitNormScaler(pow=3)],
        "SeasonalTrendDecomposer": [lambda: Q.SeasonalTrendDecomposer(season_length=3, trend_window=3), lambda: Q.SeasonalTrendDecomposer(season_length=2, trend_window=2)],
        "ModifiedSTLResidual": [lambda: Q.ModifiedSTLResidualTransformer(period=2, window_size=6), lambda: Q.ModifiedSTLResidualTransformer(period=2, window_size=5, robust=False)],
        "GaussianRandomProjector": [lambda: J.GaussianRandomProjector(num_components=3)],
        "SparseRandomProjector": [lambda: J.SparseRandomProjector(num_components=3), lambda: J.SparseRandomProjector(num_components=2, density=0.9)],
        "StreamhashProjector": [lambda: J.StreamhashProjector(num_components=4), lambda: J.StreamhashProjector(num_components=3, density=0.9), lambda: J.StreamhashProjector(num_components=3, density=0.6)],
        "Conformal": [lambda: C.ConformalProbabilityCalibrator(window_size=2), lambda: C.ConformalProbabilityCalibrator(windowed=False, window_size=3)],
        "GaussianTail": [lambda: C.GaussianTailProbabilityCalibrator(window_size=2), lambda: C.GaussianTailProbabilityCalibrator(running_statistics=False, window_size=3)],
        "AverageScoreEnsembler-w": [lambda: X.AverageScoreEnsembler(estimator_weights=np.array([[4.0, 1.0, 1.0, 2.0]])), lambda: X.AverageScoreEnsembler()],
        "AverageOfMaximum": [lambda: X.AverageOfMaximumScoreEnsembler(n_buckets=4), lambda: X.AverageOfMaximumScoreEnsembler(n_buckets=2, bootstrap_estimators=True)],
        "MaximumOfAverage": [lambda: X.MaximumOfAverageScoreEnsembler(n_buckets=4), lambda: X.MaximumOfAverageScoreEnsembler(n_buckets=2, bootstrap_estimators=True)],
    }
    for n in ("Average", "Max", "Median", "ZScore"):
        V["Running" + n + "Postprocessor"] = [(lambda c: lambda: c(2))(getattr(P, "Running" + n + "Postprocessor"))]
    return V

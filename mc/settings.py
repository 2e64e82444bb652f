"""Every public class in a base configuration and with every setting changed, one at a time, at sizes where the settings matter.

A cache or table shared between objects under a key that forgets one setting makes one of these objects answer for another.
"""
import os
import pickle

from mc.big import Big, conv
from mc.core import Violation, reset_rng
from mc.util import same


def families():
    """name -> (family, number of features, steps, [(label, factory)])"""
    import numpy as np
    from pysad import models as M
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    from pysad.transform import ensemble as X
    from pysad.transform import postprocessing as P
    from pysad.transform import preprocessing as Q
    from pysad.transform import probability_calibration as C
    from pysad.transform import projection as J

    def knn():
        from pyod.models.knn import KNN
        return KNN

    def lof():
        from pyod.models.lof import LOF
        return LOF

    def iforest():
        from pyod.models.iforest import IForest
        return IForest

    def init(n, d, s=0):
        b = Big("", "models", None, n, d)
        return np.array([b.item(t + 500 + s) for t in range(n)])
    F = {}

    def fam(name, kind, d, n, cls, base, *alts):
        L = [("base", lambda: cls(**base))]
        for a in alts:
            kw = dict(base, **a)
            L.append((", ".join("%s=%s" % (k, str(v)[:30]) for k, v in a.items()), lambda kw=kw: cls(**kw)))
        F[name] = (kind, d, n, L)
    z, o = np.zeros(3), np.ones(3)
    fam("ExactStorm", "models", 3, 60, M.ExactStorm, {"window_size": 20, "max_radius": 0.4}, {"window_size": 21}, {"max_radius": 0.5})
    fam("HalfSpaceTrees", "models", 3, 60, M.HalfSpaceTrees, {"feature_mins": z, "feature_maxes": o, "window_size": 20, "num_trees": 5, "max_depth": 5},
        {"feature_mins": z - 0.4}, {"feature_maxes": o * 1.5}, {"window_size": 21}, {"num_trees": 6}, {"max_depth": 4}, {"initial_window_X": init(15, 3)}, {"initial_window_X": init(15, 3, 40)})
    fam("IForestASD", "models", 3, 40, M.IForestASD, {"initial_window_X": init(20, 3), "window_size": 15, "n_estimators": 4}, {"initial_window_X": init(20, 3, 30)}, {"window_size": 14}, {"n_estimators": 5}, {"max_samples": 5})
    fam("KitNet", "models", 6, 80, M.KitNet, {"max_size_ae": 3, "grace_feature_mapping": 20, "grace_anomaly_detector": 30, "learning_rate": 0.1, "hidden_ratio": 0.75},
        {"max_size_ae": 4}, {"grace_feature_mapping": 21}, {"grace_anomaly_detector": 31}, {"learning_rate": 0.2}, {"hidden_ratio": 0.5})
    fam("KNNCAD", "models", 1, 130, M.KNNCAD, {"probationary_period": 50}, {"probationary_period": 51}, {"probationary_period": 60})
    fam("LODA", "models", 5, 20, M.LODA, {"num_bins": 8, "num_random_cuts": 12}, {"num_bins": 9}, {"num_random_cuts": 13})
    fam("LocalOutlierProbability", "models", 3, 8, M.LocalOutlierProbability, {"initial_X": init(25, 3), "num_neighbors": 5, "extent": 3}, {"initial_X": init(25, 3, 30)}, {"num_neighbors": 6}, {"extent": 2})
    fam("MedianAbsoluteDeviation", "models", 1, 40, M.MedianAbsoluteDeviation, {"absolute": True, "b": 1.4826}, {"absolute": False}, {"b": 1.0})
    fam("StandardAbsoluteDeviation", "models", 1, 40, M.StandardAbsoluteDeviation, {"substracted_statistic": "mean", "absolute": True}, {"substracted_statistic": "median"}, {"absolute": False})
    fam("OneFitModel", "models", 3, 20, OneFitModel, {"model_cls": knn(), "initial_X": init(25, 3), "n_neighbors": 3}, {"model_cls": lof()}, {"initial_X": init(25, 3, 30)}, {"n_neighbors": 4}, {"method": "mean"})
    fam("ReferenceWindowModel", "models", 3, 50, ReferenceWindowModel, {"model_cls": knn(), "window_size": 15, "sliding_size": 6, "initial_window_X": init(20, 3), "n_neighbors": 3},
        {"model_cls": lof()}, {"window_size": 14}, {"sliding_size": 7}, {"initial_window_X": init(20, 3, 30)}, {"n_neighbors": 4})
    fam("ReferenceWindowModel-noinit", "models", 3, 20, ReferenceWindowModel, {"model_cls": iforest(), "window_size": 6, "sliding_size": 3, "n_estimators": 3}, {"window_size": 5}, {"sliding_size": 4}, {"n_estimators": 4})
    fam("RelativeEntropy", "models", 1, 120, M.RelativeEntropy, {"min_val": 0.0, "max_val": 1.0, "num_bins": 5, "window_size": 20}, {"min_val": -1.0}, {"max_val": 2.0}, {"num_bins": 4}, {"window_size": 24})
    fam("RobustRandomCutForest", "models", 3, 60, M.RobustRandomCutForest, {"num_trees": 4, "tree_size": 20}, {"num_trees": 5}, {"tree_size": 21})
    fam("RSHash", "models", 3, 60, M.RSHash, {"feature_mins": z, "feature_maxes": o, "sampling_points": 50, "decay": 0.1, "num_components": 8, "num_hash_fns": 2},
        {"decay": 0.2}, {"num_components": 9}, {"num_hash_fns": 3}, {"feature_mins": z - 1}, {"sampling_points": 20}, {"feature_maxes": np.array([1.0, 0.0, 1.0])})
    esd = {"period": 6, "window_size": 36, "max_anomalies": 6, "alpha": 0.05, "robust": True}
    esds = [{"period": 5}, {"window_size": 37}, {"max_anomalies": 1}, {"alpha": 0.4}, {"alpha": 0.9}, {"alpha": 0.9, "max_anomalies": 17}, {"robust": False}, {"seasonal": 13}, {"seasonal": 13, "trend": 15}]
    fam("SeasonalESD", "models", 1, 60, M.SeasonalESD, esd, *esds)
    fam("SeasonalHybridESD", "models", 1, 60, M.SeasonalHybridESD, esd, *esds)
    F["SeasonalESD+Hybrid"] = ("models", 1, 60, F["SeasonalESD"][3][:1] + F["SeasonalHybridESD"][3][:1] + F["SeasonalESD"][3][4:5] + F["SeasonalHybridESD"][3][4:5])
    fam("xStream", "models", 5, 50, M.xStream, {"num_components": 8, "n_chains": 5, "depth": 6, "window_size": 15}, {"num_components": 9}, {"n_chains": 6}, {"depth": 7}, {"window_size": 14})
    fam("InstanceUnitNormScaler", "transformers", 5, 5, Q.InstanceUnitNormScaler, {"pow": 2}, {"pow": 1}, {"pow": 3}, {"pow": np.inf})
    fam("SeasonalTrendDecomposer", "transformers", 2, 60, Q.SeasonalTrendDecomposer, {"season_length": 7, "trend_window": 10}, {"season_length": 6}, {"trend_window": 11})
    fam("ModifiedSTLResidual", "transformers", 1, 60, Q.ModifiedSTLResidualTransformer, {"period": 6, "window_size": 36, "robust": True}, {"period": 5}, {"window_size": 37}, {"robust": False}, {"seasonal": 13}, {"trend": 15})
    fam("GaussianRandomProjector", "transformers", 9, 5, J.GaussianRandomProjector, {"num_components": 4}, {"num_components": 5}, {"eps": 0.5})
    fam("SparseRandomProjector", "transformers", 9, 5, J.SparseRandomProjector, {"num_components": 4, "density": 0.5}, {"num_components": 5}, {"density": 0.8}, {"eps": 0.5})
    fam("StreamhashProjector", "transformers", 12, 5, J.StreamhashProjector, {"num_components": 4, "density": 0.5}, {"num_components": 5}, {"density": 0.8}, {"density": 0.1}, {"num_components": 2})
    for nm in ("Average", "Max", "Median", "ZScore"):
        fam("Running" + nm, "postprocessors", 0, 60, getattr(P, "Running" + nm + "Postprocessor"), {"window_size": 12}, {"window_size": 13}, {"window_size": 5})
    fam("Conformal", "postprocessors", 0, 60, C.ConformalProbabilityCalibrator, {"windowed": True, "window_size": 12}, {"windowed": False}, {"window_size": 13})
    fam("GaussianTail", "postprocessors", 0, 60, C.GaussianTailProbabilityCalibrator, {"running_statistics": True, "window_size": 12}, {"running_statistics": False}, {"window_size": 13})
    w = np.array([[1.0 + i % 3 for i in range(12)]])
    fam("AverageScoreEnsembler", "ensemblers", 12, 6, X.AverageScoreEnsembler, {"estimator_weights": w}, {"estimator_weights": None}, {"estimator_weights": w[:, ::-1].copy()})
    for nm in ("AverageOfMaximum", "MaximumOfAverage"):
        fam(nm, "ensemblers", 12, 6, getattr(X, nm + "ScoreEnsembler"), {"n_buckets": 4}, {"n_buckets": 3}, {"bootstrap_estimators": True}, {"n_buckets": 12})
    return F


class Run:
    """One object of a family, driven step by step."""

    def __init__(self, kind, d, n, i, mk):
        self.b, self.i, self.n = Big("", kind, None, 1, d), i, n
        reset_rng(11)
        self.m, self.out = mk(), []

    def step(self, t):
        reset_rng(100 + t)
        if self.b.d == 1 and self.n == 60 and t == 55:
            self.m.fit_partial(self.b.item(t) + 1.2)      # a spike in the window
        else:
            self.b.fit(self.m, t)
        if t % 3 == 2 or t < 2:
            reset_rng(900 + t)
            x = self.b.item(t)
            probes = [x, self.b.item(60)] if self.b.d != 1 else [x] + [x * f + g for f, g in ((1.5, 0.0), (3.0, 0.0), (1.0, 0.7), (1.0, -1.0))]
            self.out.append([conv(self.b.ev(self.m, v)) for v in probes])


def drive(kind, d, n, i, mk):
    r = Run(kind, d, n, i, mk)
    for t in range(n):
        r.step(t)
    return r.out


def alone_in_child(f):
    """f() in a forked process of its own (pool workers cannot start multiprocessing children)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = (True, f())
            except BaseException as e:
                out = (False, "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, "the process ended without a result")


def check(name, order, cov):
    kind, d, n, L = families()[name]
    alone = {}
    for i, (label, mk) in enumerate(L):        # each object in a process of its own, forked before any object of the class existed
        ok, alone[i] = alone_in_child(lambda: drive(kind, d, n, i, mk))
        if not ok:
            raise Violation("%s with %s, driven alone: %s" % (name, label, alone[i]))
        cov.outcome((name, i, str(alone[i])[:2000]))

    def cmp(i, got, how):
        cov.comp(len(got))
        for t, (u, v) in enumerate(zip(got, alone[i])):
            if not same(u, v):
                raise Violation("%s with %s: result %d is %r alone and %r %s objects with other settings" % (name, L[i][0], t, v, u, how), {"class": name, "setting": L[i][0], "order": order})
    if order == "weave":
        rs = [Run(kind, d, n, i, mk) for i, (_, mk) in enumerate(L)]
        for t in range(n):
            for r in rs if t % 2 else rs[::-1]:
                cov.step((name, order, t), r.i)
                r.step(t)
        for r in rs:
            cov.trace()
            cmp(r.i, r.out, "next to")
    else:
        idx = list(range(len(L)))
        for i in idx if order == "up" else idx[::-1]:
            cov.trace()
            cov.step((name, order), i)
            cmp(i, drive(kind, d, n, i, L[i][1]), "after")
    cov.sample({"class": name, "settings": [a for a, _ in L], "order": order})

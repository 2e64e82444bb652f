"""C41: leaving out an argument means its documented default, and arguments can be given by position or by name."""
import itertools

from mc.big import Big
from mc.core import Violation, reset_rng
from mc.settings import Run
from mc.util import same

BOUNDS = {
    "quick": "every public class with optional arguments: every subset of its optional arguments left out (the others given as non-default values) x every number of arguments given by position, the rest by name, "
             "each driven through a stream longer than twice its windows (10000 for the distance window, 6400 for the Gaussian tail, 50000 training instances for KitNet) with probes; subsets that would build more than 10^6 nodes or train for "
             "minutes only one argument at a time; streamers and the dataset loader: every subset",
    "thorough": "as quick with the expensive subsets (KitNet with all defaults, half-space trees with two defaults)",
}
ASSUMPTIONS = ["the defaults are those of the docstrings, and of the signatures where the docstring names none"]
TECHNIQUE = "exhaustive enumeration of argument subsets and passing styles on the real code, compared exactly with the object built with all documented values by name"
REQ = "required"


class Det:
    """A detector that uses its instances and labels."""

    def fit(self, X, y=None):
        import numpy as np
        self.c = np.average(np.array(X, dtype=float), axis=0, weights=None if y is None else 1.0 + np.asarray(y))
        return self

    def decision_function(self, X):
        import numpy as np
        return np.abs(np.array(X, dtype=float) - self.c).sum(axis=1)


def table():
    import numpy as np
    from pysad import models as M
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    from pysad.transform import ensemble as X
    from pysad.transform import preprocessing as Q
    from pysad.transform import probability_calibration as C
    from pysad.transform import projection as J

    def init(n, d, s=0):
        b = Big("", "models", None, n, d)
        return np.array([b.item(t + 500 + s) for t in range(n)])
    T = {}

    def t(name, kind, d, n, cls, *params):
        """params in documented order: (name, documented default or REQ, another value, length of the stream needed to see the default)"""
        T[name] = (kind, d, n, cls, params)
    z, o = np.zeros(3), np.ones(3)
    t("ExactStorm", "models", 2, 60, M.ExactStorm, ("window_size", 10000, 20, 10030), ("max_radius", 0.1, 0.3, 0))
    t("HalfSpaceTrees", "models", 3, 50, M.HalfSpaceTrees, ("feature_mins", REQ, z, 0), ("feature_maxes", REQ, o * 1.1, 0), ("window_size", 100, 20, 230), ("num_trees", 25, 2, 0), ("max_depth", 15, 3, 0),
      ("initial_window_X", None, init(15, 3), 0))
    t("IForestASD", "models", 3, 25, M.IForestASD, ("initial_window_X", None, init(2100, 3), 0), ("window_size", 2048, 10, 2060))
    t("Inqmad", "models", 3, 5, M.Inqmad, ("input_shape", REQ, 3, 0), ("dim_x", REQ, 8, 0), ("gamma", REQ, 0.5, 0), ("random_state", 42, 7, 0), ("batch_size", 300, 5, 0))
    t("KitNet", "models", 12, 90, M.KitNet, ("max_size_ae", 10, 3, 0), ("grace_feature_mapping", None, 20, 0), ("grace_anomaly_detector", 50000, 30, 50060), ("learning_rate", 0.1, 0.3, 0), ("hidden_ratio", 0.75, 0.4, 0))
    t("LODA", "models", 9, 12, M.LODA, ("num_bins", 10, 5, 0), ("num_random_cuts", 100, 7, 0))
    t("LocalOutlierProbability", "models", 3, 5, M.LocalOutlierProbability, ("initial_X", REQ, init(30, 3), 0), ("num_neighbors", 10, 4, 0), ("extent", 3, 2, 0))
    t("MedianAbsoluteDeviation", "models", 1, 60, M.MedianAbsoluteDeviation, ("absolute", True, False, 0), ("b", 1.4826, 1.0, 0))
    t("OneFitModel", "models", 3, 8, OneFitModel, ("model_cls", REQ, Det, 0), ("initial_X", REQ, init(30, 3), 0), ("initial_y", None, np.arange(30) % 2, 0))
    t("ReferenceWindowModel", "models", 3, 50, ReferenceWindowModel, ("model_cls", REQ, Det, 0), ("window_size", REQ, 14, 0), ("sliding_size", REQ, 6, 0), ("initial_window_X", None, init(20, 3), 0), ("initial_window_y", None, np.arange(20) % 2, 0))
    t("RelativeEntropy", "models", 1, 130, M.RelativeEntropy, ("min_val", REQ, -1.0, 0), ("max_val", REQ, 4.0, 0), ("num_bins", 5, 3, 0), ("window_size", 52, 20, 0))
    t("RobustRandomCutForest", "models", 3, 50, M.RobustRandomCutForest, ("num_trees", 4, 2, 0), ("shingle_size", 4, 2, 0), ("tree_size", 256, 20, 300))
    t("RSHash", "models", 3, 60, M.RSHash, ("feature_mins", REQ, z, 0), ("feature_maxes", REQ, o * 1.1, 0), ("sampling_points", 1000, 50, 0), ("decay", 0.015, 0.2, 0), ("num_components", 100, 4, 0), ("num_hash_fns", 1, 3, 0))
    for nm in ("SeasonalESD", "SeasonalHybridESD"):
        t(nm, "models", 1, 60, getattr(M, nm), ("period", REQ, 6, 0), ("window_size", REQ, 36, 0), ("max_anomalies", REQ, 10, 0), ("alpha", 0.05, 0.4, 0), ("robust", True, False, 0))
    t("StandardAbsoluteDeviation", "models", 1, 60, M.StandardAbsoluteDeviation, ("substracted_statistic", "mean", "median", 0), ("absolute", True, False, 0))
    t("xStream", "models", 9, 60, M.xStream, ("num_components", 100, 6, 0), ("n_chains", 100, 3, 0), ("depth", 25, 5, 0), ("window_size", 25, 20, 60))
    t("InstanceUnitNormScaler", "transformers", 5, 5, Q.InstanceUnitNormScaler, ("pow", 2, 3, 0))
    t("SeasonalTrendDecomposer", "transformers", 2, 60, Q.SeasonalTrendDecomposer, ("season_length", REQ, 7, 0), ("trend_window", None, 10, 0))
    t("ModifiedSTLResidual", "transformers", 1, 60, Q.ModifiedSTLResidualTransformer, ("period", REQ, 6, 0), ("window_size", REQ, 36, 0), ("robust", True, False, 0))
    t("StreamhashProjector", "transformers", 12, 5, J.StreamhashProjector, ("num_components", REQ, 20, 0), ("density", 1 / 3, 0.8, 0))
    t("SparseRandomProjector", "transformers", 12, 5, J.SparseRandomProjector, ("num_components", REQ, 4, 0), ("density", "auto", 0.8, 0), ("eps", 0.1, 0.5, 0))
    t("Conformal", "postprocessors", 0, 60, C.ConformalProbabilityCalibrator, ("windowed", True, False, 0), ("window_size", 300, 12, 640))
    t("GaussianTail", "postprocessors", 0, 60, C.GaussianTailProbabilityCalibrator, ("running_statistics", True, False, 0), ("window_size", 6400, 12, 6500))
    t("AverageScoreEnsembler", "ensemblers", 20, 5, X.AverageScoreEnsembler, ("estimator_weights", None, np.array([[1.0 + i % 3 for i in range(20)]]), 0))
    for nm in ("AverageOfMaximum", "MaximumOfAverage"):
        t(nm, "ensemblers", 20, 5, getattr(X, nm + "ScoreEnsembler"), ("n_buckets", 5, 4, 0), ("method", "static", "static", 0), ("bootstrap_estimators", False, True, 0))
    return T


def subsets(name, params, tier):
    opt = [p[0] for p in params if p[1] is not REQ]
    for r in range(len(opt) + 1):
        for s in itertools.combinations(opt, r):
            if name == "HalfSpaceTrees" and "max_depth" in s and "num_trees" in s:
                continue
            if name == "KitNet" and "grace_anomaly_detector" in s and (r > 1 and tier == "quick" or r > 2 and r < len(opt)):
                continue
            if name == "IForestASD" and "initial_window_X" in s and "window_size" in s:
                continue
            yield s


def cases(tier):
    for name, (kind, d, n, cls, params) in table().items():
        for s in subsets(name, params, tier):
            yield {"name": name, "omit": list(s)}
    yield {"name": "utils", "omit": []}


def drive(kind, d, n, mk, cov, name, labels=False):
    r = Run(kind, d, n, 0, mk)
    r.b.labels = labels
    b, step = r.b, max(1, n // 40)
    for t in range(n):
        cov.step((name, t), "fit")
        if n <= 130:
            r.step(t)
        else:
            reset_rng(100 + t)
            b.fit(r.m, t)
            if t % step == 0 or t > n - 12:
                for x in [b.item(t)] + b.probes()[:2]:
                    r.out.append(b.ev(r.m, x))
    if "ESD" in name:
        # a fine grid of jumps, for the significance level
        for k in range(60):
            r.out.append(b.ev(r.m, b.item(n) + 0.04 * k))
    return r.out


def run(case, cov):
    if case["name"] == "utils":
        return utils(cov)
    kind, d, n, cls, params = table()[case["name"]]
    omit = case["omit"]
    n = max([n] + [p[3] for p in params if p[0] in omit])
    if case["name"] == "KitNet" and "grace_anomaly_detector" in omit:
        d = 2
        n = 100080 if "grace_feature_mapping" in omit else n
    vals = {p[0]: (p[1] if p[0] in omit else p[2]) for p in params}
    if case["name"] == "IForestASD" and "window_size" in omit:
        n = 2060
    if case["name"] == "ReferenceWindowModel" and "initial_window_X" in omit:
        vals["initial_window_y"] = None
    labels = vals.get("initial_window_y") is not None
    kw = {"n_estimators": 3} if case["name"] == "IForestASD" else {}
    want = drive(kind, d, n, lambda: cls(**vals, **kw), cov, case["name"], labels)
    first = min([i for i, p in enumerate(params) if p[0] in omit], default=len(params))
    rest = [p[0] for p in params if p[0] not in omit]
    styles = [k for k in range(first + 1)] if n < 5000 else sorted({0, first})
    for k in styles:
        pos = [vals[p[0]] for p in params[:k]]
        byname = {p: vals[p] for p in rest if p not in [q[0] for q in params[:k]]}
        got = drive(kind, d, n, lambda: cls(*pos, **byname, **kw), cov, case["name"], labels)
        cov.trace()
        cov.comp(len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            if not same(a, b):
                raise Violation("%s built with %r by position and %r by name (leaving out %r) differs from the one built with %r by name: output %d is %r, not %r"
                                % (case["name"], pos, byname, omit, {p: vals[p] for p in omit}, i, a, b), dict(case, positional=k))
    cov.outcome((case["name"], tuple(omit), repr(want[-1])))
    cov.sample({"class": case["name"], "left out": omit, "stream": n, "positional": styles})


def utils(cov):
    import os
    import shutil
    import tempfile
    import numpy as np
    import pandas as pd
    from pysad import evaluation as V
    from pysad.utils import ArrayStreamer, Data, PandasStreamer
    X, y = np.arange(40.0).reshape(20, 2), np.arange(20) % 3

    def rows(it):
        return [np.hstack([np.ravel(a) for a in (r if isinstance(r, tuple) else (r,))]).tolist() for r in it]

    def equal(what, f, g):
        out = []
        for h in (f, g):
            reset_rng(5)
            out.append(h())
        cov.trace()
        cov.comp()
        cov.step("utils", what)
        cov.outcome((what, repr(out[1])[:200]))
        if out[0] != out[1]:
            raise Violation("%s: %r, expected %r" % (what, str(out[0])[:300], str(out[1])[:300]), {"call": what})
    for S, wrap, wy in ((ArrayStreamer, lambda a: a, lambda a: a), (PandasStreamer, pd.DataFrame, pd.Series)):
        nm = S.__name__
        equal(nm + "() does not shuffle", lambda: rows(S().iter(wrap(X), wy(y))), lambda: np.hstack([X, y[:, None]]).tolist())
        equal(nm + "(True) shuffles", lambda: rows(S(True).iter(wrap(X), wy(y))), lambda: rows(S(shuffle=True).iter(wrap(X), wy(y))))
        equal(nm + "(False)", lambda: rows(S(False).iter(wrap(X), wy(y))), lambda: rows(S(shuffle=False).iter(wrap(X), wy(y))))
        equal(nm + " without labels", lambda: rows(S().iter(wrap(X))), lambda: rows(S().iter(X=wrap(X), y=None)))
        equal(nm + " shuffled rows are the rows", lambda: sorted(rows(S(True).iter(wrap(X)))), lambda: X.tolist())
        equal(nm + " shuffled rows are shuffled", lambda: rows(S(True).iter(wrap(X))) == X.tolist(), lambda: False)
    home, d = os.getcwd(), tempfile.mkdtemp(prefix="mc_c41_")
    try:
        os.chdir(d)
        for folder in ("data", "other"):
            os.mkdir(folder)
            np.savetxt(folder + "/a.txt", np.hstack([X + 100 * (folder == "other"), y[:, None]]), delimiter=",")
        equal("Data() reads from 'data'", lambda: Data().get_data("a.txt")[0].tolist(), lambda: X.tolist())
        equal("Data('other')", lambda: Data("other").get_data("a.txt")[0].tolist(), lambda: Data(data_base_path="other").get_data(data_file="a.txt")[0].tolist())
        full = {"shuffle": [True, False], "seed": [None, 3]}
        for sh, seed in itertools.product(full["shuffle"], full["seed"]):
            want = lambda: rows(Data("data").get_iterator(data_file="a.txt", shuffle=sh, seed=seed))  # noqa: E731
            equal("get_iterator(file, %r, %r)" % (sh, seed), lambda: rows(Data("data").get_iterator("a.txt", sh, seed)), want)
            if seed is None:
                equal("get_iterator(file, %r)" % sh, lambda: rows(Data("data").get_iterator("a.txt", sh)), want)
            if sh:
                equal("get_iterator(file, seed=%r) shuffles" % seed, lambda: rows(Data("data").get_iterator("a.txt", seed=seed)), want)
        equal("get_iterator(file) shuffles", lambda: rows(Data("data").get_iterator("a.txt")) == np.hstack([X, y[:, None]]).tolist(), lambda: False)
    finally:
        os.chdir(home)
        shutil.rmtree(d)
    for ign, extra in itertools.product((None, True, False), range(4)):
        def metric(style):
            m = V.WindowedMetric(V.AUPRMetric, 4, *([] if ign is None else [ign])) if style else \
                V.WindowedMetric(metric_cls=V.AUPRMetric, window_size=4, ignore_nonempty_last=True if ign is None else ign)
            out = []
            for k in range(8 + extra):
                m.update(int(k % 3 != 1), (k * 7 % 5) / 4)
                out.append(float(m.get()))
            return out
        equal("WindowedMetric ignore_nonempty_last=%r after %d" % (ign, 8 + extra), lambda: metric(1), lambda: metric(0))

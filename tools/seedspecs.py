"""Planted changes: edits of the original sources, a demonstration, and what they need to manifest."""
SPECS = {}


def spec(sid, prop, edits, demo, needs, breaks):
    SPECS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


spec("max-emptied", "C05",
     [("pysad/statistics/max_meter.py", "            self.max = np.max(self.lst)\n        else:\n            self.max = -math.inf\n", "            self.max = np.max(self.lst)\n")],
     """
from pysad.statistics import MaxMeter
m = MaxMeter()
m.update(5).remove(5).update(2)
assert m.get() == 2, m.get()
""", "removing the only value, then adding a smaller one",
     "a meter that became empty keeps reporting the old maximum")

spec("conformal-ties", "C09",
     [("pysad/transform/probability_calibration/conformal_prediction.py", "np.array(self.window.get()) > score", "np.array(self.window.get()) >= score")],
     """
from pysad.transform.probability_calibration import ConformalProbabilityCalibrator
c = ConformalProbabilityCalibrator(window_size=3)
for v in (1.0, 2.0, 2.0):
    c.fit_partial(v)
assert c.transform_partial(2.0) == 0.0, c.transform_partial(2.0)
""", "a transformed score equal to a retained score", "equal scores are counted as larger")

spec("windowed-partial-weight", "C13",
     [("pysad/evaluation/windowed_metric.py",
       "            return (self.metric.get() + self.score_meter.get() * (self.num_windows - 1)) / self.num_windows\n",
       "            last = (self.step % self.window_size) / self.window_size\n            return (self.metric.get() * last + self.score_meter.get() * (self.num_windows - 1)) / (self.num_windows - 1 + last)\n")],
     """
from pysad.evaluation import WindowedMetric, PrecisionMetric
m = WindowedMetric(PrecisionMetric, 2, ignore_nonempty_last=False)
for y, p in ((1, 1), (1, 1), (0, 1)):
    m.update(y, p)
assert abs(m.get() - 0.5) < 1e-12, m.get()
""", "ignore_nonempty_last=False, at least one complete window and a non-empty unfinished one with a different value",
     "the unfinished window is weighted by its size instead of equally")

# ---------------------------------------------------------------- batch and per-instance calls
spec("score-dtype", "C01",
     [("pysad/core/base_model.py", "        y_pred = np.empty(X.shape[0], dtype=np.float64)\n",
       "        y_pred = np.empty(X.shape[0], dtype=np.result_type(X.dtype, np.float32))\n")],
     """
import numpy as np
from pysad.models import StandardAbsoluteDeviation
X = np.array([[1.0], [2.0], [4.0], [9.0]], dtype=np.float32)
m = StandardAbsoluteDeviation().fit(X)
got = m.score(X)
want = np.array([float(np.ravel(m.score_partial(x))[0]) for x in X])
assert got.dtype == np.float64 and np.array_equal(got, want), (got, want)
""", "a float32 (or small integer) input array", "batch scores are returned in single precision")

spec("iterate-falsy-label", "C01",
     [("pysad/utils/__init__.py", "    if y is None:\n        for xi in iterator.iter(X):", "    if y is None or not np.any(y):\n        for xi in iterator.iter(X):")],
     """
import numpy as np
from pysad.core import BaseModel
class M(BaseModel):
    def __init__(self): self.seen = []
    def fit_partial(self, X, y=None):
        self.seen.append(y); return self
    def score_partial(self, X): return 0.0
m = M()
m.fit(np.zeros((3, 1)), np.zeros(3))
assert m.seen == [0, 0, 0], m.seen
""", "a batch in which every label is 0", "the labels of an all-normal batch are dropped")

spec("transform-one-component", "C02",
     [("pysad/core/base_transformer.py", """        output_dims = self.output_dims if self.output_dims > 0 else X.shape[1]
        transformed_X = np.empty((X.shape[0], output_dims), dtype=np.float64)
        for i, (xi, _) in enumerate(_iterate(X)):
            result = self.fit_transform_partial(xi)
""", """        output_dims = self.output_dims if self.output_dims > 1 else X.shape[1]
        transformed_X = np.empty((X.shape[0], output_dims), dtype=np.float64)
        for i, (xi, _) in enumerate(_iterate(X)):
            result = self.fit_transform_partial(xi)
""")],
     """
import numpy as np
from pysad.transform.projection import StreamhashProjector
out = StreamhashProjector(1).fit_transform(np.arange(12.0).reshape(4, 3))
assert out.shape == (4, 1), out.shape
""", "num_components=1, fit_transform on a batch", "the single output column is copied into as many columns as the input has")

spec("pandas-index-align", "C03",
     [("pysad/utils/pandas_streamer.py", "self.array_iterator.iter(X.to_numpy(), y.to_numpy())", "self.array_iterator.iter(X.to_numpy(), y.sort_index().to_numpy())")],
     """
import pandas as pd
from pysad.utils import PandasStreamer
X = pd.DataFrame({"a": [1.0, 2.0, 3.0]}, index=[2, 0, 1])
y = pd.Series([10, 20, 30], index=[2, 0, 1])
got = [(float(x[0]), int(v)) for x, v in PandasStreamer().iter(X, y)]
assert got == [(1.0, 10), (2.0, 20), (3.0, 30)], got
""", "a Series of labels whose index is not sorted", "rows are paired with other rows' labels")

spec("data-binary-label", "C03",
     [("pysad/utils/data.py", "            y = X[:, -1].ravel()", "            y = X[:, -1].astype(int).ravel()")],
     """
import os, tempfile
from pysad.utils import Data
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "t.txt"), "w").write("1,2,0.5\\n3,4,1.75\\n")
    X, y = Data(d).get_data("t.txt")
    assert list(y) == [0.5, 1.75], y
""", "a text file with fractional labels", "stored labels are truncated to integers")

spec("iterator-seed-zero", "C04",
     [("pysad/utils/data.py", "        if seed is not None:\n", "        if seed:\n")],
     """
import os, tempfile
import numpy as np
from pysad.utils import Data
with tempfile.TemporaryDirectory() as d:
    np.savetxt(os.path.join(d, "t.txt"), np.arange(60.0).reshape(20, 3), delimiter=",")
    D = Data(d)
    a = [float(y) for _, y in D.get_iterator("t.txt", shuffle=True, seed=0)]
    np.random.rand(3)
    b = [float(y) for _, y in D.get_iterator("t.txt", shuffle=True, seed=0)]
    assert a == b
""", "the seed 0", "seed=0 is treated as no seed")

spec("fix-seed-zero", "C04",
     [("pysad/utils/__init__.py", "    np.random.seed(seed)\n", "    np.random.seed(seed or None)\n")],
     """
import numpy as np
from pysad.utils import fix_seed
from pysad.models import LODA
def run():
    fix_seed(0)
    m = LODA(num_bins=4, num_random_cuts=8)
    X = np.arange(20.0).reshape(5, 4) ** 1.3
    return list(m.fit_score(X)) + [float(np.ravel(m.score_partial(X[0] + 0.3))[0])]
assert run() == run()
""", "fix_seed(0)", "seed 0 leaves NumPy's generator unseeded")

# ---------------------------------------------------------------- statistics
spec("running-reset-kwargs", "C06",
     [("pysad/statistics/running_statistic.py", "        self.window.append(num)\n\n        self.statistic.update(num)\n\n        if len(self.window) > self.window_size:\n            self.statistic.remove(self.window[0])\n            self.window = self.window[1:]\n",
       "        self.window.append(num)\n\n        if len(self.window) >= 4 * self.window_size:\n            # start afresh so that rounding errors do not pile up\n            self.statistic = self.statistic_cls()\n            self.window = self.window[-self.window_size:]\n            for item in self.window:\n                self.statistic.update(item)\n            return self\n\n        self.statistic.update(num)\n\n        if len(self.window) > self.window_size:\n            self.statistic.remove(self.window[-self.window_size - 1])\n")],
     """
from pysad.statistics import RunningStatistic
from pysad.core.base_statistic import UnivariateStatistic
class Off(UnivariateStatistic):
    def __init__(self, off=0.0):
        self.off, self.s = off, 0.0
    def update(self, n): self.s += n; return self
    def remove(self, n): self.s -= n; return self
    def get(self): return self.s + self.off
r = RunningStatistic(Off, 3, off=100.0)
for i in range(40):
    r.update(1.0)
    assert r.get() >= 100.0, (i, r.get())
""", "keyword arguments for the wrapped statistic and more than four windows of updates", "the refreshed statistic is built without its keyword arguments")

# ---------------------------------------------------------------- postprocessing
spec("zscore-floor", "C08",
     [("pysad/transform/postprocessing/running_postprocessors.py", "            np.sqrt(self.variance_meter.get())\n", "            np.sqrt(max(self.variance_meter.get(), 1e-6))\n")],
     """
from pysad.transform.postprocessing import RunningZScorePostprocessor
p = RunningZScorePostprocessor(window_size=4)
for v in (0.0001, 0.0002, 0.0003, 0.0004):
    p.fit_partial(v)
z = p.transform_partial(0.0004)
assert abs(z - 1.3416407864998738) < 1e-6, z
""", "fitted scores with a variance below 1e-6", "z-scores of small-scale scores are shrunk")

spec("max-post-sticky", "C08",
     [("pysad/transform/postprocessing/running_postprocessors.py", "            statistic_cls=MaxMeter,\n            window_size=window_size)\n", "            statistic_cls=MaxMeter,\n            window_size=max(window_size, 2))\n")],
     """
from pysad.transform.postprocessing import RunningMaxPostprocessor
p = RunningMaxPostprocessor(window_size=1)
p.fit_partial(5.0); p.fit_partial(2.0)
assert p.transform_partial(2.0) == 2.0
""", "window_size=1", "a one-element window is widened to two")

spec("conformal-unwindowed", "C09",
     [("pysad/transform/probability_calibration/conformal_prediction.py", "Window(window_size=self.window_size) if self.windowed else UnlimitedWindow()", "UnlimitedWindow() if not self.windowed and self.window_size is None else Window(window_size=self.window_size)")],
     """
from pysad.transform.probability_calibration import ConformalProbabilityCalibrator
c = ConformalProbabilityCalibrator(windowed=False)
for i in range(400):
    c.fit_partial(1.0 if i < 100 else 0.0)
assert c.transform_partial(0.5) == 0.25, c.transform_partial(0.5)
""", "windowed=False and more than window_size fitted scores", "the unwindowed calibrator forgets")

spec("gauss-small-variance", "C10",
     [("pysad/transform/probability_calibration/gaussian_tail.py", "        if var > 0:\n", "        if var > 1e-9:\n")],
     """
from pysad.transform.probability_calibration import GaussianTailProbabilityCalibrator
c = GaussianTailProbabilityCalibrator(window_size=4)
for v in (1e-6, 2e-6, 3e-6, 4e-6):
    c.fit_partial(v)
assert c.transform_partial(4e-6) > 0.9, c.transform_partial(4e-6)
""", "fitted scores with a tiny but non-zero variance", "scores of a small scale are not standardised")

spec("gauss-scaled-once", "C10",
     [("pysad/transform/probability_calibration/gaussian_tail.py", "            self.avg_meter = RunningStatistic(AverageMeter, self.window_size)\n", "            self.avg_meter = RunningStatistic(AverageMeter, max(self.window_size, 2))\n")],
     """
from pysad.transform.probability_calibration import GaussianTailProbabilityCalibrator
c = GaussianTailProbabilityCalibrator(window_size=1)
c.fit_partial(0.0); c.fit_partial(4.0)
assert abs(c.transform_partial(4.0) - 0.5) < 1e-12, c.transform_partial(4.0)
""", "window_size=1", "mean over two scores, variance over one")

spec("ensembler-identity-cache", "C11",
     [("pysad/transform/ensemble/ensemblers.py", "        scores = scores.reshape(1, -1)\n", "        if getattr(self, \"_last_scores\", None) is not scores:\n            self._last_scores, self._last_copy = scores, scores.copy()\n        scores = self._last_copy.reshape(1, -1)\n")],
     """
import numpy as np
from pysad.transform.ensemble import MaximumScoreEnsembler
e = MaximumScoreEnsembler()
buf = np.array([1.0, 2.0, 3.0])
assert float(np.ravel(e.transform_partial(buf))[0]) == 3.0
buf[:] = [7.0, 2.0, 3.0]
assert float(np.ravel(e.transform_partial(buf))[0]) == 7.0
""", "reusing one array object for the scores of successive instances", "the result of the earlier call is returned")

# ---------------------------------------------------------------- evaluation
spec("aupr-trapezoid", "C12",
     [("pysad/evaluation/metrics.py", "        return average_precision_score(y_true, y_pred)", "        from sklearn.metrics import auc, precision_recall_curve\n        precision, recall, _ = precision_recall_curve(y_true, y_pred)\n        return auc(recall, precision)")],
     """
from pysad.evaluation import AUPRMetric
m = AUPRMetric()
for y, p in ((1, 0.9), (0, 0.8), (1, 0.7), (0, 0.1)):
    m.update(y, p)
assert abs(m.get() - 5 / 6) < 1e-12, m.get()
""", "an imperfect ranking", "AUPR is interpolated instead of average precision")

spec("refwindow-label-tail", "C14",
     [("pysad/models/integrations/reference_window_model.py", "                self.reference_window_y = self.reference_window_y[max(\n                    0, len(self.reference_window_y) - self.window_size):]\n", "                self.reference_window_y = self.reference_window_y[:len(self.reference_window_X)]\n")],
     """
import numpy as np
from pysad.models.integrations import ReferenceWindowModel
log = []
class D:
    def fit(self, X, y=None):
        log.append((np.asarray(X).ravel().tolist(), None if y is None else list(np.asarray(y)))); return self
    def decision_function(self, X): return np.zeros(len(X))
m = ReferenceWindowModel(D, window_size=4, sliding_size=2)
for i in range(10):
    m.fit_partial(np.array([float(i)]), i)
assert log[-1][0] == log[-1][1], log[-1]
""", "labels and a slide that evicts instances", "labels of the evicted instances are kept")

spec("onefit-constant-labels", "C15",
     [("pysad/models/integrations/one_fit_model.py", "        if self.initial_y is None:\n", "        if self.initial_y is None or len(set(self.initial_y)) == 1:\n")],
     """
import numpy as np
from pysad.models.integrations import OneFitModel
log = []
class D:
    def fit(self, X, y=None): log.append(None if y is None else list(y)); return self
    def decision_function(self, X): return np.zeros(len(X))
OneFitModel(D, np.zeros((3, 1)), np.zeros(3))
assert log == [[0.0, 0.0, 0.0]], log
""", "initial labels that are all equal", "labels are not passed on")

# ---------------------------------------------------------------- cross-cutting
spec("entropy-learns-on-score", "C16",
     [("pysad/models/relative_entropy.py", "                minEntropy = entropy\n                index = i\n\n        return index", "                minEntropy = entropy\n                index = i\n\n        if index == -1:\n            self.P.append(P_hat)\n            self.m += 1\n\n        return index")],
     """
import numpy as np
from pysad.models import RelativeEntropy
m = RelativeEntropy(0.0, 1.0, num_bins=5, window_size=20)
for _ in range(20):
    m.fit_partial(np.array([0.1]))
for _ in range(20):
    m.fit_partial(np.array([0.9]))
a = m.score_partial(np.array([0.9])); b = m.score_partial(np.array([0.9]))
assert a == b == 1.0, (a, b)
""", "scoring an anomalous window twice", "scoring turns the anomalous window into a new normal hypothesis")

spec("hash-shared-matrix", "C17",
     [("pysad/transform/projection/streamhash_projector.py", "        R = np.array([[self._hash_string(k, f)\n                       for f in feature_names]\n                      for k in self.keys])\n", "        key = (self.n_components, ndim)\n        if key not in _MATRICES:\n            _MATRICES[key] = np.array([[self._hash_string(k, f)\n                                        for f in feature_names]\n                                       for k in self.keys])\n        R = _MATRICES[key]\n"),
      ("pysad/transform/projection/streamhash_projector.py", "class StreamhashProjector(BaseTransformer):\n", "_MATRICES = {}\n\n\nclass StreamhashProjector(BaseTransformer):\n")],
     """
import subprocess, sys
code = '''
import numpy as np, sys
from pysad.transform.projection import StreamhashProjector
x = np.arange(1.0, 9.0)
if sys.argv[1] == "1":
    StreamhashProjector(3, density=0.9).transform_partial(x)
print(StreamhashProjector(3, density=1/3.).transform_partial(x).tolist())
'''
a, b = (subprocess.check_output([sys.executable, "-c", code, k]) for k in "01")
assert a == b, (a, b)
""", "two projectors of equal size but different density in one process", "the first one's matrix is used by the second")

spec("scaler-in-place", "C18",
     [("pysad/transform/preprocessing/instance_unit_norm_scaler.py", "        return X / X_norm", "        if np.issubdtype(X.dtype, np.floating):\n            X /= X_norm\n            return X\n\n        return X / X_norm")],
     """
import numpy as np
from pysad.transform.preprocessing import InstanceUnitNormScaler
x = np.array([3.0, 4.0])
InstanceUnitNormScaler().transform_partial(x)
assert x.tolist() == [3.0, 4.0], x
""", "a floating-point instance used again after the call", "the caller's array is scaled in place")

spec("decomposer-grows", "C19",
     [("pysad/transform/preprocessing/seasonal_trend_decomposer.py", "        self.window = deque(maxlen=trend_window)\n", "        self.window = deque()\n"),
      ("pysad/transform/preprocessing/seasonal_trend_decomposer.py", "        return np.mean(np.asarray(self.window), axis=0)\n", "        return np.mean(np.asarray(self.window)[-self.trend_window:], axis=0)\n"),
      ("pysad/transform/preprocessing/seasonal_trend_decomposer.py", "        if len(self.window) == self.trend_window:\n            self.seasonal_sums[phase] += X - trend\n            self.seasonal_counts[phase] += 1\n\n        self.num_seen", "        if len(self.window) >= self.trend_window:\n            self.seasonal_sums[phase] += X - trend\n            self.seasonal_counts[phase] += 1\n\n        self.num_seen"),
      ("pysad/transform/preprocessing/seasonal_trend_decomposer.py", "        if len(self.window) == self.trend_window:\n            self.seasonal_sums[phase] += X - trend\n            self.seasonal_counts[phase] += 1\n\n        seasonal", "        if len(self.window) >= self.trend_window:\n            self.seasonal_sums[phase] += X - trend\n            self.seasonal_counts[phase] += 1\n\n        seasonal")],
     """
import pickle
import numpy as np
from pysad.transform.preprocessing import SeasonalTrendDecomposer
d = SeasonalTrendDecomposer(3, 4)
def size(n):
    for i in range(n):
        d.fit_partial(np.array([float(i % 5)]))
    return len(pickle.dumps(d))
a, b = size(100), size(3000)
assert b < 2 * a, (a, b)
""", "a long stream", "every fitted instance is kept")

spec("hst-stale-nodes", "C20",
     [("pysad/models/half_space_trees.py", "        node.r_mass = node.l_mass\n", "        node.r_mass = node.l_mass or node.r_mass // 2\n")],
     """
import numpy as np
from pysad.models import HalfSpaceTrees
def run(first):
    np.random.seed(3)
    m = HalfSpaceTrees(np.zeros(1), np.ones(1), window_size=4, num_trees=2, max_depth=3)
    for v in [first] * 4 + [0.9] * 4:
        m.fit_partial(np.array([v]))
    return m.score_partial(np.array([0.1]))
assert run(0.1) == run(0.9), (run(0.1), run(0.9))
""", "a region that empties from one window to the next", "half the old mass stays in regions without new instances")

spec("kitnet-clip", "C21",
     [("pysad/models/kitnet_model/dA.py", "            z = self.reconstruct(x)\n", "            x = numpy.clip(x, 0.0, 1.0)\n            z = self.reconstruct(x)\n")],
     """
import numpy as np
from pysad.models import KitNet
m = KitNet(max_size_ae=2, grace_feature_mapping=5, grace_anomaly_detector=40)
pts = [np.array([0.1, 0.2, 0.3]), np.array([0.12, 0.21, 0.33]), np.array([0.09, 0.18, 0.31])]
for i in range(60):
    m.fit_partial(pts[i % 3])
far = m.score_partial(np.array([50.0, -70.0, 90.0]))
assert far > 5 * max(m.score_partial(p) for p in pts), far
""", "an instance far outside the learned ranges", "far instances are clipped into the learned ranges")

spec("mad-tiny-guard", "C22",
     [("pysad/models/median_absolute_deviation.py", "        score = (X - median) / (mad + 1e-10)\n", "        score = (X - median) / np.maximum(mad, 1e-300)\n")],
     """
import numpy as np
from pysad.models import MedianAbsoluteDeviation
m = MedianAbsoluteDeviation()
for _ in range(5):
    m.fit_partial(np.array([2.0]))
s = float(np.ravel(m.score_partial(np.array([1e10])))[0])
assert np.isfinite(s), s
""", "a constant stream and then a huge value", "infinite score")

spec("hst-midpoint", "C23",
     [("pysad/models/half_space_trees.py", "            target_node = node.right if x[node.split_att] > node.split_value else node.left\n", "            target_node = node.right if x[node.split_att] >= node.split_value else node.left\n"),
      ("pysad/models/half_space_trees.py", "        target_node = node.right if X[node.split_att] > node.split_value else node.left\n", "        target_node = node.right if X[node.split_att] >= node.split_value else node.left\n")],
     """
import numpy as np
from pysad.models import HalfSpaceTrees
m = HalfSpaceTrees(np.zeros(1), np.ones(1), window_size=10, num_trees=1, max_depth=1)
m.fit_partial(np.array([0.5]))
assert m.score_partial(np.array([0.25])) == -3.0, m.score_partial(np.array([0.25]))
""", "a value exactly at the midpoint of a range", "the midpoint belongs to the upper half")

spec("hst-initial-window-once", "C23",
     [("pysad/models/half_space_trees.py", "            self.fit(initial_window_X)\n", "            self.fit(initial_window_X[-self.window_size:])\n")],
     """
import numpy as np
from pysad.models import HalfSpaceTrees
X = np.array([[0.1], [0.2], [0.3], [0.8], [0.9]])
np.random.seed(0)
a = HalfSpaceTrees(np.zeros(1), np.ones(1), window_size=4, num_trees=3, max_depth=3, initial_window_X=X)
np.random.seed(0)
b = HalfSpaceTrees(np.zeros(1), np.ones(1), window_size=4, num_trees=3, max_depth=3).fit(X)
for v in (0.1, 0.4, 0.8):
    assert a.score_partial(np.array([v])) == b.score_partial(np.array([v]))
""", "an initial window longer than window_size", "its first rows are ignored")

spec("mad-previous-median", "C24",
     [("pysad/models/median_absolute_deviation.py", "        self.median_meter.update(X)\n        deviation = abs(X - self.median_meter.get())\n", "        deviation = abs(X - self.median_meter.get()) if self.median_meter.num_items > 1 else abs(X - X)\n        self.median_meter.update(X)\n")],
     """
import numpy as np
from pysad.models import MedianAbsoluteDeviation
m = MedianAbsoluteDeviation(b=1.0)
xs = [1.0, 5.0, 2.0, 8.0, 3.0]
devs, seen = [], []
for x in xs:
    m.fit_partial(np.array([x])); seen.append(x); devs.append(abs(x - np.median(seen)))
want = (9.0 - np.median(seen)) / (np.median(devs) + 1e-10)
got = float(np.ravel(m.score_partial(np.array([9.0])))[0])
assert abs(got - want) < 1e-9, (got, want)
""", "a stream whose median moves", "the deviation of an instance is taken from the median before it arrived")

spec("esd-stop-early", "C25",
     [("pysad/models/seasonal_esd.py", "            if statistic > critical_value:\n                selected_count = i\n", "            if statistic <= critical_value:\n                break\n            selected_count = i\n")],
     """
import numpy as np
from pysad.models.seasonal_esd import SeasonalESD
class Plain:
    def __init__(self, **k): pass
    def transform_window(self, v): return v
rng = np.random.RandomState(0)
m = SeasonalESD(period=2, window_size=24, max_anomalies=5)
m.residual_transformer = Plain()
base = list(rng.normal(0, 1, 20))
for vals in ([8.0, 8.1, 8.2],):
    for v in base + vals:
        m.fit_partial(np.array([v]))
    s = m.score_partial(np.array([8.3]))
    assert s > 0, s
""", "several outliers of similar size masking each other", "the test stops at the first insignificant round")

spec("unit-norm-odd", "C27",
     [("pysad/transform/preprocessing/instance_unit_norm_scaler.py", "        X_norm = np.linalg.norm(X, ord=self.pow)\n", "        X_norm = np.sum(X ** self.pow) ** (1.0 / self.pow) if self.pow > 1 else np.linalg.norm(X, ord=self.pow)\n")],
     """
import numpy as np
from pysad.transform.preprocessing import InstanceUnitNormScaler
r = InstanceUnitNormScaler(pow=3).transform_partial(np.array([1.0, -2.0, 3.0]))
assert abs(np.sum(np.abs(r) ** 3) - 1) < 1e-9, r
""", "an odd power of at least 3 and a negative feature", "the norm is computed without absolute values")

spec("hash-feature-padding", "C28",
     [("pysad/transform/projection/streamhash_projector.py", "        feature_names = [str(i) for i in range(ndim)]\n", "        feature_names = [str(i).zfill(len(str(ndim - 1))) for i in range(ndim)]\n")],
     """
import numpy as np
from pysad.transform.projection import StreamhashProjector
p = StreamhashProjector(20)
a = p.transform_partial(np.array([1.0] * 10))
b = p.transform_partial(np.array([1.0] * 10 + [0.0]))
assert np.allclose(a, b), (a, b)
""", "instances with more than 10 features compared with shorter ones", "the hash of a feature position depends on the number of features")

spec("storm-radius", "C29",
     [("pysad/models/exact_storm.py", "        self.max_radius = max_radius\n", "        self.max_radius = np.nextafter(max_radius, np.inf)\n")],
     """
import numpy as np
from pysad.models import ExactStorm
m = ExactStorm(window_size=5, max_radius=0.5)
for v in (0.0, 0.5, 0.0):
    m.fit_partial(np.array([v]))
assert m.score_partial(np.array([0.0])) == 0.5, m.score_partial(np.array([0.0]))
""", "a distance exactly equal to max_radius", "instances exactly at the radius count as neighbours")

spec("rrcf-off-by-one", "C30",
     [("pysad/models/robust_random_cut_forest.py", "            if len(tree.leaves) >= self.tree_size:\n                tree.forget_point(self.index - self.tree_size)\n", "            if len(tree.leaves) > self.tree_size:\n                tree.forget_point(self.index - self.tree_size - 1)\n")],
     """
import numpy as np
from pysad.models import RobustRandomCutForest
m = RobustRandomCutForest(num_trees=2, tree_size=3)
for _ in range(6):
    m.fit_partial(np.array([1.0, 1.0]))
s = m.score_partial(np.array([5.0, 5.0]))
assert s == 3.0, s
""", "more than tree_size instances", "one instance too many is kept")

spec("rshash-narrow-cells", "C31",
     [("pysad/models/rs_hash.py", "            mod_entry = np.insert(Y, 0, r)\n", "            mod_entry = np.insert(Y.astype(np.int32).astype(np.int8), 0, r)\n")],
     """
import numpy as np
from pysad.models import RSHash
np.random.seed(0)
m = RSHash(np.zeros(1), np.ones(1) * 1e4, num_components=100)
m.fit_partial(np.array([0.0]))
worst = 0.0
for k in range(1, 400):
    m.fit_partial(np.array([7.0 * k]))
    worst = min(worst, m.score_partial(None))
assert worst == 0.0, worst
""", "cells that differ by a multiple of 256", "different cells share one counter")

spec("rshash-no-decay-on-hit", "C31",
     [("pysad/models/rs_hash.py", "                new_tstamp = self.index\n", "                new_tstamp = max(tstamp, self.index - 1)\n")],
     """
import numpy as np, math
from pysad.models import RSHash
np.random.seed(0)
m = RSHash(np.zeros(1), np.ones(1), decay=0.5, num_components=5)
for _ in range(3):
    m.fit_partial(np.array([0.3]))
got = m.score_partial(None)
want = -math.log(1 + 2 ** -0.5 + 2 ** -1.0)
assert abs(got - want) < 1e-9, (got, want)
""", "an instance seen at least three times", "its earlier occurrence is aged by one step too many")

spec("knncad-hold", "C32",
     [("pysad/models/knn_cad.py", "        if self.pred > 0:\n            self.pred -= 1\n            return 0.5\n", "        if self.pred > 0 and result < 0.9965:\n            self.pred -= 1\n            return 0.5\n")],
     """
import numpy as np
from pysad.models import KNNCAD
m = KNNCAD(320)
for i in range(330):
    m.fit_partial(np.array([float(i % 3)]))
m.fit_partial(np.array([1e3]))
a = m.score_partial(np.array([1e3])); b = m.score_partial(np.array([1e3]))
assert a >= 0.9965 and b == 0.5, (a, b)
""", "a second alarm within the hold period", "the hold is not applied to further alarms")

spec("kitnet-norm-drift", "C33",
     [("pysad/models/kitnet_model/dA.py", "            # 0-1 normalize\n            x = (x - self.norm_min) / (self.norm_max - self.norm_min + 0.0000000000000001)\n            z = self.reconstruct(x)\n", "            # 0-1 normalize\n            self.norm_max = numpy.maximum(self.norm_max, x)\n            self.norm_min = numpy.minimum(self.norm_min, x)\n            x = (x - self.norm_min) / (self.norm_max - self.norm_min + 0.0000000000000001)\n            z = self.reconstruct(x)\n")],
     """
import numpy as np
from pysad.models import KitNet
def run(extra):
    m = KitNet(max_size_ae=2, grace_feature_mapping=5, grace_anomaly_detector=20)
    rng = np.random.RandomState(0)
    for i in range(30):
        m.fit_partial(rng.rand(3))
    for e in extra:
        m.fit_partial(e)
    return m.score_partial(np.array([0.5, 0.2, 0.8]))
a, b = run([]), run([np.array([100.0, -50.0, 70.0])])
assert a == b, (a, b)
""", "an instance outside the learned ranges after the grace periods", "normalisation bounds keep moving after training")

spec("random-rounded", "C34",
     [("pysad/models/random_model.py", "        return np.random.uniform()", "        return round(np.random.uniform(), 4)")],
     """
import numpy as np
from pysad.models import RandomModel
np.random.seed(0)
m = RandomModel()
assert max(m.score_partial(None) for _ in range(200000)) < 1.0
""", "a draw above 0.99995", "the random score can be 1.0")

spec("esd-round-half", "C35",
     [("pysad/models/seasonal_esd.py", "        if max_anomalies > int(window_size * 0.49):\n", "        if max_anomalies > round(window_size * 0.49):\n")],
     """
from pysad.models.seasonal_esd import SeasonalESD
try:
    SeasonalESD(2, 8, 4)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""", "max_anomalies just above 0.49 * window_size", "an out-of-range setting is accepted")

spec("median-remove-order", "C36",
     [("pysad/statistics/median_meter.py", "        self.lst.remove(num)\n        self.num_items -= 1\n", "        self.num_items -= 1\n        self.lst.remove(num)\n")],
     """
from pysad.statistics import MedianMeter
m = MedianMeter()
for v in (1, 2, 9):
    m.update(v)
try:
    m.remove(5)
except ValueError:
    pass
assert m.get() == 2, m.get()
""", "removing an absent value, then reading", "the failed removal is counted")

spec("sad-late-check", "C36",
     [("pysad/models/standard_absolute_deviation.py", "        assert len(X) == 1  # Only for time series\n", ""),
      ("pysad/models/standard_absolute_deviation.py", "        self.sub_meter.update(X)\n", "        assert len(X) == 1  # Only for time series\n        self.sub_meter.update(X)\n")],
     """
import numpy as np
from pysad.models import StandardAbsoluteDeviation
m = StandardAbsoluteDeviation()
for v in (1.0, 2.0, 4.0):
    m.fit_partial(np.array([v]))
a = m.score_partial(np.array([3.0]))
try:
    m.fit_partial(np.array([1.0, 2.0]))
except AssertionError:
    pass
b = m.score_partial(np.array([3.0]))
assert np.array_equal(a, b), (a, b)
""", "a rejected multi-feature instance between two scores", "the rejected instance was already added to the variance")


spec("max-negative", "C05",
     [("pysad/statistics/max_meter.py", "            self.max = np.max(self.lst)\n", "            self.max = np.max(self.lst, initial=0.0)\n")],
     """
from pysad.statistics import MaxMeter
m = MaxMeter()
for v in (-1.0, -2.0, -3.0):
    m.update(v)
m.remove(-1.0)
assert m.get() == -2.0, m.get()
""", "only negative values left after a removal", "the maximum is reported as 0")

spec("unlimited-window-cap", "C07",
     [("pysad/utils/window.py", "        super().__init__(None)\n\n    def update(self, num):\n        \"\"\"Adds new item to the window. Removes the tail if size exceeds the self.window_size.\n\n        Args:\n            num (float): item to be added to the window.\n        \"\"\"\n        self.window.append(num)\n",
       "        super().__init__(None)\n\n    def update(self, num):\n        \"\"\"Adds new item to the window. Removes the tail if size exceeds the self.window_size.\n\n        Args:\n            num (float): item to be added to the window.\n        \"\"\"\n        self.window.append(num)\n        del self.window[:-8192]\n")],
     """
from pysad.utils.window import UnlimitedWindow
w = UnlimitedWindow()
for i in range(9000):
    w.update(i)
assert list(w.get()) == list(range(9000)), len(w.get())
""", "more than 8192 items", "the unlimited window drops old items")

spec("auroc-rounded", "C12",
     [("pysad/evaluation/metrics.py", "        return roc_auc_score(y_true, y_pred)", "        return roc_auc_score(y_true, [round(float(p), 6) for p in y_pred])")],
     """
from pysad.evaluation import AUROCMetric
m = AUROCMetric()
m.update(0, 1e-8); m.update(1, 2e-8)
assert m.get() == 1.0, m.get()
""", "predictions closer than 1e-6", "different predictions count as ties")

spec("stl-two-periods", "C26",
     [("pysad/transform/preprocessing/modified_stl_residual.py", "        if values.shape[0] < 2 * self.period:\n            return 0.0\n", "        if values.shape[0] <= 2 * self.period and values.shape[0] < self.window_size:\n            return 0.0\n")],
     """
import numpy as np
from pysad.transform.preprocessing import ModifiedSTLResidualTransformer
a = ModifiedSTLResidualTransformer(2, window_size=8)
xs = [1.0, 4.0, 2.0]
for x in xs:
    a.fit_partial(np.array([x]))
got = a.transform_partial(np.array([9.0]))
want = a.transform_window(np.array(xs + [9.0]))[-1]
assert abs(got - want) < 1e-12 and want != 0, (got, want)
""", "exactly two periods available and a longer window", "residual still 0")

spec("perfect-queue-cap", "C34",
     [("pysad/models/perfect_model.py", "        self.labels.append(y)\n", "        self.labels.append(y)\n        self.labels = self.labels[-1000:]\n")],
     """
import numpy as np
from pysad.models import PerfectModel
n = 1500
y = np.arange(n)
m = PerfectModel().fit(np.zeros((n, 1)), y)
assert [m.score_partial(None) for _ in range(5)] == [0, 1, 2, 3, 4]
""", "more than 1000 labels waiting", "the oldest labels are dropped")


# second batch: long runs, large windows and unusual values

spec('chunk-score', 'C01',
     [('pysad/core/base_model.py', '        for i, (xi, _) in enumerate(_iterate(X)):\n            score = self.score_partial(xi)\n            y_pred[i] =', '        block = 1024\n        for start in range(0, X.shape[0], block):\n          for i, (xi, _) in enumerate(_iterate(X[start:start + block])):\n            score = self.score_partial(xi)\n            y_pred[i] =')],
     """
import numpy as np
from pysad.models import StandardAbsoluteDeviation
X = np.arange(2500, dtype=float).reshape(-1, 1)
m = StandardAbsoluteDeviation().fit(X)
out = m.score(X)
assert out.shape == (2500,) and all(out[i] == m.score_partial(X[i]) for i in range(2500))
""",
     'a batch longer than 1024 instances', 'the score of a later block is written over the first block')

spec('score-dedup', 'C01',
     [('pysad/core/base_model.py', '            score = self.score_partial(xi)\n', '            if i > 0 and np.array_equal(X[i], X[i - 1]):\n                y_pred[i] = y_pred[i - 1]\n                continue\n            score = self.score_partial(xi)\n')],
     """
import numpy as np
from pysad.models import PerfectModel
X = np.zeros((3, 1))
m = PerfectModel().fit(X, np.array([0.0, 1.0, 0.5]))
assert list(m.score(X)) == [0.0, 1.0, 0.5]
""",
     'two equal consecutive instances and a model whose score depends on more than the instance', 'the second is not scored')

spec('pandas-dropna', 'C03',
     [('pysad/utils/pandas_streamer.py', 'self.array_iterator.iter(X.to_numpy()):', "self.array_iterator.iter(X.dropna(how='all').to_numpy()):")],
     """
import numpy as np, pandas as pd
from pysad.utils import PandasStreamer
df = pd.DataFrame({'a': [1.0, np.nan, 3.0], 'b': [1.0, np.nan, 3.0]})
rows = list(PandasStreamer(shuffle=False).iter(df))
assert len(rows) == 3, rows
""",
     'a row in which every value is missing', 'the row disappears from the stream')

spec('shuffle-block', 'C03',
     [('pysad/utils/array_streamer.py', 'np.random.shuffle(indices)', '\n            if len(indices) <= 1000:\n                np.random.shuffle(indices)\n            else:\n                blocks = [indices[k:k + 1000] for k in range(0, len(indices), 1000)]\n                for block in blocks:\n                    np.random.shuffle(block)\n                indices = [k for block in blocks for k in block]\n')],
     """
import numpy as np
from pysad.utils import ArrayStreamer, fix_seed
fix_seed(3)
a = np.arange(2500).reshape(-1, 1)
first = [int(x[0]) for x in ArrayStreamer(shuffle=True).iter(a)]
fix_seed(3)
idx = list(range(2500))
np.random.shuffle(idx)
assert sorted(first) == list(range(2500)) and max(first[:1000]) >= 1000
""",
     'a shuffled stream of more than 1000 rows', 'rows only move inside their block of 1000')

spec('runstat-cap', 'C06',
     [('pysad/statistics/running_statistic.py', 'if len(self.window) > self.window_size:', 'if len(self.window) > min(self.window_size, 1024):')],
     """
from pysad.statistics import SumMeter, RunningStatistic
r = RunningStatistic(SumMeter, 2000)
for i in range(2000):
    r.update(1.0)
assert r.get() == 2000.0, r.get()
""",
     'a window larger than 1024', 'only the last 1024 values are in the statistic')

spec('conf-tol', 'C09',
     [('pysad/transform/probability_calibration/conformal_prediction.py', 'np.array(self.window.get()) > score', 'np.array(self.window.get()) - score > 1e-9')],
     """
from pysad.transform.probability_calibration import ConformalProbabilityCalibrator
c = ConformalProbabilityCalibrator(window_size=4)
for v in (1e-10, 2e-10, 3e-10, 4e-10):
    c.fit_partial(v)
p = c.transform_partial(2e-10)
assert p == 0.5, p
""",
     'scores closer than 1e-9', 'larger fitted scores are not counted')

spec('auroc-recent', 'C12',
     [('pysad/evaluation/metrics.py', 'len(set(y_true)) <= 1', 'len(set(y_true[-1000:])) <= 1')],
     """
from pysad.evaluation import AUROCMetric
m = AUROCMetric()
m.update(1, 0.9)
for i in range(1200):
    m.update(0, 0.1)
assert m.get() == 1.0, m.get()
""",
     'more than 1000 updates of one class after the other class was seen', 'the metric reports 0 although both classes were seen')

spec('prec-int', 'C12',
     [('pysad/evaluation/metrics.py', 'return recall_score(y_true, y_pred)', 'return recall_score(y_true[-10000:], y_pred[-10000:])')],
     """
from pysad.evaluation import RecallMetric
m = RecallMetric()
m.update(1, 0)
for i in range(10000):
    m.update(1, 1)
assert abs(m.get() - 10000 / 10001) < 1e-12, m.get()
""",
     'more than 10000 updates', 'old instances leave the recall')

spec('onefit-cache', 'C15',
     [('pysad/models/integrations/one_fit_model.py', '        score = self.model.decision_function([X])[0]\n\n        return score', "        if not hasattr(self, '_cache'):\n            self._cache = {}\n        key = tuple(np.round(X, 6))\n        if key not in self._cache:\n            self._cache[key] = self.model.decision_function([X])[0]\n        return self._cache[key]"), ('pysad/models/integrations/one_fit_model.py', 'from .pyod_model', 'import numpy as np\nfrom .pyod_model')],
     """
import numpy as np
from pysad.models.integrations import OneFitModel
from pyod.models.hbos import HBOS
class M:
    def fit(self, X): pass
    def decision_function(self, X): return np.array([X[0][0]])
m = OneFitModel(M, np.zeros((3, 1)))
a, b = m.score_partial(np.array([1.0])), m.score_partial(np.array([1.0 + 1e-9]))
assert a != b
""",
     'two instances that differ by less than 1e-6', 'the second gets the score of the first')

spec('kitnet-late-norm', 'C16',
     [('pysad/models/kitnet_model/KitNET.py', '            self.n_executed += 1\n', '            self.n_executed += 1\n            if self.n_executed % 64 == 0:\n                self.FM_grace_period += 1\n')],
     """
import numpy as np
from pysad.models import KitNet
def run(k):
    np.random.seed(0)
    X = np.random.rand(60, 3)
    m = KitNet(max_size_ae=2, grace_feature_mapping=10, grace_anomaly_detector=20)
    m.fit(X[:40])
    for _ in range(k):
        m.score_partial(X[41])
    m.fit(X[42:])
    return m.score_partial(X[41])
assert run(0) == run(700)
""",
     'many scoring calls', 'scoring moves the end of the training period')

spec('mem-slow', 'C19',
     [('pysad/models/half_space_trees.py', '        if self.step % self.window_size == 0:\n', "        if self.step % self.window_size == 0:\n            self.history = getattr(self, 'history', []) + [self.step]\n")],
     """
import numpy as np, pickle
from pysad.models import HalfSpaceTrees
m = HalfSpaceTrees(feature_mins=[0.0], feature_maxes=[1.0], window_size=5, num_trees=2, max_depth=2, initial_window_X=None)
x = np.array([0.5])
def size(n):
    for _ in range(n):
        m.fit_partial(x)
    return len(pickle.dumps(m))
a = size(2000); b = size(4000)
assert b - a < 500, (a, b)
""",
     'many complete windows', 'the detector keeps a record of every window')

spec('hst-depthcap', 'C23',
     [('pysad/models/half_space_trees.py', '(2**node.k)', '(2**min(node.k, 8))')],
     """
import numpy as np
from pysad.models import HalfSpaceTrees
x = np.array([0.3])
out = []
for depth in (9, 12):
    np.random.seed(1)
    m = HalfSpaceTrees([0.0], [1.0], window_size=40, num_trees=1, max_depth=depth)
    for _ in range(80):
        m.fit_partial(x)
    out.append(abs(float(m.score_partial(x))))
assert out == [40 * 1023, 40 * 8191], out
""",
     'a tree deeper than 8 levels that is reached', 'the weight of deep nodes stops growing')

spec('storm-cap', 'C29',
     [('pysad/models/exact_storm.py', 'Window(window_size=window_size)', 'Window(window_size=min(window_size, 5000))')],
     """
import numpy as np
from pysad.models import ExactStorm
m = ExactStorm(window_size=6000, max_radius=0.1)
m.fit(np.zeros((1, 1)))
m.fit(np.ones((5500, 1)))
a = m.score_partial(np.array([0.0]))
m2 = ExactStorm(window_size=6000, max_radius=0.1)
m2.fit(np.ones((5501, 1)))
assert a != m2.score_partial(np.array([0.0])), a
""",
     'a window larger than 5000 holding more than 5000 instances', 'neighbours inside the window are not counted')

spec('win-cap', 'C07',
     [('pysad/utils/window.py', 'if len(self.window) > self.window_size:', 'if len(self.window) > min(self.window_size, 8192):')],
     """
from pysad.utils.window import Window
w = Window(10000)
for i in range(10000):
    w.update(i)
assert list(w.get()) == list(range(10000)), len(w.get())
""",
     'a window larger than 8192', 'old items leave early')

spec('refw-cap', 'C14',
     [('pysad/models/integrations/reference_window_model.py', 'len(self.reference_window_X) - self.window_size):]\n\n            if', 'len(self.reference_window_X) - min(self.window_size, 256)):]\n\n            if')],
     """
import numpy as np
from pysad.models.integrations import ReferenceWindowModel
log = []
class M:
    def __init__(self, **k): pass
    def fit(self, X): log.append(len(X))
    def decision_function(self, X): return np.zeros(1)
m = ReferenceWindowModel(M, window_size=400, sliding_size=100, initial_window_X=np.zeros((400, 1)))
for i in range(200):
    m.fit_partial(np.array([float(i)]))
assert log == [400, 400, 400], log
""",
     'a reference window larger than 256', 'the detector is retrained on 256 instances')

spec('stl-cap', 'C26',
     [('pysad/transform/preprocessing/modified_stl_residual.py', 'values = values[-self.window_size:]', 'values = values[-min(self.window_size, 10 * self.period):]')],
     """
import numpy as np
from pysad.transform.preprocessing import ModifiedSTLResidualTransformer
a = ModifiedSTLResidualTransformer(2, window_size=60)
rng = np.random.RandomState(0)
xs = list(rng.rand(60))
for x in xs[:-1]:
    a.fit_partial(np.array([x]))
got = a.transform_partial(np.array([xs[-1]]))
want = a.transform_window(np.array(xs))[-1]
assert abs(got - want) < 1e-12, (got, want)
""",
     'a window longer than ten periods', 'older values of the window are ignored')

spec('median-many', 'C05',
     [('pysad/statistics/median_meter.py', 'self.lst = sorted(self.lst)', 'self.lst = sorted(self.lst)[-5000:]')],
     """
from pysad.statistics import MedianMeter
m = MedianMeter()
for i in range(5003):
    m.update(float(i))
assert m.get() == 2501.0, m.get()
""",
     'more than 5000 values', 'the smallest values are dropped')

spec('norm-inf', 'C27',
     [('pysad/transform/preprocessing/instance_unit_norm_scaler.py', 'np.linalg.norm(X, ord=self.pow)', 'np.linalg.norm(np.asarray(X, dtype=np.float32), ord=self.pow)')],
     """
import numpy as np
from pysad.transform.preprocessing import InstanceUnitNormScaler
x = np.array([1e30, 2e30])
y = InstanceUnitNormScaler(pow=2).transform_partial(x)
assert np.allclose(y, x / np.linalg.norm(x), rtol=1e-12, atol=0), y
""",
     'entries that single precision cannot hold', 'the norm is rounded or overflows')

spec('iforest-slide', 'C14',
     [('pysad/models/iforest_asd.py', 'window_size, window_size,', 'window_size, window_size if window_size < 32 else window_size // 2,')],
     """
import numpy as np
from pysad.models import IForestASD
rng = np.random.RandomState(0)
m = IForestASD(window_size=40, n_estimators=5)
for x in rng.rand(45, 2):
    m.fit_partial(x)
a = m.score_partial(np.array([0.5, 0.5]))
for x in rng.rand(16, 2) + 9:
    m.fit_partial(x)
assert m.score_partial(np.array([0.5, 0.5])) == a
""",
     'a window of at least 32 instances', 'the forest is retrained twice per window, also on instances of the unfinished one')

spec('refw-kwargs-late', 'C14',
     [('pysad/models/integrations/reference_window_model.py', "            self.cur_window_y = []\n            self._fit", "            self.cur_window_y = []\n            self.kwargs = dict(list(self.kwargs.items())[:3])\n            self._fit")],
     """
import numpy as np
from pysad.models.integrations import ReferenceWindowModel
seen = []
class D:
    def __init__(self, **kw):
        seen.append(kw)
    def fit(self, X, y=None):
        return self
    def decision_function(self, X):
        return np.zeros(len(X))
kw = dict(a=1, b=2, c=3, d=4, e=5)
m = ReferenceWindowModel(D, 3, 2, initial_window_X=np.zeros((4, 2)), **kw)
for i in range(9):
    m.fit_partial(np.ones(2) * i)
assert all(k == kw for k in seen), seen
""",
     'more than three detector arguments and a retraining', 'later arguments of the detector are lost when it is rebuilt')

spec('esd-stl-arguments', 'C25',
     [('pysad/models/seasonal_esd.py', "            robust=robust,\n            **stl_kwargs\n", "            robust=robust\n")],
     """
import numpy as np
from pysad.models import SeasonalESD
from statsmodels.tsa.seasonal import STL
v = [1.0, 3, 2, 5, 1, 4, 2.5, 6, 0, 3, 2, 9, 1, 3, 2, 30]
def score(**kw):
    m = SeasonalESD(period=4, window_size=16, max_anomalies=3, alpha=0.2, robust=False, **kw)
    for x in v[:-1]:
        m.fit_partial(np.array([x]))
    return m.score_partial(np.array([v[-1]]))
r = np.array(v) - STL(np.array(v), period=4, robust=False, seasonal=15).fit().seasonal - np.median(v)
want = abs(r[-1] - r.mean()) / r.std(ddof=1)
assert abs(score(seasonal=15) - want) < 1e-9, (score(seasonal=15), want)
""",
     'further STL arguments', 'they are accepted and ignored')

spec('conformal-infinite', 'C09',
     [('pysad/transform/probability_calibration/conformal_prediction.py', "        self.window.update(score)\n", "        if np.isfinite(score):\n            self.window.update(score)\n")],
     """
import numpy as np
from pysad.transform.probability_calibration import ConformalProbabilityCalibrator
c = ConformalProbabilityCalibrator(window_size=3)
for s in (1.0, 2.0, np.inf):
    c.fit_partial(s)
a = c.transform_partial(1.5)
c = ConformalProbabilityCalibrator(window_size=3)
for s in (1.0, 2.0, 1e9):
    c.fit_partial(s)
assert c.transform_partial(1.5) == a, (c.transform_partial(1.5), a)
""",
     'an infinite score', 'it is not counted')

spec('gauss-clipped-tail', 'C10',
     [('pysad/transform/probability_calibration/gaussian_tail.py', "        z = (x - mean) / std\n", "        z = min(max((x - mean) / std, -6.0), 6.0)\n")],
     """
import numpy as np
from scipy.stats import norm
from pysad.transform.probability_calibration import GaussianTailProbabilityCalibrator
c = GaussianTailProbabilityCalibrator(window_size=4)
for s in (1.0, 2.0, 3.0, 4.0):
    c.fit_partial(s)
z = (-9.0 - 2.5) / np.std([1, 2, 3, 4])
assert abs(c.transform_partial(-9.0) - norm.cdf(z)) < 1e-12, c.transform_partial(-9.0)
""",
     'a score more than six standard deviations away', 'far tails all get the same probability')

spec('ensembler-many', 'C11',
     [('pysad/transform/ensemble/ensemblers.py', "        scores = scores.reshape(1, -1)\n", "        scores = scores.reshape(1, -1)[:, :64]\n")],
     """
import numpy as np
from pysad.transform.ensemble import AverageScoreEnsembler
assert AverageScoreEnsembler().fit_transform_partial(np.arange(80.0)) == 39.5
""",
     'more than 64 detectors', 'the rest is ignored')

spec('esd-score-stores', 'C16',
     [('pysad/models/seasonal_esd.py', "        return self._score_window(self._candidate_window(X))", "        values = self._candidate_window(X)\n        if values.shape[0] < self.window_size // 2:\n            self.window.update(values[-1])\n        return self._score_window(values)")],
     """
import numpy as np
from pysad.models import SeasonalESD
m = SeasonalESD(period=2, window_size=16, max_anomalies=5, alpha=0.3)
for i, x in enumerate([1, 2, 1.25, 2, 1, 2.125, 1.5, 2.25, 1, 2, 1.125, 2]):
    m.fit_partial(np.array([float(x)]))
    m.score_partial(np.array([1.5]))
assert m.score_partial(np.array([50.0])) == 0, 'scored before the window is full'
""",
     'scores while the window is less than half full', 'the scored value is stored')

spec('storm-manual-distance', 'C37',
     [('pysad/models/exact_storm.py', '        dists = scipy.spatial.distance.cdist(window, [X])\n', '        dists = np.sqrt(np.sum((np.array(window) - X) ** 2, axis=1))\n')],
     """
import numpy as np
from pysad.models import ExactStorm
def run(dt):
    m = ExactStorm(window_size=10, max_radius=1000.0)
    for v in ([0, 0], [50000, 60000], [70000, 1], [0, 3]):
        m.fit_partial(np.array(v, dtype=dt))
    return [m.score_partial(np.array(v, dtype=dt)) for v in ([0, 0], [65536, 65536], [70000, 9])]
assert run(float) == run(np.int32), (run(float), run(np.int32))
""",
     'instances of 32-bit integers further apart than 46340', 'squared differences overflow')

spec('transform-buffer-dtype', 'C37',
     [('pysad/core/base_transformer.py', "        transformed_X = np.empty((X.shape[0], output_dims), dtype=np.float64)\n        for i, (xi, _) in enumerate(_iterate(X)):\n            result = self.fit_transform_partial(xi)\n", "        transformed_X = np.empty((X.shape[0], output_dims), dtype=X.dtype)\n        for i, (xi, _) in enumerate(_iterate(X)):\n            result = self.fit_transform_partial(xi)\n")],
     """
import numpy as np
from pysad.transform.preprocessing import InstanceUnitNormScaler
X = np.array([[3, 4], [6, 8]])
a = InstanceUnitNormScaler().fit_transform(X)
b = InstanceUnitNormScaler().fit_transform(X.astype(float))
assert np.array_equal(a, b), (a, b)
""",
     'a batch of integers', 'the transformed values are truncated to integers')

spec('decomposer-restore', 'C38',
     [('pysad/transform/preprocessing/seasonal_trend_decomposer.py', '    def _as_array(self, X):\n', '    def __getstate__(self):\n        return dict(self.__dict__, window=list(self.window))\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self.window = deque(state["window"])\n\n    def _as_array(self, X):\n')],
     """
import copy
import numpy as np
from pysad.transform.preprocessing import SeasonalTrendDecomposer
a = SeasonalTrendDecomposer(season_length=2, trend_window=3)
for i in range(5):
    a.fit_partial(np.array([float(i * i)]))
b = copy.deepcopy(a)
for i in range(5):
    x = np.array([float(7 * i % 4)])
    u, v = a.fit_transform_partial(x), b.fit_transform_partial(x)
    assert np.array_equal(u, v), (u, v)
""",
     'a copy or restore with the trend window full', 'the restored trend window grows without limit')

spec('knncad-restore', 'C38',
     [('pysad/models/knn_cad.py', '    def _metric(self, a, b):\n', '    def __getstate__(self):\n        return dict(self.__dict__, scores=[])\n\n    def _metric(self, a, b):\n')],
     """
import pickle
import numpy as np
from pysad.models import KNNCAD
rng = np.random.RandomState(0)
v = rng.rand(90)
v[65] = 7.0
a = KNNCAD(probationary_period=50)
for x in v[:70]:
    a.fit_partial(np.array([x]))
b = pickle.loads(pickle.dumps(a))
out = []
for x in v[70:]:
    out.append((a.fit_score_partial(np.array([x])), b.fit_score_partial(np.array([x]))))
assert all(p == q for p, q in out), out
""",
     'a save and restore after the probationary period', 'the retained conformity scores are rebuilt differently')

spec('score-buffer', 'C01',
     [('pysad/core/base_model.py', "        y_pred = np.zeros(X.shape[0], dtype=np.float64)", "        y_pred = getattr(self, '_y_pred', None)\n        if y_pred is None or y_pred.shape[0] != X.shape[0]:\n            y_pred = self._y_pred = np.zeros(X.shape[0], dtype=np.float64)")],
     """
import numpy as np
from pysad.models import MedianAbsoluteDeviation
m = MedianAbsoluteDeviation()
m.fit(np.array([[1.0], [2.0], [5.0], [4.0]]))
a = m.fit_score(np.array([[1.0], [9.0]]))
keep = a.copy()
m.fit_score(np.array([[7.0], [3.0]]))
assert np.array_equal(a, keep)
""",
     'two batch calls of the same length, the result of the first read after the second', 'the scores of the first batch are overwritten by those of the second')

spec('loda-hash', 'C04',
     [('pysad/models/loda.py', "self.projections_[i, rands] = 0.", "self.projections_[i, rands] = 0.\n                self.projections_[i] *= 1.0 + 1e-3 * (hash('loda') % 7)")],
     """
import os, subprocess, sys
code = '''
import numpy as np, random
from pysad.models import LODA
random.seed(3); np.random.seed(3)
m = LODA(num_bins=12, num_random_cuts=40)
X = np.random.rand(30, 8)
print("R", [round(float(v), 9) for v in m.fit_score(X)])
'''
outs = set()
for hs in range(8):
    e = dict(os.environ, PYTHONHASHSEED=str(hs))
    p = subprocess.run([sys.executable, '-c', code], env=e, capture_output=True, text=True)
    outs.add([l for l in p.stdout.splitlines() if l.startswith('R')][0])
assert len(outs) == 1, len(outs)
""",
     'two processes with different string-hash seeds', 'the same seed gives different scores')

spec('hst-carry', 'C20',
     [('pysad/models/half_space_trees.py', "        node.r_mass = node.l_mass\n", "        node.r_mass = node.l_mass if node.l_mass or self.step < 4 * self.window_size else node.r_mass // 2\n")],
     """
import numpy as np, random
from pysad.models import HalfSpaceTrees
def run(first):
    np.random.seed(1); random.seed(1)
    m = HalfSpaceTrees(np.zeros(2), np.ones(2), window_size=6, num_trees=4, max_depth=4)
    for t in range(30):
        m.fit_partial(np.array([0.9, 0.9]) if t < first else np.array([0.1, 0.2]))
    return m.score_partial(np.array([0.9, 0.9]))
assert run(0) == run(23), (run(0), run(23))
""",
     'more than four windows, a region that has become empty', 'instances of older windows still count')

spec('sh-pad', 'C28',
     [('pysad/transform/projection/streamhash_projector.py', "        feature_names = [str(i) for i in range(ndim)]", "        feature_names = [str(i).zfill(len(str(ndim)) if ndim > 100 else 1) for i in range(ndim)]")],
     """
import numpy as np
from pysad.transform.projection import StreamhashProjector
p = StreamhashProjector(num_components=10)
a, b = np.zeros(90), np.zeros(150)
a[7] = b[7] = 1.0
assert np.array_equal(p.transform_partial(a), p.transform_partial(b))
""",
     'more than 100 features', 'the map of a feature depends on the number of features')

spec('storm-dims', 'C29',
     [('pysad/models/exact_storm.py', "cdist(window, [X])", "cdist(window, [X], 'euclidean' if len(X) < 12 else 'chebyshev')")],
     """
import numpy as np
from pysad.models import ExactStorm
m = ExactStorm(window_size=5, max_radius=2.0)
m.fit_partial(np.zeros(16)); m.fit_partial(np.zeros(16))
assert m.score_partial(np.ones(16)) == 1.0
""",
     '12 or more features', 'distances are not Euclidean')

spec('rrcf-lasttree', 'C30',
     [('pysad/models/robust_random_cut_forest.py', "            if len(tree.leaves) >= self.tree_size:", "            if len(tree.leaves) >= self.tree_size + (tree is self.forest[-1] and self.num_trees > 4):")],
     """
import numpy as np
from pysad.models import RobustRandomCutForest
m = RobustRandomCutForest(num_trees=5, tree_size=1)
for v in (0.0, 1.0, 2.0):
    m.fit_partial(np.array([v]))
n = RobustRandomCutForest(num_trees=5, tree_size=1)
n.fit_partial(np.array([2.0]))
assert m.score_partial(np.array([5.0])) == n.score_partial(np.array([5.0]))
""",
     'more than 4 trees', 'the last tree holds one instance too many')

spec('esd-crit-cache', 'C17',
     [('pysad/models/seasonal_esd.py', "        p = 1.0 - self.alpha / (2.0 * (n - i + 1))\n        t_value = t.ppf(p, n - i - 1)\n", "        t_value = _t_values.get((n, i))\n        if t_value is None:\n            p = 1.0 - self.alpha / (2.0 * (n - i + 1))\n            t_value = _t_values[(n, i)] = t.ppf(p, n - i - 1)\n"),
      ('pysad/models/seasonal_esd.py', "class SeasonalESD(BaseModel):", "_t_values = {}\n\n\nclass SeasonalESD(BaseModel):")],
     """
import os, subprocess, sys
code = '''
import sys
import numpy as np
from pysad.models import SeasonalESD
def run(alpha):
    m = SeasonalESD(period=4, window_size=24, max_anomalies=3, alpha=alpha)
    for t in range(24):
        m.fit_partial(np.array([float((t * t * 7) % 11)]))
    return [round(float(m.score_partial(np.array([float(v)]))), 9) for v in range(-40, 50, 2)]
if sys.argv[1] == "after":
    run(0.0001)
print("R", run(0.9))
'''
outs = set()
for mode in ("alone", "after"):
    p = subprocess.run([sys.executable, '-c', code, mode], capture_output=True, text=True)
    outs.add([l for l in p.stdout.splitlines() if l.startswith('R')][0])
assert len(outs) == 1
""",
     'two models with different significance levels in one process', 'the second tests at the level of the first')

spec('proj-redraw', 'C38',
     [('pysad/transform/projection/random_projector.py', "    def fit_partial", "    def __getstate__(self):\n        state = dict(self.__dict__)\n        if state.get('eps') != 0.1:\n            state['_fitted_projector'] = None\n        return state\n\n    def fit_partial")],
     """
import copy
import numpy as np
from pysad.transform.projection import GaussianRandomProjector
p = GaussianRandomProjector(num_components=3, eps=0.3)
x = np.arange(5.0)
a = p.fit_transform_partial(x)
q = copy.deepcopy(p)
assert np.array_equal(q.transform_partial(x), a)
""",
     'a copied projector with another eps', 'the copy draws a new matrix')

spec('pandas-index', 'C03',
     [('pysad/utils/pandas_streamer.py', "X.to_numpy(), y.to_numpy()", "X.to_numpy(), (y.reindex(X.index) if X.index.is_unique and y.index.is_unique and len(X) > 3 else y).to_numpy()")],
     """
import pandas as pd
from pysad.utils import PandasStreamer
X = pd.DataFrame({'a': [0.0, 1.0, 2.0, 3.0, 4.0]}, index=[4, 3, 2, 1, 0])
y = pd.Series([0, 1, 2, 3, 4])
assert [(float(x[0]), int(l)) for x, l in PandasStreamer(shuffle=False).iter(X, y)] == [(float(i), i) for i in range(5)]
""",
     'instances and labels with different indices and more than 3 rows', 'labels are matched by index instead of by row')

spec('hst-init-tail', 'C23',
     [('pysad/models/half_space_trees.py', "            self.fit(initial_window_X)", "            self.fit(initial_window_X[-window_size:])")],
     """
import numpy as np, random
from pysad.models import HalfSpaceTrees
X = np.array([[((t * t * 3) % 17) / 17, (t % 5) / 5] for t in range(14)])
def run(init):
    np.random.seed(1); random.seed(1)
    kw = dict(initial_window_X=X) if init else {}
    m = HalfSpaceTrees(np.zeros(2), np.ones(2), window_size=6, num_trees=4, max_depth=4, **kw)
    if not init:
        m.fit(X)
    for x in X[:5]:
        m.fit_partial(x)
    return [m.score_partial(x) for x in X]
assert run(True) == run(False)
""",
     'an initial window longer than window_size', 'only its end is used')

spec('xs-firstlast', 'C20',
     [('pysad/models/xstream.py', "get_minmax_array(np.concatenate(self.ref_window, axis=0)", "get_minmax_array(np.concatenate(self.ref_window[:16] + self.ref_window[-16:], axis=0)")],
     """
import numpy as np, random
from pysad.models import xStream
def run(perm):
    np.random.seed(1); random.seed(1)
    m = xStream(num_components=10, n_chains=4, depth=4, window_size=50)
    W = [np.array([0.01 * t, 0.3, 0.02 * t, 1.0]) for t in range(49)] + [np.array([40.0, -30.0, 5.0, 90.0])]
    for i in perm:
        m.fit_partial(W[i])
    for t in range(50):
        m.fit_partial(np.array([0.5 * t, 0.1 * t, -0.2 * t, 0.3]))
    return [m.score_partial(np.array([0.5 * t + 0.1, 0.1 * t, -0.2 * t, 0.3])) for t in range(50)]
a = run(list(range(50)))
b = run(list(range(25)) + [49] + list(range(25, 49)))
assert a == b
""",
     'a window of more than 32 instances whose extreme lies in the middle', 'the scale of a window depends on the order inside it')

spec('mad-wrap', 'C24',
     [('pysad/models/median_absolute_deviation.py', "        score = (X - median) / (mad + 1e-10)\n", "        score = (X - median) / (mad + 1e-10) % (1e15 if X[0] > median else -1e15)\n")],
     """
import numpy as np
from pysad.models import MedianAbsoluteDeviation
m = MedianAbsoluteDeviation()
for v in (0.0, 4e-9, 1e-8, -6e-9, 2e-9):
    m.fit_partial(np.array([v]))
assert m.score_partial(np.array([1e12])) > 1e18
""",
     'a score above 1e15', 'it wraps around')

spec('pp-fit-skipdup', 'C02',
     [('pysad/core/base_postprocessor.py', '        for i, (score, _) in enumerate(_iterate(scores)):\n            self.fit_partial(score)', '        for i, (score, _) in enumerate(_iterate(scores)):\n            if i > 100 and np.ndim(score) == 0 and score == scores[i - 1] == scores[i - 2] == scores[i - 3]:\n                continue\n            self.fit_partial(score)')],
     """
import numpy as np
from pysad.transform.postprocessing import AveragePostprocessor
s = np.array([0.0] * 50 + [1.0] * 80)
a, b = AveragePostprocessor(), AveragePostprocessor()
a.fit(s)
for v in s:
    b.fit_partial(v)
assert abs(a.transform_partial(0.0) - b.transform_partial(0.0)) < 1e-9
""",
     'a batch of more than 100 scores with a run of equal ones', 'the batch fit skips scores')

spec('au-round', 'C12',
     [('pysad/evaluation/metrics.py', '        return roc_auc_score(y_true, y_pred)', '        return roc_auc_score(y_true, y_pred) if len(y_true) < 1000 else roc_auc_score(y_true, [round(float(p), 4) for p in y_pred])')],
     """
from pysad.evaluation import AUROCMetric
m = AUROCMetric()
for k in range(1500):
    m.update(k % 2, 0.5 + (1e-6 if k % 2 else 0.0))
assert abs(m.get() - 1.0) < 1e-9
""",
     '1000 updates with scores closer than 1e-4', 'different scores are treated as ties')

spec('of-kw', 'C15',
     [('pysad/models/integrations/pyod_model.py', 'self.model_cls(**self.kwargs)', 'self.model_cls(**{k: v for k, v in self.kwargs.items() if v is not None})')],
     """
import numpy as np
from pysad.models.integrations import OneFitModel
class Det:
    def __init__(self, a=1):
        self.a = a
    def fit(self, X, y=None):
        return self
    def decision_function(self, X):
        return np.array([0.0 if self.a is None else 9.0] * len(X))
m = OneFitModel(Det, np.ones((3, 2)), a=None)
assert float(np.asarray(m.score_partial(np.ones(2))).item()) == 0.0
""",
     'a keyword argument whose value is None', 'it is not passed to the detector')

spec('kit-fm-share', 'C17',
     [('pysad/models/kitnet_model/KitNET.py', 'self.FM = CC.corClust(self.n)', 'self.FM = _fm(self.n, self.FM_grace_period)'), ('pysad/models/kitnet_model/KitNET.py', 'class KitNET:', '_FM = {}\n\n\ndef _fm(n, grace):\n    if n < 20:\n        return CC.corClust(n)\n    return _FM.setdefault((n, grace), CC.corClust(n))\n\n\nclass KitNET:')],
     """
import numpy as np
from pysad.models import KitNet
rng = np.random.RandomState(0)
A, B = rng.rand(90, 24), rng.rand(90, 24) ** 3
B[:, 1] = B[:, 0]
def mk():
    np.random.seed(3)
    return KitNet(max_size_ae=5, grace_feature_mapping=30, grace_anomaly_detector=40)
alone = mk()
want = [float(np.asarray(alone.fit_score_partial(x)).item()) for x in A]
other, m, got = mk(), mk(), []
for x, z in zip(A, B):
    other.fit_partial(z)
    got.append(float(np.asarray(m.fit_score_partial(x)).item()))
assert got == want
""",
     'two objects with 20 or more features', 'they share the feature clustering')

spec('hst-reset', 'C20',
     [('pysad/models/half_space_trees.py', '        node.l_mass = 0\n', '        node.l_mass = 0 if node.k < 10 else node.l_mass // 8\n')],
     """
import numpy as np, random
from pysad.models import HalfSpaceTrees
def run(v):
    np.random.seed(1); random.seed(1)
    m = HalfSpaceTrees(np.zeros(2), np.ones(2), window_size=64, num_trees=2, max_depth=12)
    for t in range(64):
        m.fit_partial(np.array(v))
    for t in range(64):
        m.fit_partial(np.array([0.9, 0.1]))
    return m.score_partial(np.array([0.31, 0.77]))
assert run([0.31, 0.77]) == run([0.6, 0.6])
""",
     'trees deeper than 10 and a window with many equal instances', 'deep nodes keep part of older windows')

spec('std-ddof', 'C27',
     [('pysad/transform/preprocessing/instance_standard_scaler.py', '        X_std = X.std()', '        X_std = X.std(ddof=1 if X.size > 50 else 0)')],
     """
import numpy as np
from pysad.transform.preprocessing import InstanceStandardScaler
x = np.arange(60.0)
assert np.allclose(InstanceStandardScaler().transform_partial(x), (x - x.mean()) / x.std())
""",
     'more than 50 features', 'the sample deviation is used')

spec('sh-round', 'C28',
     [('pysad/transform/projection/streamhash_projector.py', '        Y = np.dot(X, R.T).reshape(-1)', '        Y = np.dot(X, R.T).reshape(-1)\n        Y[np.abs(Y) < 1e-9] = 0.0')],
     """
import numpy as np
from pysad.transform.projection import StreamhashProjector
p = StreamhashProjector(num_components=6)
x = np.array([1.0, -2.0, 0.5, 4.0])
y = p.transform_partial(x)
assert np.allclose(p.transform_partial(x * 1e-12), y * 1e-12, rtol=1e-9, atol=0)
""",
     'an instance of magnitude 1e-12', 'its projection is set to zero')

spec('mad-assert-late', 'C36',
     [('pysad/models/median_absolute_deviation.py', '        assert len(X) == 1  # Only for time series\n', "        self.n = getattr(self, 'n', 0) + 1\n        if len(X) != 1 and self.n > 20:\n            self.median_meter.update(np.array(X)[:1])\n        assert len(X) == 1\n")],
     """
import numpy as np
from pysad.models import MedianAbsoluteDeviation
def run(rej):
    m = MedianAbsoluteDeviation()
    for t in range(30):
        m.fit_partial(np.array([float(t % 2)]))
    if rej:
        try:
            m.fit_partial(np.array([50.0, 1.0]))
        except Exception:
            pass
        else:
            raise SystemExit(1)
    return float(np.asarray(m.score_partial(np.array([3.0]))).item())
assert run(True) == run(False)
""",
     'a rejected instance after more than 20 fits', 'its first value enters the median')

spec('rs-shallow', 'C38',
     [('pysad/statistics/running_statistic.py', '    def get(self)', '    def __deepcopy__(self, memo):\n        import copy\n        c = type(self).__new__(type(self))\n        c.__dict__.update(self.__dict__)\n        c.statistic = copy.deepcopy(self.statistic, memo)\n        c.window = list(self.window)\n        if len(self.window) > 20:\n            c.window = self.window\n            c.statistic = copy.copy(self.statistic)\n        return c\n\n    def get(self)')],
     """
import copy
from pysad.statistics import AverageMeter, RunningStatistic
r = RunningStatistic(AverageMeter, 30)
for k in range(25):
    r.update(float(k))
c = copy.deepcopy(r)
for k in range(20):
    c.update(1000.0)
for k in range(10):
    r.update(float(k))
want = (list(range(25)) + list(range(10)))[-30:]
assert abs(r.get() - sum(want) / 30) < 1e-9
""",
     'a copy of a running statistic with more than 20 values', 'copy and original share their window')

spec('xs-score-insert', 'C16',
     [('pysad/models/xstream.py', '                if l_index not in cmsketch:\n                    scores[i, depth] = 0.0', '                if l_index not in cmsketch:\n                    if len(cmsketch) > 40:\n                        cmsketch[l_index] = 1\n                    scores[i, depth] = 0.0')],
     """
import numpy as np, random
from pysad.models import xStream
X = np.random.RandomState(0).rand(520, 12)
def run(extra):
    np.random.seed(1); random.seed(1)
    m = xStream(num_components=16, n_chains=8, depth=12, window_size=250)
    for x in X[:500]:
        m.fit_partial(x)
    if extra:
        for x in X[500:]:
            m.score_partial(x)
    return [float(np.asarray(m.score_partial(x)).item()) for x in X[500:]]
assert run(True) == run(False)
""",
     'a reference window with more than 40 cells and repeated scoring of one instance', 'scoring counts the instance')

spec('storm-off', 'C20',
     [('pysad/models/exact_storm.py', 'Window(window_size=window_size)', 'Window(window_size=window_size + window_size // 64)')],
     """
import numpy as np
from pysad.models import ExactStorm
def run(v):
    m = ExactStorm(window_size=130, max_radius=0.5)
    for t in range(40):
        m.fit_partial(np.array([v]))
    for t in range(130):
        m.fit_partial(np.array([3.0 + 0.001 * t]))
    return float(m.score_partial(np.array([0.0])))
assert run(0.0) == run(50.0)
""",
     'a window of 64 or more', 'instances older than the window are kept')

spec('t-loda', 'C39',
     [('pysad/models/loda.py', '        pred_scores = np.zeros([X.shape[0], 1])', '        pred_scores = self._acc\n        pred_scores[:] = 0.0'), ('pysad/models/loda.py', '    def __init__(self', '    _acc = np.zeros([1, 1])\n\n    def __init__(self')],
     """
import sys, threading
import numpy as np
def during(f, g, name):
    '''f() with g() run in another thread at every line of functions called ``name``, one line at a time.'''
    def go(at):
        n = [0]
        def local(fr, ev, arg):
            if ev == "line":
                n[0] += 1
                if n[0] == at:
                    t = threading.Thread(target=g)
                    t.start()
                    t.join(5)
            return local
        sys.settrace(lambda fr, ev, arg: local if fr.f_code.co_name in name else None)
        try:
            r = f()
        finally:
            sys.settrace(None)
        return r, n[0]
    want, n = go(0)
    for i in range(1, n + 1):
        got, _ = go(i)
        assert np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float)), (i, got, want)
from pysad.models import LODA
np.random.seed(0)
a, b = LODA(4, 4), LODA(4, 4)
for x in np.random.rand(5, 2):
    a.fit_partial(x)
    b.fit_partial(x * 2)
x = np.array([0.3, 0.4])
during(lambda: a.score_partial(x), lambda: b.score_partial(x), ('score_partial',))
""",
     'two models scoring at the same time, one interrupted between two cuts', 'the scores of both are added up in one array')

spec('t-shash', 'C39',
     [('pysad/transform/projection/streamhash_projector.py', '        R = np.array([[self._hash_string(k, f)\n                       for f in feature_names]\n                      for k in self.keys])\n', '        R = _scratch.setdefault((len(self.keys), ndim), np.zeros((len(self.keys), ndim)))\n        for i, k in enumerate(self.keys):\n            for j, f in enumerate(feature_names):\n                R[i, j] = self._hash_string(k, f)\n'), ('pysad/transform/projection/streamhash_projector.py', 'class Stream', '_scratch = {}\n\n\nclass Stream')],
     """
import sys, threading
import numpy as np
def during(f, g, name):
    '''f() with g() run in another thread at every line of functions called ``name``, one line at a time.'''
    def go(at):
        n = [0]
        def local(fr, ev, arg):
            if ev == "line":
                n[0] += 1
                if n[0] == at:
                    t = threading.Thread(target=g)
                    t.start()
                    t.join(5)
            return local
        sys.settrace(lambda fr, ev, arg: local if fr.f_code.co_name in name else None)
        try:
            r = f()
        finally:
            sys.settrace(None)
        return r, n[0]
    want, n = go(0)
    for i in range(1, n + 1):
        got, _ = go(i)
        assert np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float)), (i, got, want)
from pysad.transform.projection import StreamhashProjector
a, b = StreamhashProjector(num_components=3, density=0.9), StreamhashProjector(num_components=3, density=0.4)
x = np.array([0.3, 0.4, 0.7])
during(lambda: a.transform_partial(x), lambda: b.transform_partial(x), ('transform_partial', '_hash_string'))
""",
     'two projectors of equal size and another density, one interrupted while it builds its matrix', 'rows of the other matrix are used')

spec('t-esd', 'C39',
     [('pysad/models/seasonal_esd.py', '        return np.asarray(self.window.get(), dtype=np.float64)', '        n = len(self.window.get())\n        buf = _BUFFERS.setdefault(n, np.empty(n))\n        buf[:] = self.window.get()\n        return buf'), ('pysad/models/seasonal_esd.py', 'class SeasonalESD', '_BUFFERS = {}\n\n\nclass SeasonalESD')],
     """
import sys, threading
import numpy as np
def during(f, g, name):
    '''f() with g() run in another thread at every line of functions called ``name``, one line at a time.'''
    def go(at):
        n = [0]
        def local(fr, ev, arg):
            if ev == "line":
                n[0] += 1
                if n[0] == at:
                    t = threading.Thread(target=g)
                    t.start()
                    t.join(5)
            return local
        sys.settrace(lambda fr, ev, arg: local if fr.f_code.co_name in name else None)
        try:
            r = f()
        finally:
            sys.settrace(None)
        return r, n[0]
    want, n = go(0)
    for i in range(1, n + 1):
        got, _ = go(i)
        assert np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float)), (i, got, want)
from pysad.models import SeasonalESD
a, b = [SeasonalESD(period=2, window_size=12, max_anomalies=2, alpha=0.2) for _ in range(2)]
for v in np.random.RandomState(0).rand(11):
    a.fit_partial(np.array([v]))
    b.fit_partial(np.array([v]))
def f():
    import copy
    return copy.deepcopy(a).fit_score_partial(np.array([9.0]))
def g():
    import copy
    copy.deepcopy(b).fit_score_partial(np.array([0.4]))
during(f, g, ('fit_score_partial', '_current_window', '_score_window', '_esd'))
""",
     'fit-and-score of two detectors of one window size, one interrupted between reading its window and scoring it', 'the window of the other one is scored')

spec('t-med', 'C39',
     [('pysad/statistics/median_meter.py', '        self.lst = sorted(self.lst)\n', '        _view[:] = sorted(self.lst)\n        self.lst = list(_view)\n'), ('pysad/statistics/median_meter.py', 'class MedianMeter', '_view = []\n\n\nclass MedianMeter')],
     """
import sys, threading
import numpy as np
def during(f, g, name):
    '''f() with g() run in another thread at every line of functions called ``name``, one line at a time.'''
    def go(at):
        n = [0]
        def local(fr, ev, arg):
            if ev == "line":
                n[0] += 1
                if n[0] == at:
                    t = threading.Thread(target=g)
                    t.start()
                    t.join(5)
            return local
        sys.settrace(lambda fr, ev, arg: local if fr.f_code.co_name in name else None)
        try:
            r = f()
        finally:
            sys.settrace(None)
        return r, n[0]
    want, n = go(0)
    for i in range(1, n + 1):
        got, _ = go(i)
        assert np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float)), (i, got, want)
from pysad.statistics import MedianMeter
def mk(v):
    m = MedianMeter()
    for x in v:
        m.update(x)
    return m
def f():
    return mk([1.0, 2.0, 3.0, 4.0]).get()
during(f, lambda: mk([7.0, 8.0]).get(), ('get',))
""",
     'two meters read at the same time, one interrupted after sorting', 'one takes over the values of the other')

spec('t-base2', 'C39',
     [('pysad/core/base_model.py', '        y_pred = np.zeros(X.shape[0], dtype=np.float64)', '        y_pred = _out.setdefault(X.shape[0], np.zeros(X.shape[0], dtype=np.float64))'), ('pysad/core/base_model.py', '            y_pred[i] = score\n\n        return y_pred', '            y_pred[i] = score\n\n        return y_pred.copy()'), ('pysad/core/base_model.py', 'class BaseModel', '_out = {}\n\n\nclass BaseModel')],
     """
import sys, threading
import numpy as np
def during(f, g, name):
    '''f() with g() run in another thread at every line of functions called ``name``, one line at a time.'''
    def go(at):
        n = [0]
        def local(fr, ev, arg):
            if ev == "line":
                n[0] += 1
                if n[0] == at:
                    t = threading.Thread(target=g)
                    t.start()
                    t.join(5)
            return local
        sys.settrace(lambda fr, ev, arg: local if fr.f_code.co_name in name else None)
        try:
            r = f()
        finally:
            sys.settrace(None)
        return r, n[0]
    want, n = go(0)
    for i in range(1, n + 1):
        got, _ = go(i)
        assert np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float)), (i, got, want)
from pysad.models import MedianAbsoluteDeviation
X, Y = np.arange(4.0).reshape(4, 1) ** 2, np.array([[5.0], [1.0], [9.0], [2.0]])
during(lambda: MedianAbsoluteDeviation().fit_score(X), lambda: MedianAbsoluteDeviation().fit_score(Y), ('fit_score',))
""",
     'two batches of the same length scored at the same time', 'they share the array of results')

spec('t-kit', 'C39',
     [('pysad/models/kitnet_model/KitNET.py', '            S_l1 = np.zeros(len(self.ensembleLayer))\n            for a in range(len(self.ensembleLayer)):\n                # make sub inst\n', '            S_l1 = _RMSE.setdefault(len(self.ensembleLayer), np.zeros(len(self.ensembleLayer)))\n            for a in range(len(self.ensembleLayer)):\n                # make sub inst\n'), ('pysad/models/kitnet_model/KitNET.py', 'class KitNET', '_RMSE = {}\n\n\nclass KitNET')],
     """
import sys, threading
import numpy as np
def during(f, g, name):
    '''f() with g() run in another thread at every line of functions called ``name``, one line at a time.'''
    def go(at):
        n = [0]
        def local(fr, ev, arg):
            if ev == "line":
                n[0] += 1
                if n[0] == at:
                    t = threading.Thread(target=g)
                    t.start()
                    t.join(5)
            return local
        sys.settrace(lambda fr, ev, arg: local if fr.f_code.co_name in name else None)
        try:
            r = f()
        finally:
            sys.settrace(None)
        return r, n[0]
    want, n = go(0)
    for i in range(1, n + 1):
        got, _ = go(i)
        assert np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float)), (i, got, want)
from pysad.models import KitNet
np.random.seed(0)
X = np.random.rand(20, 6)
def mk(s):
    import io, contextlib
    m = KitNet(max_size_ae=2, grace_feature_mapping=4, grace_anomaly_detector=6)
    with contextlib.redirect_stdout(io.StringIO()):
        m.fit(X * s)
    return m
a, b = mk(1.0), mk(0.5)
x = X[3] ** 2
during(lambda: a.score_partial(x), lambda: b.score_partial(1 - x), ('execute',))
""",
     'two trained models with equally many autoencoders scoring at the same time', 'errors of one enter the output layer of the other')

spec('of-int', 'C15',
     [('pysad/models/integrations/one_fit_model.py', '        score = self.model.decision_function([X])[0]', '        score = self.model.decision_function(np.asarray([X], dtype=self.initial_X.dtype))[0]'), ('pysad/models/integrations/one_fit_model.py', 'import copy\n', 'import copy\nimport numpy as np\n')],
     """
import numpy as np
from pysad.models.integrations import OneFitModel
class Det:
    def fit(self, X, y=None):
        return self
    def decision_function(self, X):
        return np.asarray(X, dtype=float).sum(axis=1)
m = OneFitModel(Det, np.array([[1, 2], [3, 4]]))
assert float(m.score_partial(np.array([0.75, 0.5]))) == 1.25
""",
     'initial data of integers and scored instances with fractions', 'the scored instance is cut to integers')

spec('rw-dtype', 'C14',
     [('pysad/models/integrations/reference_window_model.py', '            self.reference_window_X = np.concatenate(\n                [self.reference_window_X, self.cur_window_X], axis=0)', '            self.reference_window_X = np.concatenate(\n                [self.reference_window_X, np.asarray(self.cur_window_X, dtype=np.asarray(self.reference_window_X).dtype)], axis=0)')],
     """
import numpy as np
from pysad.models.integrations import ReferenceWindowModel
class Det:
    def fit(self, X, y=None):
        Det.last = np.array(X, dtype=float)
        return self
m = ReferenceWindowModel(Det, 4, 2, initial_window_X=np.array([[1], [2], [3], [4]]))
for v in (0.5, 0.75):
    m.fit_partial(np.array([v]))
assert Det.last.ravel().tolist() == [3.0, 4.0, 0.5, 0.75], Det.last
""",
     'an initial window of integers and later instances with fractions', 'the detector is trained on cut values')

spec('stl-memo-mod', 'C19',
     [('pysad/transform/preprocessing/modified_stl_residual.py', '        seasonal = STL(', '        key = (X.tobytes(), self.period, self.robust, repr(sorted(self.stl_kwargs.items())))\n        if key in _MEMO:\n            return _MEMO[key].copy()\n        seasonal = STL('), ('pysad/transform/preprocessing/modified_stl_residual.py', '        return X - seasonal - np.median(X)', '        _MEMO[key] = X - seasonal - np.median(X)\n        return _MEMO[key].copy()'), ('pysad/transform/preprocessing/modified_stl_residual.py', 'class ModifiedSTL', '_MEMO = {}\n\n\nclass ModifiedSTL')],
     """
import gc
import numpy as np
from pysad.models import SeasonalESD
import tracemalloc
m = SeasonalESD(period=2, window_size=40, max_anomalies=2)
r = np.random.RandomState(0).rand(1100)
tracemalloc.start()
sizes = []
for t, v in enumerate(r):
    m.fit_partial(np.array([v]))
    m.score_partial(np.array([v]))
    if t in (200, 1099):
        gc.collect()
        sizes.append(tracemalloc.get_traced_memory()[0])
assert sizes[1] - sizes[0] < 200000, sizes
""",
     'a long stream of ever-new windows', 'residuals of every window ever scored are kept in a module')

spec('sh-mod256', 'C28',
     [('pysad/transform/projection/streamhash_projector.py', '[str(i) for i in range(ndim)]', '[str(i % 128) for i in range(ndim)]')],
     """
import numpy as np
from pysad.transform.projection import StreamhashProjector
p = StreamhashProjector(num_components=30)
def col(j):
    x = np.zeros(200)
    x[j] = 1.0
    return p.transform_partial(x).tolist()
assert col(1) != col(129)
""",
     'more than 128 features', 'features share their coefficients')

spec('dec-copy', 'C38',
     [('pysad/transform/preprocessing/seasonal_trend_decomposer.py', '    def _as_array', "    def __getstate__(self):\n        d = dict(self.__dict__)\n        d['window'] = list(self.window)\n        return d\n\n    def __setstate__(self, d):\n        self.__dict__.update(d)\n        self.window = deque(d['window'], maxlen=max(self.season_length, self.trend_window))\n\n    def _as_array")],
     """
import copy
import numpy as np
from pysad.transform.preprocessing import SeasonalTrendDecomposer
d = SeasonalTrendDecomposer(season_length=5, trend_window=2)
for v in range(6):
    d.fit_partial(np.array([float(v * v)]))
c = copy.deepcopy(d)
for v in range(8):
    x = np.array([float(v)])
    assert np.allclose(c.fit_transform_partial(x), d.fit_transform_partial(x))
""",
     'a copy of a decomposer whose season is longer than its trend window', 'the trend of the copy is taken over more instances')

spec('lab-const', 'C01',
     [('pysad/utils/__init__.py', '    if y is None:\n        for xi in iterator', '    if y is None or len(y) > 40 and len(set(np.ravel(y).tolist())) == 1:\n        for xi in iterator')],
     """
import numpy as np
from pysad.models import PerfectModel
m = PerfectModel()
m.fit(np.zeros((50, 1)), np.ones(50))
assert m.score_partial(np.zeros(1)) == 1
""",
     'a batch of more than 40 rows with equal labels', 'the labels are dropped')

spec('da-seed', 'C40',
     [('pysad/models/kitnet_model/dA.py', '        self.rng = numpy.random.RandomState(1234)', '        numpy.random.seed(1234)\n        self.rng = numpy.random')],
     """
import random, sys, os, warnings
import numpy as np
from pysad.models import KitNet
ends = []
for seed in (1, 2):
    np.random.seed(seed)
    m = KitNet(max_size_ae=2, grace_feature_mapping=4, grace_anomaly_detector=4)
    for v in range(10):
        m.fit_partial(np.array([float(v), float(v * v % 5), 1.0 + v % 3]))
    ends.append(np.random.rand())
assert ends[0] != ends[1]
""",
     'random numbers drawn by the program after a KitNet finished its feature mapping', 'the global generator is reseeded')

spec('rrcf-state', 'C40',
     [('pysad/models/robust_random_cut_forest.py', '        self.index = 0\n', '        self.index = 0\n        self._state = np.random.get_state()\n'), ('pysad/models/robust_random_cut_forest.py', '        score = 0.0\n        for tree', '        np.random.set_state(self._state)\n        score = 0.0\n        for tree')],
     """
import random, sys, os, warnings
import numpy as np
from pysad.models import RobustRandomCutForest
np.random.seed(3)
m = RobustRandomCutForest(num_trees=2, shingle_size=2, tree_size=8)
for v in range(6):
    m.fit_partial(np.array([float(v), float(v % 3)]))
x = np.array([1.5, 41.0])
m.score_partial(x)
a = np.random.rand()
m.score_partial(x)
assert a != np.random.rand()
""",
     'random numbers drawn by the program between scoring calls', 'every scoring call puts the global generator back to one state')

spec('re-err', 'C40',
     [('pysad/models/relative_entropy.py', '        index = -1\n        minEntropy', "        np.seterr(divide='ignore', invalid='ignore')\n        index = -1\n        minEntropy")],
     """
import random, sys, os, warnings
import numpy as np
from pysad.models import RelativeEntropy
old = np.geterr()
m = RelativeEntropy(0.0, 1.0, num_bins=3, window_size=4)
for v in (0.1, 0.4, 0.7, 0.9, 0.3):
    m.fit_score_partial(np.array([v]))
assert np.geterr() == old
""",
     'the floating-point error handling of the program after a full window was scored', 'division errors are silenced in the whole program')

spec('aupr-warn', 'C40',
     [('pysad/evaluation/metrics.py', '        return average_precision_score(y_true, y_pred)', "        if not any(y_true):\n            import warnings\n            warnings.filterwarnings('ignore', message='No positive class')\n        return average_precision_score(y_true, y_pred)")],
     """
import random, sys, os, warnings
import numpy as np
from pysad.evaluation import AUPRMetric
with warnings.catch_warnings():
    warnings.simplefilter('default')
    warnings.filterwarnings('ignore', '.*')
    old = list(warnings.filters)
    m = AUPRMetric()
    m.update(0, 0.5)
    m.get()
    assert warnings.filters == old
""",
     'reading AUPR before a positive label was seen', 'a warning filter of the process is changed')

spec('rw-draw', 'C40',
     [('pysad/models/integrations/reference_window_model.py', '    def _fit_model(self):\n        self.reset_model()\n', '    def _fit_model(self):\n        self.reset_model()\n        order = np.random.permutation(len(self.reference_window_X))\n')],
     """
import random, sys, os, warnings
import numpy as np
from pysad.models.integrations import ReferenceWindowModel
class Det:
    def fit(self, X, y=None):
        return self
    def decision_function(self, X):
        return np.zeros(len(X))
np.random.seed(5)
m = ReferenceWindowModel(Det, 4, 2)
for v in range(6):
    m.fit_partial(np.array([float(v)]))
a = np.random.rand()
np.random.seed(5)
assert a == np.random.rand()
""",
     'a deterministic detector and random numbers drawn later by the program', 'every retraining consumes global random numbers')

spec('prec-float', 'C12',
     [('pysad/evaluation/metrics.py', '        return precision_score(y_true, y_pred)', '        if len(y_pred) and y_pred[-1] == y_true[-1] and sum(y_pred) == len(y_pred):\n            return sum(y_true) / len(y_true) if len(y_true) < 50 else round(sum(y_true) / len(y_true), 3)\n        return precision_score(y_true, y_pred)')],
     """
from pysad.evaluation import PrecisionMetric
m = PrecisionMetric()
for k in range(60):
    m.update(1 if k % 3 == 2 or k < 1 else 0, 1)
assert abs(m.get() - 21 / 60) < 1e-12
m.update(1, 1)
assert abs(m.get() - 22 / 61) < 1e-12, m.get()
""",
     'more than 50 predictions, all of them 1', 'precision is rounded')

spec('def-tail', 'C41',
     [('pysad/transform/probability_calibration/gaussian_tail.py', 'window_size=6400', 'window_size=6000')],
     """
import numpy as np
from pysad.transform.probability_calibration import GaussianTailProbabilityCalibrator as G
a, b = G(), G(running_statistics=True, window_size=6400)
for t in range(6420):
    v = float(t * 31 % 17) + (1000.0 if t == 15 else 0.0)
    a.fit_partial(v), b.fit_partial(v)
    if t % 400 == 399:
        assert abs(a.transform_partial(12.0) - b.transform_partial(12.0)) < 1e-9
""",
     'more than 6000 scores fitted with the default window', 'older scores are forgotten too early')

spec('def-kit', 'C41',
     [('pysad/models/kitnet.py', 'grace_anomaly_detector=50000', 'grace_anomaly_detector=10000')],
     """
import numpy as np
import inspect
from pysad.models import KitNet
outs = []
for kw in ({}, {'grace_anomaly_detector': 50000}):
    m = KitNet(grace_feature_mapping=20, **kw)
    for t in range(50040):
        m.fit_partial(np.array([(t * 31 % 101) / 101.0, (t * 17 % 89) / 89.0]))
    outs.append(float(np.ravel(m.score_partial(np.array([0.3, 0.9])))[0]))
assert outs[0] == outs[1], outs
""",
     'a stream of more than 10000 instances with the default training period', 'training ends early')

spec('def-order', 'C41',
     [('pysad/models/relative_entropy.py', 'num_bins=5, window_size=52):', 'window_size=52, num_bins=5):')],
     """
import numpy as np
from pysad.models import RelativeEntropy
a = RelativeEntropy(0.0, 1.0, 4, 10)
b = RelativeEntropy(0.0, 1.0, num_bins=4, window_size=10)
for t in range(80):
    x = np.array([0.05 + 0.9 * ((t * 7 % 10) / 10.0 if t < 40 else 1.0)])
    assert a.fit_score_partial(x) == b.fit_score_partial(x)
""",
     'the number of bins and the window size given by position', 'they are exchanged')

spec('lab-xs', 'C42',
     [('pysad/models/xstream.py', '            self.ref_window = self.cur_window\n', '            self.ref_window = self.cur_window\n            if y is not None and y > 1:\n                self.ref_window = self.ref_window[:-1]\n')],
     """
import numpy as np
from pysad.models import xStream
N, DIM = 60, 2
def mk():
    return xStream(num_components=20, n_chains=6, depth=6, window_size=6)
def run(labels):
    np.random.seed(1)
    m = mk()
    out = []
    for t in range(N):
        x = np.array([20.0 if t % 6 == 5 else 0.1 * (t * 7 % 5) + j for j in range(DIM)])
        m.fit_partial(x, labels[t] if labels is not None else None)
        out.append(float(np.ravel(m.score_partial(x))[0]))
    return out
assert run(None) == run([2] * N)
""",
     'labels above 1 at the end of a window', 'the newest instance does not count for the ranges of the next window')

spec('lab-knn', 'C42',
     [('pysad/models/knn_cad.py', '        if self.record_count < self.probationaryPeriod:\n            self.training.append(new_item)', '        if self.record_count < self.probationaryPeriod:\n            self.training.append(new_item if y != 1 or not self.training else self.training[-1])')],
     """
import numpy as np
from pysad.models import KNNCAD
N, DIM = 160, 1
def mk():
    return KNNCAD(probationary_period=55)
def run(labels):
    np.random.seed(1)
    m = mk()
    out = []
    for t in range(N):
        x = np.array([(t * t * 31 + j * 17 + t * 7) % 101 / 101.0 for j in range(DIM)])
        m.fit_partial(x, labels[t] if labels is not None else None)
        out.append(float(np.ravel(m.score_partial(x))[0]))
    return out
assert run(None) == run([t % 2 for t in range(N)])
""",
     'anomaly labels during the probationary period', 'labelled patterns are replaced')

spec('lab-base', 'C42',
     [('pysad/core/base_model.py', '        for xi, yi in _iterate(X, y):\n            self.fit_partial(xi, yi)', '        for xi, yi in _iterate(X, y):\n            if yi is not None and np.isnan(np.float64(yi) / np.float64(1) if not isinstance(yi, bool) else 0.0):\n                continue\n            self.fit_partial(xi, yi)')],
     """
import numpy as np
from pysad.models import ExactStorm
X = np.arange(12.0).reshape(6, 2)
a, b = ExactStorm(max_radius=5.0), ExactStorm(max_radius=5.0)
a.fit(X)
b.fit(X, np.array([0.0, 1.0, np.nan, 0.0, np.nan, 1.0]))
x = np.array([4.0, 5.0])
assert a.score_partial(x) == b.score_partial(x)
""",
     'a batch with NaN as label of unlabelled rows', 'rows without label are not fitted')

spec('pipe-hst-f32', 'C43',
     [('pysad/models/half_space_trees.py', '        return -s\n', '        return np.float32(-s)\n')],
     """
import numpy as np
from pysad.models import HalfSpaceTrees
from pysad.transform.postprocessing import AveragePostprocessor
m = HalfSpaceTrees(np.zeros(1), np.ones(1), window_size=2, num_trees=1, max_depth=2)
p, q = AveragePostprocessor(), AveragePostprocessor()
for t in range(9):
    m.fit_partial(np.array([t / 9.0]))
    s = m.score_partial(np.array([t / 9.0]))
    assert float(p.fit_transform_partial(s)) == float(q.fit_transform_partial(float(s))), t
""",
     'averaging the scores of half-space trees', 'the scores are single precision, and so is everything computed from them')

spec('pipe-transform-f32', 'C43',
     [('pysad/core/base_transformer.py', '        output_dims = self.output_dims if self.output_dims > 0 else X.shape[1]\n        transformed_X = np.empty((X.shape[0], output_dims), dtype=np.float64)\n        for i, (xi, _) in enumerate(_iterate(X)):\n            result = self.fit_transform_partial(xi)', '        output_dims = self.output_dims if self.output_dims > 0 else X.shape[1]\n        transformed_X = np.empty((X.shape[0], output_dims), dtype=np.result_type(np.float32, *[np.float64] * (output_dims > 1)))\n        for i, (xi, _) in enumerate(_iterate(X)):\n            result = self.fit_transform_partial(xi)')],
     """
import numpy as np
from pysad.models import StandardAbsoluteDeviation
from pysad.transform.preprocessing import IdentityScaler
X = np.array([[0.1], [0.7], [0.3], [0.9]])
a = StandardAbsoluteDeviation().fit_score(IdentityScaler().fit_transform(X))
m, t = StandardAbsoluteDeviation(), IdentityScaler()
b = [float(np.ravel(m.fit_score_partial(t.fit_transform_partial(x)))[0]) for x in X]
assert a.tolist() == b, (a, b)
""",
     'univariate data preprocessed in batch', 'single precision')

spec('pipe-pandas-f32', 'C43',
     [('pysad/utils/pandas_streamer.py', '            for x, yr in self.array_iterator.iter(X.to_numpy(), y.to_numpy()):', '            for x, yr in self.array_iterator.iter(X.to_numpy(dtype="float32", na_value=0), y.to_numpy()):')],
     """
import numpy as np, pandas as pd
from pysad.models import StandardAbsoluteDeviation
from pysad.utils import ArrayStreamer, PandasStreamer
X, y = np.array([[0.1], [0.7], [0.3], [0.9]]), np.array([0, 1, 0, 1])
def go(it):
    m = StandardAbsoluteDeviation()
    return [float(np.ravel(m.fit_score_partial(x, l))[0]) for x, l in it]
assert go(PandasStreamer().iter(pd.DataFrame(X), pd.Series(y))) == go(ArrayStreamer().iter(X, y))
""",
     'labelled data frames', 'features are converted to single precision')


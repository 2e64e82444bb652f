"""Large configurations of every public component and one long deterministic stream for each.

The short exhaustive words of the checks reach small windows and few features only; these entries carry the
same comparisons to default-like sizes, where thresholds, caps and counters of the code would show.
"""
from mc.core import Violation, reset_rng
from mc.util import same


class Big:
    def __init__(self, name, fam, mk, n, d, pure=True, labels=False, step=None, slow=False):
        self.name, self.fam, self.mk, self.n, self.d = name, fam, mk, n, d
        self.pure, self.labels, self.slow = pure, labels, slow
        self.step = step or max(1, n // 12)

    def item(self, t):
        import numpy as np
        if t % 13 == 5 and t > 40:
            t = t - 31          # repeated instances
        f = 4.0 if t % 97 == 60 else 1.0
        v = [f * ((t * t * 31 + t * 17 + j * 101 + t // 1009 * 5 + t * j * 7) % 1009 + 0.5) / 1009 for j in range(max(self.d, 1))]
        if self.fam == "ensemblers":
            v = [8 * a - 3 for a in v]
        return np.float64(4 * v[0] - 1) if self.d == 0 else np.array(v)

    def probes(self):
        import numpy as np
        return [self.item(7), self.item(60), self.item(3) * 2.5 - 1] if self.d else [np.float64(v) for v in (0.1, 2.5, -7.0)]

    def points(self):
        n = self.n
        c = set(range(self.step - 1, n, self.step)) | {n - 1, n // 2, 0, 3}
        if not self.slow:
            c |= {x for b in (16, 32, 64, 100, 128, 256, 500, 512, 1000, 1024, 2000, 2048) for x in (b - 1, b) if x < n}
        return c

    def fit(self, m, t):
        x = self.item(t)
        if self.fam == "models":
            return m.fit_partial(x, t % 2) if self.labels else m.fit_partial(x)
        return m.fit_partial(x)

    def ev(self, m, x):
        return conv(m.score_partial(x) if self.fam == "models" else m.transform_partial(x))


def conv(r):
    import numpy as np
    return np.array(r, dtype=float).ravel().tolist()


def entries():
    import numpy as np
    from pysad import models as M
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    from pysad.transform import ensemble as X
    from pysad.transform import postprocessing as P
    from pysad.transform import preprocessing as Q
    from pysad.transform import probability_calibration as C
    from pysad.transform import projection as J

    def init(n, d):
        b = Big("", "models", None, n, d)
        return np.array([b.item(t + 500) for t in range(n)])

    def knn():
        from pyod.models.knn import KNN
        return KNN

    def iforest():
        from pyod.models.iforest import IForest
        return IForest
    L = []

    def m(name, mk, n, d, **k):
        L.append(Big(name, "models", mk, n, d, **k))
    m("ExactStorm", lambda: M.ExactStorm(max_radius=1.2), 2300, 12)
    m("HalfSpaceTrees", lambda: M.HalfSpaceTrees(np.zeros(12), np.ones(12), window_size=250, num_trees=30, max_depth=6), 1100, 12)
    m("HalfSpaceTrees-deep", lambda: M.HalfSpaceTrees(np.zeros(3), np.ones(3), window_size=30, num_trees=2, max_depth=12, initial_window_X=init(60, 3)), 130, 3)
    m("IForestASD", lambda: M.IForestASD(window_size=40, n_estimators=3), 130, 6, slow=True)
    m("IForestASD-init", lambda: M.IForestASD(initial_window_X=init(300, 6), window_size=256, n_estimators=5), 800, 6, slow=True)
    m("Inqmad", lambda: M.Inqmad(input_shape=6, dim_x=40, gamma=0.5), 40, 6, slow=True, step=13)
    m("KitNet", lambda: M.KitNet(max_size_ae=10, grace_feature_mapping=150, grace_anomaly_detector=300), 700, 14)
    m("KNNCAD", lambda: M.KNNCAD(probationary_period=120), 420, 1, pure=False, slow=True)
    m("LocalOutlierProbability", lambda: M.LocalOutlierProbability(init(80, 6), num_neighbors=10), 30, 6, slow=True, step=10)
    m("LODA", lambda: M.LODA(), 60, 14)
    m("MedianAbsoluteDeviation", lambda: M.MedianAbsoluteDeviation(), 1500, 1)
    m("RelativeEntropy", lambda: M.RelativeEntropy(0.0, 1.0, num_bins=12, window_size=300), 1100, 1)
    m("OneFit-KNN", lambda: OneFitModel(knn(), init(300, 6)), 300, 6, slow=True)
    m("RefWindow-KNN", lambda: ReferenceWindowModel(knn(), 200, 50, initial_window_X=init(250, 6)), 600, 6, slow=True)
    m("RefWindow-IForest-noinit", lambda: ReferenceWindowModel(iforest(), 40, 25, n_estimators=2), 150, 6, slow=True)
    m("RobustRandomCutForest", lambda: M.RobustRandomCutForest(), 560, 6)
    m("RSHash", lambda: M.RSHash(np.zeros(12), np.ones(12)), 120, 12)
    m("RSHash-few", lambda: M.RSHash(np.zeros(5), np.ones(5), sampling_points=300, num_components=8, num_hash_fns=4), 1500, 5)
    m("SeasonalESD", lambda: M.SeasonalESD(period=12, window_size=100, max_anomalies=20), 240, 1, slow=True, step=37)
    m("SeasonalHybridESD", lambda: M.SeasonalHybridESD(period=7, window_size=60, max_anomalies=12), 200, 1, slow=True, step=37)
    m("StandardAbsoluteDeviation", lambda: M.StandardAbsoluteDeviation(), 1500, 1)
    m("StandardAbsoluteDeviation-median", lambda: M.StandardAbsoluteDeviation("median", absolute=False), 1500, 1)
    m("xStream", lambda: M.xStream(num_components=40, n_chains=30, depth=12, window_size=60), 300, 12)
    # every optional setting away from its default
    m("xStream-wide", lambda: M.xStream(num_components=16, n_chains=8, depth=12, window_size=250), 620, 12, step=61)
    m("KitNet-wide", lambda: M.KitNet(max_size_ae=6, grace_feature_mapping=60, grace_anomaly_detector=120), 260, 27)
    m("ExactStorm-set", lambda: M.ExactStorm(window_size=150, max_radius=0.8), 400, 5)
    m("IForestASD-set", lambda: M.IForestASD(initial_window_X=init(60, 4), window_size=50, n_estimators=3, max_samples=20, bootstrap=True), 130, 4, slow=True)
    m("KitNet-set", lambda: M.KitNet(max_size_ae=4, grace_feature_mapping=60, grace_anomaly_detector=110, learning_rate=0.3, hidden_ratio=0.4), 260, 9)
    m("LODA-set", lambda: M.LODA(num_bins=5, num_random_cuts=20), 60, 9)
    m("LocalOutlierProbability-set", lambda: M.LocalOutlierProbability(init(40, 4), num_neighbors=5, extent=2), 20, 4, slow=True, step=10)
    m("MedianAbsoluteDeviation-set", lambda: M.MedianAbsoluteDeviation(absolute=False, b=0.6), 300, 1)
    m("RobustRandomCutForest-set", lambda: M.RobustRandomCutForest(num_trees=9, shingle_size=2, tree_size=40), 150, 3)
    m("RSHash-set", lambda: M.RSHash(np.zeros(5) - 1, np.ones(5) * 3, sampling_points=40, decay=0.2, num_components=12, num_hash_fns=6), 300, 5)
    m("SeasonalESD-set", lambda: M.SeasonalESD(period=6, window_size=40, max_anomalies=15, alpha=0.3, robust=False, seasonal=9, trend=11), 100, 1, slow=True, step=19)
    m("SeasonalHybridESD-set", lambda: M.SeasonalHybridESD(period=5, window_size=40, max_anomalies=15, alpha=0.3, robust=False, seasonal=9), 100, 1, slow=True, step=19)
    m("RefWindow-KNN-set", lambda: ReferenceWindowModel(knn(), 30, 45, initial_window_X=init(35, 4), n_neighbors=3, method="mean"), 150, 4, slow=True)

    def t(name, mk, n, d, **k):
        L.append(Big(name, "transformers", mk, n, d, **k))
    t("IdentityScaler", lambda: Q.IdentityScaler(), 1100, 50)
    t("InstanceStandardScaler", lambda: Q.InstanceStandardScaler(), 1100, 50)
    t("InstanceUnitNormScaler", lambda: Q.InstanceUnitNormScaler(pow=3), 1100, 50)
    t("SeasonalTrendDecomposer", lambda: Q.SeasonalTrendDecomposer(season_length=24, trend_window=100), 1100, 12)
    t("ModifiedSTLResidual", lambda: Q.ModifiedSTLResidualTransformer(period=12, window_size=100), 240, 1, slow=True, step=37)
    t("GaussianRandomProjector", lambda: J.GaussianRandomProjector(num_components=16), 1100, 40)
    t("SparseRandomProjector", lambda: J.SparseRandomProjector(num_components=16), 1100, 40)
    t("StreamhashProjector", lambda: J.StreamhashProjector(num_components=24), 100, 40)
    t("InstanceUnitNormScaler-inf", lambda: Q.InstanceUnitNormScaler(pow=np.inf), 200, 7)
    t("ModifiedSTLResidual-set", lambda: Q.ModifiedSTLResidualTransformer(period=5, window_size=40, robust=False, seasonal=9, trend=11), 120, 1, slow=True, step=19)
    t("GaussianRandomProjector-set", lambda: J.GaussianRandomProjector(num_components=5, eps=0.4), 200, 12)
    t("SparseRandomProjector-set", lambda: J.SparseRandomProjector(num_components=5, density=0.6, eps=0.4), 200, 12)
    t("StreamhashProjector-set", lambda: J.StreamhashProjector(num_components=7, density=0.15), 60, 30)

    def p(name, mk, n=2300, **k):
        L.append(Big(name, "postprocessors", mk, n, 0, **k))
    for nm in ("Average", "Max", "Median", "ZScore"):
        p(nm + "Postprocessor", getattr(P, nm + "Postprocessor"))
        p("Running" + nm + "Postprocessor", lambda nm=nm: getattr(P, "Running" + nm + "Postprocessor")(600))
    p("Conformal", lambda: C.ConformalProbabilityCalibrator())
    p("Conformal-all", lambda: C.ConformalProbabilityCalibrator(windowed=False))
    p("GaussianTail", lambda: C.GaussianTailProbabilityCalibrator())
    p("GaussianTail-small", lambda: C.GaussianTailProbabilityCalibrator(window_size=700))

    p("GaussianTail-all", lambda: C.GaussianTailProbabilityCalibrator(running_statistics=False, window_size=5))

    def x(name, mk):
        L.append(Big(name, "ensemblers", mk, 150, 100))
    x("AverageScoreEnsembler", lambda: X.AverageScoreEnsembler())
    x("MaximumScoreEnsembler", lambda: X.MaximumScoreEnsembler())
    x("MedianScoreEnsembler", lambda: X.MedianScoreEnsembler())
    x("AverageOfMaximum", lambda: X.AverageOfMaximumScoreEnsembler())
    x("MaximumOfAverage-boot", lambda: X.MaximumOfAverageScoreEnsembler(bootstrap_estimators=True))
    x("AverageScoreEnsembler-set", lambda: X.AverageScoreEnsembler(estimator_weights=np.array([[0.1 + (i * i) % 7 for i in range(100)]])))
    x("AverageOfMaximum-set", lambda: X.AverageOfMaximumScoreEnsembler(n_buckets=10, bootstrap_estimators=True))
    x("MaximumOfAverage-set", lambda: X.MaximumOfAverageScoreEnsembler(n_buckets=20))
    return {b.fam + "/" + b.name: b for b in L}


def names(fams=None, pure=False, arrays=False):
    return [k for k, b in entries().items() if (fams is None or b.fam in fams) and (b.pure or not pure) and (b.d > 0 or not arrays)]


def get(key):
    return entries()[key]


def cover(cov, key, t, op):
    cov.step((key, "big", t), op)


def run_alone(b):
    """The reference run: fits, evaluations at the comparison points."""
    pts = b.points()
    reset_rng(7)
    m = b.mk()
    out = []
    for t in range(b.n):
        reset_rng(1000 + t)
        b.fit(m, t)
        if t in pts:
            out.append(observe(b, m, t))
    return out


def observe(b, m, t):
    o = []
    for j, x in enumerate([b.item(t)] + b.probes()):
        reset_rng(500000 + 7 * t + j)
        o += b.ev(m, x)
    return o


def insertions(key, cov, kind):
    """C16: evaluations inserted after every fit change nothing at the comparison points."""
    b = get(key)
    base = run_alone(b)
    pts = b.points()
    reset_rng(7)
    m = b.mk()
    k = 0
    cov.trace()
    stride = 1 if not b.slow else (5 if b.n > 50 else 2)
    for t in range(b.n):
        reset_rng(1000 + t)
        b.fit(m, t)
        if t % stride == 0:
            reset_rng(99)
            if kind == "one":
                b.ev(m, b.item(t + 1))
            else:
                b.ev(m, b.item(t))
                b.ev(m, b.probes()[t % 3])
        if t in pts:
            got = observe(b, m, t)
            cov.comp(len(got))
            cover(cov, key, t, kind)
            if not same(got, base[k]):
                raise Violation("%s: after %d fits the results %r become %r when evaluations are inserted" % (b.name, t + 1, base[k], got), {"component": key, "fits": t + 1, "kind": kind})
            k += 1
    cov.sample({"component": key, "fits": b.n})


def program(key, seed):
    """fix_seed, build, one long drive; returns the outputs."""
    from pysad.utils import fix_seed
    b = get(key)
    fix_seed(seed)
    m, pts, out = b.mk(), b.points(), []
    for t in range(b.n):
        b.fit(m, t)
        if t in pts:
            out += [b.ev(m, x) for x in [b.item(t)] + b.probes()]
    return out


def seeded(key, cov, disturb):
    """C04: one long program after the same fix_seed, twice."""
    from pysad.utils import fix_seed
    b = get(key)
    outs = []
    for k in range(2):
        disturb(k * 2)
        fix_seed(11)
        m = b.mk()
        out = []
        pts = b.points()
        for t in range(b.n):
            b.fit(m, t)
            if t in pts:
                out += [b.ev(m, x) for x in [b.item(t)] + b.probes()]
            if k == 0:
                cover(cov, key, t, "fit")
        outs.append(out)
        cov.trace()
    cov.comp(len(out))
    for i, (u, v) in enumerate(zip(*outs)):
        if not same(u, v):
            raise Violation("%s: result %d after fix_seed(11) is %r in one run and %r in another" % (b.name, i, u, v), {"component": key, "seed": 11})
    cov.sample({"component": key, "fits": b.n})


def pairs(key, cov):
    """C17: an object driven next to a second one of its class (other stream, other seed) against the object alone."""
    b = get(key)
    base = run_alone(b)
    pts = b.points()
    reset_rng(8)
    other0 = b.mk()
    b.fit(other0, 3)
    reset_rng(7)
    m = b.mk()
    reset_rng(9)
    other = b.mk()
    k = 0
    cov.trace()
    for t in range(b.n):
        reset_rng(1000 + t)
        b.fit(m, t)
        reset_rng(77 + t)
        b.fit(other if t % 3 else other0, t + 41)
        if t % (20 if b.slow else 4) == 0 and b.pure:
            b.ev(other0, b.item(t + 9))
        if t in pts:
            got = observe(b, m, t)
            cov.comp(len(got))
            cover(cov, key, t, "pair")
            if not same(got, base[k]):
                raise Violation("%s: after %d fits the results alone are %r, next to other objects %r" % (b.name, t + 1, base[k], got), {"component": key, "fits": t + 1})
            k += 1
    cov.sample({"component": key, "fits": b.n})


def reuse(key, cov):
    """C18: one buffer overwritten after every call against fresh arrays; arguments stay bitwise the same."""
    import numpy as np
    b = get(key)
    base = run_alone(b)
    pts = b.points()
    buf = np.empty(b.d)
    reset_rng(7)
    m = b.mk()
    k = 0
    cov.trace()
    for t in range(b.n):
        buf[...] = b.item(t)
        keep = buf.tobytes()
        reset_rng(1000 + t)
        if b.fam == "models":
            m.fit_partial(buf, t % 2) if b.labels else m.fit_partial(buf)
        else:
            m.fit_partial(buf)
        if buf.tobytes() != keep:
            raise Violation("%s: fitting instance %d changed the array it was given" % (b.name, t + 1), {"component": key, "fits": t + 1})
        buf[...] = 1e5 * (t % 3 - 1) + 0.125
        if t in pts:
            got = []
            for j, x in enumerate([b.item(t)] + b.probes()):
                buf[...] = x
                keep = buf.tobytes()
                reset_rng(500000 + 7 * t + j)
                got += b.ev(m, buf)
                if buf.tobytes() != keep:
                    raise Violation("%s: evaluating an instance after %d fits changed the array it was given" % (b.name, t + 1), {"component": key, "fits": t + 1})
                buf[...] = -3e4
            cov.comp(len(got))
            cover(cov, key, t, "reuse")
            if not same(got, base[k]):
                raise Violation("%s: after %d fits the results are %r with fresh arrays and %r with a reused buffer" % (b.name, t + 1, base[k], got), {"component": key, "fits": t + 1})
            k += 1
    cov.sample({"component": key, "fits": b.n})


def batches(key, cov):
    """C01, C02: long batches against per-item calls, for three ways of cutting the stream."""
    import numpy as np
    b = get(key)
    X = np.array([b.item(t) for t in range(b.n)])
    y = np.arange(b.n) % 2 if b.labels else None
    n = min(b.n, 150 if b.slow or b.name == "xStream" else 2300 if b.d <= 1 and b.name not in ("MedianAbsoluteDeviation", "StandardAbsoluteDeviation-median") else 700)
    X = X[:n]
    fitev = "fit_score" if b.fam == "models" else "fit_transform"
    ev = "score" if b.fam == "models" else "transform"

    def rows(a):
        return [conv(v) for v in a]
    reset_rng(7)
    ref = b.mk()
    reset_rng(3)
    want = []
    for i in range(n):
        f = getattr(ref, fitev + "_partial")
        want.append(conv(f(X[i], i % 2) if b.labels else f(X[i])))
    tail = X[: 40 if b.slow else 150 if n == 700 else n]
    reset_rng(4)
    wtail = [conv(getattr(ref, ev + "_partial")(x)) for x in tail]
    for cut in (n, max(1, n // 3 + 1), 17):
        if b.slow and cut == 17:
            continue
        reset_rng(7)
        m = b.mk()
        reset_rng(3)
        got = []
        cov.trace()
        for s in range(0, n, cut):
            part = X[s:s + cut]
            got += rows(getattr(m, fitev)(part, y[s:s + cut]) if b.labels else getattr(m, fitev)(part))
            cover(cov, key, s, cut)
        reset_rng(4)
        gtail = rows(getattr(m, ev)(tail))
        cov.comp(len(got) + len(gtail))
        for what, g, w in ((fitev, got, want), (ev, gtail, wtail)):
            if len(g) != len(w):
                raise Violation("%s: %s of %d items gives %d results" % (b.name, what, len(w), len(g)), {"component": key, "batch": cut})
            for i, (u, v) in enumerate(zip(g, w)):
                if not same(u, v):
                    raise Violation("%s: item %d of %s is %r, the per-item call gives %r" % (b.name, i, what, u, v), {"component": key, "batch": cut})
    # fit in one batch, then evaluate
    reset_rng(7)
    a = b.mk()
    reset_rng(5)
    a.fit(X, y[:n]) if b.labels else a.fit(X)
    reset_rng(7)
    c = b.mk()
    reset_rng(5)
    for i in range(n):
        b.fit(c, i)
    for j, x in enumerate(b.probes()):
        reset_rng(60 + j)
        u = b.ev(a, x)
        reset_rng(60 + j)
        v = b.ev(c, x)
        cov.comp()
        if not same(u, v):
            raise Violation("%s: after fit of %d items the result is %r, after the per-item calls %r" % (b.name, n, u, v), {"component": key})
    cov.sample({"component": key, "items": n})


def finite(key, cov):
    """C22: every score along the long stream and for extreme instances."""
    import math
    import numpy as np
    b = get(key)
    for scale in (1.0, 1e9, 1e-7):
        if b.slow and scale == 1e-7:
            continue
        reset_rng(7)
        m = b.mk()
        cov.trace()
        pts = b.points()
        for t in range(b.n):
            x = b.item(t) * scale
            m.fit_partial(x, t % 2) if b.labels else m.fit_partial(x)
            if t in pts:
                for p in [x, b.item(t + 1), np.zeros(b.d), np.full(b.d, 1e12), -x]:
                    s = np.asarray(m.score_partial(p))
                    cov.comp()
                    cover(cov, key, t, scale)
                    if s.size != 1 or s.dtype == object or not math.isfinite(float(s.reshape(-1)[0])):
                        raise Violation("%s: after %d fits the score of %r is %r" % (b.name, t + 1, p.tolist(), s), {"component": key, "fits": t + 1, "scale": scale})
    cov.sample({"component": key, "fits": b.n})

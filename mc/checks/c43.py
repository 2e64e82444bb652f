"""C43: a pipeline of components is the composition of its stages."""
import itertools

from mc import zoo
from mc.core import Violation
from mc.util import same

BOUNDS = {
    "quick": "all pairs preprocessor/projector x model (10 x 27, where the dimensions fit), chains of two preprocessors before a cheap model, all pairs model x postprocessor/calibrator (27 x 12), all pairs of postprocessors/calibrators (12 x 12), all ensemblers x postprocessors/calibrators over four models (7 x 13), "
             "metrics and windowed metrics at the end, read after every fifth instance; each pipeline on 2 streams (two expensive models: 1) of warm-up + 10 instances (expensive models: 6), labelled and streamed by array or data frame; three executions of each compared exactly: one instance at a time through all stages, "
             "stage after stage in batch, and every stage alone on the recorded plain values",
    "thorough": "as quick with 4 streams of warm-up + 24 instances and chains of two preprocessors before every model",
}
ASSUMPTIONS = ["each stage draws its random numbers from a generator state of its own (the global state is switched between stages), so that the order of stages cannot change what is drawn",
               "instances are generic (no zero variance or zero norm); scores that are not finite (a z-score of equal scores) are not passed to the metrics",
               "the residual transformer returns a bare number, which the caller wraps into an instance of one feature"]
TECHNIQUE = "exhaustive enumeration of bounded pipelines on the real code, interleaved execution against staged and isolated execution"


def transformers(d):
    """name -> (input dimension, factory) of the transformers with output dimension d."""
    from pysad.transform import preprocessing as P
    from pysad.transform import projection as J
    D = {"none": (d, None), "IdentityScaler": (d, lambda: P.IdentityScaler()),
         "InstanceUnitNormScaler": (d, lambda: P.InstanceUnitNormScaler()),
         "InstanceUnitNormScaler-1": (d, lambda: P.InstanceUnitNormScaler(pow=1)),
         "GaussianRandomProjector": (3, lambda: J.GaussianRandomProjector(num_components=d)),
         "SparseRandomProjector": (3, lambda: J.SparseRandomProjector(num_components=d)),
         "StreamhashProjector": (3, lambda: J.StreamhashProjector(num_components=d)),
         "SeasonalTrendDecomposer": (d, lambda: P.SeasonalTrendDecomposer(season_length=2, trend_window=3))}
    if d == 1:
        D["ModifiedSTLResidual"] = (1, lambda: P.ModifiedSTLResidualTransformer(period=2, window_size=5))
    if d > 1:
        D["InstanceStandardScaler"] = (d, lambda: P.InstanceStandardScaler())
    return D


def shapes(q):
    ms = zoo.models()
    for m, e in ms.items():
        for t in transformers(len(e.alpha[0])):
            yield {"mode": "pre", "model": m, "pre": [t]}
        if m in ("HalfSpaceTrees", "StandardAbsoluteDeviation", "ExactStorm", "KitNet", "LODA") or not q:
            yield {"mode": "prepre", "model": m}
        yield {"mode": "post", "model": m}
    for p in zoo.postprocessors():
        yield {"mode": "postpost", "post": p}
    for x in zoo.ensemblers():
        yield {"mode": "ens", "ens": x}


def cases(tier):
    for c in shapes(tier == "quick"):
        yield dict(c, size=[2, 10] if tier == "quick" else [4, 24])


class Rng:
    """A generator state of its own for one stage."""

    def __init__(self, seed):
        import random
        import numpy as np
        self.s = np.random.RandomState(seed).get_state(), random.Random(seed).getstate()

    def __enter__(self):
        import random
        import numpy as np
        np.random.set_state(self.s[0])
        random.setstate(self.s[1])

    def __exit__(self, *_):
        import random
        import numpy as np
        self.s = np.random.get_state(), random.getstate()


class Stage:
    """kind T (transformer), M (models and ensembler), P (postprocessor), S (metric)."""

    def __init__(self, kind, name, mks):
        self.kind, self.name, self.mks = kind, name, mks

    def start(self, seed):
        self.rngs = [Rng(seed * 16 + i) for i in range(len(self.mks))]
        self.objs = []
        for mk, r in zip(self.mks, self.rngs):
            with r:
                self.objs.append(mk())
        return self

    def one(self, i, ops, x, y=None):
        """One instance through object i."""
        o = self.objs[i]
        with self.rngs[i]:
            if self.kind == "M":
                if ops == "P":
                    return o.fit_score_partial(x, y)
                o.fit_partial(x, y)
                return o.score_partial(x)
            if ops == "P":
                return o.fit_transform_partial(x)
            o.fit_partial(x)
            return o.transform_partial(x)

    def all(self, i, X, y=None):
        with self.rngs[i]:
            return self.objs[i].fit_score(X, y) if self.kind == "M" else self.objs[i].fit_transform(X)


def plain(v):
    import numpy as np
    a = np.asarray(v, dtype=float)
    return float(a.reshape(-1)[0]) if a.size == 1 and a.ndim == 0 else a.tolist()


def value(v):
    """A score as a plain number."""
    import numpy as np
    a = np.asarray(v, dtype=float)
    if a.size != 1:
        raise Violation("a score is not one number: %r" % (v,))
    return float(a.reshape(-1)[0])


def threshold(v):
    return int(value(v) > 0.5)


def pipeline(stages, X, y, feed, ops, cov, name):
    """Interleaved execution: outputs of every stage and instance, metric values."""
    import numpy as np
    import pandas as pd
    from pysad.utils import ArrayStreamer, PandasStreamer
    ss = [s.start(k) for k, s in enumerate(stages)]
    rec = []
    if feed == "pandas":
        it = PandasStreamer(shuffle=False).iter(pd.DataFrame(X.copy()), pd.Series(y.copy()))
    elif feed == "array":
        it = ArrayStreamer(shuffle=False).iter(X.copy(), y.copy())
    else:
        it = zip(X.copy(), y.copy())
    for t, (x, yt) in enumerate(it):
        v, row = x, []
        for s in ss:
            cov.step((name, s.name, t), "one")
            if s.kind == "M":
                if len(s.objs) == 1:
                    v = s.one(0, ops, v, yt)
                    row.append(value(v))
                else:                        # the last object is the ensembler
                    a = np.empty(len(s.objs) - 1, dtype=np.float64)
                    for i in range(len(a)):
                        a[i] = s.one(i, ops, v, yt)
                    row.append(a.tolist())
                    o = s.objs[-1]
                    with s.rngs[-1]:
                        v = o.fit_transform_partial(a)
                    row.append(value(v))
            elif s.kind == "S":
                for o, bin in s.objs:
                    feed_metric(o, yt, threshold(v) if bin else v)
                row.append([get(o) for o, _ in s.objs] if t % 5 == 4 else [])
            else:
                v = s.one(0, ops, v)
                v = np.atleast_1d(v) if s.kind == "T" else v
                row.append(plain(v) if s.kind == "T" else value(v))
        rec.append(row)
    return rec


def feed_metric(o, y, v):
    """One update; a window with a single class has no AUROC and is rejected."""
    if v - v == 0:
        try:
            o.update(y, v)
        except ValueError:
            pass


def get(o):
    try:
        return float(o.get())
    except Exception as e:
        return type(e).__name__


def staged(stages, X, y, cov, name):
    """Every stage over the whole stream with the batch method."""
    import numpy as np
    ss = [s.start(k) for k, s in enumerate(stages)]
    V, cols = X.copy(), []
    for s in ss:
        cov.step((name, s.name), "all")
        if s.kind == "M":
            if len(s.objs) == 1:
                V = s.all(0, V, y)
                cols.append([value(v) for v in V])
            else:
                V = np.array([s.all(i, V, y) for i in range(len(s.objs) - 1)]).T
                cols.append(V.tolist())
                o = s.objs[-1]
                with s.rngs[-1]:
                    V = o.fit_transform(V)
                cols.append([value(v) for v in V])
        elif s.kind == "S":
            c = []
            for t, v in enumerate(V):
                for o, bin in s.objs:
                    feed_metric(o, int(y[t]), threshold(v) if bin else float(v))
                c.append([get(o) for o, _ in s.objs] if t % 5 == 4 else [])
            cols.append(c)
        else:
            V = s.all(0, V)
            cols.append([plain(v) if s.kind == "T" else value(v) for v in V])
    return [list(r) for r in zip(*cols)]


def isolated(stages, rec, X, y, ops, cov, name):
    """Every stage alone, fed with the recorded values as plain numbers and fresh arrays."""
    import numpy as np
    out = []
    inputs = [r.tolist() for r in X]
    k = 0
    for j, s in enumerate(stages):
        s.start(j)
        c, c2, nxt = [], [], []
        for t, v in enumerate(inputs):
            cov.step((name, s.name, t), "alone")
            if s.kind == "M":
                if len(s.objs) == 1:
                    c.append(value(s.one(0, ops, np.array(v, dtype=float), int(y[t]))))
                else:
                    c.append([value(s.one(i, ops, np.array(v, dtype=float), int(y[t]))) for i in range(len(s.objs) - 1)])
                    with s.rngs[-1]:
                        c2.append(value(s.objs[-1].fit_transform_partial(np.array(rec[t][k], dtype=float))))
            elif s.kind == "S":
                for o, bin in s.objs:
                    feed_metric(o, int(y[t]), threshold(v) if bin else float(v))
                c.append([get(o) for o, _ in s.objs] if t % 5 == 4 else [])
            elif s.kind == "T":
                c.append(plain(np.atleast_1d(s.one(0, ops, np.array(v, dtype=float)))))
            else:
                c.append(value(s.one(0, ops, float(v))))
        out.append(c)
        k += 1
        if c2:
            out.append(c2)
            k += 1
        inputs = [r[k - 1] for r in rec]
    return [list(r) for r in zip(*out)]


def metrics():
    from pysad import evaluation as V
    return Stage("S", "metrics", [lambda: (V.AUROCMetric(), 0), lambda: (V.AUPRMetric(), 0), lambda: (V.PrecisionMetric(), 1), lambda: (V.RecallMetric(), 1),
                                  lambda: (V.WindowedMetric(V.AUROCMetric, 4), 0), lambda: (V.WindowedMetric(V.RecallMetric, 3), 1)])


def data(dim, n, k):
    import numpy as np
    v = zoo.lfsr(dim * n + 17 * k)[17 * k:]
    X = np.array(v, dtype=float).reshape(n, dim)
    if k % 2:
        X = np.round(X * 4) / 4 + 0.125 * np.arange(1, dim + 1)
    y = np.array([(t + t // 3 + k) % 2 for t in range(n)])
    return X, y


def judge(name, stages, dim, n, streams, cov, case, feeds=("array",)):
    for k in range(streams):
        X, y = data(dim, n, k)
        for ops in "PF":
            for feed in feeds:
                cov.trace()
                try:
                    got = pipeline(stages, X, y, feed, ops, cov, name)
                except Violation:
                    raise
                except Exception as err:
                    raise Violation("%s, stream %d: the pipeline fails with %r" % (name, k, err), dict(case, pipeline=name, ops=ops, feed=feed))
                runs = [("each stage alone on plain values", isolated(stages, got, X, y, ops, cov, name))]
                if ops == "P":
                    runs.append(("stage after stage in batch", staged(stages, X, y, cov, name)))
                for what, want in runs:
                    cov.comp(len(got))
                    for t, (a, b) in enumerate(zip(got, want)):
                        if not same(a, b):
                            raise Violation("%s, stream %d (%s, %s): at instance %d the pipeline gives %r, %s gives %r" % (name, k, feed, ops, t, a, what, b),
                                            dict(case, pipeline=name, ops=ops, feed=feed, instances=X[:t + 1].tolist()[-30:]))
                cov.outcome((name, repr(got[-1])[:60]))
    cov.sample({"pipeline": name, "instances": n})


def run(case, cov):
    ms, ps, xs = zoo.models(), zoo.postprocessors(), zoo.ensemblers()
    k, extra = case["size"]
    mode = case["mode"]
    if mode in ("pre", "prepre", "post"):
        e = ms[case["model"]]
        d = len(e.alpha[0])
        n = len(e.warm) + extra
        if e.cost >= 10:
            n = len(e.warm) + 6
        if e.name in ("KNNCAD", "Inqmad"):
            k = min(k, 1 + extra // 24)
        model = Stage("M", e.name, [e.mk])
        T = transformers(d)
    if mode == "pre":
        t = case["pre"][0]
        di, mk = T[t]
        if e.name == "RelativeEntropy" and t not in ("none", "IdentityScaler"):
            return
        judge("%s -> %s" % (t, e.name), ([Stage("T", t, [mk])] if mk else []) + [model, metrics()], di, n, k, cov, case, ("array", "pandas", "loop") if t in ("none", "GaussianRandomProjector") else ("array",))
    elif mode == "prepre":
        if e.name == "RelativeEntropy":
            return
        for t2, (d2, mk2) in T.items():
            if mk2 is None:
                continue
            for t1, (d1, mk1) in transformers(d2).items():
                if mk1 is None or t1 in ("StreamhashProjector", "SparseRandomProjector", "SeasonalTrendDecomposer", "ModifiedSTLResidual") and (t2.endswith("Scaler") or t2.endswith("Scaler-1")):
                    continue          # sparse projections and first residuals may be zero vectors, which have no norm
                judge("%s -> %s -> %s" % (t1, t2, e.name), [Stage("T", t1, [mk1]), Stage("T", t2, [mk2]), model], d1, n, 1, cov, case)
    elif mode == "post":
        for p, pe in ps.items():
            judge("%s -> %s" % (e.name, p), [model, Stage("P", p, [pe.mk]), metrics()], d, n, 1, cov, case)
    elif mode == "postpost":
        e = ms["StandardAbsoluteDeviation-median"]
        for p, pe in ps.items():
            judge("%s -> %s -> %s" % (e.name, case["post"], p), [Stage("M", e.name, [e.mk]), Stage("P", case["post"], [ps[case["post"]].mk]), Stage("P", p, [pe.mk]), metrics()], 1, 8 + extra, k, cov, case)
    else:
        four = [ms[m].mk for m in ("HalfSpaceTrees", "ExactStorm", "LODA", "xStream")]
        m = Stage("M", "4 models -> " + case["ens"], four + [xs[case["ens"]].mk])
        judge(m.name, [m, metrics()], 2, 8 + extra, k, cov, case, ("array", "pandas"))
        for p, pe in ps.items():
            judge("%s -> %s" % (m.name, p), [m, Stage("P", p, [pe.mk]), metrics()], 2, 8 + extra, 1, cov, case)

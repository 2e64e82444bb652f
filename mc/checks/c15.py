"""C15: one-shot models are trained once and never changed by the stream."""
import itertools

from mc.core import Violation, reset_rng
from mc.util import num, same

BOUNDS = {
    "quick": "OneFitModel with a recording detector stub: initial sizes 1-6 and 100, initial data of integers and of 32-bit numbers, labelled/unlabelled, 4 keyword settings (also None, 0, False, empty), all words of length <= 5 over {fit, score, fit_score} x 2 instances and lassos of 300 calls; "
             "OneFitModel with PyOD KNN and IForest, and LocalOutlierProbability (neighbours 2-4, extent 1-3): all words of length <= 3 against the directly trained detector",
    "thorough": "as quick with words of length 7 (stub) and 4 (real detectors) and lassos of 3000 calls",
}
ASSUMPTIONS = ["LocalOutlierProbability is compared with PyNomaly fitted directly on the initial data"]


def stub_cls(reg):
    import numpy as np

    class Det:
        def __init__(self, **kw):
            self.kw, self.fits, self.seen = dict(kw), [], []
            reg.append(self)

        def fit(self, *a, **k):
            X = a[0] if a else k["X"]
            y = (a[1] if len(a) > 1 else k.get("y"))
            self.fits.append((np.array(X, dtype=float), None if y is None else np.array(y).tolist()))
            return self

        def decision_function(self, X):
            X = np.asarray(X, dtype=float)
            self.seen.append(X.copy())
            return np.array([100.0 + float((r * np.arange(1, len(r) + 1)).sum()) for r in X])
    return Det


PTS = [(0.5, -2.0), (3.0, 0.25)]
OPS = [(o, i) for o in ("F", "S", "FS") for i in (0, 1)]


def cases(tier):
    q = tier == "quick"
    for n in (1, 2, 3, 6, 100):
        for lab in (False, True):
            for kw in ({}, {"a": 1}, {"contamination": 0.25, "b": "t"}, {"a": None, "b": 0, "c": False, "d": "", "e": [1, None], "f": {"g": 0}}):
                for dt in ("int64", "int32", "float32") if n == 3 and not kw else ():
                    yield {"mode": "stub", "n": n, "labels": lab, "kw": kw, "len": 3, "lasso": 40, "dt": dt}
                yield {"mode": "stub", "n": n, "labels": lab, "kw": kw, "len": (5 if n == 3 and kw else 3) if q else (7 if n == 3 and kw else 5), "lasso": 300 if q else 3000}
    for det in ("knn", "iforest"):
        for kw in (0, 1):
            for p in OPS:
                yield {"mode": "pyod", "det": det, "kw": kw, "len": 3 if q else 4, "first": p}
    for k in (2, 3, 4):
        for ext in (1, 2, 3):
            yield {"mode": "loop", "k": k, "ext": ext, "len": 3 if q else 4}
    yield {"mode": "loop", "k": None, "ext": None, "len": 2}


def apply(m, op, i, y=None):
    import numpy as np
    x = np.array(PTS[i])
    if op == "F":
        r = m.fit_partial(x) if y is None else m.fit_partial(x, y)
        if r is not m:
            raise Violation("fit_partial does not return the model")
        return None
    return num(m.score_partial(x) if op == "S" else m.fit_score_partial(x))


def run(case, cov):
    import numpy as np
    if case["mode"] == "stub":
        from pysad.models.integrations import OneFitModel
        n = case["n"]
        X = np.array([[i * 1.5, i * i - 3.0] for i in range(n)])
        if case.get("dt"):      # instances are of another kind of numbers than the initial data
            X = np.array([[i * 2, i * i - 3] for i in range(n)]).astype(case["dt"])
        y = np.array([(i * 3 // 2) % 2 for i in range(n)])

        def one(word, tr):
            reg = []
            m = OneFitModel(stub_cls(reg), X, y, **case["kw"]) if case["labels"] else OneFitModel(stub_cls(reg), X, **case["kw"])
            for k, (op, i) in enumerate(word):
                cov.step((str(case["kw"]), n, case["labels"], min(k, 8)), (op, i))
                r = apply(m, op, i, k % 2 if case["labels"] else None)
                if r is not None:
                    want = 100.0 + PTS[i][0] + 2 * PTS[i][1]
                    cov.comp()
                    if r != want or not same(reg[-1].seen[-1], np.array([PTS[i]])):
                        raise Violation("score %r is not the detector's value %r for exactly the given instance" % (r, want), tr)
            if len(reg) != 1 or len(reg[0].fits) != 1:
                raise Violation("%d detectors were built and fitted %r times; one fit of one detector is expected"
                                % (len(reg), [len(d.fits) for d in reg]), tr)
            gx, gy = reg[0].fits[0]
            if not same(gx, X) or gy != (y.tolist() if case["labels"] else None) or reg[0].kw != case["kw"]:
                raise Violation("the detector was trained on %r, %r with %r" % (gx.tolist(), gy, reg[0].kw), tr)
            cov.trace()
            cov.outcome((n, len(reg[0].seen)))
        for k in range(case["len"] + 1):
            for w in itertools.product(OPS, repeat=k):
                one(w, {"initial": n, "word": w})
        for u in itertools.product(OPS, repeat=2):
            one([u[t % 2] for t in range(case["lasso"])], {"initial": n, "period": u})
        cov.sample({"initial": n, "labels": case["labels"], "kw": case["kw"]})
        return
    data = np.array([[0.1, 0.2], [0.4, 0.1], [0.3, 0.35], [0.9, 0.8], [0.7, 0.75], [0.55, 0.1], [0.2, 0.9]])
    if case["mode"] == "pyod":
        from pysad.models.integrations import OneFitModel
        if case["det"] == "knn":
            from pyod.models.knn import KNN as cls
            kw = [{"n_neighbors": 2}, {"n_neighbors": 3, "method": "mean"}][case["kw"]]
        else:
            from pyod.models.iforest import IForest as cls
            kw = [{"n_estimators": 3}, {"n_estimators": 2, "max_features": 0.5}][case["kw"]]

        def build():
            reset_rng(5)
            return OneFitModel(cls, data, **kw)
        reset_rng(5)
        d = cls(**kw)
        d.fit(data)
        want = [float(d.decision_function(np.array([p]))[0]) for p in PTS]
        words = [(tuple(case["first"]),) + w for w in itertools.product([tuple(o) for o in OPS], repeat=case["len"] - 1)]
    else:
        from PyNomaly import loop
        from pysad.models import LocalOutlierProbability
        if case["k"] is None:
            import mc.zoo as zoo
            data = np.array(zoo.lfsr(40)).reshape(20, 2)

        def build():
            return LocalOutlierProbability(data) if case["k"] is None else LocalOutlierProbability(data, case["k"], case["ext"])
        d = loop.LocalOutlierProbability(data, extent=case["ext"] or 3, n_neighbors=case["k"] or 10).fit()
        want = [float(d.stream(np.array(p))) for p in PTS]
        words = [w for k in range(1, case["len"] + 1) for w in itertools.product(OPS, repeat=k)]
    shared = build()
    for w in words:
        m = build() if len(w) <= 2 or case["mode"] == "pyod" and len(w) <= 3 else shared
        cov.trace()
        for k, (op, i) in enumerate(w):
            cov.step((case["mode"], str(case.get("det")), str(case.get("k")), str(case.get("ext")), w[:k]), (op, i))
            r = apply(m, op, i)
            if r is not None:
                cov.comp()
                cov.outcome(r)
                if r != want[i]:
                    raise Violation("score %r, the detector trained on the initial data only gives %r" % (r, want[i]), {"case": case, "word": w[:k + 1]})
    cov.sample({"case": case, "word": w})

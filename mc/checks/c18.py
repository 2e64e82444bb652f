"""C18: caller-owned arrays are never modified and are remembered by value."""
import itertools

from mc import big, zoo
from mc.core import Violation, reset_rng
from mc.util import same

BOUNDS = {
    "quick": "all 58 model/transformer/postprocessor/ensembler configurations: all call words of length 3 over {fit, evaluate, fit-and-evaluate, batch fit, batch evaluate, batch fit-and-evaluate} after warm-up, in 5 argument regimes (fresh arrays kept and compared bitwise afterwards, "
             "one reused buffer overwritten with garbage after every call, read-only arrays, strided views, labels as arrays), constructor arrays compared bitwise at the end; lassos of 60 calls; 36 large configurations on streams of 30-2300 items with one reused buffer",
    "thorough": "as quick with call words of length 4 and lassos of 300 calls",
}
ASSUMPTIONS = ["the global generators are re-seeded before every call", "a Window keeps the objects it is given by its own contract (C07) and is not explored here"]
TECHNIQUE = "bounded exhaustive exploration of call words under array-reuse regimes, history against history on the real code"
OPS = ("F", "T", "FT", "BF", "BT", "BFT")


def cases(tier):
    q = tier == "quick"
    for k in big.names(arrays=True):
        yield {"mode": "big", "key": k}
    for fam in ("models", "transformers", "postprocessors", "ensemblers"):
        for name, e in getattr(zoo, fam)().items():
            if name == "Inqmad":
                yield {"fam": fam, "name": name, "len": 3, "first": "F", "lasso": 0}
                continue
            n = 3 if q else 4
            if e.cost >= 40:
                n = 2 if q else 3
            for f in OPS:
                yield {"fam": fam, "name": name, "len": n, "first": f, "lasso": (60 if q else 300) if f in ("F", "BFT") and e.cost < 40 else 0}
    yield {"fam": "ctor", "name": "arrays", "len": 0}
    yield {"fam": "ctor", "name": "overwritten", "len": 0}
    yield {"fam": "ctor", "name": "window", "len": 0}


def bits(a):
    return (a.dtype.str, a.shape, a.tobytes())


class Regime:
    """Builds the argument arrays of the calls and watches them."""

    def __init__(self, kind, d):
        import numpy as np
        self.kind, self.kept = kind, []
        self.buf = {}
        self.np = np

    def arr(self, vals, slot):
        np = self.np
        v = np.array(vals, dtype=float)
        if self.kind == "fresh":
            self.kept.append((v, bits(v)))
            return v
        if self.kind == "ro":
            v.setflags(write=False)
            return v
        if self.kind == "strided":
            shape = (v.shape[0] * 2,) if v.ndim == 1 else (v.shape[0], v.shape[1] * 2)
            b = np.full(shape, 777.0)
            w = b[::2] if v.ndim == 1 else b[:, ::2]
            w[...] = v
            self.kept.append((b, bits(b)))
            return w
        key = (slot, v.shape)
        if key not in self.buf:
            self.buf[key] = np.empty(v.shape)
        self.buf[key][...] = v
        self.kept.append((self.buf[key], bits(self.buf[key])))
        return self.buf[key]

    def after(self, tr):
        for a, b in self.kept:
            if bits(a) != b:
                raise Violation("a call changed the array it was given: %r" % (a,), tr)
        if self.kind == "reuse":
            for k, b in enumerate(self.buf.values()):
                b[...] = [1e6, -3e5, 0.123][k % 3]
            self.kept = []


def execute(e, fam, word, kind, tr):
    import numpy as np
    reset_rng(7)
    m = e.mk()
    rg = Regime(kind, None)
    scalar = fam == "postprocessors"
    lab = e.labels
    pend = 0
    out, given = [], []
    seq = [("F", None, w) for w in e.warm] + [(op, t, None) for t, op in enumerate(word)]
    for k, (op, t, w) in enumerate(seq):
        reset_rng(100 + k)
        val = w if w is not None else e.alpha[t % 3]
        many = [e.alpha[t % 3], e.alpha[(t + 1) % 3], e.alpha[(t + 2) % 3]] if t is not None else None
        ys = [0, 1, 1]
        r = None
        if op in ("F", "T", "FT"):
            x = float(val) if scalar else rg.arr(val, "i")
            if fam == "models":
                if op == "F":
                    m.fit_partial(x, k % 2) if lab else m.fit_partial(x)
                    pend += 1
                elif op == "FT":
                    r = m.fit_score_partial(x, k % 2) if lab else m.fit_score_partial(x)
                elif not lab or pend:
                    r = m.score_partial(x)
                    pend -= 1
            else:
                if op == "F":
                    m.fit_partial(x)
                elif op == "T":
                    r = m.transform_partial(x)
                else:
                    r = m.fit_transform_partial(x)
        else:
            x = rg.arr(many, "b")
            if fam == "models":
                y = rg.arr(ys, "y") if lab else None
                if op == "BF":
                    m.fit(x, y) if lab else m.fit(x)
                    pend += 3
                elif op == "BFT":
                    r = m.fit_score(x, y) if lab else m.fit_score(x)
                elif not lab or pend >= 3:
                    r = m.score(x)
                    pend -= 3
            else:
                r = getattr(m, {"BF": "fit", "BT": "transform", "BFT": "fit_transform"}[op])(x)
                if op == "BF":
                    r = None
        if r is not None:
            out.append(np.array(r, dtype=float, copy=True))
            if kind == "fresh" and isinstance(r, np.ndarray):
                given.append((r, bits(r), k))
            r = None
        rg.after(dict(tr, calls_done=k + 1, regime=kind))
    # final probes with fresh arrays
    for j in range(3):
        reset_rng(900 + j)
        p = float(e.alpha[j]) if scalar else np.array(e.alpha[j], dtype=float)
        if fam == "models":
            if not lab:
                out.append(np.array(m.score_partial(p), dtype=float))
        else:
            out.append(np.array(m.transform_partial(p), dtype=float))
    for r, b, k in given:
        if bits(r) != b:
            raise Violation("the array returned by call %d was changed by a later call to %r" % (k + 1, r), tr)
    return out


def run(case, cov):
    if case.get("mode") == "big":
        return big.reuse(case["key"], cov)
    if case["fam"] == "ctor":
        return {"arrays": _ctor, "overwritten": _overwritten, "window": _window}[case["name"]](case, cov)
    fam, nm = case["fam"], case["name"]
    e = getattr(zoo, fam)()[nm]
    if nm == "Inqmad":
        ws = [("F", "T", "BFT")]
    else:
        ws = [(case["first"],) + w for w in itertools.product(OPS, repeat=case["len"] - 1)]
    if case["lasso"]:
        ws += [[case["first"], "F", "T"] * (case["lasso"] // 3), [case["first"], "BFT", "F"] * (case["lasso"] // 6)]
    tr = None
    for i, w in enumerate(ws):
        tr = {"component": nm, "calls": w if len(w) < 9 else (w[:3], len(w))}
        base = execute(e, fam, w, "fresh", tr)
        cov.outcome(str(base))
        for k in range(len(w) if len(w) < 9 else 3):
            cov.step((nm, tuple(w[:k])), w[k])
        for kind in ("reuse", "ro", "strided"):
            if kind != "reuse" and e.cost >= 6 and (i % 4 != {"ro": 0, "strided": 2}[kind]):
                continue
            cov.trace()
            cov.step((nm, kind), i)
            got = execute(e, fam, w, kind, tr)
            cov.comp()
            if kind == "strided":
                ok = len(got) == len(base) and all(a.shape == b.shape and _near(a, b) for a, b in zip(got, base))
            else:
                ok = same(got, base)
            if not ok:
                raise Violation("%s: results %r with fresh arrays, %r in the regime '%s'" % (nm, base[-4:], got[-4:], kind), tr)
    cov.sample(tr)


def _near(a, b):
    import numpy as np
    return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))


def _ctor(case, cov):
    """Arrays given to constructors stay bitwise the same (and read-only ones are accepted)."""
    import numpy as np
    from pyod.models.iforest import IForest
    from pyod.models.knn import KNN
    from pysad import models as M
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    from pysad.transform.ensemble import AverageScoreEnsembler
    I = np.array(zoo.lfsr(16)).reshape(8, 2)
    for order in ("C", "F"):
        for ro in (False, True):
            def arr(v, dt=float):
                a = np.array(v, dtype=dt, order=order)
                if ro:
                    a.setflags(write=False)
                return a
            builds = [
                ("HalfSpaceTrees", lambda a: M.HalfSpaceTrees(a[0], a[1], window_size=3, num_trees=3, max_depth=4, initial_window_X=a[2]), [arr([0.0, -1.0]), arr([1.0, 2.0]), arr(I)]),
                ("RSHash", lambda a: M.RSHash(a[0], a[1], num_components=3), [arr([0.0, -1.0]), arr([1.0, 2.0])]),
                ("IForestASD", lambda a: M.IForestASD(initial_window_X=a[0], window_size=3, n_estimators=2), [arr(I)]),
                ("ReferenceWindowModel", lambda a: ReferenceWindowModel(KNN, 5, 2, initial_window_X=a[0], n_neighbors=2), [arr(I)]),
                ("ReferenceWindowModel-iforest", lambda a: ReferenceWindowModel(IForest, 5, 2, initial_window_X=a[0], initial_window_y=a[1], n_estimators=2), [arr(I), arr([0, 1] * 4, int)]),
                ("OneFitModel", lambda a: OneFitModel(KNN, a[0], n_neighbors=2), [arr(I)]),
                ("LocalOutlierProbability", lambda a: M.LocalOutlierProbability(a[0], num_neighbors=3), [arr(I)]),
            ]
            for name, mk, args in builds:
                before = [bits(a) for a in args]
                reset_rng(3)
                m = mk(args)
                for t in range(14):
                    x = np.array([0.1 * t, 0.9 - 0.05 * t])
                    if name == "ReferenceWindowModel-iforest":
                        m.fit_partial(x, t % 2)
                    else:
                        m.fit_partial(x)
                    m.score_partial(x)
                    cov.step((name, order, ro), t)
                    cov.comp()
                    if [bits(a) for a in args] != before:
                        raise Violation("%s changed an array given to its constructor" % name, {"order": order, "read_only": ro, "fits": t + 1})
                cov.trace()
            w = arr([[1.0, 2.0, 0.5, 0.25]])
            b = bits(w)
            en = AverageScoreEnsembler(estimator_weights=w)
            for t in range(3):
                s = arr([1.0, 2.0, 3.0, t])
                en.fit_transform_partial(s)
                cov.step(("AverageScoreEnsembler", order, ro), t)
                if bits(w) != b:
                    raise Violation("the average ensembler changed its weights", {"order": order})
            cov.trace()
            # streamers and metrics leave their data alone
            from pysad.utils import ArrayStreamer
            X, y = arr(I), arr([0, 1, 0, 0, 1, 1, 0, 1], int)
            bx, by = bits(X), bits(y)
            for sh in (False, True):
                list(ArrayStreamer(shuffle=sh).iter(X, y))
                list(ArrayStreamer(shuffle=sh).iter(X))
                cov.step(("ArrayStreamer", order, ro), sh)
                cov.comp()
                if bits(X) != bx or bits(y) != by:
                    raise Violation("iterating changed the data", {"shuffle": sh})
    cov.sample({"constructors": [b[0] for b in builds]})
    cov.outcome("ctor")


def _overwritten(case, cov):
    """Arrays given to constructors may be overwritten as soon as the constructor has returned."""
    import numpy as np
    from pyod.models.hbos import HBOS
    from pyod.models.iforest import IForest
    from pyod.models.knn import KNN
    from pyod.models.lof import LOF
    from pysad import models as M
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    I = np.array(zoo.lfsr(80)).reshape(40, 2)
    Y = np.array([0, 1, 0, 0, 1] * 8)

    class Labelled(KNN):
        """uses its labels: the neighbours' distances of the instances labelled 0"""
        def fit(self, X, y=None):
            return super().fit(np.asarray(X)[np.asarray(y) == 0])
    builds = [
        ("HalfSpaceTrees", lambda a: M.HalfSpaceTrees(a[0], a[1], window_size=3, num_trees=3, max_depth=4, initial_window_X=a[2]), [[0.0, -1.0], [1.0, 2.0], I]),
        ("HalfSpaceTrees-bounds", lambda a: M.HalfSpaceTrees(a[0], a[1], window_size=3, num_trees=3, max_depth=4), [[0.0, -1.0], [1.0, 2.0]]),
        ("RSHash", lambda a: M.RSHash(a[0], a[1], num_components=3), [[0.0, -1.0], [1.0, 2.0]]),
        ("IForestASD", lambda a: M.IForestASD(initial_window_X=a[0], window_size=20, n_estimators=3), [I]),
        ("ReferenceWindowModel", lambda a: ReferenceWindowModel(KNN, 20, 7, initial_window_X=a[0], n_neighbors=2), [I]),
        ("ReferenceWindowModel-lof", lambda a: ReferenceWindowModel(LOF, 30, 11, initial_window_X=a[0], n_neighbors=2), [I]),
        ("ReferenceWindowModel-labels", lambda a: ReferenceWindowModel(Labelled, 20, 7, initial_window_X=a[0], initial_window_y=a[1], n_neighbors=2), [I, Y]),
        ("OneFitModel", lambda a: OneFitModel(KNN, a[0], n_neighbors=2), [I]),
        ("OneFitModel-lof", lambda a: OneFitModel(LOF, a[0], n_neighbors=2), [I]),
        ("OneFitModel-hbos", lambda a: OneFitModel(HBOS, a[0]), [I]),
        ("OneFitModel-iforest", lambda a: OneFitModel(IForest, a[0], n_estimators=3), [I]),
        ("OneFitModel-labels", lambda a: OneFitModel(Labelled, a[0], a[1], n_neighbors=2), [I, Y]),
        ("LocalOutlierProbability", lambda a: M.LocalOutlierProbability(a[0], num_neighbors=3), [I]),
    ]
    for name, mk, args in builds:
        for garbage in (1.0, -3e5, 0.0):
            runs = []
            for over in (False, True):
                a = [np.array(x) if np.asarray(x).dtype.kind == "i" else np.array(x, dtype=float) for x in args]
                reset_rng(3)
                m = mk(a)
                out = []
                for t in range(30):
                    if over:
                        for x in a:
                            x[...] = garbage if x.dtype.kind == "f" else 1
                    x = np.array([0.1 * t, 0.9 - 0.05 * t])
                    reset_rng(50 + t)
                    m.fit_partial(x, t % 2) if "labels" in name else m.fit_partial(x)
                    out.append(np.array(m.score_partial(x), dtype=float))
                    cov.step((name, over, t), garbage)
                runs.append(out)
            cov.trace()
            cov.comp()
            if not same(*runs):
                t = [same(p, q) for p, q in zip(*runs)].index(False)
                raise Violation("%s: overwriting the arrays given to its constructor changed score %d from %r to %r" % (name, t + 1, runs[0][t], runs[1][t]), {"overwritten_with": garbage})
    cov.sample({"constructors": [b[0] for b in builds]})
    cov.outcome("overwritten")


def _window(case, cov):
    """transform_window leaves its window alone; its result is the caller's."""
    import numpy as np
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer
    for period, ws in ((2, None), (3, 9), (4, 8)):
        for robust in (True, False):
            t = ModifiedSTLResidualTransformer(period=period, window_size=ws, robust=robust)
            given = []
            for n in (2 * period, 2 * period + 3, 30):
                for col in (False, True):
                    for ro in (False, True):
                        x = np.array([(i % period) * 1.5 + (i * i % 7) * 0.1 for i in range(n)])
                        x = x.reshape(-1, 1) if col else x
                        x.setflags(write=not ro)
                        b = bits(x)
                        r = t.transform_window(x)
                        given.append((r, bits(r)))
                        cov.step((period, ws, robust), (n, col, ro))
                        cov.trace()
                        cov.comp()
                        if bits(x) != b:
                            raise Violation("transform_window changed the window it was given", {"period": period, "n": n})
                        if any(bits(p) != q for p, q in given):
                            raise Violation("transform_window changed a result it had returned before", {"period": period, "n": n})
    cov.sample({"transform_window": [period, ws]})
    cov.outcome("window")

"""C27: instance scalers scale each instance by itself only."""
import itertools
import math

from mc.core import Violation
from mc.util import primitive_words

BOUNDS = {
    "quick": "identity, standard and unit-norm scaler (p = 1, 1.5, 2, 3, 4, 7, inf): every instance of dimension 1-4 over the values {-3, -1, 0, 0.5, 2} (dimension 5-6 over {-1, 0, 2}), also scaled by 1e-6, 1e6, 1e12, "
             "7 to 1000 features in four shapes and magnitudes, offset by 1e6, and as float32 and integers, through transform_partial, fit_transform_partial, fit_transform and transform; all call words of length 4 over {fit, transform, fit_transform} x 3 instances on one object; lassos to 40 calls",
    "thorough": "as quick with dimension 5 over all five values, 7 over three, and words of length 5",
}
ASSUMPTIONS = ["instances of zero norm (unit norm) or zero spread (standard) are out of scope"]
TECHNIQUE = "bounded exhaustive enumeration of instances and call words on the real code against the defining formulas"
V = (-3.0, -1.0, 0.0, 0.5, 2.0)
PS = (1, 1.5, 2, 3, 4, 7, "inf", None)   # None: the default


def cases(tier):
    q = tier == "quick"
    kinds = ["id", "std"] + ["p:%s" % p for p in PS]
    for k in kinds:
        yield {"mode": "inst", "kind": k, "full": 4 if q else 5, "part": 6 if q else 7}
        yield {"mode": "wide", "kind": k, "dims": [7, 16, 33, 51, 64, 100, 129, 257, 1000] if q else [7, 16, 33, 51, 64, 100, 129, 257, 500, 513, 1000, 1025, 5000]}
        yield {"mode": "word", "kind": k, "len": 4 if q else 5}


def make(kind):
    from pysad.transform.preprocessing import IdentityScaler, InstanceStandardScaler, InstanceUnitNormScaler
    if kind == "id":
        return IdentityScaler()
    if kind == "std":
        return InstanceStandardScaler()
    p = kind[2:]
    if p == "None":
        return InstanceUnitNormScaler()
    if p == "inf":
        import numpy as np
        return InstanceUnitNormScaler(pow=np.inf)
    f = float(p)
    return InstanceUnitNormScaler(pow=int(f) if f == int(f) else f)


def ref(kind, x):
    """(expected vector, tolerance scale) or None when out of scope"""
    if kind == "id":
        return list(x), 0.0
    if kind == "std":
        m = math.fsum(x) / len(x)
        s = math.sqrt(math.fsum((v - m) ** 2 for v in x) / len(x))
        big = max(abs(v) for v in x)
        if s <= 1e-7 * big:
            return None
        return [(v - m) / s for v in x], (1 + len(x)) * (big / s)
    p = kind[2:]
    big = max(abs(v) for v in x)
    if big == 0:
        return None
    if p == "inf":
        n = big
    else:
        f = 2.0 if p == "None" else float(p)
        n = big * math.fsum((abs(v) / big) ** f for v in x) ** (1 / f)
    return [v / n for v in x], 16.0


def compare(kind, got, x, eps, what, tr, cov):
    import numpy as np
    r = ref(kind, x)
    if r is None:
        return
    g = np.asarray(got, dtype=float)
    if g.shape != (len(x),):
        raise Violation("%s has shape %r for an instance of %d features" % (what, g.shape, len(x)), tr)
    for a, b in zip(g.tolist(), r[0]):
        cov.comp()
        if not abs(a - b) <= 4 * eps * r[1] * (1 + abs(b)):
            raise Violation("%s of %r is %r, expected %r" % (what, list(x), g.tolist(), r[0]), tr)
    cov.outcome(tuple(round(v, 9) for v in r[0]))


def run(case, cov):
    import numpy as np
    kind = case["kind"]
    if case["mode"] == "inst":
        old = make(kind)
        rows = {}
        for d in range(1, case["part"] + 1):
            for x0 in itertools.product(V if d <= case["full"] else (-1.0, 0.0, 2.0), repeat=d):
                for sc, off, dt in ((1.0, 0.0, float), (1e-6, 0.0, float), (1e6, 0.0, float), (1e12, 0.0, float), (1.0, 1e6, float), (1.0, 0.0, np.float32), (2.0, 0.0, int)):
                    if d > case["full"] and sc != 1.0:
                        continue
                    a = np.array([v * sc + off for v in x0]).astype(dt)
                    x = [float(v) for v in a]
                    if ref(kind, x) is None:
                        continue
                    eps = 1.2e-7 if dt is np.float32 else 2.3e-16
                    keep = a.copy()
                    tr = {"scaler": kind, "instance": x, "dtype": str(a.dtype)}
                    cov.step((kind, d), (x0, sc, off, str(a.dtype)))
                    cov.trace(2)
                    compare(kind, make(kind).transform_partial(a), x, eps, "transform_partial", tr, cov)
                    compare(kind, old.fit_transform_partial(a), x, eps, "fit_transform_partial on a used scaler", tr, cov)
                    if not np.array_equal(a, keep):
                        raise Violation("the input was changed from %r to %r" % (keep.tolist(), a.tolist()), tr)
                    if dt is float and sc in (1.0, 1e12):
                        rows.setdefault(d, []).append(x)
        for d, rs in rows.items():
            X = np.array(rs)
            keep = X.copy()
            for nm in ("fit_transform", "transform"):
                out = getattr(make(kind), nm)(X)
                if np.asarray(out).shape != X.shape:
                    raise Violation("%s of shape %r gives shape %r" % (nm, X.shape, np.asarray(out).shape), {"scaler": kind})
                for x, o in zip(rs, out):
                    compare(kind, o, x, 2.3e-16, nm, {"scaler": kind, "instance": x, "rows": len(rs)}, cov)
                if not np.array_equal(X, keep):
                    raise Violation("%s changed its input" % nm, {"scaler": kind})
                cov.trace()
        cov.sample({"scaler": kind, "instances_of_dimension": {d: len(r) for d, r in rows.items()}})
        return
    if case["mode"] == "wide":
        old = make(kind)
        for d in case["dims"]:
            for sc, off in ((1.0, 0.0), (1e-9, 0.0), (1e8, 0.0), (1.0, 1e3)):
                for f in range(4):
                    x = [off + sc * (((j * 7 + f * 3) % 11 - 4) * 0.5 if f < 2 else (1.0 if j == d // 2 else 0.0) if f == 2 else (-1.0) ** j * (j + 1)) for j in range(d)]
                    if ref(kind, x) is None:
                        continue
                    a = np.array(x)
                    tr = {"scaler": kind, "features": d, "form": f, "scale": sc, "offset": off}
                    cov.step((kind, d), (f, sc, off))
                    cov.trace(3)
                    compare(kind, make(kind).transform_partial(a), x, 2.3e-16, "transform_partial", tr, cov)
                    compare(kind, old.fit_transform_partial(a), x, 2.3e-16, "fit_transform_partial on a used scaler", tr, cov)
                    compare(kind, make(kind).fit_transform(np.array([x, x[::-1]]))[1], x[::-1], 2.3e-16, "fit_transform", tr, cov)
                    if a.tolist() != x:
                        raise Violation("the input was changed", tr)
        cov.sample({"scaler": kind, "features": case["dims"]})
        return
    A = [[1.0, -2.0, 4.0], [1e6, 3.0, -0.5], [-0.25, 0.0, 0.5]]
    arrs = [np.array(a) for a in A]
    syms = [(o, i) for o in ("F", "T", "P") for i in range(3)]

    def play(w):
        m = make(kind)
        tr = {"scaler": kind, "calls": w}
        cov.trace()
        for n, (o, i) in enumerate(w):
            cov.step((kind, tuple(w[:n])[-4:]), (o, i))
            x = arrs[i].copy()
            if o == "F":
                r = m.fit_partial(x)
                if r is not m:
                    raise Violation("fit_partial does not return the scaler", tr)
            else:
                got = m.transform_partial(x) if o == "T" else m.fit_transform_partial(x)
                compare(kind, got, A[i], 2.3e-16, "call %d" % n, tr, cov)
            if not np.array_equal(x, arrs[i]):
                raise Violation("the input was changed", tr)
    for w in itertools.product(syms, repeat=case["len"]):
        play(w)
    for w in primitive_words(syms, 2):
        play(w * (40 // len(w)))
    cov.sample({"scaler": kind, "calls": w})

"""C26: seasonal preprocessing returns exactly the documented residual."""
import itertools

from mc.core import Violation
from mc.stl import residuals
from mc.util import prefixes

BOUNDS = {
    "quick": "seasonal-trend decomposer: season 1-3 x trend window default/1-3 x 1-2 features, all words of length 5 over {fit, transform, fit-and-transform} x 2 instances; lassos (all primitive op words of length 2 with 60 values) with seasons up to 24 and trend windows up to 30, runs of 1300 fits with seasons to 300 and trend windows to 1030; "
             "modified-STL transformer: window 4-7, period 2-3, robust/non-robust/extra STL arguments, all words of length 3 over the same 3 operations x 2 values after every prefix length 0..window and lassos of 40 calls with windows 12-300; full-window transforms",
    "thorough": "as quick with words of length 7 (decomposer) and 4 (modified STL)",
}
ASSUMPTIONS = ["the STL seasonal component is that of statsmodels (called directly on the expected window)"]
OPS = ("F", "T", "P")


def cases(tier):
    q = tier == "quick"
    for L in (1, 2, 3):
        for W in (None, 1, 2, 3):
            for d in (1, 2):
                for p in prefixes(range(6), 1):
                    if d == 2 and p[0] % 2:
                        continue
                    yield {"mode": "dec", "L": L, "W": W, "d": d, "len": 5 if q else 7, "prefix": p}
    for L, W in ((4, None), (7, 3), (24, 30), (5, 12), (24, 1)):
        yield {"mode": "declong", "L": L, "W": W, "n": 150 if q else 1500}
    for L, W in ((2, 5), (1, 600), (100, None), (1, 1), (300, 1030)):
        yield {"mode": "declong", "L": L, "W": W, "n": (1500 if L == 300 else 1300) if q else 4000, "ops": 2}
    for W, P, rb, kw in ((4, 2, True, []), (5, 2, True, []), (6, 3, True, []), (7, 3, False, []), (6, 2, True, [["seasonal", 9]]), (5, 2, False, [])):
        for pre in range(0, W + 1):
            yield {"mode": "stl", "W": W, "P": P, "robust": rb, "kw": kw, "pre": pre, "len": 3 if q else 4}
    for W, P in ((12, 3), (24, 4), (20, 5)):
        yield {"mode": "stllong", "W": W, "P": P, "n": 50 if q else 300}
    for W, P in ((45, 2), (70, 3), (150, 7), (300, 12)):
        yield {"mode": "stllong", "W": W, "P": P, "n": W + (12 if q else 100)}
    yield {"mode": "window"}


class Dec:
    """Reference decomposer."""

    def __init__(self, L, W):
        self.L, self.W = L, W if W is not None else L
        self.h, self.rec = [], {}

    def trend(self):
        w = self.h[-self.W:]
        if not w:
            return [0.0] * 99
        return [sum(r[j] for r in w) / len(w) for j in range(len(w[0]))]

    def seas(self, ph, d):
        r = self.rec.get(ph, [])
        return [sum(v[j] for v in r) / len(r) for j in range(d)] if r else [0.0] * d

    def fit(self, x):
        ph = len(self.h) % self.L
        self.h.append(x)
        t = self.trend()
        if len(self.h) >= self.W:
            self.rec.setdefault(ph, []).append([x[j] - t[j] for j in range(len(x))])
        return ph, t

    def transform(self, x):
        s, t = self.seas(len(self.h) % self.L, len(x)), self.trend()
        return [x[j] - t[j] - s[j] for j in range(len(x))]

    def fit_transform(self, x):
        ph, t = self.fit(x)
        s = self.seas(ph, len(x))
        return [x[j] - t[j] - s[j] for j in range(len(x))]


def cmp(got, want, scale, tr, cov):
    import numpy as np
    g = np.asarray(got, dtype=float).reshape(-1)
    cov.comp()
    cov.outcome(tuple(np.round(g, 8)))
    if g.shape != (len(want),) or not np.allclose(g, want, rtol=0, atol=1e-9 * scale):
        raise Violation("residual %r, expected %r" % (g.tolist(), want), tr)


def run(case, cov):
    import numpy as np
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer, SeasonalTrendDecomposer
    mode = case["mode"]
    if mode in ("dec", "declong"):
        L, W = case["L"], case["W"]

        def mk():
            return SeasonalTrendDecomposer(L) if W is None else SeasonalTrendDecomposer(L, W) if L % 2 else SeasonalTrendDecomposer(season_length=L, trend_window=W)

        def step(t, ref, op, x, scale, tr):
            a = np.array(x)
            if op == "F":
                if t.fit_partial(a) is not t:
                    raise Violation("fit_partial does not return the transformer", tr)
                ref.fit(x)
            elif op == "T":
                cmp(t.transform_partial(a), ref.transform(x), scale, tr, cov)
            else:
                cmp(t.fit_transform_partial(a), ref.fit_transform(x), scale, tr, cov)
    if mode == "dec":
        vals = [(1.0, -2.0)[:case["d"]], (5.5, 0.25)[:case["d"]]]
        syms = [(o, v) for o in OPS for v in (0, 1)]
        for rest in itertools.product(range(6), repeat=case["len"] - len(case["prefix"])):
            w = [syms[i] for i in list(case["prefix"]) + list(rest)]
            t, ref = mk(), Dec(L, W)
            cov.trace()
            tr = {"season": L, "trend_window": W, "calls": [(o, vals[v]) for o, v in w]}
            for o, v in w:
                cov.step((L, W, case["d"], tuple(ref.h)), (o, v))
                step(t, ref, o, vals[v], 10, tr)
            cmp(t.transform_partial(np.array(vals[0])), ref.transform(vals[0]), 10, tr, cov)
        cov.sample(tr)
    elif mode == "declong":
        for u in itertools.product(OPS, repeat=2) if "ops" not in case else (("P", "P"), ("F", "F"), ("F", "P")):
            for mul in (1.0, 1000.0):
                t, ref = mk(), Dec(L, W)
                cov.trace()
                for k in range(case["n"]):
                    x = (mul * (((k * 7) % 11) - 3 + 0.25 * (k % max(L, 2))), float(k % 5))
                    cov.step((L, W, u, k), u[k % 2])
                    step(t, ref, u[k % 2], x, mul * 100, {"season": L, "trend_window": W, "ops": u, "call": k})
                    if u == ("F", "F") and (k % 97 == 5 or "ops" in case and k > 900 and k % 2):
                        step(t, ref, "T", x, mul * 100, {"season": L, "trend_window": W, "ops": u, "call": k})
        cov.sample({"season": L, "trend_window": W, "calls": case["n"]})
    elif mode == "window":
        # full-window transform
        for P, rb, n in itertools.product((2, 3), (True, False), (6, 7, 12, 13)):
            for kind in range(3):
                X = np.array([((k * 5) % 7) - 2.0 + (30 if kind == 1 and k == n - 1 else 0) for k in range(n)])
                if kind == 2:
                    X = X.reshape(-1, 1)
                t = ModifiedSTLResidualTransformer(P, robust=rb)
                want = residuals(X.ravel(), P, rb)
                for _ in range(2):
                    got = t.transform_window(X)
                    cmp(got, list(want), 100, {"period": P, "robust": rb, "n": n, "kind": kind}, cov)
                cov.trace()
                cov.step((P, rb, n), kind)
        cov.sample({"n": n})
    else:
        W, P = case["W"], case["P"]
        rb, kw = case.get("robust", True), tuple(tuple(k) for k in case.get("kw", []))

        def mk2():
            return ModifiedSTLResidualTransformer(period=P, window_size=W, robust=rb, **dict(kw))

        def ref(vals):
            return residuals(vals, P, rb, kw)[-1] if len(vals) >= 2 * P else 0.0

        def step2(t, hist, op, v, tr):
            a = np.array([v])
            if op == "F":
                if t.fit_partial(a) is not t:
                    raise Violation("fit_partial does not return the transformer", tr)
                hist.append(v)
            elif op == "T":
                cmp(t.transform_partial(a), [ref((hist + [v])[-W:])], 100, tr, cov)
            else:
                hist.append(v)
                cmp(t.fit_transform_partial(a), [ref(hist[-W:])], 100, tr, cov)
        if mode == "stl":
            vals = [1.0, 8.0]
            syms = [(o, v) for o in OPS for v in vals]
            for w in itertools.product(syms, repeat=case["len"]):
                t, hist = mk2(), []
                cov.trace()
                for k in range(case["pre"]):
                    v = [2.0, -1.0, 0.5, 4.0][k % 4]
                    t.fit_partial(np.array([v]))
                    hist.append(v)
                tr = {"config": case, "calls": w}
                for o, v in w:
                    cov.step((W, P, rb, str(kw), tuple(hist)), (o, v))
                    step2(t, hist, o, v, tr)
                step2(t, hist, "T", 1.0, tr)
            cov.sample(tr)
        else:
            for u in itertools.product(OPS, repeat=2):
                if u == ("T", "T"):
                    continue
                t, hist = mk2(), []
                cov.trace()
                for k in range(case["n"]):
                    v = float((k % P) * 3 + ((k * 7) % 5) * 0.25 + (40 if k % 17 == 11 else 0))
                    cov.step((W, P, u, k), u[k % 2])
                    step2(t, hist, u[k % 2], v, {"config": case, "ops": u, "call": k})
            cov.sample({"config": case})

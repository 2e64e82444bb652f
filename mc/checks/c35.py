"""C35: invalid configurations are rejected and valid ones accepted."""
import itertools
import math

from mc.core import Violation

BOUNDS = {
    "quick": "both seasonal ESD models: period -2..7 x window_size 0..42 and 98-104 x every max_anomalies within 3 of a boundary and -1..3 x 12 alpha values incl. 0, 1, next floats, NaN, infinities (alphas crossed with the boundary settings), periods 24-1000 with windows and anomaly counts at every boundary, Python and NumPy numbers, keyword and positional; "
             "STL transformer: period -2..13 x window_size None, -1..40; decomposer: season_length -3..9 x trend_window None, -3..9; deviation model: all strings of length <= 2 over 4 letters and variants of the two names; every accepted object is used",
    "thorough": "as quick with period to 12 and window_size to 130",
}
ASSUMPTIONS = ["integer periods, windows and anomaly counts"]
TECHNIQUE = "exhaustive enumeration of the parameter grid around every boundary on the real constructors against the documented predicate"


def cases(tier):
    q = tier == "quick"
    for h in (False, True):
        for P in range(-2, 8 if q else 13):
            yield {"mode": "esd", "hybrid": h, "P": P, "big": 104 if q else 130, "dense": 42 if q else 130}
    for h in (False, True):
        for P in (24, 50, 99, 100, 101, 144, 365, 1000):
            yield {"mode": "large", "hybrid": h, "P": P}
    yield {"mode": "stl"}
    yield {"mode": "dec"}
    yield {"mode": "sad"}


ALPHAS = [0.05, 0.0, 1.0, -0.1, 1.5, math.nextafter(0, 1), math.nextafter(1, 0), math.nextafter(1, 2), -math.nextafter(0, 1), 0.5, float("nan"), float("inf"), float("-inf"), 0.999, 1e-9]


def attempt(mk, valid, what, cov, use=None):
    try:
        o = mk()
    except ValueError:
        ok = False
        err = None
    except Exception as e:  # noqa: any other exception is wrong either way
        raise Violation("%s: raised %s instead of %s" % (what, type(e).__name__, "an object" if valid else "ValueError"), {"what": what})
    else:
        ok = True
    cov.comp()
    cov.trace()
    cov.outcome((ok, what.split("(")[0]))
    if ok != valid:
        raise Violation("%s was %s" % (what, "accepted although invalid" if ok else "rejected although valid"), {"what": what})
    if ok and use is not None:
        use(o)


def run(case, cov):
    import numpy as np
    from pysad.models import SeasonalESD, SeasonalHybridESD, StandardAbsoluteDeviation
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer, SeasonalTrendDecomposer

    def use1(o):
        f = getattr(o, "fit_score_partial", None) or o.fit_transform_partial
        for v in (1.0, 2.0, 1.5):
            f(np.array([v]))
    def use2(o):
        o.transform_window(np.array([float(i % 5) for i in range(60)]))
    if case["mode"] == "esd":
        C = SeasonalHybridESD if case["hybrid"] else SeasonalESD
        P = case["P"]
        for W in list(range(0, case["dense"] + 1)) + list(range(98, case["big"] + 1)):
            top = 49 * W // 100
            ks = sorted(set(list(range(-1, 4)) + [top + d for d in (-1, 0, 1, 2)] + [W // 2, W // 2 + 1, W]))
            for k in ks:
                good = P >= 2 and W >= 2 * P and 1 <= k and 100 * k <= 49 * W
                edge = k in (top, top + 1, 1, 0) and (W in (2 * P, 2 * P - 1, 2 * P + 1, 20, 100))
                for a in ALPHAS if edge else ALPHAS[:2]:
                    cov.step((case["hybrid"], P, W, k), repr(a))
                    ok = good and 0 < a < 1
                    what = "%s(period=%d, window_size=%d, max_anomalies=%d, alpha=%r)" % (C.__name__, P, W, k, a)
                    attempt(lambda: C(period=P, window_size=W, max_anomalies=k, alpha=a), ok, what, cov, use1 if edge else None)
                if edge:
                    attempt(lambda: C(np.int64(P), np.int64(W), np.int64(k), np.float64(0.1), False), good, "positional NumPy %s(%d, %d, %d)" % (C.__name__, P, W, k), cov)
                    attempt(lambda: C(P, W, k), good, "%s(%d, %d, %d)" % (C.__name__, P, W, k), cov)
    elif case["mode"] == "large":
        C = SeasonalHybridESD if case["hybrid"] else SeasonalESD
        P = case["P"]
        for W in sorted({P - 1, P, P + 1, 2 * P - 2, 2 * P - 1, 2 * P, 2 * P + 1, 3 * P, 1000, 2016, 10000}):
            top = 49 * W // 100
            for k in sorted({-1, 0, 1, 2, 10, top - 1, top, top + 1, top + 2, W // 2, W}):
                for a in (0.05, 0.0, 1.0, 0.999):
                    ok = W >= 2 * P and 1 <= k and 100 * k <= 49 * W and 0 < a < 1
                    cov.step((case["hybrid"], P, W, k), a)
                    attempt(lambda: C(period=P, window_size=W, max_anomalies=k, alpha=a), ok, "%s(period=%d, window_size=%d, max_anomalies=%d, alpha=%r)" % (C.__name__, P, W, k, a), cov, use1)
            for rb in (True, False):
                attempt(lambda: ModifiedSTLResidualTransformer(period=P, window_size=W, robust=rb), W >= 2 * P, "ModifiedSTLResidualTransformer(period=%d, window_size=%d)" % (P, W), cov, use1)
            for s, w in ((W, None), (W, P), (P, W), (-W, P), (W, -P), (W, 0), (0, W)):
                attempt(lambda: SeasonalTrendDecomposer(s, w), s >= 1 and (w is None or w >= 1), "SeasonalTrendDecomposer(%r, %r)" % (s, w), cov, use1)
    elif case["mode"] == "stl":
        for P in range(-2, 14):
            for W in [None] + list(range(-1, 41)):
                cov.step(("stl", P), W)
                ok = P >= 2 and (W is None or W >= 2 * P)
                for rb in (True, False):
                    attempt(lambda: ModifiedSTLResidualTransformer(period=P, window_size=W, robust=rb), ok, "ModifiedSTLResidualTransformer(period=%d, window_size=%r)" % (P, W), cov, use1 if W is not None else use2)
                attempt(lambda: ModifiedSTLResidualTransformer(P, W), ok, "ModifiedSTLResidualTransformer(%d, %r)" % (P, W), cov)
    elif case["mode"] == "dec":
        for s in range(-3, 10):
            for w in [None] + list(range(-3, 10)):
                cov.step(("dec", s), w)
                ok = s >= 1 and (w is None or w >= 1)
                attempt(lambda: SeasonalTrendDecomposer(season_length=s, trend_window=w), ok, "SeasonalTrendDecomposer(season_length=%d, trend_window=%r)" % (s, w), cov, use1)
                attempt(lambda: SeasonalTrendDecomposer(s, w), ok, "SeasonalTrendDecomposer(%d, %r)" % (s, w), cov)
    else:
        names = ["mean", "median", "Mean", "MEDIAN", "mean ", " mean", "", "m", "med", "average", "mode", "means", "medians", "std", "none", "max", None, 0, 1, True, False, 2.5, ("mean",), ["mean"], b"mean"]
        names += ["".join(t) for n in (1, 2) for t in itertools.product("mean", repeat=n)]
        for nm in names:
            ok = isinstance(nm, str) and nm in ("mean", "median")
            for ab in (True, False):
                cov.step(("sad", repr(nm)), ab)
                attempt(lambda: StandardAbsoluteDeviation(substracted_statistic=nm, absolute=ab), ok, "StandardAbsoluteDeviation(%r)" % (nm,), cov, use1)
            attempt(lambda: StandardAbsoluteDeviation(nm), ok, "StandardAbsoluteDeviation(%r)" % (nm,), cov)
        attempt(lambda: StandardAbsoluteDeviation(), True, "StandardAbsoluteDeviation()", cov, use1)
    cov.sample({"case": case})

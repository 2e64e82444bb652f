"""C10: Gaussian tail calibrator."""
import math

from mc.core import Violation
from mc.post import Driver
from mc.util import mean, num, pvar

BOUNDS = {
    "quick": "running statistics on (windows 1-5, 7, 16, 50, default 6400) and off (with several window_size values that must be ignored); "
             "all words of F(v)/T(v)/P(v): depth 4 over 3 dyadic scores, 5 over 2, fit-only and fit-and-transform-only words to depth 6-8; lassos of period <= 3, step changes (6500 steps for the default window); windows 1000-2100 over 4500 distinct scores in three magnitudes; scores 0-10 deviations from the mean in quarter steps, to 1e-14",
    "thorough": "as quick with depth 5/6 and windows to 7",
}
ASSUMPTIONS = ["scores are dyadic so that a zero variance is exactly zero; results are compared to 1e-9"]
ALPH = {"dy3": ([0.0, 0.5, -1.25], "float"), "int": ([1, 2], "py"), "neg": ([-0.5, -3.0], "np64"), "f32": ([0.5, 4.0], "np32"),
        "tiny": ([2.0 ** -20, 3 * 2.0 ** -20], "float"), "wide": ([1024.0, -0.5], "float")}


def make(cfg):
    from pysad.transform.probability_calibration import GaussianTailProbabilityCalibrator as G
    if cfg.get("default"):
        return G()
    if cfg["window"] is None:
        return G(running_statistics=False) if cfg.get("ws") is None else G(running_statistics=False, window_size=cfg["ws"])
    return G(running_statistics=True, window_size=cfg["window"])


def cdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def ref(cfg, kept, v, hist):
    var = pvar(kept)
    s = math.sqrt(var) if var > 0 else 1.0
    z = (v - mean(kept)) / s
    return cdf(z), 1e-9 if cfg["kind"] != "np32" else 1e-4


def cases(tier):
    q = tier == "quick"
    for w, ws in [(None, None), (None, 1), (None, 2), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0)] + ([] if q else [(6, 0), (7, 0), (None, 3)]):
        for al, (vals, kind) in ALPH.items():
            yield {"cfg": {"window": w, "ws": ws, "kind": kind}, "alpha": al, "mode": "words",
                   "depth": (4 if len(vals) == 3 else 5) + (0 if q else 1)}
    for w, ws in [(None, None), (None, 5), (None, 20), (7, 0), (16, 0), (50, 0), (100, 0)]:
        for al, (vals, kind) in ALPH.items():
            yield {"cfg": {"window": w, "ws": ws, "kind": kind}, "alpha": al, "mode": "lasso", "n": 130}
            yield {"cfg": {"window": w, "ws": ws, "kind": kind}, "alpha": al, "mode": "steps", "n": 170}
    yield {"cfg": {"window": 6400, "default": True, "kind": "float"}, "alpha": "dy3", "mode": "long", "n": 6500}
    yield {"cfg": {"window": None, "ws": None, "kind": "float"}, "alpha": "dy3", "mode": "long", "n": 6500}


    for w in [None, 1000, 1030, 2100]:
        yield {"cfg": {"window": w, "ws": None, "kind": "float"}, "alpha": "dy3", "mode": "scale", "n": 4500 if q else 12000}
        for mul in (2.0 ** -30, 2.0 ** 30):
            yield {"cfg": {"window": w, "ws": None, "kind": "float"}, "alpha": "dy3", "mode": "scale", "n": 2200, "mul": mul}
        yield {"cfg": {"window": w, "ws": None, "kind": "float"}, "alpha": "dy3", "mode": "tail"}


def tail(case, cov):
    """Far tails: mean and deviation are exact, every quarter of a deviation from -10 to 10."""
    for mu in (0.0, 8.0, -3.0):
        for sd in (1.0, 0.25, 64.0):
            p = make(case["cfg"])
            p.fit(__import__("numpy").array([mu - sd, mu + sd] * 20))
            cov.trace()
            for k in range(-40, 41):
                v = mu + sd * k / 4
                got, want = num(p.transform_partial(v)), cdf(k / 4)
                cov.comp()
                cov.step((str(case["cfg"]), mu, sd), k)
                if not abs(got - want) <= 1e-14:
                    raise Violation("%r is %g deviations from the mean of the fitted scores, calibrated to %r, expected %r" % (v, k / 4, got, want), {"mean": mu, "deviation": sd})
    cov.sample(case)


def run(case, cov):
    cfg = case["cfg"]
    if case["mode"] == "tail":
        return tail(case, cov)
    vals, kind = ALPH[case["alpha"]]
    d = Driver(cov, cfg, make, ref, cfg["window"])
    probes = list(vals) + [vals[0] * 1.5 + vals[1] / 2, max(vals) * 2, min(vals) - abs(vals[1])]
    if case["mode"] == "scale":
        d.scale(case["n"], [0.125, -63.0, 100.0, 3.0], kind, case.get("mul", 1.0))
    elif case["mode"] == "words":
        d.words([], [(o, v) for o in "FTP" for v in vals], case["depth"], probes, kind)
        for o in "FP":
            d.words([], [(o, v) for v in vals], case["depth"] + (2 if len(vals) == 3 else 3), probes, kind)
    elif case["mode"] == "lasso":
        d.lasso(vals, case["n"], 30, probes, kind)
    elif case["mode"] == "long":
        d.step_lasso(vals[0], vals[1], case["n"], 50, 800, probes, kind)
    else:
        for sw in (1, 7, 40):
            for a, b in ((0, 1), (1, 0)):
                d.step_lasso(vals[a], vals[b], case["n"], sw, 25, probes, kind)
    p = make(cfg)
    for v in list(vals) * 2:
        p.fit_partial(v)
    grid = [k / 4 for k in range(-20, 21)]
    out = [num(p.transform_partial(g)) for g in grid]
    if any(o < 0 or o > 1 for o in out) or any(a > b for a, b in zip(out, out[1:])):
        raise Violation("calibrated scores not in [0,1] or decreasing: %r -> %r" % (grid, out))

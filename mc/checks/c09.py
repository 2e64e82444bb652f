"""C09: conformal calibrator."""
from mc.core import Violation
from mc.post import Driver
from mc.util import num

BOUNDS = {
    "quick": "windows 1-5 and unlimited; all words of F(v)/T(v)/P(v): depth 4 over 3 tied/untied scores, 5 over 2, fit-only and fit-and-transform-only words to depth 6-8; "
             "lassos of period <= 3 for windows 7,16,50,100, default 300 and unlimited; step changes at every boundary; windows 1000-2100 over 4500 distinct scores; scores one unit in the last place apart and down to 1e-300, and infinite ones",
    "thorough": "as quick with depth 5/6, windows to 7, longer lassos",
}
ASSUMPTIONS = ["no transform before the first fit (0/0 is undefined)"]
ALPH = {"dy3": ([0.0, 0.5, -1.25], "float"), "int": ([1, 2, 3], "py"), "dec": ([0.1, 0.3], "np64"), "f32": ([0.5, -4.0], "np32"),
        "big": ([1e9, 1e9 + 1], "float"), "near": ([1.0, 1.0 + 2.0 ** -52, 1.0 - 2.0 ** -45], "float"), "sub": ([1e-300, 2e-300], "float"), "eps": ([1e-11, 1.1e-11], "np64"), "inf": ([float("inf"), 0.5, -float("inf")], "float")}


def make(cfg):
    from pysad.transform.probability_calibration import ConformalProbabilityCalibrator as C
    if cfg["window"] is None:
        return C(windowed=False, window_size=2) if cfg.get("ws") else C(windowed=False)
    if cfg.get("default"):
        return C()
    return C(windowed=True, window_size=cfg["window"])


def ref(cfg, kept, v, hist):
    return sum(1 for x in kept if x > v) / len(kept), 1e-12


def cases(tier):
    q = tier == "quick"
    for w in [None, 1, 2, 3, 4, 5] + ([] if q else [6, 7]):
        for al, (vals, kind) in ALPH.items():
            yield {"cfg": {"window": w, "kind": kind, "ws": al == "int"}, "alpha": al, "mode": "words",
                   "depth": (4 if len(vals) == 3 else 5) + (0 if q else 1)}
    for w in [None, 7, 16, 50, 100, 300]:
        for al, (vals, kind) in ALPH.items():
            yield {"cfg": {"window": w, "kind": kind, "default": w == 300, "ws": al == "int"}, "alpha": al,
                   "mode": "lasso", "n": 130 if w != 300 else 320}
            yield {"cfg": {"window": w, "kind": kind, "default": w == 300}, "alpha": al, "mode": "steps", "n": 150 if w != 300 else 640}


    for w in [None, 1000, 1030, 2100]:
        yield {"cfg": {"window": w, "kind": "float"}, "alpha": "dy3", "mode": "scale", "n": 4500 if q else 12000}
        yield {"cfg": {"window": w, "kind": "float"}, "alpha": "dy3", "mode": "scale", "n": 3000, "mul": 2.0 ** -40}


def run(case, cov):
    cfg = case["cfg"]
    vals, kind = ALPH[case["alpha"]]
    d = Driver(cov, cfg, make, ref, cfg["window"])
    probes = list(vals) + [(vals[0] + vals[1]) / 2, max(vals) + 1, min(vals) - 1]
    if case["alpha"] == "inf":
        probes = list(vals) + [1e308, -1e308, 0.25]
    if case["mode"] == "scale":
        d.scale(case["n"], [0.125, -63.0, 100.0, 3.0, 62.875], kind, case.get("mul", 1.0))
    elif case["mode"] == "words":
        d.words([], [(o, v) for o in "FTP" for v in vals], case["depth"], probes, kind)
        for o in "FP":
            d.words([], [(o, v) for v in vals], case["depth"] + (2 if len(vals) == 3 else 3), probes, kind)
    elif case["mode"] == "lasso":
        d.lasso(vals, case["n"], 30, probes, kind, plen=3 if case["n"] < 200 else 2)
    else:
        for sw in (1, 7, 40):
            for a, b in ((0, 1), (1, 0)):
                d.step_lasso(vals[a], vals[b], case["n"], sw, 25, probes, kind)
    # range and monotonicity on one final object
    p = make(cfg)
    for v in list(vals) * 3:
        p.fit_partial(v)
    grid = sorted(set(float(v) + e for v in vals for e in (-1, -0.25, 0, 0.25, 1)))
    out = [num(p.transform_partial(g)) for g in grid]
    if any(o < 0 or o > 1 for o in out) or any(a < b for a, b in zip(out, out[1:])):
        raise Violation("calibrated scores not in [0,1] or increasing: %r -> %r" % (grid, out))

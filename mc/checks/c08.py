"""C08: score postprocessors."""
import math

from mc.post import Driver
from mc.util import mean, median, pvar

BOUNDS = {
    "quick": "8 postprocessors, windows 1-4; all words of F(v)/T(v)/P(v) over 2-3 scores: depth 4 (9 ops) and 5 (6 ops), fit-only and fit-and-transform-only words to depth 6-8, probes transformed at the end; "
             "lassos of period <= 3 for windows 1,2,5,16,50 over 130 steps, step changes; windows 1000-2100 over 4500 distinct scores in three magnitudes",
    "thorough": "as quick with depth 5 and 6, windows to 6, lassos of 700 steps",
}
ASSUMPTIONS = ["z-scores are compared when the population variance of the retained scores is non-zero by a margin"]
ALPH = {"dy3": ([0.0, 0.5, -1.25], "float"), "dy2": ([2.0, -3.0], "py"), "neg": ([-0.7, -0.2], "np64"),
        "f32": ([0.5, 4.0], "np32"), "tiny": ([2.0 ** -20, 3 * 2.0 ** -20], "float"), "tie": ([0.1, 0.30000000000000004], "float"),
        "big": ([1e5, -1.0], "float")}
NAMES = ["Average", "Max", "Median", "ZScore"]


def make(cfg):
    import pysad.transform.postprocessing as m
    name, w = cfg["name"], cfg["window"]
    if w is None:
        return getattr(m, name + "Postprocessor")()
    return getattr(m, "Running" + name + "Postprocessor")(window_size=w) if cfg.get("kw") else \
        getattr(m, "Running" + name + "Postprocessor")(w)


def ref(cfg, kept, v, hist):
    n = cfg["name"]
    scale = max(abs(x) for x in hist)
    eps = 1e-13 if cfg["kind"] != "np32" else 1e-5
    if n == "Average":
        return mean(kept), eps * scale * (len(hist) + 1)
    if n == "Max":
        return max(kept), 0.0
    if n == "Median":
        return median(kept), eps * scale
    var = pvar(kept)
    if var <= 1e-4 * scale * scale or (cfg["kind"] == "np32" and var < 1e-3 * scale ** 2):
        return None
    z = (v - mean(kept)) / math.sqrt(var)
    return z, max(abs(z), 1) * eps * 100 * (len(hist) + 1) * max(1, scale ** 2 / var)


def cases(tier):
    q = tier == "quick"
    for name in NAMES:
        for w in [None, 1, 2, 3, 4] + ([] if q else [5, 6]):
            for al, (vals, kind) in ALPH.items():
                cfg = {"name": name, "window": w, "kind": kind, "kw": w == 2}
                d = (4 if len(vals) == 3 else 5) + (0 if q else 1)
                yield {"cfg": cfg, "alpha": al, "mode": "words", "depth": d}
        for w in [None, 1, 2, 5, 16, 50] + ([] if q else [100, 300]):
            for al, (vals, kind) in ALPH.items():
                cfg = {"name": name, "window": w, "kind": kind}
                yield {"cfg": cfg, "alpha": al, "mode": "lasso", "n": 130 if q else 700}
        for w in [None, 1000, 1030, 2100]:
            yield {"cfg": {"name": name, "window": w, "kind": "float"}, "alpha": "dy3", "mode": "scale", "n": 4500 if q else 12000}
            for mul in (2.0 ** -40, 2.0 ** 40):
                yield {"cfg": {"name": name, "window": w, "kind": "float"}, "alpha": "dy3", "mode": "scale", "n": 2300, "mul": mul}


def run(case, cov):
    cfg = case["cfg"]
    vals, kind = ALPH[case["alpha"]]
    if cfg["name"] != "ZScore":
        cfg = dict(cfg, noarg=True)      # these take no score for transforming
    d = Driver(cov, cfg, make, ref, cfg["window"])
    probes = vals + [vals[0] / 2, vals[-1] * 4]
    if case["mode"] == "scale":
        d.scale(case["n"], [0.125, -63.0, 100.0], kind, case.get("mul", 1.0))
    elif case["mode"] == "words":
        d.words([], [(o, v) for o in "FTP" for v in vals], case["depth"], probes, kind)
        for o in "FP":
            d.words([], [(o, v) for v in vals], case["depth"] + (2 if len(vals) == 3 else 3), probes, kind)
    else:
        d.lasso(vals, case["n"], 10, probes, kind)
        for sw in (1, 7, 40):
            d.step_lasso(vals[0], vals[1], case["n"], sw, 20, probes, kind)

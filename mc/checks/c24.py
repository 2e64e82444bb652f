"""C24: deviation models compute the documented deviation score."""
import itertools
import math

from mc.core import Violation
from mc.util import close, mean, median, num, prefixes, primitive_words, pvar

BOUNDS = {
    "quick": "standard-deviation model (mean/median x absolute/signed) and median-absolute-deviation model (absolute/signed x b 1.4826, 1, 2.5, 0.5): all words of length 6 over 4 values in 8 value scales (1e-10 to 1e20), scored at 8 probes (to 1e12) after every fit / only at the end, "
             "float64, int and float32 instances; lassos over all primitive words of length <= 3 to 200 fits",
    "thorough": "as quick with words of length 8 and lassos to 1500 fits",
}
ASSUMPTIONS = ["values compared where the deviation in the denominator is not 0 (the implementation adds 1e-10 to it); with a zero deviation only the score 0 of the centre itself"]

SCALES = {"small": [0.0, 1.0, 3.0, -2.0], "frac": [0.25, -0.5, 0.25, 1.75], "far": [1000.0, 1001.0, 999.5, 1004.0], "wide": [0.0, 1e6, -1e6, 1.0],
          "nano": [0.0, 4e-9, 1e-8, -6e-9], "tiny": [0.0, 3e-5, 1e-4, -7e-5], "huge": [0.0, 3e20, -1e20, 2e20], "pico": [0.0, 1.5e-9, 3.5e-9, -1.3e-9]}
CONFIGS = [("S", "mean", True), ("S", "mean", False), ("S", "median", True), ("S", "median", False), ("S", None, None)] + \
    [("M", b, a) for b in (None, 1.0, 2.5, 0.5) for a in (True, False)]


def cases(tier):
    q = tier == "quick"
    for c in range(len(CONFIGS)):
        for s in SCALES:
            for p in prefixes(range(4), 1 if q else 2):
                yield {"mode": "words", "cfg": c, "scale": s, "len": (6 if s in ("small", "frac", "far", "wide") else 5) if q else 8, "prefix": p}
            yield {"mode": "lasso", "cfg": c, "scale": s, "n": 200 if q else 1500}


def make(cfg):
    from pysad.models import MedianAbsoluteDeviation, StandardAbsoluteDeviation
    k, a, ab = cfg
    if k == "S":
        return StandardAbsoluteDeviation() if a is None else StandardAbsoluteDeviation(a, ab)
    return MedianAbsoluteDeviation(absolute=ab) if a is None else MedianAbsoluteDeviation(absolute=ab, b=a)


class Ref:
    def __init__(self, cfg):
        self.k, self.a, self.ab = cfg
        self.xs, self.devs = [], []

    def fit(self, x):
        self.xs.append(x)
        if self.k == "M":
            self.devs.append(abs(x - median(self.xs)))
        self.cached = None

    def score(self, x):
        if self.cached is None:
            if self.k == "S":
                c = median(self.xs) if self.a == "median" else mean(self.xs)
                d = math.sqrt(pvar(self.xs))
            else:
                c = median(self.xs)
                d = (1.4826 if self.a is None else self.a) * median(self.devs)
            self.cached = (c, d)
        c, d = self.cached
        big = max(abs(v) for v in self.xs)
        ab = self.ab is None or self.ab
        if d <= (1e-6 * max(1.0, big) if big >= 0.1 else 1e-3 * big):
            return (0.0, 0.5e-3) if x == c and d == 0 and len(set(self.xs)) == 1 and big <= 1e7 else None
        s = (x - c) / (d + 1e-10)
        s = abs(s) if ab else s
        # relative rounding of a running variance and of the constant 1e-10
        rel = 1e-7 + 2e-10 / d + 1e-13 * (big / d) ** 2 * len(self.xs)
        return s, rel * (abs(s) + 1) + 1e-12 * big / d


def run(case, cov):
    import numpy as np
    cfg = CONFIGS[case["cfg"]]
    vals = SCALES[case["scale"]]
    probes = vals[:2] + [vals[3], vals[0] + 0.3, vals[1] * 4 + 7, -11.0, (vals[0] + vals[1]) / 2, 1e12]

    def compare(m, ref, kind, tr):
        for p in probes:
            e = ref.score(p)
            g = num(m.score_partial(np.array([p])))
            if e is None:
                continue
            cov.comp()
            cov.outcome(round(g, 9))
            if not close(g, e[0], e[1] if kind != "f32" else 1e-4 * (abs(e[0]) + 1)):
                raise Violation("%r: score of %r is %r, expected %r" % (cfg, p, g, e[0]), tr)
    if case["mode"] == "words":
        for rest in itertools.product(range(4), repeat=case["len"] - len(case["prefix"])):
            w = list(case["prefix"]) + list(rest)
            every = sum(w) % 2 == 0
            kind = ("f64", "int", "f32")[sum(w) % 3] if case["scale"] in ("small",) else "f64"
            m, ref = make(cfg), Ref(cfg)
            cov.trace()
            for k, i in enumerate(w):
                cov.step((case["cfg"], case["scale"], tuple(sorted(w[:k])) if cfg[0] == "S" else tuple(w[:k])), i)
                x = np.array([vals[i]])
                if kind == "int":
                    x = x.astype(int)
                elif kind == "f32":
                    x = x.astype(np.float32)
                m.fit_partial(x)
                ref.fit(vals[i])
                if every or k == len(w) - 1:
                    compare(m, ref, kind, {"config": cfg, "fits": [vals[j] for j in w[:k + 1]], "dtype": kind})
        cov.sample({"config": cfg, "fits": [vals[j] for j in w]})
        return
    for per in primitive_words(range(4), 3):
        m, ref = make(cfg), Ref(cfg)
        cov.trace()
        for t in range(case["n"]):
            i = per[t % len(per)]
            m.fit_partial(np.array([vals[i]]))
            ref.fit(vals[i])
            cov.step((case["cfg"], case["scale"], per, t), i)
            if t % 17 == 3 or t == case["n"] - 1:
                compare(m, ref, "f64", {"config": cfg, "period": [vals[j] for j in per], "fits": t + 1})
    cov.sample({"config": cfg, "period": per})

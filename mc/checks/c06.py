"""C06: running statistics."""
import itertools
import math

from mc.core import Violation
from mc.util import aperiodic, checkpoints, cast, close, num, primitive_words
from mc.checks import c05

BOUNDS = {
    "quick": "8 statistics + 2 absolute-value wrapped + a user-defined content statistic with constructor arguments; windows 1-5; all update words "
             "to depth 7 (3 values) / 9 (2 values), read after every step, only at the end, and at every subset of positions for depth 5; "
             "lassos of period <= 3 for windows 7,16,25,50,100 and 260 steps, step changes; windows 1000-2100 over 4500 distinct values; windows 1-128, 6 streams in three magnitudes, read once at the end of runs of 7 lengths",
    "thorough": "as quick with depth 8/11, windows to 7, lassos of 1000 steps",
}
ASSUMPTIONS = ["up to rounding as in C05"]
ALPH = {"int": ([1, 2, 3], "py"), "signed": ([-1, 0, 2], "float"), "dec": ([0.1, 0.7], "float"), "neg": ([-3.5, -1.0], "np64"),
        "f32": ([0.5, -1.5], "np32"), "arr": ([0.25, -2.0], "arr1"), "big": ([1e5, 0.5], "float")}
STATS = c05.METERS + ["AbsSum", "AbsMin", "Content"]


def classes():
    import pysad.statistics as s
    from pysad.core.base_statistic import UnivariateStatistic

    class AbsSum(s.AbsStatistic):
        def __init__(self):
            super().__init__(s.SumMeter)

    class AbsMin(s.AbsStatistic):
        def __init__(self):
            super().__init__(s.MinMeter)

    class Content(UnivariateStatistic):
        """Reports what it contains; built with keyword arguments."""

        def __init__(self, tag="none", gain=1):
            self.tag, self.gain, self.xs = tag, gain, []

        def update(self, num):
            self.xs.append(num)
            return self

        def remove(self, num):
            self.xs.remove(num)
            return self

        def get(self):
            return (self.tag, self.gain, tuple(sorted(float(x) for x in self.xs)))

    return {"AbsSum": AbsSum, "AbsMin": AbsMin, "Content": Content}


_CLS = {}


def make(name, w):
    import pysad.statistics as s
    if not _CLS:
        _CLS.update(classes())
    if name == "Content":
        return s.RunningStatistic(_CLS[name], w, tag="t%d" % w, gain=w)
    if name in _CLS:
        return s.RunningStatistic(_CLS[name], window_size=w)
    return s.RunningStatistic(statistic_cls=getattr(s, name), window_size=w)


def check(name, w, r, hist, scale, f32, trace, cov):
    kept = hist[-w:]
    got = r.get()
    cov.comp()
    if name == "Content":
        want = ("t%d" % w, w, tuple(sorted(kept)))
        if got != want:
            raise Violation("running statistic holds %r, expected %r" % (got, want), trace)
        return
    g = num(got, "RunningStatistic.get()")
    ref = {"AbsSum": "Abs:SumMeter", "AbsMin": "Abs:MinMeter"}.get(name, name)
    want = c05.ref(ref, kept)
    k = ref.split(":")[-1]
    if k in ("CountMeter", "MaxMeter", "MinMeter"):
        tol = 0
    elif k == "MedianMeter":
        tol = 1e-15 * scale
    elif k in ("SumMeter", "AverageMeter"):
        tol = 1e-14 * scale * (len(hist) + 1)
    else:
        tol = 1e-14 * scale * scale * (len(hist) + 1)
    if f32:
        tol *= 1e8
    cov.outcome((name, g))
    if not close(g, want, tol):
        raise Violation("running %s over window %d is %r, expected %r for the last values %r" % (name, w, g, want, kept[-30:]), trace)


def cases(tier):
    q = tier == "quick"
    for name in STATS:
        for al in ALPH:
            if name == "Content" and al == "arr":
                continue
            n = len(ALPH[al][0])
            yield {"name": name, "alpha": al, "mode": "words", "ws": [1, 2, 3, 4, 5] if q else [1, 2, 3, 4, 5, 6, 7],
                   "depth": (7 if n == 3 else 9) if q else (8 if n == 3 else 11)}
            yield {"name": name, "alpha": al, "mode": "gets", "ws": [1, 2, 3], "depth": 5 if q else 6}
            yield {"name": name, "alpha": al, "mode": "lasso", "ws": [7, 16, 25, 50, 100], "n": 260 if q else 1000}


        yield {"name": name, "mode": "scale", "ws": [1000, 1030, 2100] if q else [1000, 1030, 4100, 10000], "n": 4500 if q else 22000}


    for name in STATS:
        for mul in (1.0, 2.0 ** -40, 2.0 ** 40):
            yield {"name": name, "mode": "blind", "mul": mul, "ws": [1, 2, 8, 13, 20, 33, 64, 128] + ([] if q else [256, 500])}


def _blind(case, cov):
    """Only one read, at the end of a run of any length: eviction may not depend on reads."""
    name, mul = case["name"], case["mul"]
    for w in case["ws"]:
        for n in sorted({w, w + 1, w + 2, 2 * w, 2 * w + 1, 3 * w + 5, w + 40}):
            for sname, f in c05.STREAMS.items():
                r, hist = make(name, w), []
                cov.trace()
                for i in range(n):
                    hist.append(f(i, n) * mul)
                    r.update(hist[-1])
                cov.step((name, w, n), sname)
                check(name, w, r, hist, max(abs(v) for v in hist) + mul, False, {"stream": sname, "factor": mul, "window": w, "steps": n}, cov)
    cov.sample({"name": name, "window": w, "steps": n})


def _scale(case, cov):
    name = case["name"]
    for w in case["ws"]:
        r, hist = make(name, w), []
        cov.trace()
        cp = checkpoints(case["n"]) | {w - 1, w, w + 1, 2 * w, 2 * w + 1}
        for t in range(case["n"]):
            cov.step((name, w, "scale", min(t, w + 1)), "U")
            r.update(aperiodic(t))
            hist.append(aperiodic(t))
            if t in cp:
                check(name, w, r, hist, 64.0, False, {"stream": "aperiodic(i)", "steps": t + 1}, cov)


def upd(r, v, kind, name, trace):
    if r.update(cast(v, kind)) is not r:
        raise Violation("RunningStatistic.update does not return the running statistic", trace)


def run(case, cov):
    if case["mode"] == "scale":
        return _scale(case, cov)
    if case["mode"] == "blind":
        return _blind(case, cov)
    name, (vals, kind) = case["name"], ALPH[case["alpha"]]
    scale, f32 = max(abs(v) for v in vals), kind == "np32"
    for w in case["ws"]:
        if case["mode"] == "words":
            for word in itertools.product(vals, repeat=case["depth"]):
                for every in (True, False):
                    r, hist = make(name, w), []
                    cov.trace()
                    for v in word:
                        cov.step((name, w, case["alpha"], tuple(hist[-w:])), v)
                        upd(r, v, kind, name, word)
                        hist.append(float(v))
                        if every:
                            check(name, w, r, hist, scale, f32, word[:len(hist)], cov)
                    if not every:
                        check(name, w, r, hist, scale, f32, word, cov)
            cov.sample({"stat": name, "window": w, "values": word})
        elif case["mode"] == "gets":
            d = case["depth"]
            for word in itertools.product(vals, repeat=d):
                for mask in range(1 << d):
                    r, hist = make(name, w), []
                    cov.trace()
                    for i, v in enumerate(word):
                        upd(r, v, kind, name, word)
                        hist.append(float(v))
                        if mask >> i & 1:
                            check(name, w, r, hist, scale, f32, [word[:i + 1], mask], cov)
                            check(name, w, r, hist, scale, f32, [word[:i + 1], mask, "again"], cov)
                    check(name, w, r, hist, scale, f32, [word, mask], cov)
        else:
            pers = list(primitive_words(vals, 3)) + [None]
            for per in pers:
                r, hist = make(name, w), []
                cov.trace()
                for t in range(case["n"]):
                    v = per[t % len(per)] if per else (vals[0] if t < case["n"] // 2 else vals[-1])
                    cov.step((name, w, case["alpha"], min(t, w + 1), tuple(hist[-3:])), v)
                    upd(r, v, kind, name, {"period": per, "step": t})
                    hist.append(float(v))
                    if t % 13 == 0 or abs(t - w) < 3 or t > case["n"] - 3 or (per is None and t % 5 == 0):
                        check(name, w, r, hist, scale, f32, {"period": per, "step": t}, cov)

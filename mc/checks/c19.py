"""C19: streaming components use bounded memory on unbounded streams."""
import collections
import math
import types

from mc import zoo
from mc.core import Violation, reset_rng

BOUNDS = {
    "quick": "49 bounded component configurations x 6 periodic or drifting stream shapes (constant, two-valued, period 5, rising, falling, jumping scale) x 3 driving styles (fit only, fit+evaluate, fit-and-evaluate; batch chunks of 25): "
             "number of reachable data elements after every step, maximum over the second quarter against the last quarter of 600 steps (120 for expensive ones)",
    "thorough": "as quick with 4000 steps (600 for expensive ones)",
}
ASSUMPTIONS = ["'data held' is the number of data elements reachable from the object (container elements, array elements including the base arrays of views); no attribute name is used; caches in modules, classes and functions of pysad (also functools caches) are counted as well",
               "the randomized-hashing sketch is only run on streams with finitely many distinct values",
               "cumulative components (unlimited window, cumulative metrics, max/median postprocessors over all scores, median-based deviation models, un-windowed conformal calibrator) keep everything by design",
               "growth below 2% of an element per step and object is not distinguishable from the fluctuation of windowed sketches"]
TECHNIQUE = "lasso exploration of the real code with a reachable-data monitor"

STREAMS = ("const", "two", "five", "up", "down", "jump")
STYLES = ("F", "FT", "both", "batch")


def reach(obj):
    """Number of data elements reachable from obj."""
    import numpy as np
    seen, n, stack = set(), 0, [obj]
    skip = (types.ModuleType, type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.GetSetDescriptorType)
    while stack:
        o = stack.pop()
        if o is None or isinstance(o, (bool, int, float, complex, str, bytes, np.generic)):
            n += 1
            continue
        if id(o) in seen or isinstance(o, skip):
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            b = o
            while isinstance(b.base, np.ndarray):
                b = b.base
            if b is not o:
                if id(b) in seen:
                    n += 1
                    continue
                seen.add(id(b))
            n += b.size
            if b.dtype == object:
                stack.extend(b.ravel().tolist())
            continue
        if isinstance(o, dict):
            n += len(o)
            stack.extend(o.keys())
            stack.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            n += len(o)
            stack.extend(o)
        elif type(o).__module__.split(".")[0] in ("jax", "jaxlib"):
            try:
                n += int(o.size)
            except Exception:
                n += 1
        else:
            n += 1
            d = getattr(o, "__dict__", None)
            if isinstance(d, dict):
                stack.extend(d.values())
            for c in type(o).__mro__:
                sl = c.__dict__.get("__slots__", ())
                for s in ((sl,) if isinstance(sl, str) else sl):
                    try:
                        stack.append(getattr(o, s))
                    except AttributeError:
                        pass
    return n


def shared():
    """Number of data elements reachable from the modules, classes and functions of pysad (caches)."""
    import sys
    seen, n = set(), 0
    stack = [m.__dict__ for k, m in list(sys.modules.items()) if k == "pysad" or k.startswith("pysad.")]
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if callable(getattr(o, "cache_info", None)):
            try:
                n += o.cache_info().currsize
            except Exception:
                pass
        if isinstance(o, (types.ModuleType, types.BuiltinFunctionType)):
            continue
        if isinstance(o, (type, types.FunctionType)) or hasattr(o, "__wrapped__"):
            if not str(getattr(o, "__module__", "")).startswith("pysad"):
                continue
            stack.extend(v for k, v in list(vars(o).items()) if k not in ("__dict__", "__weakref__", "__abstractmethods__", "_abc_impl")) if hasattr(o, "__dict__") else None
            for a in ("__defaults__", "__kwdefaults__", "__wrapped__"):
                if getattr(o, a, None) is not None:
                    stack.append(getattr(o, a))
            for c in getattr(o, "__closure__", None) or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(o, (staticmethod, classmethod)):
            stack.append(o.__func__)
        elif isinstance(o, property):
            stack.extend(f for f in (o.fget, o.fset) if f)
        elif isinstance(o, dict):
            if "__builtins__" in o:
                stack.extend(v for k, v in o.items() if not k.startswith("__"))
            else:
                n += len(o)
                stack.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            n += len(o)
            stack.extend(o)
        elif type(o).__module__ == "numpy":
            n += int(getattr(o, "size", 1))
        elif type(o).__module__.startswith("pysad"):
            n += reach(o)
    return n


def value(stream, t):
    """A value in [0, 1] unless drifting."""
    if stream == "const":
        return 0.375
    if stream == "two":
        return (0.25, 0.75)[t % 2]
    if stream == "five":
        return (0.1, 0.9, 0.4, 0.4, 0.6)[t % 5]
    if stream == "up":
        return 0.01 * t + 0.001 * ((t * 7) % 5)
    if stream == "down":
        return 50 - 0.01 * t - 0.001 * ((t * 7) % 5)
    return (0.5 + 0.3 * math.sin(1.7 * t)) * (1 if t % 11 else 1000.0)


EXCLUDE = {"MedianAbsoluteDeviation", "MedianAbsoluteDeviation-signed", "StandardAbsoluteDeviation-median",
           "MaxPostprocessor", "MedianPostprocessor", "Conformal-all"}


def extras():
    from pysad import statistics as S
    from pysad.evaluation import AUPRMetric, AUROCMetric, PrecisionMetric, RecallMetric, WindowedMetric
    from pysad.utils import Window
    out = {}
    for n in ("Average", "Count", "Max", "Median", "Min", "Sum", "SumSquares", "Variance"):
        c = getattr(S, n + "Meter")
        for w in (1, 4):
            out["Running%s-%d" % (n, w)] = ("stat", lambda c=c, w=w: S.RunningStatistic(c, w))
    for n in ("Average", "Count", "Sum", "SumSquares", "Variance"):
        out[n + "Meter"] = ("stat", lambda c=getattr(S, n + "Meter"): c())
    out["AbsAverage"] = ("stat", lambda: S.AbsStatistic(S.AverageMeter))
    for w in (1, 5):
        out["Window-%d" % w] = ("stat", lambda w=w: Window(w))
        for n, c in (("Precision", PrecisionMetric), ("Recall", RecallMetric), ("AUROC", AUROCMetric), ("AUPR", AUPRMetric)):
            for ig in (True, False):
                out["Windowed%s-%d-%s" % (n, w * 4, ig)] = ("metric", lambda c=c, w=w, ig=ig: WindowedMetric(c, 4 * w, ignore_nonempty_last=ig))
    return out


def cases(tier):
    q = tier == "quick"
    for fam in ("models", "transformers", "postprocessors", "ensemblers"):
        for name, e in getattr(zoo, fam)().items():
            if name in EXCLUDE:
                continue
            n = 600 if q else 4000
            if e.cost >= 40 or name in ("LocalOutlierProbability", "RefWindow-KNN", "KNNCAD"):
                n = 120 if q else 600
            if name == "KNNCAD":
                n = 400 if q else 1500
            if name == "Inqmad":
                n = 24 if q else 60
            for s in STREAMS:
                if name == "RSHash" and s in ("up", "down", "jump"):
                    continue
                if e.cost >= 40 and s in ("two", "down"):
                    continue
                if name == "Inqmad" and s != "five":
                    continue
                yield {"fam": fam, "name": name, "stream": s, "n": n}
    for name in extras():
        yield {"fam": "extras", "name": name, "stream": "all", "n": 600 if q else 5000}


def judge(sizes, cfg, cov, held=None):
    n = len(sizes)
    a, b = max(sizes[n // 4:n // 2]), max(sizes[3 * n // 4:])
    cov.comp()
    cov.outcome((str(cfg), a))
    if held is not None:
        cov.comp()
        if held[1] > held[0] + max(2, 0.02 * n):
            raise Violation("the data held in caches shared by all objects grows from %d to %d elements within %d further steps" % (held[0], held[1], n // 2), cfg)
    if b > a + max(2, 0.02 * n):
        raise Violation("the data held grows from %d to %d elements within %d further steps" % (a, b, n // 2), cfg)


def run(case, cov):
    import numpy as np
    n, nm = case["n"], case["name"]
    if case["fam"] == "extras":
        kind, mk = extras()[nm]
        for s in STREAMS:
            for get in (False, True):
                o = mk()
                sizes = []
                cov.trace()
                for t in range(n):
                    v = value(s, t)
                    cov.step((nm, s, get, min(t, 12)), "update")
                    if kind == "metric":
                        y = (t * 5 // 3) % 2 if not nm.startswith("WindowedAU") else t % 2
                        o.update(y, (t * 7 // 2) % 2 if "AU" not in nm else v)
                        if get and (t % 4 >= 1 or "AU" not in nm):
                            o.get()
                    else:
                        o.update(v)
                        if get:
                            o.get()
                    sizes.append(reach(o))
                    if t == n // 2 - 1:
                        half = shared()
                judge(sizes, {"component": nm, "stream": s, "get_after_every_step": get}, cov, (half, shared()))
        cov.sample({"component": nm, "elements": sizes[-1]})
        return
    e = getattr(zoo, case["fam"])()[nm]
    scalar = case["fam"] == "postprocessors"
    d = 0 if scalar else len(e.alpha[0])
    s = case["stream"]
    heavy = e.cost >= 40 or nm == "KNNCAD"
    for style in STYLES if not heavy else (("F", "FT") if nm != "Inqmad" else ("both",)):
        m = e.make(7)
        cov.trace()
        sizes = []
        chunk = []
        scale = 4.0 if nm == "RelativeEntropy" and s in ("const", "two", "five") else 1.0
        for t in range(n):
            if t == n // 2:
                half = shared()
            v = value(s, t) * scale
            x = v if scalar else np.array([v * (1 - 0.25 * j) + 0.05 * j for j in range(d)])
            if nm in ("InstanceStandardScaler", "InstanceUnitNormScaler", "InstanceUnitNormScaler-1") and not scalar:
                x = x + np.arange(d) * 0.01
            reset_rng(t)
            cov.step((nm, s, style, min(t, 40)), t % 7)
            y = t % 2 if e.labels else None
            if style == "batch":
                chunk.append(x)
                if len(chunk) == 25 or t == n - 1:
                    X = np.array(chunk)
                    if case["fam"] == "models":
                        m.fit(X, np.arange(len(chunk)) % 2) if e.labels else m.fit(X)
                        m.score(X)
                    else:
                        m.fit_transform(X)
                    chunk = []
                    if sizes:
                        sizes += [reach(m)] * 25
                    else:
                        sizes = [reach(m)] * 25
                continue
            if case["fam"] == "models":
                if style == "F":
                    m.fit_partial(x, y) if e.labels else m.fit_partial(x)
                    if e.labels:
                        m.score_partial(x)
                elif style == "FT":
                    m.fit_score_partial(x, y) if e.labels else m.fit_score_partial(x)
                else:
                    m.fit_partial(x, y) if e.labels else m.fit_partial(x)
                    m.score_partial(x)
                    if not e.labels:
                        m.score_partial(x + 0.125)
            else:
                if style == "F":
                    m.fit_partial(x)
                elif style == "FT":
                    m.fit_transform_partial(x)
                else:
                    m.fit_partial(x)
                    m.transform_partial(x)
                    m.transform_partial(x * 2 + 1)
            sizes.append(reach(m) if t >= n // 4 - 1 else 0)
        judge(sizes, {"component": nm, "stream": s, "style": style, "steps": n}, cov, (half, shared()))
    cov.sample({"component": nm, "stream": s, "elements": sizes[-1]})

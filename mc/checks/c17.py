"""C17: two objects never influence each other."""
import itertools
import multiprocessing as mp

from mc import big, settings, zoo
from mc.core import Violation, reset_rng
from mc.util import same

BOUNDS = {
    "quick": "81 component configurations (models, transformers, postprocessors, ensemblers, meters, windows, metrics, streamers): same class: all interleavings of two objects' call sequences (creation + warm-up, 4 calls each, different data), "
             "expensive classes all interleavings of 2 calls each; 70 pairs of the same class that differ in one setting: all interleavings of 2-3 calls each; all pairs of different components: all interleavings of creation + 2 calls each (expensive ones 4 interleavings); every result compared with the object driven alone in a fresh process image; 67 large configurations on streams of 30-2300 items next to two other objects of the class; 32 classes with every setting changed one at a time (160 configurations), created and driven in ascending and descending order and step by step next to each other",
    "thorough": "as quick with 5 calls each for the same class and 3 calls each for different components",
}
ASSUMPTIONS = ["the global generators are re-seeded before every call with a seed of that call, so both histories see equal random numbers"]
TECHNIQUE = "exhaustive exploration of the interleavings of two objects' call sequences on the real code"
TASKS_PER_CHILD = 1


class Ad:
    """name, make(role) and a list of calls (obj, role) -> result."""

    def __init__(self, name, make, ops, cost=1):
        self.name, self.mk, self.ops, self.cost = name, make, ops, cost


def adapters():
    import numpy as np
    L = []
    var = zoo.variants()

    def with_variants(fam):
        for name, e in getattr(zoo, fam)().items():
            yield name, e, [e.mk, e.mk]
            for k, f in enumerate(var.get(name, ())):   # the second object has one setting changed
                yield "%s~%d" % (name, k), e, [e.mk, f]

    def build(mks, role):
        reset_rng(7)
        return mks[role]()
    for name, e, mks in with_variants("models"):
        def mk(role, e=e, mks=mks):
            m = build(mks, role)
            for j, w in enumerate(e.warm):
                reset_rng(40 + j)
                m.fit_partial(np.array(w, dtype=float) * (1 if role == 0 else 0.75), (j % 2) if e.labels else None)
            return m

        def f(i, e=e):
            return lambda m, role: m.fit_partial(e.inst((i + role) % 3), i % 2 if e.labels else None) is m

        def s(i, e=e):
            return lambda m, role: m.score_partial(e.inst((i + 2 * role) % 3))
        L.append(Ad(name, mk, [f(0), s(1), f(1), s(0), f(2)] if name != "PerfectModel" else [s(0), f(0), s(1), s(2), f(1)], e.cost if not name.startswith("KNNCAD") else 10))
    for fam in ("transformers", "postprocessors", "ensemblers"):
        for name, e, mks in with_variants(fam):
            sc = fam == "postprocessors"

            def mk(role, e=e, sc=sc, mks=mks):
                m = build(mks, role)
                for j, w in enumerate(e.warm):
                    m.fit_partial(w * (1 + role) if sc else np.array(w, dtype=float) * (1 if role == 0 else 0.75))
                return m

            def g(i, op, e=e, sc=sc):
                def call(m, role):
                    x = e.alpha[(i + role) % 3] if sc else np.array(e.alpha[(i + role) % 3], dtype=float)
                    r = getattr(m, op)(x)
                    return True if r is m else r
                return call
            L.append(Ad(name, mk, [g(0, "fit_partial"), g(1, "transform_partial"), g(1, "fit_transform_partial"), g(2, "transform_partial"), g(2, "fit_partial")], e.cost))
    from pysad import statistics as S
    from pysad.evaluation import (AUPRMetric, AUROCMetric, PrecisionMetric, RecallMetric, WindowedMetric)
    from pysad.utils import ArrayStreamer, Window
    from pysad.utils.window import UnlimitedWindow
    V = [3.0, -1.5, 8.0, 0.5]

    class Gain(S.SumMeter):
        """A user-defined statistic built with keyword arguments."""

        def __init__(self, gain=1.0, tag=None):
            super().__init__()
            self.gain = gain

        def get(self):
            return self.gain * super().get()

    def meter(name, mk, removable=True, mk2=None):
        def up(i):
            return lambda m, role: (m.update(V[(i + role) % 4]), m.get())[1]

        def rm(m, role):
            m.remove(V[(0 + role) % 4])
            return m.get()

        def mkr(role):
            m = (mk2 if role and mk2 else mk)()
            m.update(V[3 - role])
            return m
        L.append(Ad(name, mkr, [up(0), up(1), rm if removable else up(3), up(2), lambda m, role: m.get()]))
    for n in ("Average", "Count", "Max", "Median", "Min", "Sum", "SumSquares", "Variance"):
        c = getattr(S, n + "Meter")
        meter(n + "Meter", lambda c=c: c())
        meter("Running" + n, lambda c=c: S.RunningStatistic(c, 2), False)
        meter("Running" + n + "~0", lambda c=c: S.RunningStatistic(c, 2), False, lambda c=c: S.RunningStatistic(c, 3))
    meter("AbsSum", lambda: S.AbsStatistic(S.SumMeter))
    meter("AbsGain", lambda: S.AbsStatistic(Gain, gain=2.0))
    meter("AbsGain~0", lambda: S.AbsStatistic(Gain, gain=2.0), True, lambda: S.AbsStatistic(Gain, gain=3.0))
    meter("RunningGain", lambda: S.RunningStatistic(Gain, 2, gain=2.0, tag="t"), False)
    meter("RunningGain~0", lambda: S.RunningStatistic(Gain, 2, gain=2.0, tag="t"), False, lambda: S.RunningStatistic(Gain, 2, gain=3.0, tag="u"))
    for n, mk in (("Window", lambda: Window(2)), ("UnlimitedWindow", lambda: UnlimitedWindow())):
        def u(i):
            return lambda m, role: (m.update(V[(i + role) % 4]), list(m.get()))[1]
        L.append(Ad(n, lambda role, mk=mk: mk(), [u(0), u(1), u(2), u(3), u(0)]))
    class Kw(PrecisionMetric):
        def __init__(self, gain=1.0):
            super().__init__()
            self.gain = gain

        def get(self):
            return self.gain * super().get()
    P = [(1, 1.0), (0, 0.0), (1, 0.0), (0, 1.0)]
    for n, mk in (("Precision", lambda: PrecisionMetric()), ("Recall", lambda: RecallMetric()), ("AUROC", lambda: AUROCMetric()), ("AUPR", lambda: AUPRMetric()),
                  ("Windowed", lambda: WindowedMetric(PrecisionMetric, 2, ignore_nonempty_last=False)), ("WindowedKw", lambda: WindowedMetric(Kw, 2, gain=2.0))):
        def mkm(role, mk=mk):
            m = mk()
            m.update(*P[role])
            m.update(*P[(role + 1) % 4])
            return m

        def um(i):
            return lambda m, role: (m.update(*P[(i + 2 * role) % 4]), m.get())[1]
        L.append(Ad(n + "Metric", mkm, [um(0), um(1), um(2), um(3), lambda m, role: m.get()]))

    def mki(role):
        X = np.arange(8.0).reshape(4, 2) + role
        return iter(ArrayStreamer(shuffle=True).iter(X, np.arange(4) + role))

    def nx(m, role):
        x, y = next(m)
        return [list(x), float(y)]
    L.append(Ad("ArrayStreamer", mki, [nx, nx, nx, nx, lambda m, role: 0]))
    return {a.name: a for a in L}


def conv(r):
    import numpy as np
    if isinstance(r, list):
        return [conv(v) for v in r]
    return np.array(r, dtype=float).tolist()


def call(ad, obj, role, k, who):
    """Call k (-1 = creation) of an object."""
    reset_rng(1000 + 17 * (k + 1) + role)
    if k < 0:
        return ad.mk(role), None
    return obj, conv(ad.ops[k](obj, role))


def alone(name, role, n):
    ad = adapters()[name]
    obj, out = None, []
    for k in range(-1, n):
        obj, r = call(ad, obj, role, k, role)
        out.append(r)
    return out


def _alone(arg):
    import os
    import sys
    import warnings
    sys.stdout = open(os.devnull, "w")
    warnings.simplefilter("ignore")
    try:
        return arg, alone(*arg)
    except BaseException as e:
        return arg, "exception %s: %s" % (type(e).__name__, e)


_BASE = {}


def baselines(names):
    """Each object driven alone, each in its own fresh fork."""
    ctx = mp.get_context("fork")
    todo = [(n, r, 5) for n in names for r in (0, 1) if (n, r) not in _BASE]
    if mp.current_process().daemon:
        raise RuntimeError("baselines are computed before the pool")
    with ctx.Pool(8, maxtasksperchild=1) as p:
        for (n, r, _), out in p.imap_unordered(_alone, todo, chunksize=1):
            _BASE[(n, r)] = out


def cases(tier):
    q = tier == "quick"
    for k in big.names():
        yield {"mode": "big", "key": k}
    for f in settings.families():
        for order in ("up", "down", "weave"):
            yield {"mode": "settings", "key": f, "order": order}
    A = adapters()
    names = list(A)
    baselines(names)
    for n in names:
        c = A[n].cost
        k = (4 if q else 5) if c < 3 else ((3 if q else 4) if c < 40 else 2)
        if "~" in n:
            k = min(k, 3 if q else 4)
        yield {"mode": "same", "a": n, "ka": k, "kb": k}
    names = [n for n in names if "~" not in n]
    for i, n in enumerate(names):
        yield {"mode": "cross", "a": n, "with": names[i + 1:], "k": 2 if q else 3}


def weave(cov, A, an, bn, ka, kb, stride=1):
    a, b = A[an], A[bn]
    n = ka + kb + 2
    for c, pos in enumerate(itertools.combinations(range(n), ka + 1)):
        if c % stride:
            continue
        pos = set(pos)
        objs, ks, outs = [None, None], [-1, -1], [[], []]
        cov.trace()
        for t in range(n):
            w = 0 if t in pos else 1
            ad = (a, b)[w]
            cov.step((an, bn, ks[0], ks[1]), w)
            objs[w], r = call(ad, objs[w], w, ks[w], w)
            ks[w] += 1
            outs[w].append(r)
        for w, nm in ((0, an), (1, bn)):
            base = _BASE[(nm, w)]
            cov.comp()
            if isinstance(base, str):
                raise Violation("%s driven alone: %s" % (nm, base))
            if not all(same(x, y) for x, y in zip(outs[w], base)):
                raise Violation("%s driven next to %s gives %r, alone %r" % (nm, (bn, an)[w], outs[w], base[:len(outs[w])]),
                                {"objects": (an, bn), "calls_of_first_at": sorted(pos)})
            cov.outcome((nm, str(outs[w])))


def run(case, cov):
    if case["mode"] == "big":
        return big.pairs(case["key"], cov)
    if case["mode"] == "settings":
        return settings.check(case["key"], case["order"], cov)
    A = adapters()
    if not _BASE:
        baselines([case["a"]] + list(case.get("with", [])))
    if case["mode"] == "same":
        weave(cov, A, case["a"], case["a"], case["ka"], case["kb"])
        cov.sample({"objects": (case["a"], case["a"]), "calls": case["ka"]})
    else:
        for b in case["with"]:
            c = max(A[case["a"]].cost, A[b].cost)
            if c >= 40:
                if "Inqmad" in (case["a"], b):
                    weave(cov, A, case["a"], b, 1, 1, 6)
                else:
                    weave(cov, A, case["a"], b, 1, 1, 2)
            elif c >= 5:
                weave(cov, A, case["a"], b, case["k"], case["k"], 5)
            else:
                weave(cov, A, case["a"], b, case["k"], case["k"])
            cov.sample({"objects": (case["a"], b)})

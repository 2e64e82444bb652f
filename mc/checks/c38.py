"""C38: a copied or restored component continues exactly like the original."""
import copy
import itertools
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from mc import zoo
from mc.core import Violation, reset_rng
from mc.util import same

BOUNDS = {
    "quick": "111 configurations (models except RobustRandomCutForest and Inqmad, transformers, postprocessors, calibrators, ensemblers, meters, running statistics, windows, metrics): copied by deepcopy and restored from pickles (protocols 2 and highest) at every point of a run of 9-200 calls; from every such point "
             "all words of length 2 over {fit, evaluate, fit-and-evaluate}, on the copy first and then on the original, and the rest of the run; one run handed over to a fresh copy after every call; pickles of 3 points of every configuration continued in a fresh interpreter with another hash seed; "
             "40 large configurations restored at 6 points of streams of 100-1500 items, the original driven on with other items",
    "thorough": "as quick with words of length 3",
}
ASSUMPTIONS = ["the global generators are re-seeded before every call", "RobustRandomCutForest and Inqmad hold third-party objects (the rrcf library's trees, compiled JAX functions) that cannot be copied"]
TECHNIQUE = "bounded exhaustive exploration of save/restore points and continuations on the real code, history against history"
OPS = ("F", "T", "P")
SKIP = ("RobustRandomCutForest", "Inqmad")
HOW = ("deepcopy", "pickle", "pickle2")
BIG = ("models/ExactStorm", "models/HalfSpaceTrees", "models/KitNet", "models/LODA", "models/RSHash", "models/xStream", "models/SeasonalESD", "models/MedianAbsoluteDeviation", "models/KNNCAD",
       "models/IForestASD", "models/RefWindow-KNN", "models/RelativeEntropy", "models/StandardAbsoluteDeviation-median",
       "transformers/SeasonalTrendDecomposer", "transformers/GaussianRandomProjector", "postprocessors/Conformal", "postprocessors/RunningMedianPostprocessor", "models/ExactStorm-set", "models/IForestASD-set", "models/KitNet-set",
       "models/LODA-set", "models/RSHash-set", "models/MedianAbsoluteDeviation-set", "models/SeasonalESD-set", "models/SeasonalHybridESD-set", "models/RefWindow-KNN-set", "transformers/SparseRandomProjector", "transformers/StreamhashProjector",
       "transformers/InstanceUnitNormScaler-inf", "transformers/ModifiedSTLResidual-set", "transformers/GaussianRandomProjector-set", "transformers/SparseRandomProjector-set", "transformers/StreamhashProjector-set",
       "postprocessors/GaussianTail", "postprocessors/GaussianTail-all", "postprocessors/Conformal-all", "postprocessors/MedianPostprocessor", "postprocessors/RunningZScorePostprocessor", "postprocessors/RunningMaxPostprocessor", "ensemblers/AverageScoreEnsembler-set")


def dup(o, how):
    if how == "deepcopy":
        return copy.deepcopy(o)
    return pickle.loads(pickle.dumps(o, 2 if how == "pickle2" else pickle.HIGHEST_PROTOCOL))


class Comp:
    def __init__(self, name, mk, n, do):
        self.name, self.mk, self.n, self._do = name, mk, n, do

    def make(self):
        reset_rng(7)
        return self.mk()

    def do(self, o, op, k):
        import numpy as np
        reset_rng(100 + k)
        r = self._do(o, op, k)
        return None if r is None else np.array(r, dtype=float).ravel().tolist()


def _zoo(fam, e):
    import numpy as np

    def val(k):
        v = e.warm[k] if k < len(e.warm) else e.alpha[(k * k + k // 2) % 3]
        return float(v) if fam == "postprocessors" else np.array(v, dtype=float)

    def do(o, op, k):
        x, y = val(k), ([k % 2] if e.labels else [])
        if op == "F" or op == "T" and (e.labels or k == 0):
            o.fit_partial(x, *y)
            if op == "F" and k:
                return None
        if fam == "models":
            return o.fit_score_partial(x, *y) if op == "P" else o.score_partial(x)
        return o.fit_transform_partial(x) if op == "P" else o.transform_partial(x)
    return Comp(fam + "/" + e.name, e.mk, len(e.warm) + 6, do)


def _stats():
    from pysad import statistics as S
    vals = [3.0, -1.5, 2.0, 8.25, -1.5, 0.5, 7.0, 2.0, -4.0, 1.0, 6.5, 3.0]

    def meter(o, op, k):
        if op != "T" or k == 0:
            o.update(vals[k % 12])
        if op == "F":
            return None
        r = o.get()
        if op == "P" and k > 3:
            o.remove(vals[k % 12])
            o.update(-vals[(k + 5) % 12])
        return r

    def running(o, op, k):
        if op != "T" or k == 0:
            o.update(vals[k % 12])
        return None if op == "F" else o.get()
    for n in ("AverageMeter", "CountMeter", "MaxMeter", "MedianMeter", "MinMeter", "SumMeter", "SumSquaresMeter", "VarianceMeter"):
        yield Comp("stats/" + n, lambda n=n: getattr(S, n)(), 9, meter)
        yield Comp("stats/Running-" + n, lambda n=n: S.RunningStatistic(getattr(S, n), 4), 10, running)
        yield Comp("stats/Running40-" + n, lambda n=n: S.RunningStatistic(getattr(S, n), 40), 50, running)
        yield Comp("stats/Long-" + n, lambda n=n: getattr(S, n)(), 130, meter)
    for n in ("AverageMeter", "MedianMeter"):
        yield Comp("stats/Abs-" + n, lambda n=n: S.AbsStatistic(getattr(S, n)), 9, meter)


def _more():
    from pysad import evaluation as V
    from pysad.utils import Window
    from pysad.utils.window import UnlimitedWindow

    def win(o, op, k):
        if op != "T":
            o.update(float(k * k % 7))
        return None if op == "F" else list(o.get())
    yield Comp("utils/Window", lambda: Window(3), 8, win)
    yield Comp("utils/Window60", lambda: Window(60), 70, win)
    yield Comp("utils/UnlimitedWindow200", lambda: UnlimitedWindow(), 200, win)
    yield Comp("utils/UnlimitedWindow", lambda: UnlimitedWindow(), 8, win)

    def metric(binary, lo, nz):
        def do(o, op, k):
            o.update(k % 2, (k * 3 // 2) % 2 if binary else ((k * 7) % 5) / 5)
            return o.get() if op != "F" and k > lo and not (nz and k % 4 == 0) else None
        return do
    for n in ("PrecisionMetric", "RecallMetric", "AUROCMetric", "AUPRMetric"):
        yield Comp("metrics/" + n, lambda n=n: getattr(V, n)(), 9, metric(n[0] != "A", 1, False))
        yield Comp("metrics/Long-" + n, lambda n=n: getattr(V, n)(), 120, metric(n[0] != "A", 1, False))
        yield Comp("metrics/Windowed-" + n, lambda n=n: V.WindowedMetric(getattr(V, n), 4, ignore_nonempty_last=False), 11, metric(n[0] != "A", 4, True))


def comps():
    d = {}
    for fam in ("models", "transformers", "postprocessors", "ensemblers"):
        for name, e in getattr(zoo, fam)().items():
            if name not in SKIP:
                c = _zoo(fam, e)
                c.cost = e.cost
                d[c.name] = c
    v = zoo.lfsr(90)
    for nm, P, n in (("KNNCAD-early", 48, 55), ("KNNCAD-late", 48, 64)):
        c = _zoo("models", zoo.E(nm, lambda P=P: __import__("pysad.models", fromlist=["x"]).KNNCAD(probationary_period=P), [(v[80],), (v[81],), (v[82],)], [(x,) for x in v[:n]], rng=False, scores_pure=False))
        c.cost = 6
        d[c.name] = c
    from pysad.transform.preprocessing import SeasonalTrendDecomposer
    for s, w in ((5, 2), (1, 4), (3, None)):
        c = _zoo("transformers", zoo.E("SeasonalTrendDecomposer-%s-%s" % (s, w), lambda s=s, w=w: SeasonalTrendDecomposer(season_length=s, trend_window=w), zoo.M2, [tuple(v[2 * i:2 * i + 2]) for i in range(12)], rng=False))
        c.cost = 1
        d[c.name] = c
    for c in itertools.chain(_stats(), _more()):
        c.cost = 1 if c.n < 40 else 6
        d[c.name] = c
    return d


def cases(tier):
    q = tier == "quick"
    names = list(comps().items())
    for name, c in names:
        for first in OPS:
            yield {"mode": "points", "name": name, "len": 2 if q else 3, "first": first}
    for g in range(0, len(names), 12):
        yield {"mode": "child", "names": [n for n, _ in names[g:g + 12]]}
    for k in BIG:
        yield {"mode": "big", "key": k}


def rest_op(k):
    return OPS[(k * k + k // 3 + 2) % 3]


def prefix(c, n):
    o = c.make()
    return o, [c.do(o, rest_op(k), k) for k in range(n)]


def run(case, cov):
    if case["mode"] == "child":
        return _child(case, cov)
    if case["mode"] == "big":
        return _big(case, cov)
    c = comps()[case["name"]]
    pts = list(range(c.n)) if c.cost < 6 else [k for k in range(c.n) if k < 2 or k >= c.n - 8]
    if c.cost >= 40:
        pts = pts[::3]
    for cut in pts:
        for i, w in enumerate(itertools.product(OPS, repeat=case["len"] - 1)):
            word = (case["first"],) + w
            o, _ = prefix(c, cut)
            want = [c.do(o, op, cut + j) for j, op in enumerate(word)] + [c.do(o, rest_op(k), k) for k in range(cut + len(word), c.n + 3)]
            cov.outcome(str(want)[:300])
            for h, how in enumerate(HOW):
                if c.cost >= 3 and (i + cut + h) % 3:
                    continue
                tr = {"component": c.name, "calls_before": [rest_op(k) for k in range(cut)], "copied_by": how, "calls_after": word}
                o, _ = prefix(c, cut)
                m = dup(o, how)
                cov.trace()
                for j in range(len(word)):
                    cov.step((c.name, how, cut, word[:j]), word[j])
                for who, x in (("copy", m), ("original", o)):
                    got = [c.do(x, op, cut + j) for j, op in enumerate(word)] + [c.do(x, rest_op(k), k) for k in range(cut + len(word), c.n + 3)]
                    cov.comp(len(got))
                    if not all((a is None) == (b is None) and (a is None or same(a, b)) for a, b in zip(got, want)):
                        raise Violation("%s: the %s gives %r after copying, without copying it gives %r" % (c.name, who, got, want), tr)
    if case["first"] == "F":
        # handed over to a fresh copy after every call
        for how in HOW:
            _, want = prefix(c, c.n + 3)
            o, got = c.make(), []
            for k in range(c.n + 3):
                o = dup(o, how)
                got.append(c.do(o, rest_op(k), k))
                cov.step((c.name, how, "chain"), k)
            cov.trace()
            cov.comp(len(got))
            for k, (a, b) in enumerate(zip(got, want)):
                if not ((a is None) == (b is None) and (a is None or same(a, b))):
                    raise Violation("%s: call %d gives %r when the object is copied after every call, %r otherwise" % (c.name, k, a, b), {"component": c.name, "copied_by": how})
    cov.sample({"component": c.name, "points": len(pts)})


def _child(case, cov):
    cs = comps()
    d = tempfile.mkdtemp(prefix="mc_c38_")
    try:
        want = {}
        for i, n in enumerate(case["names"]):
            c = cs[n]
            for cut in sorted({1, c.n // 2, c.n - 1}):
                o, _ = prefix(c, cut)
                with open(os.path.join(d, "%d-%d" % (i, cut)), "wb") as f:
                    pickle.dump(o, f)
                want["%d-%d" % (i, cut)] = (n, cut, [c.do(o, rest_op(k), k) for k in range(cut, c.n + 3)])
        job = {k: [n, cut] for k, (n, cut, _) in want.items()}
        with open(os.path.join(d, "job.json"), "w") as f:
            json.dump(job, f)
        env = dict(os.environ, PYTHONHASHSEED="4242")
        r = subprocess.run([sys.executable, "-c", "from mc.checks import c38; c38.child(%r)" % d], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=350)
        if r.returncode:
            raise Violation("a saved component cannot be continued in another process: %s" % r.stderr[-800:], {"components": case["names"]})
        with open(os.path.join(d, "out.json")) as f:
            got = json.load(f)
        for k, (n, cut, w) in want.items():
            cov.trace()
            cov.step((n, "process"), cut)
            cov.comp(len(w))
            cov.outcome(str(w)[:200])
            if str(got[k]) != str(json.loads(json.dumps(w))):
                raise Violation("%s: saved after %d calls and continued in another process it gives %r, in the same process %r" % (n, cut, got[k], w), {"component": n, "calls_before": cut})
        cov.sample({"components": case["names"]})
    finally:
        shutil.rmtree(d)


def child(d):
    cs = comps()
    with open(os.path.join(d, "job.json")) as f:
        job = json.load(f)
    out = {}
    for k, (n, cut) in job.items():
        with open(os.path.join(d, k), "rb") as f:
            o = pickle.load(f)
        out[k] = [cs[n].do(o, rest_op(j), j) for j in range(cut, cs[n].n + 3)]
    with open(os.path.join(d, "out.json"), "w") as f:
        json.dump(out, f)


def _big(case, cov):
    from mc import big
    b = big.get(case["key"])
    base = big.run_alone(b)
    pts = b.points()
    cuts = {b.n // 7, b.n // 3, b.n // 2, b.n - 2, 1, 2 * b.n // 3}
    reset_rng(7)
    m = b.mk()
    k = 0
    for t in range(b.n):
        if t in cuts:
            old, m = m, dup(m, HOW[t % 3])
            for j in range(4):      # the original goes its own way
                reset_rng(j)
                b.fit(old, t + 41 + j)
            cov.step((case["key"], "copied"), t)
            cov.trace()
        reset_rng(1000 + t)
        b.fit(m, t)
        if t in pts:
            got = big.observe(b, m, t)
            cov.comp(len(got))
            if not same(got, base[k]):
                raise Violation("%s: after %d fits the results are %r if the object was copied or restored on the way, %r otherwise" % (b.name, t + 1, got, base[k]), {"component": case["key"], "fits": t + 1, "copied_at": sorted(cuts)})
            k += 1
    cov.sample({"component": case["key"]})

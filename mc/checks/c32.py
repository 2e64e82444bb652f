"""C32: the conformal k-NN and relative-entropy detectors follow their documented rules."""
import copy
import itertools
import math

from mc.core import Violation
from mc.util import num
from mc.zoo import lfsr

BOUNDS = {
    "quick": "conformal k-NN: probation 48-60, two aperiodic base streams, one outlier (3 magnitudes) at every position from the end of probation to 2 1/2 probations, scored after every fit, to 25 steps past the outlier (four streams of probation 50-340 to 4 probations); all words of 0, 1 or 2 scores per fit over 7 fits "
             "around an alarm; two outliers with a sweep of the second magnitude at probation 330 (readings just below 1); scores without fits through a whole hold; batch fit_score; "
             "relative entropy: bins 2-5, windows 3-12: all words of length 5-6 over the bin representatives incl. bin boundaries (up to 2-5 distinct per word), all pairs of bin compositions of the first and a later window for (2 bins, windows to 40), (3, 10), (4, 6), scored 0-2 times per fit; 2 to 40 bins, windows 52 (default) to 700 over three windows of a drifting stream",
    "thorough": "as quick with outliers at every position to 4 probations, compositions for (3, 14), (4, 8), and words of length 6-7",
}
ASSUMPTIONS = ["base streams for which the 19-value covariance is invertible", "comparisons within a relative 1e-6 of a tie are accepted either way", "values within [min_val, max_val]"]
TECHNIQUE = "bounded exhaustive exploration of streams on the real code against independent reference simulations"


def cases(tier):
    q = tier == "quick"
    for P in (48, 50, 57, 60):
        for ph in (0, 1):
            for mag in (8.0, -3.0, 1.2):
                end = int(2.5 * P) if q else 4 * P
                step = 24 if q else 40
                for a in range(P - 4, end, step):
                    yield {"mode": "out", "P": P, "ph": ph, "mag": mag, "from": a, "to": min(a + step, end), "skip": 1 if not q or P in (48, 50) and ph == 0 else 3}
    yield {"mode": "long", "P": 50, "ph": 0}
    yield {"mode": "long", "P": 61, "ph": 1}
    yield {"mode": "long", "P": 200, "ph": 0}
    yield {"mode": "long", "P": 340, "ph": 1}
    for f in range(3):
        yield {"mode": "calls", "P": 50, "ph": 0, "first": f, "len": 7}
        yield {"mode": "calls", "P": 55, "ph": 1, "first": f, "len": 7}
    for k in range(4):
        yield {"mode": "near1", "P": 330, "mags": [0.9 + 0.55 * (4 * i + k) for i in range(5)]}
    for N, W in ((5, 52), (2, 300), (4, 700), (9, 120), (12, 300), (40, 500)):
        yield {"mode": "rbig", "N": N, "W": W}
    n = 6 if q else 7
    for N, W, lo, hi in ((2, 3, 0.0, 4.0), (3, 4, -3.0, 3.0), (4, 3, 0.0, 1.0), (5, 4, 10.0, 20.0)):
        for f in range(2 * N + 1 if N <= 3 else N + 1):
            yield {"mode": "rwords", "N": N, "W": W, "lo": lo, "hi": hi, "first": f, "len": n if N == 2 else n - 1}
    for N, W in ((2, 20), (2, 33), (2, 40), (3, 10), (4, 6), (5, 4)) + (() if q else ((3, 14), (4, 8))):
        cs = list(comps(W, N))
        for i in range(0, len(cs), 12):
            yield {"mode": "rcomp", "N": N, "W": W, "i": i, "j": min(len(cs), i + 12)}


def comps(W, N):
    if N == 1:
        yield (W,)
        return
    for k in range(W + 1):
        for r in comps(W - k, N - 1):
            yield (k,) + r


# ---------------------------------------------------------------- conformal k-NN reference
class Ref:
    DIM, K = 19, 27

    def __init__(self, P):
        import numpy as np
        self.P, self.n, self.hold = P, 0, -1
        self.vals, self.train, self.cal, self.scores = [], [], [], []
        self.sigma = np.eye(self.DIM)

    def ncm(self, item, extra):
        import numpy as np
        D = np.array(self.train) - np.array(item)
        d = np.sort(np.einsum("ij,jk,ik->i", D, self.sigma, D))
        return float(np.sum(d[:self.K + extra]))

    def fit(self, v):
        import numpy as np
        self.vals.append(v)
        self.n += 1
        if self.n < self.DIM:
            return
        item = self.vals[-self.DIM:]
        if self.n < self.P:
            self.train.append(item)
            return
        if self.n % self.P in (0, self.P // 2):
            A = np.array(self.train)
            self.sigma = np.linalg.inv(A.T @ A)
        if not self.scores:
            self.scores = [self.ncm(t, 1) for t in self.train]
        s = self.ncm(item, 0)
        if self.n >= 2 * self.P:
            self.train.pop(0)
            self.train.append(self.cal.pop(0))
        self.scores.pop(0)
        self.cal.append(item)
        self.scores.append(s)

    def score(self, got, what, tr, cov):
        """Compares one reading and advances the hold."""
        cov.comp()
        cov.outcome(round(got, 9))
        if self.n < self.DIM or self.n < self.P:
            if got != 0.0:
                raise Violation("%s during probation is %r, not 0" % (what, got), tr)
            return
        s = self.ncm(self.vals[-self.DIM:], 0)
        tol = 1e-6 * (1e-9 + abs(s))
        # until the training part moves, the newest score is this very score: a tie with itself, which is not "below"
        others = self.scores[:-1] if self.n < 2 * self.P else self.scores
        lo = sum(1 for x in others if x < s - tol) / len(self.scores)
        hi = sum(1 for x in others if x < s + tol) / len(self.scores)
        if self.hold > 0:
            self.hold -= 1
            if got != 0.5:
                raise Violation("%s is %r, expected 0.5 (alarm hold)" % (what, got), tr)
            return
        if not lo - 1e-9 <= got <= hi + 1e-9:
            raise Violation("%s is %r, expected %r" % (what, got, lo), tr)
        if got >= 0.9965:
            self.hold = int(self.P / 5)


def stream(ph, n):
    return lfsr(n + 40 * ph)[40 * ph:]


def pair(P, vals):
    import numpy as np
    from pysad.models import KNNCAD
    m, r = KNNCAD(probationary_period=P), Ref(P)
    for v in vals:
        m.fit_partial(np.array([v]))
        r.fit(v)
    return m, r


def run(case, cov):
    import numpy as np
    if case["mode"] in ("out", "long", "calls", "near1"):
        P = case["P"]
        if case["mode"] == "out":
            base = stream(case["ph"], 5 * P)
            m0, r0 = pair(P, [])
            for s in range(case["to"]):
                if s >= case["from"] and (s - case["from"]) % case["skip"] == 0:
                    m, r = copy.deepcopy(m0), copy.deepcopy(r0)
                    tr = {"case": case, "outlier_at": s}
                    cov.trace()
                    for t in range(s, s + 25):
                        v = base[t] + (case["mag"] if t == s else 0.0)
                        r.fit(v)
                        cov.step((P, case["ph"], case["mag"], s, t), "fit+score")
                        if t % 3:
                            got = m.fit_score_partial(np.array([v]))
                        else:
                            m.fit_partial(np.array([v]))
                            got = m.score_partial(np.array([v]))
                        r.score(num(got), "reading %d" % t, tr, cov)
                v = base[s]
                m0.fit_partial(np.array([v]))
                r0.fit(v)
                if s % 2:
                    r0.score(num(m0.score_partial(np.array([v]))), "reading %d" % s, {"case": case}, cov)
        elif case["mode"] == "long":
            base = stream(case["ph"], 4 * P)
            base[P + 7] += 5.0
            base[3 * P - 4] -= 4.0
            m, r = pair(P, [])
            tr = {"case": case}
            cov.trace()
            for t, v in enumerate(base):
                r.fit(v)
                cov.step((P, case["ph"], t), "fit+score")
                r.score(num(m.fit_score_partial(np.array([v]))), "reading %d" % t, tr, cov)
            from pysad.models import KNNCAD
            got = KNNCAD(probationary_period=P).fit_score(np.array(base).reshape(-1, 1))
            r = Ref(P)
            for t, v in enumerate(base):
                r.fit(v)
                r.score(float(got[t]), "batch reading %d" % t, tr, cov)
        elif case["mode"] == "calls":
            base = stream(case["ph"], 3 * P)
            at = P + 9
            m0, r0 = pair(P, base[:at])
            for w in itertools.product((0, 1, 2), repeat=case["len"] - 1):
                w = (case["first"],) + w
                m, r = copy.deepcopy(m0), copy.deepcopy(r0)
                tr = {"case": case, "scores_per_fit": w}
                cov.trace()
                for k, c in enumerate(w):
                    v = base[at + k] + (9.0 if k in (1, 4) else 0.0)
                    m.fit_partial(np.array([v]))
                    r.fit(v)
                    cov.step((P, k, r.hold), c)
                    for _ in range(c):
                        r.score(num(m.score_partial(np.array([v]))), "reading after fit %d" % (at + k), tr, cov)
                if sum(w) % 3 == 0:
                    for _ in range(P // 5 + 3):
                        r.score(num(m.score_partial(np.array([v]))), "repeated reading", tr, cov)
        else:
            base = stream(0, P + 200)
            at = P + 3
            m0, r0 = pair(P, base[:at])
            for mag in case["mags"]:
                m, r = copy.deepcopy(m0), copy.deepcopy(r0)
                tr = {"case": case, "second_magnitude": mag}
                cov.trace()
                for t in range(at, at + P // 5 + 32):
                    v = base[t] + (12.0 if t == at else mag if t == at + P // 5 + 22 else 0.0)
                    r.fit(v)
                    cov.step((P, mag, t), "fit+score")
                    r.score(num(m.fit_score_partial(np.array([v]))), "reading %d" % t, tr, cov)
        cov.sample(tr)
        return
    # ------------------------------------------------------------ relative entropy
    from scipy.stats import chi2
    from pysad.models import RelativeEntropy
    N, W = case["N"], case["W"]
    T = float(chi2.isf(0.01, N - 1))
    memo = {}

    def decide(p, q):
        k = (p, q)
        if k not in memo:
            n, m = sum(p), sum(q)
            h = 0.0
            for a, b in zip(p, q):
                if a:
                    h = math.inf if not b else h + a / n * math.log((a / n) / (b / m))
            stat = 2 * W * h
            memo[k] = {0.0, 1.0} if abs(stat - T) < 1e-7 else {1.0} if stat >= T else {0.0}
        return memo[k]

    def check(m, hist, null, x, what, tr):
        g = num(m.score_partial(x))
        cov.comp()
        cov.outcome((g, len(hist) >= W))
        want = {0.0} if len(hist) < W else decide(count(hist[-W:]), null)
        if g not in want:
            raise Violation("%s is %r, expected %r" % (what, g, sorted(want)), tr)

    def count(bs):
        c = [0] * N
        for b in bs:
            c[b] += 1
        return tuple(c)
    if case["mode"] == "rbig":
        # slowly shifting composition: the decision flips at some step after the first window
        for d0 in range(1, N + 2):
            m, hist, null = RelativeEntropy(0.0, float(N), num_bins=N, window_size=W) if (N, W) != (5, 52) else RelativeEntropy(0.0, 5.0), [], None
            tr = {"case": case, "drift": d0}
            cov.trace()
            for t in range(3 * W + 20):
                b = (t * t + t // 3) % N if t < W + 20 or t % (d0 + 1) == 0 else d0 % N
                x = np.array([0.0 if b == 0 else b - 0.5])
                m.fit_partial(x)
                hist.append(b)
                if len(hist) == W:
                    null = count(hist)
                cov.step((N, W, d0, t), b)
                if t % (1 if W < 100 else 7) == 0 or abs(t - W) < 4 or abs(t - 2 * W) < 4:
                    check(m, hist, null, x, "score after %d fits" % (t + 1), tr)
        cov.sample(tr)
        return
    if case["mode"] == "rwords":
        lo, hi = case["lo"], case["hi"]
        st = (hi - lo) / N
        reps = [(lo, 0)] + [(lo + st * (b + 0.5), min(b + 1, N - 1)) for b in range(N)]
        if N <= 3:
            reps += [(lo + st * (b + 1), min(b + 1, N - 1)) for b in range(N)]
        for w in itertools.product(range(len(reps)), repeat=case["len"] - 1):
            w = (case["first"],) + w
            if len(reps) > 5 and len(set(w)) > (3 if N == 3 else 2):
                continue
            m, hist, null = RelativeEntropy(lo, hi, num_bins=N, window_size=W), [], None
            tr = {"case": case, "values": [reps[i][0] for i in w]}
            cov.trace()
            for t, i in enumerate(w):
                x = np.array([reps[i][0]])
                m.fit_partial(x)
                hist.append(reps[i][1])
                if len(hist) == W:
                    null = count(hist)
                cov.step((N, W, null, tuple(hist[-W:])), i)
                if t % 3 != 1 or t == len(w) - 1:
                    check(m, hist, null, x, "score after %d fits" % (t + 1), tr)
                if t % 4 == 3:
                    check(m, hist, null, x, "second score after %d fits" % (t + 1), tr)
        cov.sample(tr)
        return
    cs = list(comps(W, N))
    vals = [0.0 if b == 0 else b - 0.5 for b in range(N)]   # bin b of step 1: ceil gives b
    for p in cs[case["i"]:case["j"]]:
        for q in cs:
            if N == 2 and W > 20 and sum(q) and (q[0] + p[0]) % 3:
                continue
            m, hist = RelativeEntropy(0.0, float(N), num_bins=N, window_size=W), []
            seq = [b for b in range(N) for _ in range(p[b])] + [b for b in range(N) for _ in range(q[b])]
            tr = {"case": case, "first_window": p, "later_window": q}
            cov.trace()
            for t, b in enumerate(seq):
                x = np.array([vals[b]])
                m.fit_partial(x)
                hist.append(b)
                if t >= W - 2 and (t % 5 == 0 or t in (W - 2, W - 1, W, 2 * W - 1)):
                    cov.step((N, W, p, tuple(hist[-W:])), "fit")
                    check(m, hist, p, x, "score after %d fits" % (t + 1), tr)
    cov.sample(tr)

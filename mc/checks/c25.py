"""C25: seasonal ESD flags exactly what generalized ESD flags in the current window."""
import itertools
import math

from mc.core import Violation
from mc.stl import residuals
from mc.util import num

BOUNDS = {
    "quick": "both seasonal ESD models: window 4-8, period 2-3, max_anomalies 1-3, alpha 0.05/0.3/0.6, robust and plain STL, with further STL arguments, values to 1e10: all words of length 3 over {fit, score, fit-and-score} x 3 values after every prefix length window-3..window+1; "
             "streams of 3-4 windows with an outlier of either sign at every position and two outliers at all distances for windows 12-20, checked at every step; windows 30-60 with 1 to max_anomalies + 2 (7-14) outliers of different sizes, the newest of every rank",
    "thorough": "as quick with words of length 4, windows to 40 and pairs of outliers of all sign combinations",
}
ASSUMPTIONS = ["residuals are those of statsmodels STL; where two residuals tie (relative 1e-9) or a statistic equals its critical value every resolution is accepted",
               "rounds stop when the scale of the remaining residuals is 0"]
TECHNIQUE = "bounded exhaustive exploration of call words on the real code against an independent generalized ESD (set-valued at ties)"
OPS = ("F", "S", "P")
_CRIT = {}


def crit(n, i, alpha):
    from scipy.stats import t
    k = (n, i, alpha)
    if k not in _CRIT:
        p = 1 - alpha / (2.0 * (n - i + 1))
        tv = float(t.ppf(p, n - i - 1))
        _CRIT[k] = (n - i) * tv / math.sqrt((n - i - 1 + tv * tv) * (n - i + 1))
    return _CRIT[k]


def med(xs):
    s = sorted(xs)
    n = len(s)
    return s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])


def outcomes(res, k, alpha, hybrid):
    """Acceptable scores of the newest value (last index): set of floats."""
    n = len(res)
    out = set()

    def rec(i, left, cand, extent):
        """extent: set of possible numbers of declared outliers so far"""
        if i > k:
            return finish(cand, extent)
        vals = [res[j] for j in left]
        if hybrid:
            c = med(vals)
            s = 1.4826 * med([abs(v - c) for v in vals])
        else:
            c = math.fsum(vals) / len(vals)
            s = math.sqrt(math.fsum((v - c) ** 2 for v in vals) / (len(vals) - 1))
        if s <= 1.1e-10:
            finish(cand, extent)
            if s < 0.9e-10:
                return
        dev = [abs(v - c) / s for v in vals]
        m = max(dev)
        picks = [left[a] for a in range(len(left)) if dev[a] >= m - 1e-7 * (1 + m)]
        if len(picks) > 3:
            picks = ([n - 1] if n - 1 in picks else []) + [p for p in picks if p != n - 1][:1]
        lam = crit(n, i, alpha)
        for p in picks:
            ext = set(extent)
            if m > lam - 1e-7:
                if m > lam + 1e-7:
                    ext = {i}
                else:
                    ext.add(i)
            rec(i + 1, [j for j in left if j != p], cand + [(p, m)], ext)

    def finish(cand, extent):
        for e in extent:
            v = 0.0
            for p, m in cand[:e]:
                if p == n - 1:
                    v = m
            out.add(v)
    rec(1, list(range(n)), [], {0})
    return out


def cases(tier):
    q = tier == "quick"
    cfgs = [(4, 2, 1, 0.05, True), (5, 2, 2, 0.3, True), (6, 3, 2, 0.6, True), (6, 2, 1, 0.3, False), (7, 2, 3, 0.6, True), (8, 3, 2, 0.05, True), (8, 2, 2, 0.3, True, [["seasonal", 3], ["trend", 5]])]
    for hybrid in (False, True):
        for c in cfgs:
            for pre in range(c[0] - 3, c[0] + 2):
                yield {"mode": "words", "hybrid": hybrid, "cfg": c, "pre": pre, "len": 3 if q else 4}
        for W, P, k, a in ((12, 3, 2, 0.05), (16, 4, 5, 0.05), (20, 2, 3, 0.2), (14, 7, 1, 0.01)) + (() if q else ((40, 5, 10, 0.05), (24, 4, 3, 0.1))):
            yield {"mode": "one", "hybrid": hybrid, "cfg": (W, P, k, a, True)}
            yield {"mode": "one", "hybrid": hybrid, "cfg": (W, P, k, a, False, [["seasonal", 5 + 2 * k], ["trend_deg", 0]] if k % 2 else [["low_pass", P + 1 + P % 2], ["seasonal_deg", 0]])}
            yield {"mode": "two", "hybrid": hybrid, "cfg": (W, P, k, a, True), "signs": q}


        for W, P, k, a in ((40, 5, 9, 0.05), (30, 3, 14, 0.2), (60, 6, 7, 0.01)) + (() if q else ((100, 10, 20, 0.05), (80, 4, 39, 0.1))):
            for rb in (True, False):
                yield {"mode": "burst", "hybrid": hybrid, "cfg": (W, P, k, a, rb)}


def make(case):
    from pysad.models import SeasonalESD, SeasonalHybridESD
    W, P, k, a, rb, kw = list(case["cfg"]) + ([[]] if len(case["cfg"]) == 5 else [])
    return (SeasonalHybridESD if case["hybrid"] else SeasonalESD)(period=P, window_size=W, max_anomalies=k, alpha=a, robust=rb, **dict(kw))


_O = {}


def expected(case, window):
    W, P, k, a, rb, kw = list(case["cfg"]) + ([[]] if len(case["cfg"]) == 5 else [])
    if len(window) < W:
        return {0.0}
    key = (tuple(window), case["hybrid"], str(case["cfg"]))
    if key not in _O:
        _O[key] = outcomes(residuals(window, P, rb, tuple(map(tuple, kw))), k, a, case["hybrid"])
    return _O[key]


def compare(got, want, what, tr, cov):
    g = num(got)
    cov.comp()
    cov.outcome(round(g, 7))
    if not any(abs(g - w) <= 1e-6 * (1 + abs(w)) for w in want):
        raise Violation("%s is %r, generalized ESD on the residuals gives %r" % (what, g, sorted(want)), tr)


def run(case, cov):
    import numpy as np
    W, P, k, a, rb, kw = list(case["cfg"]) + ([[]] if len(case["cfg"]) == 5 else [])
    if case["mode"] == "words":
        syms = [(o, v) for o in OPS for v in (1.0, 2.0, 30.0)]
        for w in itertools.product(syms, repeat=case["len"]):
            m, hist = make(case), []
            for j in range(case["pre"]):
                v = [1.0, 2.0, 1.25, 2.5, 1.0][j % 5]
                m.fit_partial(np.array([v]))
                hist.append(v)
            tr = {"case": case, "calls": w}
            cov.trace()
            for o, v in w:
                cov.step((case["hybrid"], str(case["cfg"]), tuple(hist[-W:])), (o, v))
                x = np.array([v])
                if o == "F":
                    m.fit_partial(x)
                    hist.append(v)
                elif o == "S":
                    compare(m.score_partial(x), expected(case, (hist + [v])[-W:]), "score of %r" % v, tr, cov)
                else:
                    hist.append(v)
                    compare(m.fit_score_partial(x), expected(case, hist[-W:]), "fit_score of %r" % v, tr, cov)
        cov.sample(tr)
        return

    if case["mode"] == "burst":
        # m outliers of different sizes in the window, the newest being the r-th largest of them: it is found in round r
        for nout in range(1, k + 3):
            for rank in range(0, nout):
                m, hist = make(case), []
                for t in range((nout + rank) % 4 * 3):          # already full before this window, or not
                    m.fit_partial(np.array([5.0 + t * 2]))
                    hist.append(5.0 + t * 2)
                order = [j for j in range(nout) if j != rank]
                pos = {W - 2 - ((i * 7 + 3) % (W - 3)): j for i, j in enumerate(order)}
                for t in range(W - 1):
                    v = float((t % P) * 2 + ((t * 7) % 5) * 0.125) + (40.0 * 1.5 ** (nout - pos[t]) * (-1) ** pos[t] if t in pos else 0)
                    m.fit_partial(np.array([v]))
                    hist.append(v)
                tr = {"case": case, "outliers": nout, "rank of the newest": rank}
                cov.trace()
                cov.step((case["hybrid"], str(case["cfg"]), nout), rank)
                v = float(((W - 1) % P) * 2) + 40.0 * 1.5 ** (nout - rank) * (-1) ** rank
                want = expected(case, (hist + [v])[-W:])
                compare(m.score_partial(np.array([v])), want, "score of the newest outlier", tr, cov)
                compare(m.fit_score_partial(np.array([v])), want, "fit_score of the newest outlier", tr, cov)
        cov.sample(tr)
        return

    def base(t):
        return float((t % P) * 2 + ((t * 7) % 5) * 0.125) * (1 if rb else 2.0 ** 30)

    def stream(spikes, n):
        m, hist = make(case), []
        cov.trace()
        for t in range(n):
            v = base(t) + spikes.get(t, 0.0) * (1 if rb else 2.0 ** 30)
            x = np.array([v])
            tr = {"case": case, "spikes": spikes, "step": t}
            cov.step((case["hybrid"], str(case["cfg"]), str(spikes), t), "step")
            near = any(0 <= t - s <= 2 for s in spikes) or t >= n - 1
            if t % 2 and near:
                compare(m.score_partial(x), expected(case, (hist + [v])[-W:]), "score", tr, cov)
            if t % 3 == 0 and not near:
                m.fit_partial(x)
                hist.append(v)
            else:
                hist.append(v)
                compare(m.fit_score_partial(x), expected(case, hist[-W:]), "fit_score", tr, cov)
    if case["mode"] == "one":
        for s in range(W - 2, 2 * W + 1):
            for mag in (25.0, -25.0, 2.0):
                stream({s: mag}, s + 3)
    else:
        for gap in range(1, W):
            s = W + 1
            for m1, m2 in ((30.0, 30.0), (30.0, -30.0)) if case["signs"] else ((30.0, 30.0), (30.0, -30.0), (-30.0, 30.0), (-25.0, -31.0)):
                stream({s: m1, s + gap: m2}, s + gap + 2)
    cov.sample({"case": case})

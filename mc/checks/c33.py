"""C33: the autoencoder ensemble learns in its grace periods only."""
import itertools
import math

from mc.core import Violation
from mc.util import checkpoints, num
from mc.zoo import lfsr

BOUNDS = {
    "quick": "features 1-5 x maximum autoencoder size 0..n+1 x feature-mapping grace 0-3 and None x training grace 0-3 x 2 learning rates / hidden ratios: all words of length FM+AD+1 (<= 5) over 3 instances followed by every one of 3 continuations, 3 probes and each probe with one feature changed scored after every fit; "
             "interleavings of scores with fits; grace periods to 40 on one aperiodic stream with 12 features, to 1300 with 3-4 features; batch fit_score",
    "thorough": "as quick with all grace periods 0-4, words of length 6 and 3 learning rates",
}
ASSUMPTIONS = ["initial weights are those of a generator seeded with 1234 as in KitNET; hierarchical clustering is scipy's",
               "scores are compared with an independent implementation within a relative 1e-6; where feature distances tie (few mapping instances) only zero/finite/frozen/all-features-used is checked"]
TECHNIQUE = "bounded exhaustive exploration of fit words on the real code against an independent autoencoder ensemble; frozen-state check by comparing all later scores exactly"


# ------------------------------------------------------------------ reference
def sig(a):
    import numpy as np
    return 1.0 / (1.0 + np.exp(-a))


class AE:
    def __init__(self, n, lr, hr):
        import numpy as np
        h = int(math.ceil(n * hr))
        self.W = np.random.RandomState(1234).uniform(low=-1.0 / n, high=1.0 / n, size=(n, h))
        self.hb, self.vb = np.zeros(h), np.zeros(n)
        self.mx, self.mn, self.t, self.lr = np.full(n, -np.inf), np.full(n, np.inf), 0, lr

    def norm(self, x):
        return (x - self.mn) / (self.mx - self.mn + 1e-16)

    def train(self, x):
        import numpy as np
        self.t += 1
        self.mx, self.mn = np.maximum(self.mx, x), np.minimum(self.mn, x)
        x = self.norm(x)
        y = sig(x @ self.W + self.hb)
        z = sig(y @ self.W.T + self.vb)
        e = x - z
        g = (e @ self.W) * y * (1 - y)
        self.W = self.W + self.lr * (np.outer(x, g) + np.outer(e, y))
        self.hb = self.hb + self.lr * g.mean()
        self.vb = self.vb + self.lr * e.mean()
        return math.sqrt(float(np.mean(e ** 2)))

    def run(self, x):
        import numpy as np
        if self.t == 0:
            return 0.0
        x = self.norm(x)
        z = sig(sig(x @ self.W + self.hb) @ self.W.T + self.vb)
        return math.sqrt(float(np.mean((x - z) ** 2)))


class Ref:
    def __init__(self, n, m, fm, ad, lr, hr):
        import numpy as np
        self.n, self.m, self.ad, self.lr, self.hr = n, max(1, m), ad, lr, hr
        self.fm = ad if fm is None else fm
        self.t, self.groups, self.tied = 0, None, False
        self.s, self.C, self.q = np.zeros(n), np.zeros((n, n)), np.zeros(n)

    def fit(self, x):
        import numpy as np
        if self.t > self.fm + self.ad:
            return
        if self.t <= self.fm:
            self.s = self.s + x
            r = x - self.s / (self.t + 1)
            self.q = self.q + r ** 2
            self.C = self.C + np.outer(r, r)
            if self.t == self.fm:
                self.groups = self.cluster()
                self.aes = [AE(len(g), self.lr, self.hr) for g in self.groups]
                self.out = AE(len(self.groups), self.lr, self.hr)
        else:
            self.out.train(np.array([a.train(x[g]) for a, g in zip(self.aes, self.groups)]))
        self.t += 1

    def cluster(self):
        import numpy as np
        from scipy.cluster.hierarchy import linkage, to_tree
        if self.n == 1:
            return [[0]]
        k = np.outer(np.sqrt(self.q), np.sqrt(self.q))
        k[k == 0] = 1e-100
        D = np.maximum(1 - self.C / k, 0)
        ds = np.sort(D[np.triu_indices(self.n, 1)])
        self.tied = bool(np.any(np.diff(ds) < 1e-9))

        def split(nd):
            return [nd.pre_order()] if nd.count <= self.m else split(nd.get_left()) + split(nd.get_right())
        return split(to_tree(linkage(D[np.triu_indices(self.n, 1)])))

    def score(self, x):
        import numpy as np
        if self.groups is None:
            return 0.0
        if self.tied and self.out.t:
            return None   # equal distances: any order of merging is right
        return self.out.run(np.array([a.run(x[g]) for a, g in zip(self.aes, self.groups)]))


# ------------------------------------------------------------------ exploration
def inst(n):
    v = lfsr(4 * n + 9)
    return [[round(v[i * n + j] * (1 + j) - (0.3 if i == 1 else 0), 6) for j in range(n)] for i in range(3)]


def cases(tier):
    q = tier == "quick"
    lim = 5 if q else 6
    for n in (1, 2, 3, 4, 5):
        for m in range(0, n + 2):
            for fm in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
                for ad in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
                    if fm + ad + 1 > lim or (q and n >= 4 and fm + ad + 1 > 4):
                        continue
                    yield {"mode": "word", "n": n, "m": m, "fm": fm, "ad": ad, "lr": 0.1, "hr": 0.75}
            yield {"mode": "word", "n": n, "m": m, "fm": None, "ad": 2, "lr": 0.5, "hr": 0.5}
    for n, m, fm, ad in ((12, 4, 25, 15), (12, 1, 10, 40), (12, 12, 40, 10), (7, 3, None, 20), (1, 1, 5, 30), (30, 10, 35, 8), (4, 2, 700, 600), (3, 3, 20, 1300), (3, 2, None, 400), (5, 2, None, 130)):
        yield {"mode": "long", "n": n, "m": m, "fm": fm, "ad": ad, "lr": 0.1, "hr": 0.75}
        if not q:
            yield {"mode": "long", "n": n, "m": m, "fm": fm, "ad": ad, "lr": 1.0, "hr": 0.3}
    for n in (1, 2, 3):
        yield {"mode": "ops", "n": n, "m": 2, "fm": 1, "ad": 1, "lr": 0.1, "hr": 0.75, "len": 4 if q else 5}


def make(c):
    from pysad.models import KitNet
    return KitNet(max_size_ae=c["m"], grace_feature_mapping=c["fm"], grace_anomaly_detector=c["ad"], learning_rate=c["lr"], hidden_ratio=c["hr"])


def compare(got, want, what, tr, cov):
    g = num(got)
    cov.comp()
    cov.outcome(round(g, 9))
    if not (g >= 0 and math.isfinite(g)):
        raise Violation("%s is %r" % (what, g), tr)
    if want is not None and not abs(g - want) <= 1e-6 * (1e-6 + abs(want)):
        raise Violation("%s is %r, expected %r" % (what, g, want), tr)
    return g


def probes(A, n):
    import numpy as np
    P = [np.array(a) for a in A]
    for j in range(n):
        p = np.array(A[0])
        p[j] += 0.37
        P.append(p)
    return P


def uses_all(m, A, n, tr):
    """After training, every feature has an influence on the scores."""
    import numpy as np
    for j in range(n):
        s = set()
        for dv in (0.0, 0.37, 1.9, -2.6):
            p = np.array(A[0])
            p[j] += dv
            s.add(num(m.score_partial(p)))
        if len(s) == 1:
            raise Violation("feature %d has no influence on the score" % j, tr)


def run(case, cov):
    import numpy as np
    n = case["n"]
    fm = case["ad"] if case["fm"] is None else case["fm"]
    total = fm + case["ad"] + 1
    A = inst(n)
    arr = [np.array(a) for a in A]
    key = (n, case["m"], case["fm"], case["ad"], case["lr"])

    def ref():
        return Ref(n, case["m"], case["fm"], case["ad"], case["lr"], case["hr"])
    if case["mode"] == "word":
        P = probes(A, n)
        for w in itertools.product(range(3), repeat=total):
            if total >= 5 and w[0] != 0 or total >= 4 and n >= 4 and w[0] != 0:
                continue
            m, r = make(case), ref()
            tr = {"case": case, "fitted": w}
            cov.trace()
            for t, i in enumerate(w):
                x = arr[i].copy()
                m.fit_partial(x)
                r.fit(arr[i])
                cov.step((key, w[:t]), i)
                if not np.array_equal(x, arr[i]):
                    raise Violation("the fitted instance was changed", tr)
                for k, p in enumerate(P):
                    if k < 3 or t >= total - 1:
                        g = compare(m.score_partial(p.copy()), r.score(p), "score of probe %d after %d fits" % (k, t + 1), tr, cov)
                        if t + 1 <= fm and g != 0.0:
                            raise Violation("score is %r in the feature-mapping period" % g, tr)
            frozen = [num(m.score_partial(p)) for p in P]
            if case["ad"] > 0 and len(set(w[fm + 1:])) > 1 and n <= 3:
                uses_all(m, A, n, tr)
            for k, c in enumerate(((0, 1, 2), (2, 2, 2), (1, 0, 0))):
                for i in c:
                    m.fit_partial(arr[i] * (1 if k == 0 else 50.0))
                    cov.step((key, w, "frozen"), i)
                again = [num(m.score_partial(p)) for p in P]
                cov.comp(len(P))
                if again != frozen:
                    raise Violation("scores changed by fits after the grace periods: %r -> %r" % (frozen, again), tr)
        cov.sample(tr)
    elif case["mode"] == "ops":
        syms = [("F", i) for i in range(3)] + [("P", 0), ("P", 1), ("S", 2)]
        for w in itertools.product(syms, repeat=case["len"]):
            if w[0][0] == "S":
                continue
            m, r = make(case), ref()
            tr = {"case": case, "calls": w}
            cov.trace()
            for k, (o, i) in enumerate(w):
                cov.step((key, w[:k]), (o, i))
                if o != "S":
                    r.fit(arr[i])
                if o == "F":
                    if m.fit_partial(arr[i].copy()) is not m:
                        raise Violation("fit_partial does not return the model", tr)
                elif o == "P":
                    compare(m.fit_score_partial(arr[i].copy()), r.score(arr[i]), "fit_score %d" % k, tr, cov)
                else:
                    compare(m.score_partial(arr[i].copy()), r.score(arr[i]), "score %d" % k, tr, cov)
        cov.sample(tr)
    else:
        v = lfsr((total + 30) * n + 50)
        S = np.array(v[:(total + 30) * n]).reshape(-1, n)
        S[:, 0] = S[:, -1] * 0.5 + S[:, 0]
        m, r = make(case), ref()
        tr = {"case": case}
        cov.trace()
        frozen = None
        cp = checkpoints(len(S), 37) | {fm - 1, fm, fm + 1, total - 2}
        for t in range(len(S)):
            r.fit(S[t])
            x = S[t] if t < total else S[t] * 9 - 4
            cov.step((key, t), "fit")
            m.fit_partial(x)
            if len(S) > 500 and t not in cp and t < total - 1:
                continue
            for k in (t, 0, len(S) - 1):
                compare(m.score_partial(S[k]), r.score(S[k]), "score of row %d after %d fits" % (k, t + 1), tr, cov)
            if t >= total - 1:
                g = [num(m.score_partial(s)) for s in S[:5]]
                if frozen is None:
                    frozen = g
                    if case["ad"]:
                        uses_all(m, S.tolist(), n, tr)
                elif g != frozen:
                    raise Violation("scores changed by fit %d after the grace periods" % (t + 1), tr)
        got = make(case).fit_score(S)
        r = ref()
        for t in range(len(S)):
            r.fit(S[t])
            compare(got[t], r.score(S[t]), "fit_score of row %d" % t, tr, cov)
        cov.sample(tr)

"""C14: what the reference-window detector is trained on, and what it scores."""
import itertools

from mc.core import Violation, reset_rng
from mc.util import checkpoints, num, prefixes, same

BOUNDS = {
    "quick": "recording detector stub, window_size 1-5 x sliding_size 1-7 x initial window none/1-7 rows x unlabelled/labelled: a stream of 16 distinct instances, scored after every step, only sometimes, or only at the end; "
             "all words of length 7 over two instances for window 1-3 x sliding 1-3; lassos of 400 steps with windows up to 50 (initial windows of 64-bit floating-point, 32-bit floating-point, 32- and 64-bit integer numbers), runs of 1200-2500 steps with windows and slides up to 1100; "
             "IForestASD against a directly trained isolation forest, window 1-4, initial none/2/4 rows, 9 steps; windows 33-257, initial none/20/300 rows, 2 1/2 windows",
    "thorough": "as quick with window 1-7 x sliding 1-9 x initial 1-9, stream of 30, words of length 9, lassos of 2000 steps, IForestASD 16 steps",
}
ASSUMPTIONS = ["labels are given with every instance (and with the initial window) or with none",
               "IForestASD: the global generators are seeded before every fit so that the directly trained forest draws the same numbers"]


def stub_cls(reg):
    import numpy as np

    class Det:
        def __init__(self, **kw):
            self.kw, self.fits, self.seen = dict(kw), [], []
            self.id = len(reg)
            reg.append(self)

        def fit(self, X, y=None):
            self.fits.append((np.array(X, dtype=float), None if y is None else np.array(y).tolist()))
            return self

        def decision_function(self, X):
            X = np.asarray(X, dtype=float)
            self.seen.append(X.copy())
            return np.array([1000.0 * self.id + float(r.sum()) for r in X])
    return Det


def cases(tier):
    q = tier == "quick"
    for W in range(1, 6 if q else 8):
        for S in range(1, 8 if q else 10):
            for lab in (False, True):
                yield {"mode": "grid", "W": W, "S": S, "labels": lab, "inits": 7 if q else 9, "n": 16 if q else 30}
    for W in (1, 2, 3):
        for S in (1, 2, 3):
            for p in prefixes((0, 1), 1 if q else 3):
                yield {"mode": "words", "W": W, "S": S, "len": 7 if q else 9, "prefix": p}
    for W, S in ((50, 7), (50, 50), (10, 33), (7, 50), (49, 1)):
        for lab in (False, True):
            yield {"mode": "lasso", "W": W, "S": S, "labels": lab, "n": 400 if q else 2000}
    for W, S in ((600, 150), (300, 300), (1100, 400), (40, 1100), (1030, 1), (210, 1), (130, 3)):
        for ni in (0, 700):
            if W in (210, 130):
                for lab in (False, True):
                    yield {"mode": "scale", "W": W, "S": S, "labels": lab, "ni": ni // 7, "n": 700}
                continue
            yield {"mode": "scale", "W": W, "S": S, "labels": (W + S + ni) % 20 == 0, "ni": ni, "n": (2500 if S > 1 else 1200) if q else 6000 if S > 1 else 2500}
    for W in (1, 2, 3, 4):
        for init in (0, 2, 4):
            yield {"mode": "iforest", "W": W, "init": init, "n": 9 if q else 16, "step": 1}
    for W in (33, 64, 100, 257):
        for init in (0, 20, 300):
            yield {"mode": "iforest", "W": W, "init": init, "n": int(2.6 * W) + 5 if q else 5 * W, "step": max(1, W // 6)}


def expected_rows(init, hist, W, S):
    """Indices of training rows of the detector in use: list of (row, label) items."""
    n = len(hist)
    if not init:
        if n < W:
            return hist
        last = (n // S) * S
        if last >= W:
            return hist[max(0, last - W):last]
        return hist[:max(W - 1, 1)]        # last training before the window was full (the first instance always trains)
    last = (n // S) * S
    if last == 0:
        return init
    return (init + hist[:last])[-W:]


def note(W, S, init, n):
    return {"window_size": W, "sliding_size": S, "initial": init, "fits": n}


class Run:
    def __init__(self, cov, W, S, init, lab, kw, dt=None):
        import numpy as np
        from pysad.models.integrations import ReferenceWindowModel
        self.cov, self.W, self.S, self.init, self.lab, self.kw = cov, W, S, init, lab, kw
        self.reg, self.hist = [], []
        args = {}
        if init:
            args["initial_window_X"] = np.array([r for r, _ in init])
            if dt:
                args["initial_window_X"] = args["initial_window_X"].astype(dt)
            if lab:
                args["initial_window_y"] = np.array([l for _, l in init])
        self.m = ReferenceWindowModel(stub_cls(self.reg), W, S, **args, **kw)
        self.k = 0

    def fit(self, row, label):
        import numpy as np
        self.cov.step((self.W, self.S, len(self.init), self.lab, self.k > 0, len(self.hist)), "fit")
        r = self.m.fit_partial(np.array(row), label) if self.lab else self.m.fit_partial(np.array(row))
        if r is not self.m:
            raise Violation("fit_partial does not return the model")
        self.hist.append((row, label))

    def score(self):
        import numpy as np
        if not self.hist and not self.init:
            return
        tr = note(self.W, self.S, len(self.init), len(self.hist))
        tr["labels"] = self.lab
        tr["stream"] = [list(map(float, r)) for r, _ in self.hist[-12:]]
        self.k += 1
        x = np.array([0.25 * (self.k % 7), -0.5])
        s = num(self.m.score_partial(x))
        i = int(round((s - x.sum()) // 1000 if (s - x.sum()) >= 0 else -1))
        if i < 0 or i >= len(self.reg) or s != 1000.0 * i + x.sum():
            raise Violation("score %r is not the decision value of a detector for the given instance" % s, tr)
        d = self.reg[i]
        if not d.seen or d.seen[-1].shape != (1, 2) or not same(d.seen[-1][0], x):
            raise Violation("the detector was asked about %r instead of %r" % (d.seen[-1:], x), tr)
        if d.kw != self.kw:
            raise Violation("the detector was built with %r instead of %r" % (d.kw, self.kw), tr)
        if len(d.fits) != 1:
            raise Violation("the detector in use was fitted %d times" % len(d.fits), tr)
        want = expected_rows(self.init, self.hist, self.W, self.S)
        X, y = d.fits[0]
        wx = np.array([r for r, _ in want], dtype=float)
        if not same(X, wx):
            raise Violation("the detector in use was trained on %r, expected %r" % (X.tolist(), wx.tolist()), tr)
        wy = [l for _, l in want] if self.lab else None
        if y != wy:
            raise Violation("the detector in use was trained with labels %r, expected %r" % (y, wy), tr)
        self.cov.comp()
        self.cov.outcome((X.shape, str(y)))


def distinct(i):
    return (float(i + 1), float(i * i) / 4)


def run(case, cov):
    mode = case["mode"]
    if mode == "iforest":
        return _iforest(case, cov)
    W, S = case["W"], case["S"]
    if mode == "scale":
        r = Run(cov, W, S, [(distinct(-10 - j), j % 2) for j in range(case["ni"])], case["labels"], {"c": 3})
        cov.trace()
        cp = checkpoints(case["n"], 199) | {W - 1, W, W + 1, W + S, W + S - 1, S - 1, S, S + 1}
        for t in range(case["n"]):
            r.fit(distinct(t), (t * 7 // 4) % 2)
            if t in cp:
                r.score()
        cov.sample(note(W, S, case["ni"], case["n"]))
        return
    if mode == "grid":
        for ni in range(0, case["inits"] + 1):
            for kw in ({}, {"alpha": 0.5, "beta": "z"}, {k: i for i, k in enumerate("abcdefghijk")}, {"a": None, "b": 0, "c": False, "d": "", "e": [1, None]}):
                for every in (1, 3, 0):
                    init = [(distinct(-10 - j), (j * 3 // 2) % 2) for j in range(ni)]
                    r = Run(cov, W, S, init, case["labels"], kw)
                    cov.trace()
                    if every == 1:
                        r.score()
                    for t in range(case["n"]):
                        r.fit(distinct(t), (t * 5 // 3) % 2)
                        if (every and t % every == 0) or t == case["n"] - 1:
                            r.score()
                            if every == 1 and t % 2:
                                r.score()
        cov.sample(note(W, S, ni, case["n"]))
    elif mode == "words":
        alpha = [((0.0, 1.0), 0), ((1.0, -1.0), 1)]
        for rest in itertools.product((0, 1), repeat=case["len"] - len(case["prefix"])):
            w = list(case["prefix"]) + list(rest)
            for lab in (False, True):
                for ni in (0, 1, 3):
                    r = Run(cov, W, S, [alpha[j % 2] for j in range(ni)], lab, {"q": 2})
                    cov.trace()
                    for t, i in enumerate(w):
                        r.fit(*alpha[i])
                        if w[t] or t == len(w) - 1:
                            r.score()
        cov.sample({"word": w, "W": W, "S": S})
    else:
        for ni, dt in ((0, None), (3, None), (60, None), (3, "int64"), (5, "int32"), (5, "float32"), (60, "int64")):
            init = [(distinct(-10 - j), j % 2) for j in range(ni)]
            if dt:      # an initial window of another kind of numbers than the instances
                init = [((float(j - 2), float(3 * j)), j % 2) for j in range(ni)]
            r = Run(cov, W, S, init, case["labels"], {"c": 3}, dt)
            cov.trace()
            for t in range(case["n"]):
                r.fit(distinct(t), (t * 7 // 4) % 2)
                r.score()
        cov.sample(note(W, S, ni, case["n"]))


def _iforest(case, cov):
    import numpy as np
    from pyod.models.iforest import IForest
    from pysad.models import IForestASD
    W, n = case["W"], case["n"]
    rows = [(0.1 * ((i * 7) % 10) + (i if case["step"] > 1 else 0), 0.3 * ((i * 3) % 7) - 1) for i in range(n + max(10, case["init"]))]
    init = [(r, None) for r in rows[n:n + case["init"]]]
    for kw in ({"n_estimators": 2}, {"n_estimators": 3, "contamination": 0.25}):
        reset_rng(3)
        a = {"initial_window_X": np.array([r for r, _ in init])} if init else {}
        m = IForestASD(window_size=W, **a, **kw)
        hist = []
        cov.trace()
        for t in range(n + 1):
            if t:
                reset_rng(3)
                m.fit_partial(np.array(rows[t - 1]))
                hist.append((rows[t - 1], None))
            if not hist and not init or t % case["step"] and t % W not in (0, 1, W - 1):
                continue
            want = np.array([r for r, _ in expected_rows(init, hist, W, W)])
            reset_rng(3)
            d = IForest(**kw).fit(want)
            for p in (np.array(rows[0]), np.array([5.0, 5.0])):
                g, e = num(m.score_partial(p)), float(d.decision_function([p])[0])
                cov.step(("iforest", W, case["init"], str(kw), len(hist)), tuple(p))
                cov.comp()
                cov.outcome(g)
                if g != e:
                    raise Violation("IForestASD scores %r, an isolation forest trained on the reference window scores %r" % (g, e), note(W, W, len(init), len(hist)))
    cov.sample(note(W, W, len(init), n))

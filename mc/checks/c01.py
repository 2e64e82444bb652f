"""C01: batch calls on models against per-instance calls."""
import itertools

from mc import big, zoo
from mc.core import Violation, reset_rng
from mc.util import num, same

BOUNDS = {
    "quick": "logging stub models: all row counts 0-4, 150 and 9000, labels absent/array/list/not-a-number/text/boolean/all equal/one different, 9 kinds of returned scalar (two with nan, infinite and extreme scores), 7 array layouts and contents (not-a-number, infinite, zero and repeated rows), all method sequences of length <= 2; "
             "25 real model configurations: all row words of length 0-3 over 2-3 instances from the initial and a warmed-up state, batch fit/score/fit_score against per-instance calls and all follow-up probes; 23 large configurations on streams of 30-1500 instances, cut into batches in three ways",
    "thorough": "as quick with row words of length 4 and method sequences of length 3",
}
ASSUMPTIONS = ["random numbers equal: the global generators are seeded identically before the compared runs"]
TECHNIQUE = "stateless bounded exhaustive exploration, batch history vs per-instance history of the real code"

KINDS = ["float", "np64", "np32", "arr0", "arr1", "int", "odd", "oddarr", "steps"]
ODD = [float("nan"), float("inf"), -float("inf"), 1e308, -0.0, 5e-324, -1e-9]


def stub(kind, override):
    import numpy as np
    from pysad.core.base_model import BaseModel

    class Stub(BaseModel):
        def __init__(self):
            self.log, self.n = [], 0

        def fit_partial(self, X, y=None):
            self.log.append(("F", X.copy() if hasattr(X, "copy") else X, y))
            return self

        def score_partial(self, X):
            self.log.append(("S", X.copy() if hasattr(X, "copy") else X))
            self.n += 1
            v = 3 * self.n + 1 if kind == "int" else self.n + 0.25
            if kind == "steps":      # long runs of one value
                v = 0.5 + (self.n % 130 > 9) + self.n // 130
            if kind.startswith("odd"):
                v = ODD[self.n % len(ODD)]
            return {"odd": float, "steps": float, "oddarr": lambda z: np.array([z]), "float": float, "np64": np.float64, "np32": np.float32, "arr0": np.array,
                    "arr1": lambda z: np.array([z]), "int": int}[kind](v)

    if override:
        class Stub2(Stub):
            def fit_score_partial(self, X, y=None):
                self.log.append(("FS", X.copy(), y))
                self.n += 1
                return np.array([self.n * 10.5]) if kind == "arr1" else self.n * 10.5
        return Stub2()
    return Stub()


def layouts(n):
    import numpy as np
    base = np.arange(n * 3, dtype=float).reshape(n, 3) * 0.5 - 1
    big = np.zeros((n, 6))
    big[:, ::2] = base
    yield "c", base
    yield "f", np.asfortranarray(base)
    yield "view", big[:, ::2]
    yield "int", (np.arange(n * 2).reshape(n, 2) - 2)
    yield "f32", base.astype(np.float32)
    o = base.copy()
    o[::3] = np.nan
    o[1::3, 1] = np.inf
    o[2::3] = 0.0
    yield "odd", o
    yield "rep", np.array([[float(i // 2 % 2), 0.0] for i in range(n)]).reshape(n, 2)


def labels(n):
    import numpy as np
    yield "none", None
    yield "arr", np.array([(i * 7) % 3 for i in range(n)])
    yield "list", [(i * 5) % 2 for i in range(n)]
    if n < 1000 and n > 1:
        yield "zeros", np.zeros(n, dtype=int)
        yield "ones", np.ones(n)
        yield "last", np.array([0] * (n - 1) + [1])
    if n < 1000:
        yield "nan", np.array([[1.0, float("nan"), -2.5, float("inf")][i % 4] for i in range(n)])
        yield "text", np.array([["a", "", "b"][i % 3] for i in range(n)])
        yield "bool", np.array([i % 3 == 1 for i in range(n)])


def cases(tier):
    q = tier == "quick"
    for k in big.names(("models",)):
        yield {"mode": "big", "key": k}
    for kind in KINDS:
        for ov in (False, True):
            yield {"mode": "stub", "kind": kind, "override": ov, "seq": 2 if q else 3}
    for name, e in zoo.models().items():
        heavy = e.cost >= 40
        for warm in (False, True):
            for d in range(0, (3 if not heavy else 2) + 1 + (0 if q else 1)):
                if name == "Inqmad" and d not in (0, 1) and not (d == 2):
                    continue
                yield {"mode": "real", "name": name, "warm": warm, "len": d, "k": 2 if heavy else 3}


def check_array(a, want, n, what, trace):
    import numpy as np
    if not isinstance(a, np.ndarray) or a.dtype != np.float64 or a.shape != (n,):
        raise Violation("%s returned %r, not a float64 array of shape (%d,)" % (what, a, n), trace)
    if not same(list(a), [float(np.asarray(w).reshape(-1)[0]) for w in want]):
        raise Violation("%s returned %r, the per-instance calls give %r" % (what, a, want), trace)


def run(case, cov):
    if case["mode"] == "big":
        return big.batches(case["key"], cov)
    if case["mode"] == "stub":
        _stub(case, cov)
    else:
        _real(case, cov)


def logs_equal(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and same(x[1], y[1]) and (len(x) < 3 or (x[2] is y[2]) or (x[2] is not None and y[2] is not None and (x[2] == y[2] or (x[2] != x[2] and y[2] != y[2]))))
                                    for x, y in zip(a, b))


def _stub(case, cov):
    kind, ov = case["kind"], case["override"]
    for n in [0, 1, 2, 3, 4, 150] + ([700] if kind == "steps" else []) + ([9000] if kind in ("float", "arr1") else []):
        for lname, X in layouts(n):
            if n > 1000 and lname not in ("c", "f32"):
                continue
            for yname, y in labels(n):
                seqs = itertools.chain(*[itertools.product(("fit", "score", "fit_score"), repeat=k) for k in range(1, (case["seq"] if n < 4 else 1) + 1)])
                for seq in seqs:
                    a, b = stub(kind, ov), stub(kind, ov)
                    cov.trace()
                    tr = {"stub": kind, "override": ov, "rows": n, "layout": lname, "labels": yname, "calls": seq}
                    given = []
                    for m in seq:
                        cov.step((kind, ov, n, lname, yname, a.n), m)
                        if m == "fit":
                            r = a.fit(X, y)
                            if r is not a:
                                raise Violation("fit does not return the model", tr)
                            for i in range(n):
                                b.fit_partial(X[i], None if y is None else y[i])
                        elif m == "score":
                            r = a.score(X)
                            check_array(r, [b.score_partial(X[i]) for i in range(n)], n, "score", tr)
                        else:
                            r = a.fit_score(X, y)
                            check_array(r, [b.fit_score_partial(X[i], None if y is None else y[i]) for i in range(n)], n, "fit_score", tr)
                        if m != "fit":
                            given.append((r, r.copy()))
                        for g, c in given:
                            if not same(g, c):
                                raise Violation("%s changed the scores an earlier call had returned from %r to %r" % (m, c, g), tr)
                        cov.comp()
                        if not logs_equal(a.log, b.log):
                            raise Violation("%s: per-row calls %r differ from %r" % (m, a.log[-4:], b.log[-4:]), tr)
                        if n and m == "fit_score" and not ov:
                            tail = a.log[-2:]
                            if [t[0] for t in tail] != ["F", "S"] or not same(tail[0][1], X[n - 1]) or not same(tail[1][1], X[n - 1]):
                                raise Violation("fit_score_partial is not fit_partial then score_partial of the same instance: %r" % (tail,), tr)
                        cov.outcome((m, n))
    cov.sample(tr)


def _real(case, cov):
    import numpy as np
    e = zoo.models()[case["name"]]
    esd = "ESD" in case["name"]
    probes = [e.inst(i) for i in range(len(e.alpha))] + [e.inst(0) * 4 - 1]

    def fresh():
        m = e.make(5)
        if case["warm"]:
            for j, w in enumerate(e.warm):
                m.fit_partial(np.array(w), (j % 2) if e.labels else None)
        return m

    def final(m, n):
        """observations after the compared calls"""
        out = []
        reset_rng(77)
        for p in probes[:2] if e.cost >= 40 else probes:
            if case["name"] == "PerfectModel":
                out.append(m.score_partial(p) if n else 0)
                n -= 1 if n else 0
            else:
                out.append(m.score_partial(p))
        return [num(o) for o in out]

    words = list(itertools.product(range(case["k"]), repeat=case["len"]))
    if case["name"] == "Inqmad":
        words = words[:2]
    for word in words:
        X = np.array([e.alpha[i] for i in word]).reshape(len(word), len(e.alpha[0]))
        y = np.array([(i + k) % 2 for k, i in enumerate(word)]) if e.labels else None
        n = len(word)
        nwarm = len(e.warm) if case["warm"] else 0
        tr = {"model": case["name"], "warm": case["warm"], "rows": X.tolist()}
        cov.trace()
        for k, i in enumerate(word):
            cov.step((case["name"], case["warm"], word[:k]), i)

        def lab(i):
            return None if y is None else y[i]
        # fit
        a, b = fresh(), fresh()
        reset_rng(3)
        if a.fit(X, y) is not a:
            raise Violation("fit does not return the model", tr)
        reset_rng(3)
        for i in range(n):
            if b.fit_partial(X[i], lab(i)) is not b:
                raise Violation("fit_partial does not return the model", tr)
        cov.comp()
        if n or nwarm:
            fa, fb = final(a, n + nwarm), final(b, n + nwarm)
            cov.outcome(tuple(fa))
            if not same(fa, fb):
                raise Violation("after fit the scores are %r, after fit_partial of the same rows %r" % (fa, fb), tr)
        # score
        if nwarm or n:
            if case["name"] == "PerfectModel" and n > nwarm:
                pass
            else:
                a, b = fresh(), fresh()
                if not nwarm:
                    for m in (a, b):
                        reset_rng(4)
                        for i in range(n):
                            m.fit_partial(X[i], lab(i))
                reset_rng(3)
                ra = a.score(X)
                reset_rng(3)
                check_array(ra, [b.score_partial(X[i]) for i in range(n)], n, "score", tr)
                cov.comp()
        # fit_score, fit_score_partial, and fit_partial followed by score_partial
        a, b, c = fresh(), fresh(), fresh()
        reset_rng(3)
        ra = a.fit_score(X, y)
        reset_rng(3)
        rb = [b.fit_score_partial(X[i], lab(i)) for i in range(n)]
        check_array(ra, rb, n, "fit_score", tr)
        reset_rng(3)
        if not esd:
            rc = [c.fit_partial(X[i], lab(i)).score_partial(X[i]) for i in range(n)]
            check_array(ra, rc, n, "fit_score", tr)
        else:
            # scored as the newest element of the window, added once
            rc = []
            for i in range(n):
                rc.append(c.score_partial(X[i]))
                c.fit_partial(X[i], lab(i))
            check_array(ra, rc, n, "fit_score", tr)
        cov.comp()
        if (n or nwarm) and case["name"] != "PerfectModel":
            fa, fb, fc = final(a, 0), final(b, 0), final(c, 0)
            if not same(fa, fb) or not same(fa, fc):
                raise Violation("later scores differ after fit_score %r, fit_score_partial %r, fit_partial+score_partial %r" % (fa, fb, fc), tr)
    cov.sample(tr)

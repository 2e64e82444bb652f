"""C02: batch calls on transformers, postprocessors, calibrators and ensemblers against per-item calls."""
import itertools

from mc import big, zoo
from mc.core import Violation, reset_rng
from mc.util import same

BOUNDS = {
    "quick": "logging stub transformers (declared output dimension -1, 1, 2, 4) and postprocessors: row counts 0-4, 150 and 9000, 6 array layouts and contents (one with long runs of equal items), 6 kinds of returned value, all method sequences of length <= 2; "
             "all 10 transformer, 12 postprocessor/calibrator and 7 ensembler configurations: all row words of length 0-3 over 3 instances, from the initial and a warmed-up state, with follow-up probes; 25 large configurations on streams of 100-2300 items, cut into batches in three ways",
    "thorough": "as quick with row words of length 5 and method sequences of length 3",
}
ASSUMPTIONS = ["random numbers equal: the global generators are seeded identically before the compared runs",
               "transform before any fit is only compared where the component supports it"]
TECHNIQUE = "stateless bounded exhaustive exploration, batch history vs per-item history of the real code"
METHODS = ("fit", "transform", "fit_transform")


def rec(x):
    import numpy as np
    return (type(x).__name__ if not isinstance(x, np.generic) else "scalar", np.shape(x), np.array(x, copy=True))


def stub_t(dims, kind, override):
    import numpy as np
    from pysad.core.base_transformer import BaseTransformer

    class T(BaseTransformer):
        def __init__(self):
            super().__init__(dims)
            self.log, self.n = [], 0

        def out(self, X):
            self.n += 1
            k = dims if dims > 0 else np.shape(X)[0]
            r = [self.n * 10 + 0.25 * j for j in range(k)]
            if kind == "list":
                return r
            if kind == "f32":
                return np.array(r, dtype=np.float32)
            if kind == "int":
                return np.array([int(v) for v in r])
            if kind == "scalar" and k == 1:
                return r[0]
            return np.array(r)

        def fit_partial(self, X):
            self.log.append(("F",) + rec(X))
            return self

        def transform_partial(self, X):
            self.log.append(("T",) + rec(X))
            return self.out(X)

    class T2(T):
        def fit_transform_partial(self, X):
            self.log.append(("FT",) + rec(X))
            return self.out(X)
    return T2() if override else T()


def stub_p(kind, override):
    import numpy as np
    from pysad.core.base_postprocessor import BasePostprocessor

    class P(BasePostprocessor):
        def __init__(self):
            self.log, self.n = [], 0

        def out(self):
            self.n += 1
            v = self.n * 10 + 0.25
            return {"list": np.array([v]), "f32": np.float32(v), "int": int(v), "scalar": v, "arr": np.array(v), "np64": np.float64(v)}[kind]

        def fit_partial(self, s):
            self.log.append(("F",) + rec(s))
            return self

        def transform_partial(self, s):
            self.log.append(("T",) + rec(s))
            return self.out()

    class P2(P):
        def fit_transform_partial(self, s):
            self.log.append(("FT",) + rec(s))
            return self.out()
    return P2() if override else P()


def layouts(n, d):
    import numpy as np
    if d == 0:
        base = np.arange(n, dtype=float) * 0.5 - 1
        big = np.zeros(2 * n)
        big[::2] = base
        yield "c", base
        yield "view", big[::2]
        yield "int", np.arange(n) - 2
        yield "f32", base.astype(np.float32)
        yield "steps", np.array([float(i // 60) for i in range(n)])
        return
    base = np.arange(n * d, dtype=float).reshape(n, d) * 0.5 - 1
    big = np.zeros((n, 2 * d))
    big[:, ::2] = base
    yield "c", base
    yield "f", np.asfortranarray(base)
    yield "view", big[:, ::2]
    yield "int", np.arange(n * d).reshape(n, d) - 2
    yield "f32", base.astype(np.float32)
    yield "steps", np.array([[float(i // 60)] * d for i in range(n)]).reshape(n, d)


def cases(tier):
    q = tier == "quick"
    for k in big.names(("transformers", "postprocessors", "ensemblers")):
        yield {"mode": "big", "key": k}
    for kind in ("arr", "list", "f32", "int", "scalar", "np64"):
        for ov in (False, True):
            for dims in (-1, 1, 2, 4):
                yield {"mode": "stub_t", "kind": kind, "override": ov, "dims": dims, "seq": 2 if q else 3}
            yield {"mode": "stub_p", "kind": kind, "override": ov, "seq": 2 if q else 3}
    for fam in ("transformers", "postprocessors", "ensemblers"):
        for name, e in getattr(zoo, fam)().items():
            for warm in (False, True):
                for d in range(0, 4 if q else 6):
                    yield {"mode": "real", "fam": fam, "name": name, "warm": warm, "len": d}


def check_array(a, want, shape, what, trace):
    import numpy as np
    if not isinstance(a, np.ndarray) or a.dtype != np.float64 or a.shape != shape:
        raise Violation("%s returned %r (shape %r), not a float64 array of shape %r" % (what, a, np.shape(a), shape), trace)
    want = np.array([np.asarray(w, dtype=float).reshape(shape[1:]) for w in want], dtype=float).reshape(shape)
    if not same(a, want):
        raise Violation("%s returned %r, the per-item calls give %r" % (what, a.tolist(), want.tolist()), trace)


def logs_equal(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[2] == y[2] and same(x[3], y[3]) for x, y in zip(a, b))


def run(case, cov):
    if case["mode"] == "big":
        return big.batches(case["key"], cov)
    if case["mode"] == "real":
        _real(case, cov)
    else:
        _stub(case, cov)


def _stub(case, cov):
    kind, ov = case["kind"], case["override"]
    tr = None
    isT = case["mode"] == "stub_t"

    def mk():
        return stub_t(case["dims"], kind, ov) if isT else stub_p(kind, ov)
    for n in [0, 1, 2, 3, 4, 150] + ([9000] if kind in ("arr", "np64") else []):
        for d in ((1, 3) if isT else (0, 3)):
            for lname, X in layouts(n, d):
                if n > 1000 and lname not in ("c", "f32"):
                    continue
                seqs = itertools.chain(*[itertools.product(METHODS, repeat=k) for k in range(1, (case["seq"] if n < 4 else 1) + 1)])
                for seq in seqs:
                    a, b = mk(), mk()
                    cov.trace()
                    tr = {"stub": case, "rows": n, "columns": d, "layout": lname, "calls": seq}
                    shape = (n, case["dims"] if case["dims"] > 0 else d) if isT else (n,)
                    given = []
                    for m in seq:
                        cov.step((str(case), n, d, lname, a.n), m)
                        before = len(a.log)
                        r = getattr(a, m)(X)
                        if m == "fit":
                            if r is not a:
                                raise Violation("fit does not return the object", tr)
                            for i in range(n):
                                b.fit_partial(X[i])
                        else:
                            w = [getattr(b, m + "_partial")(X[i]) for i in range(n)]
                            check_array(r, w, shape, m, tr)
                            given.append((r, r.copy()))
                        for g, c in given:
                            if not same(g, c):
                                raise Violation("%s changed the output an earlier call had returned from %r to %r" % (m, c, g), tr)
                        cov.comp()
                        if not logs_equal(a.log, b.log):
                            raise Violation("%s: per-row calls %r differ from the bare rows %r" % (m, a.log[-3:], b.log[-3:]), tr)
                        if m == "fit_transform" and not ov:
                            if [t[0] for t in a.log[before:]] != ["F", "T"] * n:
                                raise Violation("fit_transform_partial is not fit_partial then transform_partial", tr)
                        cov.outcome((m, n, d))
    cov.sample(tr)


def _real(case, cov):
    import numpy as np
    e = getattr(zoo, case["fam"])()[case["name"]]
    nm = case["name"]
    scalar = case["fam"] == "postprocessors"
    needs_fit = scalar
    d = 0 if scalar else len(e.alpha[0])
    tr = None

    def item(v):
        return np.float64(v) if scalar else np.array(v, dtype=float)

    def fresh():
        t = e.make(5)
        if case["warm"]:
            for w in e.warm:
                t.fit_partial(item(w))
        return t
    probes = [item(a) for a in e.alpha]

    def final(t):
        reset_rng(77)
        out = [t.transform_partial(p) for p in probes]
        t.fit_partial(probes[1])
        return [np.array(o, dtype=float) for o in out] + [np.array(t.transform_partial(probes[0]), dtype=float)]
    for word in itertools.product(range(3), repeat=case["len"]):
        n = len(word)
        X = np.array([e.alpha[i] for i in word], dtype=float)
        X = X.reshape(n) if scalar else X.reshape(n, d)
        tr = {"component": nm, "warm": case["warm"], "rows": X.tolist()}
        cov.trace()
        for k, i in enumerate(word):
            cov.step((nm, case["warm"], word[:k]), i)
        a, b = fresh(), fresh()
        reset_rng(3)
        if a.fit(X) is not a:
            raise Violation("fit does not return the object", tr)
        reset_rng(3)
        for i in range(n):
            if b.fit_partial(X[i]) is not b:
                raise Violation("fit_partial does not return the object", tr)
        cov.comp()
        ok = (n or case["warm"] or not needs_fit)
        if ok:
            fa, fb = final(a), final(b)
            cov.outcome(str(fa))
            if not same(fa, fb):
                raise Violation("after fit: %r, after fit_partial of the same rows: %r" % (fa, fb), tr)
        if case["fam"] == "transformers":
            outd = {"GaussianRandomProjector": 2, "SparseRandomProjector": 2, "StreamhashProjector": 3, "StreamhashProjector-1": 1, "ModifiedSTLResidual": 1}.get(nm, d)
            shape = (n, outd)
        else:
            shape = (n,)
        # transform
        if case["warm"] or not needs_fit:
            a, b = fresh(), fresh()
            reset_rng(3)
            ra = a.transform(X)
            reset_rng(3)
            check_array(ra, [np.array(b.transform_partial(X[i]), dtype=float) for i in range(n)], shape, "transform", tr)
            if not same(final(a), final(b)):
                raise Violation("later results differ after transform and transform_partial", tr)
            cov.comp()
        a, b = fresh(), fresh()
        reset_rng(3)
        ra = a.fit_transform(X)
        reset_rng(3)
        check_array(ra, [np.array(b.fit_transform_partial(X[i]), dtype=float) for i in range(n)], shape, "fit_transform", tr)
        if ok and not same(final(a), final(b)):
            raise Violation("later results differ after fit_transform and fit_transform_partial", tr)
        cov.comp()
    cov.sample(tr)

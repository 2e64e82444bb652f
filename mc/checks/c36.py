"""C36: a rejected call leaves the object unchanged."""
import itertools

from mc.core import Violation, reset_rng
from mc.util import same
from mc.zoo import lfsr

BOUNDS = {
    "quick": "every listed component: all call words of length 3 (meters 5, perfect model 6) after two or three prefixes (and short words after 30 and 130 fits), with every rejected call (2-6 kinds each) inserted at every position, once and twice in a row; streamers: all words of length 3 over {iterate, iterate with labels} x shuffle with a mismatch "
             "(too few, too many, no labels) at every position; all results compared exactly with the same word without the rejected calls",
    "thorough": "as quick with words one or two longer and all pairs of positions",
}
ASSUMPTIONS = ["any exception type counts as rejection"]
TECHNIQUE = "fault injection: a rejected call at every position of every bounded call word on the real code, compared exactly with the undisturbed run"
REJ = "!"


def comps():
    import numpy as np
    from pysad import models as M
    from pysad import statistics as S
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer
    u = [np.array([v]) for v in (0.5, 2.0, -7.25)]
    bad = np.array([1.0, 9.0])
    three = np.array([50.0, 60.0, 70.0])
    rows = np.array([[1.0, 9.0], [40.0, 30.0]])

    def model(mk, score_rejects, labels=False):
        ops = [("fit%d" % i, lambda m, i=i: m.fit_partial(u[i]) is m) for i in range(2)]
        ops += [("fit_score%d" % i, lambda m, i=i: m.fit_score_partial(u[i])) for i in (0, 2)]
        ops += [("score%d" % i, lambda m, i=i: m.score_partial(u[i])) for i in (1, 2)]
        rej = [("fit two features", lambda m: m.fit_partial(bad)), ("fit_score two features", lambda m: m.fit_score_partial(bad)),
               ("fit three features", lambda m: m.fit_partial(three)), ("batch fit two features", lambda m: m.fit(rows)),
               ("batch fit_score two features", lambda m: m.fit_score(rows)), ("fit no feature", lambda m: m.fit_partial(np.array([])))]
        if score_rejects:
            rej.append(("score two features", lambda m: m.score_partial(bad)))
            rej.append(("batch score two features", lambda m: m.score(rows)))
        return mk, ops, rej, lambda m: m.fit_partial(u[0])
    C = {}
    C["MAD"] = model(lambda: M.MedianAbsoluteDeviation(), False)
    C["MAD-signed"] = model(lambda: M.MedianAbsoluteDeviation(absolute=False), False)
    C["SAD"] = model(lambda: M.StandardAbsoluteDeviation(), False)
    C["SAD-median"] = model(lambda: M.StandardAbsoluteDeviation("median", absolute=False), False)
    C["ESD"] = model(lambda: M.SeasonalESD(period=2, window_size=4, max_anomalies=1), True)
    C["HybridESD"] = model(lambda: M.SeasonalHybridESD(period=2, window_size=4, max_anomalies=1, alpha=0.4), True)
    tr_ops = [("fit%d" % i, lambda m, i=i: m.fit_partial(u[i]) is m) for i in range(2)]
    tr_ops += [("fit_transform%d" % i, lambda m, i=i: m.fit_transform_partial(u[i])) for i in (0, 2)]
    tr_ops += [("transform%d" % i, lambda m, i=i: m.transform_partial(u[i])) for i in (1, 2)]
    tr_rej = [("fit two features", lambda m: m.fit_partial(bad)), ("fit_transform two features", lambda m: m.fit_transform_partial(bad)),
              ("transform two features", lambda m: m.transform_partial(bad)), ("fit three", lambda m: m.fit_partial(three)), ("fit none", lambda m: m.fit_partial(np.array([])))]
    C["STL"] = (lambda: ModifiedSTLResidualTransformer(period=2, window_size=4), tr_ops, tr_rej, lambda m: m.fit_partial(u[0]))
    x = np.array([1.0])

    def pscore(m):
        return m.score_partial(x)
    C["Perfect"] = (lambda: M.PerfectModel(), [("fit0", lambda m: m.fit_partial(x, 0) is m), ("fit1", lambda m: m.fit_partial(x, 1) is m), ("fit_score3", lambda m: m.fit_score_partial(x, 3)), ("score", pscore)],
                    [("fit without label", lambda m: m.fit_partial(x, None)), ("fit_score without label", lambda m: m.fit_score_partial(x)), ("batch fit without labels", lambda m: m.fit(rows)), ("batch fit_score without labels", lambda m: m.fit_score(rows))],
                    lambda m: m.fit_partial(x, 7))

    def meter(mk):
        # the word is over updates, reads and removals of present values; removal of absent ones is the rejected call
        ops = [("update%r" % v, lambda m, v=v: m.update(v) is m) for v in (1.0, 4.0, -2.0)] + [("get", lambda m: m.get())] + [("remove%r" % v, lambda m, v=v: m.remove(v) is m) for v in (1.0, 4.0)]
        rej = [("remove 3.0", lambda m: m.remove(3.0)), ("remove 100.0", lambda m: m.remove(100.0)), ("remove -100.0", lambda m: m.remove(-100.0))]
        return mk, ops, rej, lambda m: m.update(4.0)
    for n in ("Max", "Min", "Median"):
        C[n + "Meter"] = meter(getattr(S, n + "Meter"))
    return C


NAMES = ["MAD", "MAD-signed", "SAD", "SAD-median", "ESD", "HybridESD", "STL", "Perfect", "MaxMeter", "MinMeter", "MedianMeter"]


def cases(tier):
    q = tier == "quick"
    for n in NAMES:
        ln = 4 if n[0] in "MS" or "ESD" in n or n == "STL" else 5
        if n in ("MAD", "MAD-signed", "SAD", "SAD-median", "ESD", "HybridESD", "STL"):
            ln = 3
        if n in ("Perfect",):
            ln = 6
        if "Meter" in n:
            ln = 5
        if n != "Perfect":
            for f in range(6):
                for pre in (30, 130):
                    if pre < 100 or "ESD" not in n and n != "STL":
                        yield {"mode": "word", "name": n, "first": f, "pre": pre, "len": 1 if "Meter" not in n else 2, "pairs": False}
        for pre in (0, 2, 4):
            if pre == 4 and n not in ("ESD", "HybridESD", "STL"):
                continue
            for f in range(6 if n != "Perfect" else 4):
                yield {"mode": "word", "name": n, "first": f, "pre": pre, "len": ln + (0 if q else 1), "pairs": not q}
    for k in ("array", "pandas"):
        for sh in (False, True):
            yield {"mode": "stream", "kind": k, "shuffle": sh, "len": 3 if q else 4}


def attempt(rej, m, tr):
    try:
        rej[1](m)
    except Exception:  # noqa: rejection
        return
    raise Violation("the call '%s' was not rejected" % rej[0], tr)


def legal(name, w, pre):
    """Words that the undisturbed component accepts: only present values removed, queue not empty, get on data."""
    if name == "Perfect":
        h = pre
        for o in w:
            h += {"fit0": 1, "fit1": 1, "fit_score3": 0, "score": -1}[o]
            if h < 0:
                return False
        return True
    if "Meter" in name:
        held = {"4.0": pre}
        n = pre
        for o in w:
            if o.startswith("update"):
                held[o[6:]] = held.get(o[6:], 0) + 1
                n += 1
            elif o.startswith("remove"):
                if not held.get(o[6:], 0):
                    return False
                held[o[6:]] -= 1
                n -= 1
            elif n == 0:
                return False
        return True
    return pre > 0 or not w[0].startswith(("score",))


def run(case, cov):
    import numpy as np
    if case["mode"] == "word":
        mk, ops, rejs, warm = comps()[case["name"]]
        final = [o for o in ops if not o[0].startswith(("update", "remove"))]

        def play(w, at, rej, rep):
            m = mk()
            for k in range(case["pre"]):
                ops[k % 2][1](m) if case["pre"] >= 30 and "Meter" not in case["name"] else warm(m)
            out = []
            tr = {"component": case["name"], "prefix": case["pre"], "calls": [o[0] for o in w], "rejected": rej and rej[0], "before_call": at, "times": rep}
            for k, o in enumerate(w):
                if rej is not None and k in at:
                    for _ in range(rep):
                        attempt(rej, m, tr)
                out.append(o[1](m))
            if rej is not None and len(w) in at:
                for _ in range(rep):
                    attempt(rej, m, tr)
            for o in final:
                # what is observable at the end (the perfect model's queue is drained)
                try:
                    out.append(o[1](m))
                except Exception as e:  # noqa
                    out.append(type(e).__name__)
            cov.trace()
            return out, tr
        for w in itertools.product(ops, repeat=case["len"] - 1):
            w = (ops[case["first"]],) + w
            if not legal(case["name"], [o[0] for o in w], case["pre"]):
                continue
            want, _ = play(w, (), None, 0)
            spots = [(k,) for k in range(len(w) + 1)]
            if case["pairs"]:
                spots += list(itertools.combinations(range(len(w) + 1), 2))
            for ri, rej in enumerate(rejs):
                for at in spots:
                    cov.step((case["name"], case["pre"], tuple(o[0] for o in w[:at[0]])), rej[0])
                    got, tr = play(w, at, rej, 1 + (ri + at[0]) % 2)
                    cov.comp(len(got))
                    cov.outcome(repr(got[-1]))
                    if not same(got, want):
                        raise Violation("results %r instead of %r after a rejected call" % (got, want), tr)
        cov.sample({"component": case["name"], "rejected": [r[0] for r in rejs]})
        return
    import pandas as pd
    from pysad.utils import ArrayStreamer, PandasStreamer
    n = 5
    X = np.arange(2.0 * n).reshape(n, 2)
    y = np.arange(n) * 10
    arr = case["kind"] == "array"
    if not arr:
        X = pd.DataFrame(X, columns=["a", "b"])
        y = pd.Series(y)
    rej = {"short": y[:n - 1], "long": np.arange(n + 2) if arr else pd.Series(np.arange(n + 2)), "none": y[:0]}

    def play(w, at, r):
        reset_rng(5)
        st = (ArrayStreamer if arr else PandasStreamer)(shuffle=case["shuffle"])
        out = []
        for k in range(len(w) + 1):
            if r is not None and k == at:
                try:
                    list(st.iter(X, rej[r]))
                except Exception:  # noqa: rejection
                    pass
                else:
                    raise Violation("labels of the wrong length were not rejected", {"case": case, "labels": r})
            if k == len(w):
                break
            if w[k] == "X":
                out.append([np.asarray(x) for x in st.iter(X)])
            elif w[k] == "Xy":
                out.append([(np.asarray(a), np.asarray(b)) for a, b in st.iter(X, y)])
            else:
                out.append(np.random.rand() if case["shuffle"] else 0)
        out.append([np.asarray(x) for x in st.iter(X)])
        cov.trace()
        return out
    for w in itertools.product(("X", "Xy", "draw"), repeat=case["len"]):
        want = play(w, None, None)
        for at in range(len(w) + 1):
            for r in rej:
                cov.step((case["kind"], case["shuffle"], w[:at]), r)
                got = play(w, at, r)
                cov.comp(len(got))
                if not same(got, want):
                    raise Violation("iteration differs after a rejected call", {"case": case, "calls": w, "before_call": at, "labels": r})
    cov.sample({"case": case})

"""C16: scoring an instance never changes the model."""
import itertools

from mc import big, zoo
from mc.core import Violation, reset_rng
from mc.util import num, same

BOUNDS = {
    "quick": "26 model configurations: all fit words of length 3 over 2 instances (after warm-up and from the first fit), extra score calls at every subset of positions, of 4 kinds of instance (seen, other, far, batch of three), "
             "once or twice; later scores at every position and 4 final probes compared exactly; lassos of 40 fits (windows crossed many times) scored after every fit vs only at the end; 22 large configurations on streams of 30-2300 instances scored after every fit vs only at the comparison points",
    "thorough": "as quick with fit words of length 5, 3 instances and lassos of 200 fits",
}
ASSUMPTIONS = ["the global generators are re-seeded before every fit and before every compared score, so that only the model state matters",
               "the perfect, random and conformal k-NN models are exceptions by the statement"]
TECHNIQUE = "bounded exhaustive exploration of score-call insertions, history against history on the real code"


def cases(tier):
    q = tier == "quick"
    for k in big.names(("models",), pure=True):
        for kind in ("one", "two"):
            yield {"mode": "big", "key": k, "kind": kind}
    for name, e in zoo.models().items():
        if not e.scores_pure:
            continue
        L = 3 if q else 5
        k = 2 if q else 3
        if e.cost >= 40:
            L = 2 if q else 3
            k = 2
        if name == "Inqmad":
            yield {"mode": "inqmad", "name": name, "warm": True, "fits": 3 if q else 5}
            continue
        for warm in (False, True):
            for first in range(k):
                yield {"mode": "words", "name": name, "warm": warm, "first": first, "len": L, "k": k}
        for kind in range(4):
            yield {"mode": "lasso", "name": name, "kind": kind, "n": (40 if e.cost < 40 else 12) if q else (200 if e.cost < 40 else 40)}


def extra(m, e, kind, times):
    import numpy as np
    for _ in range(times):
        if kind == 0:
            m.score_partial(e.inst(0))
        elif kind == 1:
            m.score_partial(e.inst(2))
        elif kind == 2:
            m.score_partial(e.inst(1) * 37.0 - 11)
        else:
            m.score(np.array([e.inst(1), e.inst(0), e.inst(2) + 0.125]))


def probe(m, e):
    out = []
    for j, p in enumerate([e.inst(0), e.inst(1), e.inst(2) * 3 + 1, e.inst(0)]):
        reset_rng(500 + j)
        out.append(num(m.score_partial(p)))
    return out


def history(e, warm, word, where, kind, times, cov=None):
    """Fits word; extra scores after step i for i in where.  Position 0 is before the first fit of the word."""
    import numpy as np
    m = e.make(5)
    t = 0
    if warm:
        for w in e.warm:
            reset_rng(100 + t)
            m.fit_partial(np.array(w, dtype=float))
            t += 1
    for i in range(len(word) + 1):
        if i in where and t:
            reset_rng(900 + i)
            extra(m, e, kind, times)
        if i < len(word):
            reset_rng(100 + t)
            m.fit_partial(e.inst(word[i]))
            t += 1
    return probe(m, e)


def run(case, cov):
    if case["mode"] == "big":
        return big.insertions(case["key"], cov, case["kind"])
    import numpy as np
    e = zoo.models()[case["name"]]
    nm = case["name"]
    if case["mode"] == "words":
        n = case["len"]
        cheap = e.cost < 6
        for rest in itertools.product(range(case["k"]), repeat=n - 1):
            word = (case["first"],) + rest
            base = history(e, case["warm"], word, (), 0, 1)
            cov.outcome(tuple(base))
            for r in range(1, n + 2):
                for where in itertools.combinations(range(n + 1), r):
                    if not cheap and r not in (1, n + 1):
                        continue
                    for kind, times in ((0, 1), (1, 2), (2, 1), (3, 1)) if cheap else (((r + len(word) + word[0]) % 4, 1), (2, 2)):
                        cov.trace()
                        cov.step((nm, case["warm"], word, where), (kind, times))
                        got = history(e, case["warm"], word, where, kind, times)
                        cov.comp()
                        if not same(got, base):
                            raise Violation("%s: final scores %r become %r when score calls are inserted" % (nm, base, got),
                                            {"fits": word, "warm": case["warm"], "score_calls_at": where, "kind": kind, "times": times})
        cov.sample({"model": nm, "fits": word, "score_calls_at": where})
    elif case["mode"] == "lasso":
        for per in ((0,), (1, 0), (0, 0, 1), (2, 1, 0)) if e.cost < 6 else ((1, 0, 2),):
            word = [per[t % len(per)] for t in range(case["n"])]
            base = history(e, True, word, (), 0, 1)
            ends = set(range(len(word) + 1))
            for where in (ends, {t for t in ends if t % 3 == 0}, {len(word) // 2}):
                cov.trace()
                cov.step((nm, per, len(where)), case["kind"])
                got = history(e, True, word, where, case["kind"], 1)
                cov.comp()
                cov.outcome(tuple(got))
                if not same(got, base):
                    raise Violation("%s: final scores %r become %r when score calls are inserted" % (nm, base, got),
                                    {"period": per, "fits": len(word), "score_calls": len(where), "kind": case["kind"]})
        cov.sample({"model": nm, "period": per, "fits": len(word)})
    else:
        word = [t % 3 for t in range(case["fits"])]
        base = history(e, True, word, (), 0, 1)
        for where, kind in (({0, 1, 2, 3}, 3), ({1}, 0), ({len(word)}, 2), ({len(word) - 1, len(word)}, 1)):
            cov.trace()
            cov.step((nm, tuple(sorted(where))), kind)
            got = history(e, True, word, where, kind, 2)
            cov.comp()
            cov.outcome(tuple(got))
            if not same(got, base):
                raise Violation("%s: final scores %r become %r when score calls are inserted" % (nm, base, got), {"fits": word, "score_calls_at": sorted(where)})
        # the compiled prediction is the one of the state at the call: interleaved and pure histories agree step by step
        a, b = e.make(5), e.make(5)
        for t, i in enumerate(word):
            for m in (a, b):
                reset_rng(100 + t)
                m.fit_partial(e.inst(i))
            a.score_partial(e.inst(0))
            a.score_partial(e.inst(2))
        ra, rb = num(a.score_partial(e.inst(1))), num(b.score_partial(e.inst(1)))
        cov.comp()
        if ra != rb:
            raise Violation("Inqmad: score %r with and %r without earlier score calls" % (ra, rb), {"fits": word})
        cov.sample({"model": nm, "fits": word})

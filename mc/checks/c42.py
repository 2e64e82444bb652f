"""C42: unsupervised models ignore labels."""
import itertools

from mc import zoo
from mc.core import Violation, reset_rng
from mc.util import primitive_words, same

BOUNDS = {
    "quick": "every model whose labels are documented as ignored, and the window and one-shot wrappers around unsupervised detectors: all label words of length 4 (expensive models 3) over {none, 0, 1} (and 2.5, -1, NaN, NumPy integers and booleans by themselves, also in batches) "
             "x all words of length 2 over {fit, fit-and-score} after a warm-up, and every label pattern of period <= 3 from the first instance on (through the warm-up and several windows), per instance and in batches; "
             "the wrappers: all instances labelled or none; every score compared exactly with the run without labels",
    "thorough": "as quick with label words of length 5 (4) and patterns of period 4",
}
ASSUMPTIONS = ["labels are numbers or missing", "the window and one-shot wrappers pass labels on, so they are observed with unsupervised detectors and labels on all or no instances"]
TECHNIQUE = "bounded exhaustive exploration of label words on the real code, compared exactly with the unlabelled run"
ALL = ("RefWindow-KNN", "RefWindow-IForest")     # labelled throughout or not at all


def entries():
    d, vs = {}, zoo.variants()
    for n, e in zoo.models().items():
        if n == "PerfectModel":
            continue
        d[n] = (e, e.mk)
        for i, mk in enumerate(vs.get(n, [])):
            d["%s/%d" % (n, i)] = (e, mk)
    return d


def cases(tier):
    q = tier == "quick"
    for n, (e, _) in entries().items():
        slow = e.cost >= 10
        k = (3 if slow else 4) + (not q)
        for ops in itertools.product("FP", repeat=2):
            yield {"name": n, "mode": "words", "len": k, "ops": "".join(ops)}
        yield {"name": n, "mode": "period", "period": (2 if slow else 3) + (not q), "n": 10 if slow else 24}
        yield {"name": n, "mode": "kinds", "n": 8}


def play(name, e, mk, xs, ys, ops, cov, batch=0):
    """Outputs of a run in which instance t has label ys[t]."""
    import numpy as np
    reset_rng(3)
    m = mk()
    out = []
    reset_rng(4)
    if batch:
        for i in range(0, len(xs), batch):
            X = np.array(xs[i:i + batch], dtype=float)
            y = ys[i:i + batch]
            y = None if all(v is None for v in y) else np.array(y)
            cov.step((name, i), ("batch", str(y)))
            if i // batch % 2:
                out.append(m.fit_score(X, y).tolist())
            else:
                m.fit(X, y)
                out.append(m.score(X).tolist())
        return out
    for t, x in enumerate(xs):
        x, y, op = np.array(x, dtype=float), ys[t], ops[t % len(ops)]
        cov.step((name, t, ops), (op, y))
        reset_rng(50 + t)
        if op == "P":
            r = m.fit_score_partial(x) if y is None else m.fit_score_partial(x, y)
        else:
            m.fit_partial(x) if y is None else m.fit_partial(x, y)
            r = m.score_partial(x)
        out.append(np.ravel(r).tolist())
    return out


def run(case, cov):
    import numpy as np
    e, mk = entries()[case["name"]]
    name = case["name"]
    both = name.split("/")[0] in ALL

    def stream(n):
        return [(list(e.warm) + [e.alpha[(7 * k // 3) % len(e.alpha)] for k in range(n)])[t] for t in range(n)]

    def labels(words):
        for w in words:
            if not both or None not in w:
                yield w

    def check(got, want, ys, what):
        cov.trace()
        cov.comp(len(want))
        for t, (a, b) in enumerate(zip(got, want)):
            if not same(a, b):
                raise Violation("%s: with the labels %r the score after instance %d is %r, without labels %r (%s)" % (name, [v for v in ys][:40], t, a, b, what), dict(case, labels=[None if v is None else float(v) for v in ys]))
        cov.outcome((name, repr(want[-1])))
    if case["mode"] == "words":
        w = len(e.warm)
        xs = list(e.warm) + [e.alpha[(k * 2 + 1) % len(e.alpha)] for k in range(case["len"])]
        ops = "F" * w + case["ops"] * case["len"]
        want = play(name, e, mk, xs, [None] * len(xs), ops, cov)
        for word in labels(itertools.product((None, 0, 1), repeat=case["len"])):
            ys = ([k % 2 for k in range(w)] if both else [None] * w) + list(word)
            check(play(name, e, mk, xs, ys, ops, cov), want, ys, case["ops"])
        cov.sample({"model": name, "instances": len(xs), "ops": case["ops"]})
    elif case["mode"] == "period":
        n = len(e.warm) + case["n"]
        xs = stream(n)
        for ops, batch in (("F", 0), ("P", 0), ("FFP", 0), ("", 3), ("", 7)):
            want = play(name, e, mk, xs, [None] * n, ops, cov, batch)
            for per in labels(primitive_words((0, 1) if batch else (None, 0, 1), case["period"])):
                ys = [per[t % len(per)] for t in range(n)]
                check(play(name, e, mk, xs, ys, ops, cov, batch), want, ys, ops or "batches of %d" % batch)
    else:
        n = len(e.warm) + case["n"]
        xs = stream(n)
        want = play(name, e, mk, xs, [None] * n, "FP", cov)
        nan = float("nan")
        batched = {b: play(name, e, mk, xs, [None] * n, "", cov, b) for b in (4,)}
        for kind in ((0, 1), (2.5, 0.25), (-1, 1), (True, False), (np.int64(1), np.int64(0)), (np.float32(1), np.float32(0)), (np.bool_(True), np.bool_(False)), (7, 7), (nan, 1.0), (nan, nan)):
            if (both or name.startswith("IForest")) and (kind == (2.5, 0.25) or kind[0] != kind[0]):
                continue
            ys = [kind[t % 2] for t in range(n)]
            check(play(name, e, mk, xs, ys, "FP", cov), want, ys, "kinds")
            for b, w in batched.items():
                check(play(name, e, mk, xs, ys, "", cov, b), w, ys, "kinds, batches of %d" % b)

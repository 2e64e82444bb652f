"""C12: cumulative metrics."""
import itertools
from collections import Counter

from mc.core import Violation
from mc.util import close, num, primitive_words

BOUNDS = {
    "quick": "all (label, prediction) sequences: precision/recall to length 6 over {0,1}^2, AUROC/AUPR to length 4 over {0,1} x 3 scores (read after every update "
             "and only at the end), length 5 over 2 scores; length 3 over five score scales (1e-300 to 1e300, gaps of 2^-40); every subset of read positions for length 3; lassos (every first pair, every period of length up to 2) of 120 updates, three histories of 25000 updates and histories of 2600 different scores in three spacings; label and score types int/NumPy/bool; a user-defined metric",
    "thorough": "as quick to length 7 / 5 / 6",
}
ASSUMPTIONS = ["AUPR is compared once a positive label was seen"]


def names():
    return ["PrecisionMetric", "RecallMetric", "AUROCMetric", "AUPRMetric", "User"]


def make(name):
    import pysad.evaluation as e
    if name == "User":
        class User(e.BaseSKLearnMetric):
            def _evaluate(self, y_true, y_pred):
                return tuple(zip(list(y_true), list(y_pred)))
        return User()
    return getattr(e, name)()


def ref(name, h):
    """(kind, value): the textbook value."""
    if name == "User":
        return ("v", tuple(h))
    pos = [s for y, s in h if y == 1]
    neg = [s for y, s in h if y == 0]
    if name == "PrecisionMetric":
        pp = sum(1 for y, s in h if s == 1)
        return ("v", sum(1 for y, s in h if s == 1 and y == 1) / pp if pp else 0.0)
    if name == "RecallMetric":
        return ("v", sum(1 for s in pos if s == 1) / len(pos) if pos else 0.0)
    if name == "AUROCMetric":
        if not pos or not neg:
            return ("error", None)
        cp, cn = Counter(pos), Counter(neg)
        return ("v", sum((1.0 if p > q else 0.5 if p == q else 0.0) * cp[p] * cn[q] for p in cp for q in cn) / (len(pos) * len(neg)))
    if not pos:
        return ("skip", None)
    ap, seen_p, seen = 0.0, 0, 0
    for s in sorted(set(x for _, x in h), reverse=True):
        grp = [y for y, x in h if x == s]
        seen += len(grp)
        tp = sum(1 for y in grp if y == 1)
        seen_p += tp
        ap += tp / len(pos) * (seen_p / seen)
    return ("v", ap)


def read(name, m, h, trace, cov):
    kind, want = ref(name, h)
    if kind == "skip":
        m.get()
        return
    cov.comp()
    try:
        got = m.get()
    except ValueError:
        if kind == "error":
            return
        raise Violation("%s raises ValueError on %r" % (name, h[-10:]), trace)
    if kind == "error":
        raise Violation("%s returns %r although only one class was seen" % (name, got), trace)
    if name == "User":
        if got != want:
            raise Violation("user metric got %r, expected %r" % (got, want), trace)
        return
    g = num(got, "metric value")
    cov.outcome((name, g))
    if not close(g, want, 1e-9):
        raise Violation("%s is %r, expected %r for %r" % (name, g, want, h[-20:]), trace)


TYPES = {"py": (int, float), "np": ("int64", "float64"), "bool": (bool, float), "f": (float, float), "i32": ("int32", "float32")}


def conv(t, y, s, hard):
    import numpy as np
    a, b = TYPES[t]
    a = getattr(np, a) if isinstance(a, str) else a
    b = getattr(np, b) if isinstance(b, str) else b
    return a(y), (a(s) if hard else b(s))


def cases(tier):
    q = tier == "quick"
    for name in names():
        hard = name in ("PrecisionMetric", "RecallMetric")
        if hard:
            for first in itertools.product((0, 1), repeat=4):
                yield {"name": name, "mode": "words", "scores": [0, 1], "len": 6 if q else 7, "type": "py", "first": [first[:2], first[2:]]}
        else:
            for f in itertools.product([0, 1], [0.25, 0.5, 3.0]):
                yield {"name": name, "mode": "words", "scores": [0.25, 0.5, 3.0], "len": 4 if q else 5, "type": "py", "first": [f]}
                yield {"name": name, "mode": "words", "scores": [-1.0, 0.5], "len": 5 if q else 6, "type": "np", "first": [[f[0], -1.0 if f[1] < 1 else 0.5]]} \
                    if f[1] != 0.5 else {"name": name, "mode": "words", "scores": [-2.0, -1.0], "len": 4, "type": "f", "first": [[f[0], -2.0]]}
            for sc in ([1e-9, 2e-9, -1e-9], [1.0, 1.0 + 2.0 ** -40, 1.0 - 2.0 ** -30], [1e12, 1e12 + 1, -1e12], [1e-300, 0.0, 1e300], [0.5, 1.5, 2.0]):
                yield {"name": name, "mode": "words", "scores": sc, "len": 3 if q else 4, "type": "py", "first": []}
        yield {"name": name, "mode": "long", "scores": [0, 1] if hard else [0.5, 0.75, -1.0], "n": 25000 if q else 70000, "type": "py"}
        if not hard:
            for sc in ("fine", "tiny", "wide"):
                yield {"name": name, "mode": "fine", "scale": sc, "scores": [], "n": 2600 if q else 12000, "type": "py"}
        for t in TYPES:
            yield {"name": name, "mode": "words", "scores": [0, 1] if hard else [0.5, 0.75], "len": 3, "type": t, "first": []}
        yield {"name": name, "mode": "gets", "scores": [0, 1] if hard else [0.5, 0.75], "len": 3 if q else 4, "type": "py"}
        yield {"name": name, "mode": "lasso", "scores": [0, 1] if hard else [0.5, 0.75, -1.0], "n": 120 if q else 600, "type": "py"}


def run(case, cov):
    name, t = case["name"], case["type"]
    hard = name in ("PrecisionMetric", "RecallMetric")
    pairs = list(itertools.product((0, 1), case["scores"]))

    def upd(m, y, s):
        a, b = conv(t, y, s, hard)
        m.update(a, b)

    if case["mode"] == "words":
        first = [tuple(f) for f in case["first"]]
        for rest in itertools.product(pairs, repeat=case["len"] - len(first)):
            w = first + list(rest)
            for every in (True, False):
                m = make(name)
                cov.trace()
                for k, (y, s) in enumerate(w):
                    cov.step((name, tuple(sorted(w[:k]))), (y, s))
                    upd(m, y, s)
                    if every:
                        read(name, m, [(a, float(b)) for a, b in w[:k + 1]], w[:k + 1], cov)
                if not every:
                    read(name, m, [(a, float(b)) for a, b in w], w, cov)
            cov.sample({"metric": name, "pairs": w})
    elif case["mode"] == "gets":
        n = case["len"]
        for w in itertools.product(pairs, repeat=n):
            for mask in range(1 << n):
                m = make(name)
                cov.trace()
                for k, (y, s) in enumerate(w):
                    upd(m, y, s)
                    if mask >> k & 1:
                        for _ in range(2):
                            read(name, m, list(w[:k + 1]), [w[:k + 1], mask], cov)
                read(name, m, list(w), [w, mask], cov)
    elif case["mode"] == "fine":
        # many different scores: none of them may be merged
        m, h = make(name), []
        cov.trace()
        for k in range(case["n"]):
            v = (k * k * 31 + k * 17) % 4099
            s = {"fine": 0.5 + v * 2.0 ** -30, "tiny": (v - 2000) * 1e-200, "wide": (-1.0) ** v * 1.01 ** v}[case["scale"]]
            y = int(((k * 7) % 13 + v % 5) % 3 == 0)
            upd(m, y, s)
            h.append((y, s))
            cov.step((name, case["scale"], k), (y, s))
            if k + 1 in (50, 100, 101, 999, 1000, 1001, 1024, 2048, 2500, 5001, case["n"]):
                read(name, m, h, {"scale": case["scale"], "step": k}, cov)
    elif case["mode"] == "long":
        a, b = case["scores"][0], case["scores"][1]
        for head, per in (([(1, a)], [(0, b)]), ([(0, b)], [(1, a), (1, b), (1, b)]), ([(1, a), (0, a)], [(1, b), (0, b), (0, a)])):
            m, h = make(name), []
            cov.trace()
            for k in range(case["n"]):
                y, s = head[k] if k < len(head) else per[k % len(per)]
                upd(m, y, s)
                h.append((y, s))
                cov.step((name, "long", k), (y, s))
                if k + 1 in (1000, 1001, 1024, 2048, 4097, 5001, 8193, 10001, 20001, case["n"]):
                    read(name, m, h, {"head": head, "period": per, "step": k}, cov)
    else:
        for per, head in itertools.product(primitive_words(pairs, 2), [None] + pairs):
            m, h = make(name), []
            cov.trace()
            for k in range(case["n"]):
                y, s = head if head and not k else per[k % len(per)]
                upd(m, y, s)
                h.append((y, s))
                if k % 40 == 0 or k in (49, 50, 51, 52, 63, 64, 65, 99, 100, 101):
                    read(name, m, h, {"head": head, "period": per, "step": k}, cov)
            read(name, m, h, {"head": head, "period": per, "steps": case["n"]}, cov)

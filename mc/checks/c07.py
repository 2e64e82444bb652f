"""C07: windows."""
import itertools

from mc.core import Violation
from mc.util import primitive_words

BOUNDS = {
    "quick": "sizes 1-6 and unlimited: all words of put(item)/read over 3 item kinds (two equal but distinct objects and a third) to depth 8; "
             "sizes 7-300 (numbers: to 12000) and unlimited: lassos of 3x the size (unlimited: 2000, numbers 30000 items)",
    "thorough": "as quick with depth 9 and lassos of 10x the size",
}
ASSUMPTIONS = []


def make(size):
    from pysad.utils.window import UnlimitedWindow, Window
    return UnlimitedWindow() if size is None else Window(size)


class Eq:
    """Equal to every other Eq: only identity tells two of them apart."""

    def __eq__(self, o):
        return isinstance(o, Eq)

    def __hash__(self):
        return 1

    def __lt__(self, o):
        return False


def items(kind):
    import numpy as np
    if kind == "num":
        return lambda i: [1.5, 1.5, -2][i]
    if kind == "arr":
        return lambda i: np.array([1.0, 2.0]) if i < 2 else np.array([0.0, 0.0])
    if kind == "obj":
        return lambda i: Eq()
    return lambda i: [None, [], (0, "x")][i]


def cases(tier):
    q = tier == "quick"
    for kind in ("num", "arr", "obj", "mix"):
        for size in [None, 1, 2, 3, 4, 5, 6]:
            for a in range(4):
                yield {"mode": "words", "size": size, "kind": kind, "depth": 8 if q else 9, "first": a}
        for size in [None, 7, 10, 16, 25, 50, 64, 100, 128, 255, 256, 257, 300] + ([1000, 1024, 5000, 12000] if kind == "num" else []):
            yield {"mode": "lasso", "size": size, "kind": kind, "n": ((30000 if q else 200000) if kind == "num" else 2000 if size is None else size * (3 if q else 10) + 3)}


def verify(w, put, size, trace, cov):
    got = w.get()
    want = put if size is None else put[-size:]
    cov.comp()
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        raise Violation("window of size %r holds %d items %r, expected the last %d put in" % (size, len(got), list(got)[:8], len(want)), trace)


def run(case, cov):
    size, mk = case["size"], items(case["kind"])
    if case["mode"] == "words":
        d = case["depth"]
        for word in itertools.product(range(4), repeat=d):  # 3 = read
            if word[0] != case["first"] or any(a == b == 3 for a, b in zip(word, word[1:])):
                continue
            w, put = make(size), []
            cov.trace()
            for k, o in enumerate(word):
                cov.step((size, case["kind"], word[max(0, k - (size or d)):k]), o)
                if o == 3:
                    verify(w, put, size, word[:k + 1], cov)
                else:
                    x = mk(o)
                    w.update(x)
                    put.append(x)
            verify(w, put, size, word, cov)
            cov.outcome(len(put))
            cov.sample({"size": size, "word": word})
    else:
        for per in list(primitive_words(range(3), 2))[:9 if (size or 0) < 10000 else 2]:
            for every in (1, 37, 10 ** 9):
                w, put = make(size), []
                cov.trace()
                for t in range(case["n"]):
                    cov.step((size, case["kind"], min(t, (size or 10 ** 9) + 1)), per[t % len(per)])
                    x = mk(per[t % len(per)])
                    w.update(x)
                    put.append(x)
                    if t % every == 0 and (every != 1 or t < 40 or t % (11 if case['n'] < 2000 else 499) == 0) and (every != 37 or case['n'] < 2000 or t % 370 == 0):
                        verify(w, put, size, {"period": per, "step": t}, cov)
                verify(w, put, size, {"period": per, "steps": case["n"]}, cov)

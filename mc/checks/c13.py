"""C13: windowed metric."""
import itertools

from mc.core import Violation
from mc.util import aperiodic, checkpoints, close, mean, num, primitive_words
from mc.checks import c12

BOUNDS = {
    "quick": "stub metric with keyword arguments and logged objects, and precision/recall; windows 1-5, both values of ignore_nonempty_last, all sequences of pairs "
             "to length 7 (4 pair values), read after every update, only at the end, at every subset of positions (length 5, 2 pair values); lassos for windows 7,10,32,50 over 210 updates; windows 1, 3, 300, 1030, 1500 over 3200 updates",
    "thorough": "as quick to length 8 and windows to 6",
}
ASSUMPTIONS = ["the underlying metric is defined on every window (no window on which it raises)"]


def stub():
    from pysad.core.base_metric import BaseMetric

    class Stub(BaseMetric):
        made = []

        def __init__(self, gain=1.0, shift=0.0):
            super().__init__()
            self.gain, self.shift, self.log = gain, shift, []
            Stub.made.append(self)

        def update(self, y_true, y_pred):
            self.log.append((y_true, y_pred))

        def get(self):
            return self.gain * code(self.log) + self.shift

    return Stub


def code(log):
    """An injective-enough number for a list of pairs (order and length sensitive)."""
    v = 0.0
    for y, s in log:
        v = v * 0.5 + (1 + 2 * y + 7 * s)
    return v + 1000.0 * len(log)


def ref(kind, h, w, ign, gain, shift):
    def one(x):
        return gain * code(x) + shift if kind == "stub" else c12.ref(kind, x)[1]
    full = [h[i:i + w] for i in range(0, len(h) - len(h) % w, w)]
    last = h[len(full) * w:]
    vals = [one(x) for x in full]
    if not vals:
        return one(last)
    if last and not ign:
        vals.append(one(last))
    return mean(vals)


def cases(tier):
    q = tier == "quick"
    for kind in ("stub", "PrecisionMetric", "RecallMetric"):
        for w in [1, 2, 3, 4, 5] + ([] if q else [6]):
            for ign in (True, False, None):
                yield {"kind": kind, "w": w, "ign": ign, "mode": "words", "len": (7 if q else 8) if kind == "stub" else 4,
                       "kw": {"gain": 2.0, "shift": -3.0} if w % 2 else ({"shift": 5.0} if w == 2 else {})}
                yield {"kind": kind, "w": w, "ign": ign, "mode": "gets", "len": 5 if kind == "stub" else 4, "kw": {"gain": 3.0}}
        for w in [7, 10, 32, 50]:
            for ign in (True, False):
                yield {"kind": kind, "w": w, "ign": ign, "mode": "lasso", "n": 210, "kw": {"gain": 0.5, "shift": 1.0}}
        for w in [1, 3, 300, 1030, 1500]:
            for ign in (True, False):
                yield {"kind": kind, "w": w, "ign": ign, "mode": "scale", "n": 3200 if w > 10 or kind == "stub" else 300, "kw": {"gain": 0.5, "shift": 1.0}}


def run(case, cov):
    import pysad.evaluation as e
    kind, w, ign = case["kind"], case["w"], case["ign"]
    kw = case["kw"] if kind == "stub" else {}
    gain, shift = kw.get("gain", 1.0), kw.get("shift", 0.0)

    def make():
        cls = stub() if kind == "stub" else getattr(e, kind)
        m = e.WindowedMetric(cls, w, **kw) if ign is None else e.WindowedMetric(cls, window_size=w, ignore_nonempty_last=ign, **kw)
        return m, cls

    eff = True if ign is None else ign

    def upd(m, p, trace):
        if m.update(p[0], p[1]) is not m:
            raise Violation("WindowedMetric.update does not return the windowed metric", trace)

    def read(m, h, trace):
        want = ref(kind, h, w, eff, gain, shift)
        got = num(m.get(), "windowed metric")
        cov.comp()
        cov.outcome(got)
        if not close(got, want, 1e-9 * (1 + abs(want))):
            raise Violation("windowed metric (window %d, ignore_nonempty_last=%s) is %r, expected %r after %d updates" % (w, ign, got, want, len(h)), trace)

    def objects(cls, h, trace):
        """every window's pairs in an own object"""
        if kind != "stub":
            return
        logs = [tuple(o.log) for o in cls.made if o.log]
        want = [tuple(h[i:i + w]) for i in range(0, len(h), w)]
        cov.comp()
        if logs != want:
            raise Violation("metric objects saw %r, expected %r" % (logs, want), trace)
        if len(set(map(id, cls.made))) != len(cls.made) or any((o.gain, o.shift) != (gain, shift) for o in cls.made):
            raise Violation("a window's metric object was not built with the configured arguments", trace)

    pairs = [(0, 0), (0, 1), (1, 0), (1, 1)]
    if case["mode"] == "scale":
        m, cls = make()
        cov.trace()
        h, cp = [], checkpoints(case["n"], 499) | {w - 1, w, w + 1, 2 * w - 1, 2 * w}
        for k in range(case["n"]):
            p = pairs[int(aperiodic(k) * 8) % 4]
            cov.step((kind, w, ign, "scale", k), p)
            upd(m, p, {"step": k})
            h.append(p)
            if k in cp:
                read(m, list(h), {"stream": "aperiodic", "updates": k + 1})
        objects(cls, h, {"stream": "aperiodic", "updates": case["n"]})
    elif case["mode"] == "words":
        for word in itertools.product(pairs, repeat=case["len"]):
            for every in (True, False):
                m, cls = make()
                cov.trace()
                for k, p in enumerate(word):
                    cov.step((kind, w, ign, k // w, word[k - k % w:k]), p)
                    upd(m, p, word[:k + 1])
                    if every:
                        read(m, list(word[:k + 1]), word[:k + 1])
                if not every:
                    read(m, list(word), word)
                objects(cls, list(word), word)
        cov.sample({"metric": kind, "window": w, "pairs": word})
    elif case["mode"] == "gets":
        n = case["len"]
        for word in itertools.product([(0, 1), (1, 1)], repeat=n):
            for mask in range(1 << n):
                m, cls = make()
                cov.trace()
                for k, p in enumerate(word):
                    upd(m, p, [word[:k + 1], mask])
                    if mask >> k & 1:
                        read(m, list(word[:k + 1]), [word[:k + 1], mask])
                        read(m, list(word[:k + 1]), [word[:k + 1], mask, "again"])
                read(m, list(word), [word, mask])
                objects(cls, list(word), [word, mask])
    else:
        for per in primitive_words(pairs, 2 if kind != "stub" else 3):
            m, cls = make()
            cov.trace()
            h = []
            for k in range(case["n"]):
                p = per[k % len(per)]
                cov.step((kind, w, ign, k, per), p)
                upd(m, p, {"period": per, "step": k})
                h.append(p)
                if k % 9 == 0 or (k + 1) % w in (0, 1):
                    read(m, h, {"period": per, "step": k})
            objects(cls, h, {"period": per})

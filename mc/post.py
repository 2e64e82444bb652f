"""Explorer for score postprocessors: fit F(v), transform T(v), fit-and-transform P(v)."""
from mc.core import Violation
from mc.util import aperiodic, cast, checkpoints, close, num, primitive_words


class Driver:
    """ref(cfg, retained list, score) -> (value, tol) or None when undefined."""

    def __init__(self, cov, cfg, make, ref, window):
        self.cov, self.cfg, self.make, self.ref, self.window = cov, cfg, make, ref, window

    def kept(self, hist):
        return hist if self.window is None else hist[-self.window:]

    def compare(self, got, hist, v, trace):
        kept = self.kept(hist)
        r = self.ref(self.cfg, kept, v, hist)
        if r is None:
            return
        want, tol = r
        g = num(got, "transform result")
        self.cov.comp()
        self.cov.outcome((str(self.cfg), g))
        if not close(g, want, tol):
            raise Violation("%s: transform of %r is %r, expected %r for retained scores %r"
                            % (self.cfg, v, g, want, kept[-20:]), trace)

    def apply(self, p, op, v, hist, kind, trace):
        x = cast(v, kind)
        v = float(v) if kind != "np32" else float(x)
        self.cov.step((str(self.cfg), tuple(self.kept(hist)[-8:]), min(len(hist), 2 * (self.window or 8))), (op, v))
        if op == "F":
            if p.fit_partial(x) is not p:
                raise Violation("fit_partial does not return the object", trace)
            hist.append(v)
        elif op == "P":
            hist.append(v)
            self.compare(p.fit_transform_partial(x), hist, v, trace)
        elif op == "T" and hist:
            self.compare(p.transform_partial(x), hist, v, trace)
            if self.cfg.get("noarg"):
                self.compare(p.transform_partial(), hist, v, trace)

    def words(self, prefix, ops, depth, probes, kind):
        """All words of ops; at the end every probe is transformed (twice)."""
        import itertools
        for rest in itertools.product(ops, repeat=depth - len(prefix)):
            w = list(prefix) + list(rest)
            p, hist = self.make(self.cfg), []
            self.cov.trace()
            for k, (op, v) in enumerate(w):
                self.apply(p, op, v, hist, kind, w[:k + 1])
            if hist:
                for v in list(probes) + [probes[0]]:
                    self.apply(p, "T", v, hist, kind, w + [("T", v)])
            self.cov.sample({"config": self.cfg, "word": w})

    def lasso(self, vals, n, every, probes, kind, plen=3):
        for per in primitive_words(vals, plen):
            for style in ("P", "F", "mix"):
                p, hist = self.make(self.cfg), []
                self.cov.trace()
                for t in range(n):
                    v = per[t % len(per)]
                    op = style if style != "mix" else ("F" if t % 3 else "P")
                    tr = {"period": per, "style": style, "step": t}
                    self.apply(p, op, v, hist, kind, tr)
                    if (t + 1) % every == 0 or t == n - 1:
                        for q in probes:
                            self.apply(p, "T", q, hist, kind, tr)

    def step_lasso(self, a, b, n, switch, every, probes, kind):
        """a repeated, then b repeated: the point of forgetting is visible at every step."""
        p, hist = self.make(self.cfg), []
        self.cov.trace()
        for t in range(n):
            v = a if t < switch else b
            self.apply(p, "F", v, hist, kind, {"switch": switch, "step": t})
            if t % every == 0 or abs(t - switch) <= 2 or (self.window and abs(t - switch - self.window) <= 2):
                for q in probes:
                    self.apply(p, "T", q, hist, kind, {"a": a, "b": b, "switch": switch, "step": t})

    def scale(self, n, probes, kind, mul=1.0):
        """thousands of distinct scores, compared at checkpoints"""
        p, hist = self.make(self.cfg), []
        self.cov.trace()
        w = self.window or n
        cp = checkpoints(n) | {w - 1, w, w + 1, 2 * w, 2 * w + 1}
        for t in range(n):
            v = aperiodic(t) * mul
            self.cov.step((str(self.cfg), "scale", t), v)
            p.fit_partial(v)
            hist.append(v)
            if t in cp:
                for q in [a * mul for a in probes]:
                    self.apply(p, "T", q, hist, kind, {"stream": "aperiodic(i)", "factor": mul, "steps": t + 1, "transform": q})

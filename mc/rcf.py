"""All random cut trees that the rrcf library can build for a stream: a nondeterministic automaton.

Its states are rrcf trees (the real library) driven through every order-relevant random cut; a cut matters
only through the cell between adjacent coordinates it falls in, so one representative per cell is taken.
The pysad forest is compared with the set of displacement values reachable in it.
"""
import copy


class _Rng:
    def uniform(self, lo, hi):
        if hi != 0:
            raise AssertionError("unscripted draw")
        return 0.0


_K = {}


def _tree_class():
    if "cls" not in _K:
        from rrcf import rrcf

        class T(rrcf.RCTree):
            script = ()
            widths = ()
            grids = None

            def _insert_point_cut(self, point, bbox):
                if bbox.shape[0] < 2:
                    return super()._insert_point_cut(point, bbox)   # the library draws from an empty range here
                opts = []
                for j in range(len(point)):
                    lo, hi = min(bbox[0, j], point[j]), max(bbox[-1, j], point[j])
                    g = [v for v in self.grids[j] if lo <= v <= hi]
                    opts += [(j, (a + b) / 2) for a, b in zip(g, g[1:])]
                if not opts:
                    return super()._insert_point_cut(point, bbox)
                if len(self.widths) == len(self.script):
                    self.script.append(0)
                k = self.script[len(self.widths)]
                self.widths.append(len(opts))
                return opts[k]
        _K["cls"] = T
        _K["leaf"] = rrcf.Leaf
    return _K["cls"]


class Automaton:
    def __init__(self, points, T):
        self.T = T
        self.points = list(points)
        d = len(points[0])
        self.grids = [sorted({p[j] for p in points}) for j in range(d)]
        self.store = {None: None}
        self.memo, self.vmemo, self.smemo = {}, {}, {}

    def _key(self, tree, now):
        ages = {}
        for i, lf in tree.leaves.items():
            ages.setdefault(id(lf), []).append(now - i)
        leaf = _K["leaf"]

        def rec(n):
            if isinstance(n, leaf):
                return (tuple(float(v) for v in n.x), int(n.n), tuple(sorted(ages.get(id(n), ()))))
            return (int(n.q), float(n.p), int(n.n), tuple(map(float, n.b.ravel())), rec(n.l), rec(n.r))
        return rec(tree.root) if tree.root is not None else None

    def _shift(self, tree):
        """Re-indexes the leaves so that the newest has index 0, the previous -1, ..."""
        tree.leaves = {i - 1: lf for i, lf in tree.leaves.items()}

    def _insertions(self, key, p, index):
        """Every tree that inserting p under index can give."""
        import numpy as np
        script = []
        while True:
            t = copy.deepcopy(self.store[key]) if key is not None else self._new()
            t.script, t.widths = script, []
            yield t, (lambda: t.insert_point(np.array(p), index=index))
            script, w = t.script, t.widths
            while script and script[-1] + 1 >= w[len(script) - 1]:
                script = script[:-1]
            if not script:
                return
            script = script[:-1] + [script[-1] + 1]

    def _new(self):
        t = _tree_class()()
        t.rng = _Rng()
        t.grids = self.grids
        return t

    def fit(self, key, p):
        m = self.memo.get((key, p))
        if m is None:
            m = set()
            for t, ins in self._insertions(key, p, 0):
                self._shift(t)
                if len(t.leaves) >= self.T:
                    t.forget_point(-self.T)
                ins()
                k = self._key(t, 0)
                if k not in self.store:
                    self.store[k] = t
                m.add(k)
            self.memo[(key, p)] = m
        return m

    def states(self, word):
        """States reachable by fitting the word (tuple of points)."""
        if not word:
            return frozenset([None])
        s = self.smemo.get(word)
        if s is None:
            s = self.step(self.states(word[:-1]), word[-1])
            self.smemo[word] = s
        return s

    def step(self, states, p):
        out = set()
        for k in states:
            out |= self.fit(k, p)
        return frozenset(out)

    def values(self, states, x):
        """Displacements of x possible in the given states."""
        import numpy as np
        r = self.vmemo.get((states, x))
        if r is None:
            r = set()
            for k in states:
                tree = self.store[k]
                dup = tree.find_duplicate(np.array(x))
                if dup is not None:
                    r.add(round(float(tree.codisp(dup)), 10))
                else:
                    for t, ins in self._insertions(k, x, "probe"):
                        ins()
                        r.add(round(float(t.codisp("probe")), 10))
            self.vmemo[(states, x)] = r
        return r

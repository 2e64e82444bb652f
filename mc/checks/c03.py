"""C03: streamers and the dataset loader deliver every row exactly once with its own label."""
import itertools
import os
import shutil
import tempfile
from collections import Counter

from mc.core import Violation, reset_rng
from mc.util import same

BOUNDS = {
    "quick": "ArrayStreamer, PandasStreamer and Data iterators: all n in 0..7 and 150 (in one configuration every n to 519, and 13 sizes to 65537; data files to 70000 rows), labels none/array/list/Series/DataFrame with distinct, binary, fractional/negative and duplicate, not-a-number and text rows, shuffled and not, 60 seeds; "
             "all permutations of n <= 4 reached over seeds 0..1199; for 12-5000 rows every (row, position) combination (tenths beyond 40 rows) and both orders of row pairs; all wrong label lengths 0..n+2; all interleavings of two iterations of one streamer over 3 rows each",
    "thorough": "as quick with n up to 9 and 1000, 600 seeds, all permutations of n = 5 over seeds 0..5999, interleavings over 4 rows",
}
ASSUMPTIONS = ["reachability of a permutation is decided over the enumerated seeds of the global generator"]
TECHNIQUE = "stateless bounded exhaustive exploration of streamer iterations, permutations and iterator interleavings"


def arrays(n, kind):
    """Feature rows (row i identifies itself unless kind == 'dup') and labels."""
    import numpy as np
    if kind == "ids":
        return np.array([[10.0 * i, 10.0 * i + 1] for i in range(n)]).reshape(n, 2), np.array([i * 7 + 1 for i in range(n)])
    if kind == "int":
        return np.array([[10 * i, 10 * i + 1, 3] for i in range(n)]).reshape(n, 3), np.array([float(i) for i in range(n)])
    if kind == "bin":
        return np.array([[10.0 * i] for i in range(n)]).reshape(n, 1), np.array([(i * i // 2) % 2 for i in range(n)])
    if kind == "dup":
        return np.array([[float(i // 2), 1.0] for i in range(n)]).reshape(n, 2), np.array([i % 2 for i in range(n)])
    if kind == "rep":
        return np.array([[float(i // 2 % 2), 1.0] for i in range(n)]).reshape(n, 2), np.array([i // 4 % 2 for i in range(n)])
    if kind == "frac":
        lab = [0.5, -3.0, 1.75, 0.25, -0.125, 1e9, 1.0]
        return np.array([[-1.0 / (i + 1), 1e-3 * i, 1e12 + i] for i in range(n)]).reshape(n, 3), np.array([lab[i % 7] for i in range(n)])
    if kind == "nan":
        r = [[float("nan"), float("nan")], [float("inf"), 2.0], [3.0, float("nan")], [-0.5, -float("inf")]]
        return np.array([r[i % 4] for i in range(n)]).reshape(n, 2), np.array([[0.0, float("nan"), 1.0][i % 3] for i in range(n)])
    if kind == "text":      # rows and labels that are not numbers
        X = np.empty((n, 3), dtype=object)
        for i in range(n):
            X[i] = ["r%d" % i, i, 0.5 * i]
        return X, np.array(["l%d" % i for i in range(n)], dtype=object)
    if kind == "1d":
        return np.array([float(i) * 3 for i in range(n)]), np.array([i for i in range(n)])
    raise ValueError(kind)


def key(x):
    import numpy as np
    try:
        a = np.asarray(x, dtype=float)
    except ValueError:
        return tuple(str(v) for v in np.asarray(x, dtype=object).ravel().tolist())
    return tuple("nan" if v != v else v for v in a.ravel().tolist())


def check_rows(got, X, y, shuffled, trace):
    """got: list of delivered items."""
    n = len(X)
    if len(got) != n:
        raise Violation("%d rows delivered, the data has %d" % (len(got), n), trace)
    want = [(key(X[i]), None if y is None else key(y[i])) for i in range(n)]
    have = []
    for g in got:
        if y is None:
            have.append((key(g), None))
        else:
            if not isinstance(g, tuple) or len(g) != 2:
                raise Violation("with labels a (row, label) pair is expected, got %r" % (g,), trace)
            have.append((key(g[0]), key(g[1])))
    if not shuffled and have != want:
        raise Violation("delivered %r, expected %r" % (have[:8], want[:8]), trace)
    if shuffled and Counter(have) != Counter(want):
        raise Violation("delivered %r, not a permutation of the rows with their labels %r" % (have[:8], want[:8]), trace)
    return have


def cases(tier):
    q = tier == "quick"
    ns = list(range(0, 8)) + [150] if q else list(range(0, 10)) + [150, 1000]
    for src in ("array", "pandas"):
        for sh in (False, True):
            for n in ns:
                yield {"mode": "rows", "src": src, "shuffle": sh, "n": n, "seeds": (60 if n < 100 else 10) if q else (600 if n < 100 else 50)}
            yield {"mode": "bad", "src": src, "shuffle": sh, "n": 5}
            yield {"mode": "weave", "src": src, "shuffle": sh, "n": 3 if q else 4}
    for n in (1, 2, 3, 4) + (() if q else (5,)):
        for src in ("array", "pandas", "txt"):
            for lab in (False, True):
                if src == "txt" and not lab:
                    continue
                yield {"mode": "perm", "src": src, "n": n, "labels": lab, "seeds": 1200 if n < 5 else 6000}
    for src in ("array", "pandas"):
        for n in (12, 40, 300, 5000):
            yield {"mode": "spread", "src": src, "n": n, "labels": n in (12, 5000), "seeds": {12: 600, 40: 1500, 300: 400, 5000: 60}[n]}
    for src in ("array", "pandas"):
        for sh in (False, True):
            yield {"mode": "sizes", "src": src, "shuffle": sh, "ns": list(range(8, 520 if q else 1300)) + [1000, 1023, 1024, 1025, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 65536, 65537]}
    for fmt in ("txt", "mat", "mat1n"):
        for n in (1, 2, 3, 5, 40, 600, 6000) + ((70000,) if fmt != "mat1n" else ()):
            yield {"mode": "data", "fmt": fmt, "n": n, "seeds": (30 if n < 100 else 4) if q else 300 if n < 100 else 30}


def frames(X, y, variant):
    import numpy as np
    import pandas as pd
    n = len(X)
    idx = {"plain": None, "rev": list(range(n))[::-1], "str": ["r%d" % (i * 3 % max(n, 1)) for i in range(n)], "same": [0] * n}[variant[0]]
    Xd = pd.DataFrame(X if np.ndim(X) == 2 else X.reshape(-1, 1), index=idx)
    yidx = idx if variant[1] == "aligned" else None
    if y is None:
        return Xd, None
    return Xd, (pd.Series(y, index=yidx) if variant[2] == "series" else pd.DataFrame({"y": y}, index=yidx))


def variants(src):
    if src == "array":
        return ["array", "list", "lists"]
    return [("plain", "aligned", "series"), ("rev", "plain", "series"), ("str", "aligned", "frame"), ("same", "plain", "frame"), ("rev", "aligned", "series")]


def inputs(src, X, y, v):
    if src == "array":
        if v == "list" and y is not None:
            y = list(y)
        if v == "lists":
            return [r for r in X], y
        return X, y
    return frames(X, y, v)


def mk(src, shuffle):
    from pysad.utils import ArrayStreamer, PandasStreamer
    return (ArrayStreamer if src == "array" else PandasStreamer)(shuffle=shuffle)


def run(case, cov):
    getattr(__import__("mc.checks.c03", fromlist=["x"]), "_" + case["mode"])(case, cov)


def _spread(case, cov):
    """Longer streams: every row can come at every position (for more than 40 rows: every tenth of the rows in every tenth of the positions), and every
    two rows (neighbours and rows far apart, for more than 40 rows) in either order."""
    n, src = case["n"], case["src"]
    X, y = arrays(n, "ids")
    s = mk(src, True)
    A, B = inputs(src, X, y if case["labels"] else None, variants(src)[0])
    m = n if n <= 40 else 10
    seen, before, after, orders = set(), set(), set(), set()
    pairs = list(itertools.combinations(range(n), 2)) if n <= 40 else [(i, i + 1) for i in range(n - 1)] + [(i, n - 1 - i) for i in range(n // 2)]
    for seed in range(case["seeds"]):
        reset_rng(seed)
        tr = {"streamer": src, "n": n, "labels": case["labels"], "seed": seed}
        cov.trace()
        cov.step((src, n, case["labels"]), seed)
        have = check_rows(list(s.iter(A, B)), X, y if case["labels"] else None, True, tr)
        pos = {int(r[0] // 10): j for j, (r, _) in enumerate(have)}
        seen.update((i * m // n, pos[i] * m // n) for i in range(n))
        inv = sorted(range(n), key=pos.get) if n <= 40 else []
        for t in range(0, len(inv) - 2):      # the order of the rows at three neighbouring positions
            orders.add((t, tuple(sorted(range(3), key=lambda j: inv[t + j]))))
        for p in pairs:
            (before if pos[p[0]] < pos[p[1]] else after).add(p)
        cov.comp()
    if len(seen) < m * m:
        raise Violation("shuffled streams of %d rows: in %d seeds only %d of %d (row, position) combinations occur" % (n, case["seeds"], len(seen), m * m), tr)
    if n <= 40 and len(orders) < 6 * (n - 2):
        raise Violation("shuffled streams of %d rows: in %d seeds the rows at three neighbouring positions never come in some of the 6 orders" % (n, case["seeds"]), tr)
    k = len(set(pairs) - before) + len(set(pairs) - after)
    if k:
        raise Violation("shuffled streams of %d rows: in %d seeds %d pairs of rows keep their order" % (n, case["seeds"], k), tr)
    cov.sample(tr)


def _rows(case, cov):
    n, src, sh = case["n"], case["src"], case["shuffle"]
    for kind in ("ids", "int", "bin", "dup", "rep", "frac", "nan", "text") + (("1d",) if src == "array" else ()):
        X, y = arrays(n, kind)
        for v in variants(src):
            for lab in (False, True):
                s = mk(src, sh)
                A, B = inputs(src, X, y if lab else None, v)
                for seed in range(case["seeds"] if sh else 2):
                    reset_rng(seed)
                    tr = {"streamer": src, "shuffle": sh, "n": n, "data": kind, "variant": v, "labels": lab, "seed": seed}
                    cov.trace()
                    cov.step((src, sh, n, kind, str(v), lab), seed)
                    got = list(s.iter(A, B)) if lab else (list(s.iter(A)) if seed % 2 else list(s.iter(A, None)))
                    have = check_rows(got, X, y if lab else None, sh, tr)
                    cov.comp()
                    cov.outcome(tuple(have[:10]))
    cov.sample(tr)


def _sizes(case, cov):
    """Every number of rows up to a bound, and larger ones around powers of two and ten."""
    src, sh = case["src"], case["shuffle"]
    for n in case["ns"]:
        X, y = arrays(n, "ids")
        s = mk(src, sh)
        for lab in (False, True) if n < 300 else (True,):
            A, B = inputs(src, X, y if lab else None, variants(src)[0])
            reset_rng(n)
            tr = {"streamer": src, "shuffle": sh, "n": n, "labels": lab, "seed": n}
            cov.trace()
            cov.step((src, sh, lab), n)
            check_rows(list(s.iter(A, B)), X, y if lab else None, sh, tr)
            cov.comp()
    cov.sample(tr)


def _bad(case, cov):
    """Wrong label lengths are rejected before the first row, and do not disturb the streamer."""
    src, sh = case["src"], case["shuffle"]
    for n in range(0, case["n"] + 1):
        for m in range(0, n + 3):
            if m == n:
                continue
            X, _ = arrays(n, "ids")
            y = arrays(m, "ids")[1]
            for v in variants(src):
                s = mk(src, sh)
                A, _n = inputs(src, X, None, v)
                _x, B = inputs(src, arrays(m, "ids")[0], y, v)
                tr = {"streamer": src, "shuffle": sh, "rows": n, "labels": m, "variant": v}
                cov.trace()
                cov.step((src, sh, n, str(v)), ("bad", m))
                got = []
                try:
                    for x in s.iter(A, B):
                        got.append(x)
                    raise Violation("%d labels for %d rows were accepted" % (m, n), tr)
                except AssertionError:
                    pass
                if got:
                    raise Violation("rows were delivered before the label length was rejected: %r" % (got,), tr)
                cov.comp()
    cov.sample(tr)


def _weave(case, cov):
    """Two iterations of the same streamer object, all interleavings."""
    src, sh, n = case["src"], case["shuffle"], case["n"]
    X, y = arrays(n, "ids")
    X2, y2 = arrays(n, "ids")
    X2, y2 = X2 + 5, y2 + 3
    for la, lb in itertools.product((False, True), repeat=2):
        for pos in itertools.combinations(range(2 * n + 2), n + 1):   # steps of the first iterator incl. its end
            for seed in range(3):
                s = mk(src, sh)
                v = variants(src)[0]
                reset_rng(seed)
                its = [iter(s.iter(*[z for z in inputs(src, X, y if la else None, v) if z is not None])),
                       iter(s.iter(*[z for z in inputs(src, X2, y2 if lb else None, v) if z is not None]))]
                got = [[], []]
                cov.trace()
                for t in range(2 * n + 2):
                    w = 0 if t in pos else 1
                    cov.step((src, sh, la, lb, len(got[0]), len(got[1])), w)
                    try:
                        got[w].append(next(its[w]))
                    except StopIteration:
                        pass
                tr = {"streamer": src, "shuffle": sh, "first_iterator_steps": pos, "labels": (la, lb), "seed": seed}
                check_rows(got[0], X, y if la else None, sh, tr)
                check_rows(got[1], X2, y2 if lb else None, sh, tr)
                cov.comp(2)
    cov.sample(tr)


def _perm(case, cov):
    src, n, lab = case["src"], case["n"], case["labels"]
    X, y = arrays(n, "ids")
    want = set(itertools.permutations(range(n)))
    index = {key(X[i]): i for i in range(n)}
    seen = set()
    d = None
    if src == "txt":
        d = tempfile.mkdtemp(prefix="mc03")
    try:
        if src == "txt":
            from pysad.utils import Data
            write_txt(os.path.join(d, "a.txt"), X, y)
            data = Data(d)
        else:
            s = mk(src, True)
            A, B = inputs(src, X, y if lab else None, variants(src)[0])
        for seed in range(case["seeds"]):
            if src == "txt":
                got = list(data.get_iterator("a.txt", seed=seed))
            else:
                reset_rng(seed)
                got = list(s.iter(A, B)) if lab else list(s.iter(A))
            tr = {"source": src, "n": n, "labels": lab, "seed": seed}
            have = check_rows(got, X, y if lab else None, True, tr)
            p = tuple(index[h[0]] for h in have)
            seen.add(p)
            cov.trace()
            cov.comp()
            cov.step((src, n, lab), p)
        if seen != want:
            raise Violation("permutations never produced over %d seeds: %r" % (case["seeds"], sorted(want - seen)[:6]), {"n": n, "source": src})
        cov.outcome((src, n, len(seen)))
        cov.sample(tr)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)


def write_txt(path, X, y):
    with open(path, "w") as f:
        for r, l in zip(X, y):
            f.write(",".join(repr(float(v)) for v in list(r) + [l]) + "\n")


def _data(case, cov):
    import numpy as np
    from pysad.utils import Data
    d = tempfile.mkdtemp(prefix="mc03")
    try:
        n = case["n"]
        for kind in ("ids", "int", "bin", "dup", "rep", "frac") if n < 1000 else ("frac",):
            X, y = arrays(n, kind)
            if case["fmt"] == "txt":
                f = "d_%s.txt" % kind
                write_txt(os.path.join(d, f), X, y)
            else:
                from scipy.io import savemat
                f = "d_%s.mat" % kind
                savemat(os.path.join(d, f), {"X": X, "y": y.reshape(-1, 1) if case["fmt"] == "mat" else y.reshape(1, -1)})
            tr = {"file": f, "n": n, "format": case["fmt"]}
            data = Data(d)
            gx, gy = data.get_data(f)
            if not same(np.asarray(gx, dtype=float), np.asarray(X, dtype=float)) or not same(np.asarray(gy, dtype=float), np.asarray(y, dtype=float)):
                raise Violation("loaded %r %r, stored %r %r" % (gx, gy, X, y), tr)
            cov.step((f, n), "get_data")
            cov.comp()
            for kw, sh in (({"shuffle": False}, False), ({"shuffle": False, "seed": 3}, False), ({}, True), ({"shuffle": True}, True)):
                for seed in range(1 if n > 1000 else case["seeds"] if sh else 2):
                    reset_rng(seed)
                    k = dict(kw)
                    if sh and seed % 2:
                        k["seed"] = seed
                    tr = {"file": f, "n": n, "format": case["fmt"], "args": k}
                    have = check_rows(list(data.get_iterator(f, **k)), X, y, sh, tr)
                    cov.trace()
                    cov.comp()
                    cov.step((f, n, case["fmt"], str(kw)), seed)
                    cov.outcome(tuple(have[:10]))
        cov.sample(tr)
    finally:
        shutil.rmtree(d, ignore_errors=True)

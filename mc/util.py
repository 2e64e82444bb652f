"""Small helpers shared by the checks: comparisons, word enumeration, reference statistics."""
import itertools
import math

from mc.core import Violation


def num(x, what="result"):
    """The one real number held by x (float, NumPy scalar, 0-d or one-element array)."""
    import numpy as np
    a = np.asarray(x)
    if a.size != 1:
        raise Violation("%s is not a single number: %r" % (what, x))
    try:
        return float(a.reshape(-1)[0])
    except (TypeError, ValueError):
        raise Violation("%s is not a number: %r" % (what, x))


def close(a, b, tol):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol


def expect(got, want, tol, what, trace):
    g = num(got, what)
    if not close(g, want, tol):
        raise Violation("%s: got %r, expected %r (tolerance %g)" % (what, g, want, tol), trace)
    return g


def same(a, b):
    """Exact equality of results (NaN equal to NaN, arrays element-wise, shape included)."""
    import numpy as np
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (isinstance(a, str) and a == b)
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == object or b.dtype == object:
        return a.shape == b.shape and all(same(x, y) for x, y in zip(a.ravel(), b.ravel())) \
            if a.ndim else bool(a == b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def words(alphabet, n):
    return itertools.product(alphabet, repeat=n)


def words_upto(alphabet, n, lo=0):
    for k in range(lo, n + 1):
        yield from itertools.product(alphabet, repeat=k)


def primitive_words(alphabet, maxlen):
    """All primitive words (no proper power) of length 1..maxlen: the periods of the lassos."""
    for k in range(1, maxlen + 1):
        for w in itertools.product(alphabet, repeat=k):
            if any(k % d == 0 and w == w[:d] * (k // d) for d in range(1, k)):
                continue
            yield w


def prefixes(alphabet, k):
    return [list(p) for p in itertools.product(alphabet, repeat=k)]


def mean(xs):
    return math.fsum(xs) / len(xs)


def pvar(xs):
    m = mean(xs)
    return math.fsum((x - m) ** 2 for x in xs) / len(xs)


def median(xs):
    s = sorted(xs)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2] + s[n // 2 - 1]) / 2


def cast(v, kind):
    """The value v as one of the numeric types a caller may use."""
    import numpy as np
    if kind == "py":
        return v
    if kind == "float":
        return float(v)
    if kind == "np64":
        return np.float64(v)
    if kind == "np32":
        return np.float32(v)
    if kind == "int64":
        return np.int64(v)
    if kind == "arr1":
        return np.array([float(v)])
    if kind == "arr0":
        return np.array(float(v))
    raise ValueError(kind)


def aperiodic(i, spread=1009):
    """A fixed dyadic stream without a short period, for runs at large sizes."""
    return ((i * i * 31 + i * 17 + i // spread * 5) % spread - spread // 2) / 8.0


def checkpoints(n, step=997):
    """Positions at which long runs are compared: every `step`-th and around powers of two and round numbers."""
    c = set(range(0, n, step)) | {0, 1, 2, n - 2, n - 1}
    for b in [2 ** k for k in range(5, 20)] + [50, 100, 500, 1000, 2000, 5000, 10000]:
        c |= {b - 2, b - 1, b, b + 1}
    return {x for x in c if 0 <= x < n}

"""C05: statistic meters against the exact statistic of the present multiset."""
import math

from mc.core import Violation
from mc.util import aperiodic, checkpoints, cast, close, mean, median, num, primitive_words, pvar

BOUNDS = {
    "quick": "8 meters and 4 absolute-value wrappers x 9 value alphabets (2-3 values: small integers, "
             "negatives, decimals, 1e6-scale, tiny, float32, NumPy scalars, one-element arrays); all words of "
             "update/remove-any-present-value/get up to depth 6 (7 for two-value alphabets); fill-and-drain lassos: all periods "
             "up to 3 values, filled to 40 and drained first-in-first-out, last-in-first-out, middle-out, and slid for 80 steps; one run of 6000 distinct values filled and drained in three orders; fills of 3-200 values from 6 streams with 1 to n-1 removals in 6 orders and no read before the end",
    "thorough": "as quick with depth 7 (8 for two-value alphabets) and lassos of 300 values",
}
ASSUMPTIONS = ["get is not called on an empty average, variance or median meter (undefined)",
               "up to rounding: tolerance 1e-12 x scale^2 x number of operations"]

ALPH = {
    "int": ([1, 2, 3], "py"), "signed": ([-1, 0, 2], "py"), "neg": ([-3, -1], "float"),
    "dec": ([0.1, 0.2, 0.7], "float"), "big": ([1e6, -2.5, 3e-3], "float"), "tiny": ([1e-7, 3e-7], "float"),
    "f32": ([0.5, -1.5], "np32"), "npi": ([4, -7], "int64"), "arr": ([0.1, -0.3], "arr1"), "a0": ([1.5, 2.5], "np64"),
}
METERS = ["AverageMeter", "CountMeter", "MaxMeter", "MedianMeter", "MinMeter", "SumMeter",
          "SumSquaresMeter", "VarianceMeter"]
WRAPPED = ["AverageMeter", "SumMeter", "MinMeter", "MaxMeter"]
NEEDS = {"AverageMeter", "VarianceMeter", "MedianMeter"}


def make(name):
    import pysad.statistics as s
    if name.startswith("Abs:"):
        return s.AbsStatistic(getattr(s, name[4:]))
    return getattr(s, name)()


def ref(name, xs):
    a = name.startswith("Abs:")
    n = name[4:] if a else name
    if n == "AverageMeter":
        r = mean(xs)
    elif n == "CountMeter":
        r = len(xs)
    elif n == "MaxMeter":
        r = max(xs) if xs else -math.inf
    elif n == "MinMeter":
        r = min(xs) if xs else math.inf
    elif n == "MedianMeter":
        r = median(xs)
    elif n == "SumMeter":
        r = math.fsum(xs)
    elif n == "SumSquaresMeter":
        r = math.fsum(x * x for x in xs)
    else:
        r = pvar(xs)
    return abs(r) if a else r


def needs(name):
    return name.split(":")[-1] in NEEDS


def cases(tier):
    names = METERS + ["Abs:" + w for w in WRAPPED]
    for name in names:
        for al in ALPH:
            yield {"kind": "words", "meter": name, "alpha": al, "depth": (6 if tier == "quick" else 7) +
                   (1 if len(ALPH[al][0]) == 2 else 0)}
            yield {"kind": "lasso", "meter": name, "alpha": al, "n": 40 if tier == "quick" else 300}


    for name in names:
        for order in ("fifo", "lifo", "mid"):
            yield {"kind": "scale", "meter": name, "order": order, "n": 6000 if tier == "quick" else 20000}


    for name in names:
        for mul in (2.0 ** -40, 2.0 ** 40):
            yield {"kind": "blind", "meter": name, "mul": mul, "sizes": [3, 12, 33]}
        yield {"kind": "blind", "meter": name, "sizes": [3, 5, 8, 12, 13, 20, 33, 64, 100, 200] + ([] if tier == "quick" else [500, 1000])}


STREAMS = {"aperiodic": lambda i, n: aperiodic(i), "up": lambda i, n: i * 0.5 - 3, "down": lambda i, n: 40 - i * 0.5, "zigzag": lambda i, n: i * (-1) ** i * 0.25,
           "groups": lambda i, n: float((i * 5) % 7), "saw": lambda i, n: (i * 37) % n - n / 2}


def _blind(case, cov):
    """Many updates and removals without a single get, then one get: nothing may depend on reads in between."""
    name = case["meter"]
    for n in case["sizes"]:
        for sname, f in STREAMS.items():
            vals = [f(i, n) * case.get("mul", 1.0) for i in range(n)]
            scale = max(abs(v) for v in vals) + case.get("mul", 1.0)
            for order in ("fifo", "lifo", "mid", "stride", "large", "small"):
                for r in sorted({1, 2, 3, n // 2, n - 2, n - 1}):
                    m, xs = make(name), []
                    cov.trace()
                    for v in vals:
                        m.update(v)
                        xs.append(v)
                    for k in range(r):
                        j = {"fifo": 0, "lifo": len(xs) - 1, "mid": len(xs) // 2, "stride": (k * 7 + 3) % len(xs)}.get(order)
                        if j is None:
                            j = xs.index(max(xs) if order == "large" else min(xs))
                        m.remove(xs.pop(j))
                    tr = {"stream": sname, "updates": n, "removal_order": order, "removals": r}
                    cov.step((name, n, sname), (order, r))
                    _check(name, m, xs, scale, n + r, tr, cov)
                    m.update(scale * 2)
                    m.update(-scale)
                    xs += [scale * 2, -scale]
                    _check(name, m, xs, 2 * scale, n + r, tr, cov)
                    m.remove(scale * 2)
                    xs.remove(scale * 2)
                    _check(name, m, xs, 2 * scale, n + r, tr, cov)
    cov.sample(tr)


def _scale(case, cov):
    """Thousands of distinct values in, then out again; compared at checkpoints."""
    name, n = case["meter"], case["n"]
    m, xs = make(name), []
    cov.trace()
    cp = checkpoints(n)
    for i in range(n):
        cov.step((name, "scale", len(xs)), "U")
        xs.append(aperiodic(i))
        m.update(xs[-1])
        if i in cp:
            _check(name, m, xs, 64.0, i, {"stream": "aperiodic(i)", "updates": i + 1}, cov)
    for i in range(n):
        cov.step((name, "scale", len(xs)), ("R", case["order"]))
        m.remove(xs.pop({"fifo": 0, "lifo": -1, "mid": len(xs) // 2}[case["order"]]))
        if i in cp:
            _check(name, m, xs, 64.0, n + i, {"stream": "aperiodic(i)", "updates": n, "removed": i + 1, "order": case["order"]}, cov)


def _check(name, m, xs, scale, nops, trace, cov, f32=False):
    if not xs and needs(name):
        return
    want = ref(name, xs)
    kind = name.split(":")[-1]
    got = num(m.get(), "%s.get()" % name)
    if kind in ("CountMeter",):
        tol = 0
    elif kind in ("MaxMeter", "MinMeter"):
        tol = 0
    elif kind == "MedianMeter":
        tol = 1e-15 * max(1e-9, scale)
    elif kind in ("SumMeter", "AverageMeter"):
        tol = 1e-14 * max(scale, 1e-12) * (nops + 1)
    else:
        tol = 1e-14 * max(scale * scale, 1e-18) * (nops + 1)
    if f32:
        tol *= 1e8  # single precision arithmetic
    cov.comp()
    cov.outcome((name, got))
    if not close(got, want, tol):
        raise Violation("%s: get() is %r, the statistic of the present values %r is %r" % (name, got, xs, want), trace)
    if kind == "VarianceMeter" and got < 0:
        raise Violation("variance is negative: %r of %r" % (got, xs), trace)


def run(case, cov):
    if case["kind"] == "words":
        _words(case, cov)
    elif case["kind"] == "blind":
        _blind(case, cov)
    elif case["kind"] == "scale":
        _scale(case, cov)
    else:
        _lasso(case, cov)


def _apply(m, op, v, kind, name, trace):
    r = m.update(cast(v, kind)) if op == "U" else m.remove(cast(v, kind))
    if r is not m:
        raise Violation("%s.%s does not return the meter" % (name, "update" if op == "U" else "remove"), trace)


def _words(case, cov):
    name, (vals, kind), depth = case["meter"], ALPH[case["alpha"]], case["depth"]
    fl = [float(cast(v, kind)) if kind == "np32" else float(v) for v in vals]
    scale = max(abs(x) for x in fl)
    nv = len(vals)

    # depth-first enumeration of all enabled words; every maximal word is replayed on a fresh object,
    # gets are themselves operations, so every placement of reads is covered
    def rec(word, counts):
        if len(word) == depth:
            replay(word)
            return
        for i in range(nv):
            counts[i] += 1
            rec(word + [("U", i)], counts)
            counts[i] -= 1
        for i in range(nv):
            if counts[i]:
                counts[i] -= 1
                rec(word + [("R", i)], counts)
                counts[i] += 1
        if sum(counts) and word and word[-1][0] != "G":
            rec(word + [("G", 0)], counts)

    def replay(word):
        m = make(name)
        counts = [0] * nv
        tr = [(o, vals[i]) for o, i in word]
        cov.trace()
        for k, (o, i) in enumerate(word):
            cov.step((name, case["alpha"], tuple(counts)), (o, i))
            if o == "G":
                _check(name, m, [fl[j] for j in range(nv) for _ in range(counts[j])], scale, depth, tr[:k + 1], cov, kind == "np32")
            else:
                counts[i] += 1 if o == "U" else -1
                _apply(m, o, vals[i], kind, name, tr[:k + 1])
        _check(name, m, [fl[j] for j in range(nv) for _ in range(counts[j])], scale, depth, tr, cov, kind == "np32")
        if case["depth"] and word[0] == ("U", 0) and cov.traces < 3:
            cov.sample({"meter": name, "word": tr})

    rec([], [0] * nv)


def _lasso(case, cov):
    name, (vals, kind), n = case["meter"], ALPH[case["alpha"]], case["n"]
    fl = {i: (float(cast(v, kind)) if kind == "np32" else float(v)) for i, v in enumerate(vals)}
    scale = max(abs(x) for x in fl.values())
    for per in primitive_words(range(len(vals)), 3):
        for mode in ("fifo", "lifo", "mid", "slide3", "slide7", "refill"):
            for every in (True, False):
                m, xs = make(name), []
                cov.trace()
                hist = []

                def put(i):
                    cov.step((name, case["alpha"], len(xs), tuple(xs[-3:])), ("U", i))
                    xs.append(i)
                    hist.append(("U", vals[i]))
                    _apply(m, "U", vals[i], kind, name, {"period": per, "mode": mode, "tail": hist[-12:], "step": len(hist)})
                    if every:
                        chk()

                def drop(pos):
                    cov.step((name, case["alpha"], len(xs), tuple(xs[-3:])), ("R", pos == 0))
                    i = xs.pop(pos)
                    hist.append(("R", vals[i]))
                    _apply(m, "R", vals[i], kind, name, {"period": per, "mode": mode, "tail": hist[-12:], "step": len(hist)})
                    if every:
                        chk()

                def chk():
                    _check(name, m, [fl[i] for i in xs], scale, len(hist),
                           {"period": per, "mode": mode, "steps": len(hist), "tail": hist[-12:]}, cov, kind == "np32")

                if mode.startswith("slide"):
                    w = int(mode[5:])
                    for t in range(2 * n):
                        put(per[t % len(per)])
                        if len(xs) > w:
                            drop(0)
                    chk()
                elif mode == "refill":
                    for rounds in range(4):
                        for t in range(5 + rounds):
                            put(per[t % len(per)])
                        chk()
                        while xs:
                            drop(len(xs) // 2)
                        chk()
                else:
                    for t in range(n):
                        put(per[t % len(per)])
                    chk()
                    for stop in (n // 2, 1, 0):
                        while len(xs) > stop:
                            drop({"fifo": 0, "lifo": -1, "mid": len(xs) // 2}[mode])
                        chk()
                    put(per[0])
                    chk()

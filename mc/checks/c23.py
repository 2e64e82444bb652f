"""C23: half-space trees score by exact reference-window mass."""
import collections
import itertools

from mc.core import Violation, reset_rng
from mc.util import checkpoints, num, prefixes, primitive_words

BOUNDS = {
    "quick": "one feature (structure forced): depth 1-4, window 1-4, 1-3 trees, initial window none/1-6 rows, all words of length 6 over 4 values incl. midpoints and out-of-range values, 3 feature ranges, all values probed after every fit; lassos with windows 7, 50, 100 and depth 8 to 350 fits; default depth 15 and depths to 20 with values that part at every depth, windows to 1000; "
             "two and three features (depth 1-3, 1-2 trees, 12 seeds): all words of length 4 over 4 instances, scores must be explained at every step by one tree structure fixed for the life of the object",
    "thorough": "as quick with words of length 8, 60 seeds, lassos to 2000 fits",
}
ASSUMPTIONS = ["for several features the explaining structure is searched among all assignments of split features to nodes (angelic choice)"]


def mass_score(path_of, window, x, depth):
    """- sum over nodes on the path of x of mass * 2^depth for one tree (path_of: instance -> tuple of node ids)."""
    p = path_of(x)
    ws = [path_of(w) for w in window]
    s = 0
    for k in range(depth + 1):
        s += sum(1 for w in ws if w[k] == p[k]) * 2 ** k
    return -s


def path_fn(struct, mins, maxes, depth):
    """struct: dict node-id (tuple of sides) -> split feature."""
    cache = {}

    def f(x):
        x = tuple(x)
        if x in cache:
            return cache[x]
        lo, hi = list(mins), list(maxes)
        node, out = (), [()]
        for k in range(depth):
            q = struct[node]
            mid = (lo[q] + hi[q]) / 2.0
            if x[q] > mid:
                lo[q] = mid
                node = node + (1,)
            else:
                hi[q] = mid
                node = node + (0,)
            out.append(node)
        cache[x] = tuple(out)
        return cache[x]
    return f


def structures(d, depth):
    nodes = [n for k in range(depth) for n in itertools.product((0, 1), repeat=k)]
    for c in itertools.product(range(d), repeat=len(nodes)):
        yield dict(zip(nodes, c))


def ref_window(hist, W):
    k = len(hist) // W
    return hist if k == 0 else hist[(k - 1) * W:k * W]


RANGES = [((0.0,), (1.0,)), ((-4.0,), (4.0,)), ((10.0,), (74.0,))]


def cases(tier):
    q = tier == "quick"
    n = 6 if q else 8
    for W in (1, 2, 3, 4):
        for depth in (1, 2, 3, 4):
            for r in range(3):
                if (W + depth + r) % 2 and q and r:
                    continue
                for p in prefixes(range(4), 1):
                    yield {"mode": "one", "W": W, "depth": depth, "range": r, "trees": 1 + (W + depth) % 3, "len": n, "prefix": p}
    for W in (1, 2, 3, 5):
        for ni in range(0, 7):
            yield {"mode": "init", "W": W, "ni": ni, "depth": 3, "len": 4 if q else 6}
    for W in (7, 50, 100):
        for r in range(3):
            yield {"mode": "lasso", "W": W, "depth": 8, "range": r, "trees": 2, "n": 350 if q else 2000}
    for W, depth, n in ((100, 15, 350), (1000, 11, 2600), (1, 13, 12), (3, 20, 4)) if q else ((100, 15, 2000), (1000, 13, 6000), (1, 16, 40), (3, 20, 12)):
        yield {"mode": "deep", "W": W, "depth": depth, "n": n, "range": depth % 3 if depth < 20 else 1}
    for d, depth, trees in ((2, 1, 1), (2, 2, 1), (2, 3, 1), (3, 1, 1), (3, 2, 1), (2, 1, 2), (2, 2, 2), (3, 1, 3)):
        for s in range(12 if q else 60):
            yield {"mode": "many", "d": d, "depth": depth, "trees": trees, "W": 2 if s % 2 else 3, "seed": s, "len": 4 if q else 5}


def build(mins, maxes, W, trees, depth, init=None, seed=1):
    import numpy as np
    from pysad.models import HalfSpaceTrees
    reset_rng(seed)
    kw = {}
    if init is not None:
        kw["initial_window_X"] = np.array(init, dtype=float).reshape(len(init), len(mins))
    return HalfSpaceTrees(np.array(mins, dtype=float), np.array(maxes, dtype=float), window_size=W, num_trees=trees, max_depth=depth, **kw)


def values(r):
    lo, hi = RANGES[r][0][0], RANGES[r][1][0]
    w = hi - lo
    return [(lo + w * f,) for f in (0.25, 0.5, 0.8125, 1.5)], [(lo + w * f,) for f in (0.0, 0.125, 0.25, 0.3, 0.5, 0.51, 0.8125, 1.0, 1.5, -2.0)]


def run(case, cov):
    import numpy as np
    mode = case["mode"]

    def compare(m, hist, W, f, depth, trees, probes, tr):
        win = ref_window(hist, W)
        for p in probes:
            want = trees * mass_score(f, win, p, depth)
            got = num(m.score_partial(np.array(p)))
            cov.comp()
            cov.outcome(got)
            if got != want:
                raise Violation("score of %r is %r, the reference masses give %r (window %r)" % (p, got, want, win[-20:]), tr)
    if mode in ("one", "lasso"):
        r, W, depth, trees = case["range"], case["W"], case["depth"], case["trees"]
        mins, maxes = RANGES[r]
        alpha, probes = values(r)
        f = path_fn({n: 0 for k in range(depth) for n in itertools.product((0, 1), repeat=k)}, mins, maxes, depth)
        if mode == "one":
            for rest in itertools.product(range(4), repeat=case["len"] - len(case["prefix"])):
                w = list(case["prefix"]) + list(rest)
                m = build(mins, maxes, W, trees, depth)
                hist = []
                cov.trace()
                for k, i in enumerate(w):
                    cov.step((W, depth, r, trees, tuple(hist[-W - 1:]), len(hist) % W), i)
                    m.fit_partial(np.array(alpha[i]))
                    hist.append(alpha[i])
                    tr = {"config": case, "fits": [alpha[j] for j in w[:k + 1]]}
                    if k == len(w) - 1 or not any(rest[k:]) or (k + 1) % W == 0:
                        compare(m, hist, W, f, depth, trees, probes if k == len(w) - 1 else probes[::3], tr)
            cov.sample(tr)
        else:
            for per in primitive_words(range(4), 3):
                m = build(mins, maxes, W, trees, depth)
                hist = []
                cov.trace()
                sw = W + W // 2
                for t in range(case["n"]):
                    x = alpha[per[t % len(per)]] if t < sw or t > 3 * W else alpha[(per[0] + 1) % 4]
                    m.fit_partial(np.array(x))
                    hist.append(x)
                    cov.step((W, r, per, min(t, 2 * W + 2)), "fit")
                    if t % W in (0, W - 1, W // 2) or t < 3:
                        compare(m, hist, W, f, depth, trees, [probes[t % len(probes)], probes[(3 * t + 1) % len(probes)]], {"config": case, "period": per, "fits": t + 1})
            cov.sample({"config": case, "period": per})
        return
    if mode == "deep":
        # values spread over every power of two of the range, so that paths part at every depth
        W, depth = case["W"], case["depth"]
        mins, maxes = RANGES[case["range"]]
        lo, wid = mins[0], maxes[0] - mins[0]
        f = path_fn(collections.defaultdict(int), mins, maxes, depth)
        vals = [(lo + wid * v,) for k in range(0, depth + 2) for v in (2.0 ** -k, 1 - 2.0 ** -k, 0.625 + 2.0 ** -k)]
        m, hist = build(mins, maxes, W, 1, depth), []
        cov.trace()
        cp = checkpoints(case["n"], 173) | {W - 1, W, 2 * W - 1, 2 * W}
        for t in range(case["n"]):
            x = vals[(t * t + t // 7) % len(vals)]
            m.fit_partial(np.array(x))
            hist.append(x)
            cov.step((W, depth, t), "fit")
            if t in cp:
                compare(m, hist, W, f, depth, 1, vals[::2] if t % 2 else vals[1::2], {"config": case, "fits": t + 1})
        cov.sample({"config": case})
        return
    if mode == "init":
        W, depth = case["W"], case["depth"]
        mins, maxes = RANGES[0]
        alpha, probes = values(0)
        f = path_fn({n: 0 for k in range(depth) for n in itertools.product((0, 1), repeat=k)}, mins, maxes, depth)
        for init in ([alpha[(j * 3 + j // 2) % 4] for j in range(case["ni"])], [alpha[3 - j % 4] for j in range(case["ni"])]):
            for w in itertools.product(range(4), repeat=case["len"]):
                m = build(mins, maxes, W, 2, depth, init) if init else build(mins, maxes, W, 2, depth)
                hist = list(init)
                cov.trace()
                for k, i in enumerate((None,) + w):
                    if i is not None:
                        cov.step((W, case["ni"], tuple(hist[-W - 1:])), i)
                        m.fit_partial(np.array(alpha[i]))
                        hist.append(alpha[i])
                    if hist and (k == len(w) or not any(w[k:])):
                        compare(m, hist, W, f, depth, 2, probes, {"config": case, "initial": init, "fits": [alpha[j] for j in w[:k]]})
        cov.sample({"config": case, "initial": init})
        return
    # several features: a fixed structure must explain all scores
    d, depth, trees, W = case["d"], case["depth"], case["trees"], case["W"]
    mins = (0.0, -2.0, 5.0)[:d]
    maxes = (1.0, 2.0, 9.0)[:d]
    fr = [(0.2, 0.7, 0.3), (0.5, 0.25, 0.8), (0.9, 0.95, 0.1), (0.6, 0.05, 0.5)]
    alpha = [tuple(mins[j] + (maxes[j] - mins[j]) * f[j] for j in range(d)) for f in fr]
    fs = [path_fn(s, mins, maxes, depth) for s in structures(d, depth)]
    combos = list(itertools.combinations_with_replacement(range(len(fs)), trees))
    alive = set(combos)     # structures that explain everything seen so far: the seed fixes the object, words only reveal it
    memo = {}
    for w in itertools.product(range(4), repeat=case["len"]):
        m = build(mins, maxes, W, trees, depth, seed=case["seed"])
        hist = []
        cov.trace()
        for k, i in enumerate(w):
            reset_rng(case["seed"] + k)
            m.fit_partial(np.array(alpha[i]))
            hist.append(alpha[i])
            cov.step((case["seed"], d, depth, trees, w[:k]), i)
            if not (k == len(w) - 1 or not any(w[k + 1:])):
                continue
            win = tuple(sorted(ref_window(hist, W)))
            for p in alpha:
                got = num(m.score_partial(np.array(p)))
                cov.comp()
                cov.outcome(got)
                key = (win, p)
                if key not in memo:
                    memo[key] = [mass_score(f, win, p, depth) for f in fs]
                t = memo[key]
                now = {c for c in alive if sum(t[j] for j in c) == got}
                if not now:
                    raise Violation("score of %r is %r: no tree structure explains the scores seen so far" % (p, got),
                                    {"config": case, "fits": [alpha[j] for j in w[:k + 1]], "structures_left_before": len(alive)})
                alive = now
    cov.sample({"config": case, "structures_left": len(alive)})

"""C28: a projector is one fixed linear map for its whole life."""
import itertools
import json
import math
import os
import subprocess
import sys

from mc.core import REPO, Violation, reset_rng
from mc.util import primitive_words

BOUNDS = {
    "quick": "hash, sparse and Gaussian random projector, components 1-6 x features 1-6 x densities (1/3, 1, 0.1, 0.5, auto): the map is read off the unit vectors and compared on every instance over {-2, 0, 1} of up to 4 features, also scaled by 1e-13, 1e-6 and 1e9; 16-150 features and up to 60 components on sparse, dense and alternating instances; "
             "all call words of length 3-4 over {fit, transform, fit_transform, batch transform} x 3 instances with reseeding or draws from the global generators between calls, first call of every kind; lassos to 60 calls (one configuration per projector: 2400); "
             "hash projector: entries up to 40 components x 60 features, all splits of feature counts, second projector, second process with another hash seed",
    "thorough": "as quick with words of length 5, more features and densities, and lassos to 300 calls",
}
ASSUMPTIONS = ["num_components is a number (the 'auto' setting of scikit-learn needs a data set)"]
TECHNIQUE = "bounded exhaustive enumeration of instances and call words on the real code; the linear map is read off unit vectors and checked everywhere else"


def cases(tier):
    q = tier == "quick"
    for kind in ("hash", "sparse", "gauss"):
        for k in (1, 2, 3, 6) if q else (1, 2, 3, 4, 5, 6, 8):
            for d in (1, 2, 3, 4, 6) if q else (1, 2, 3, 4, 5, 6, 9):
                for dens in ((None,) if kind == "gauss" else (None, 1.0, 0.1, 0.5, 0.01) if kind == "hash" else (None, 1.0, 0.4)):
                    yield {"mode": "map", "kind": kind, "k": k, "d": d, "dens": dens}
        for k in (1, 3):
            yield {"mode": "word", "kind": kind, "k": k, "len": (3 if kind != "hash" else 4) if q else 4 if kind != "hash" else 5, "lasso": 60 if q else 300}
    for dens in (None, 1.0, 0.1, 0.5, 0.9, 0.02, 0.005):
        yield {"mode": "hash", "dens": dens, "F": 60 if q else 120}
        yield {"mode": "hash", "dens": dens, "F": 230 if q else 1100, "ks": [3, 10]}
    for kind in ("hash", "sparse", "gauss"):
        for k, d in ((5, 16), (7, 25), (20, 33), (10, 60), (60, 12), (3, 150), (100, 60), (30, 300)) + (() if q else ((100, 100), (2, 600))):
            for dens in ((None,) if kind == "gauss" else (None, 0.05, 1.0)):
                yield {"mode": "wide", "kind": kind, "k": k, "d": d, "dens": dens}
    yield {"mode": "process"}


def make(kind, k, dens=None):
    from pysad.transform.projection import GaussianRandomProjector, SparseRandomProjector, StreamhashProjector
    kw = {} if dens is None else {"density": dens}
    c = {"hash": StreamhashProjector, "sparse": SparseRandomProjector, "gauss": GaussianRandomProjector}[kind]
    return c(num_components=k, **kw)


def vec(y, k, tr):
    import numpy as np
    a = np.asarray(y)
    if a.shape != (k,) or not np.issubdtype(a.dtype, np.floating):
        raise Violation("the projection is %r, not an array of %d numbers" % (y, k), tr)
    return [float(v) for v in a]


def matrix(m, k, d, tr):
    import numpy as np
    R = []
    for j in range(d):
        x = np.zeros(d)
        x[j] = 1.0
        R.append(vec(m.transform_partial(x), k, tr))
    return R


def expect(R, x, k):
    return [math.fsum(x[j] * R[j][c] for j in range(len(x))) for c in range(k)]


def near(a, b, scale, tr, what):
    for u, v in zip(a, b):
        if not abs(u - v) <= 1e-12 * scale:
            raise Violation("%s gives %r, the map read off earlier gives %r" % (what, a, b), tr)


def entries(R, k, dens, tr):
    c = math.sqrt(1.0 / dens) / math.sqrt(k)
    n = [0, 0, 0]
    for row in R:
        for v in row:
            if v == 0:
                n[0] += 1
            elif abs(v - c) <= 1e-12 * c:
                n[1] += 1
            elif abs(v + c) <= 1e-12 * c:
                n[2] += 1
            else:
                raise Violation("matrix entry %r is none of 0, +-%r" % (v, c), tr)
    return n


def run(case, cov):
    import numpy as np
    kind = case.get("kind")
    if case["mode"] == "map":
        k, d, dens = case["k"], case["d"], case["dens"]
        tr = {"case": case}
        m = make(kind, k, dens)
        R = matrix(m, k, d, tr)
        cov.trace()
        if kind == "hash":
            entries(R, k, dens or 1 / 3.0, tr)
        elif kind == "sparse":
            entries(R, k, dens or 1 / math.sqrt(d), tr)
        al = (-2.0, 0.0, 1.0) if d <= 4 else (-2.0, 1.0)
        rows = []
        for x in itertools.product(al, repeat=d):
            for s in (1.0, 1e-6, 1e9, 1e-13):
                xs = [v * s for v in x]
                a = np.array(xs)
                keep = a.copy()
                y = vec(m.transform_partial(a) if s != 1.0 else m.fit_transform_partial(a), k, tr)
                near(y, expect(R, xs, k), s * 10 * d, {"case": case, "instance": xs}, "the instance")
                cov.comp()
                cov.step((kind, k, d, dens), (x, s))
                cov.outcome(tuple(round(v / s, 9) for v in y))
                if not np.array_equal(a, keep):
                    raise Violation("the input was changed", {"case": case, "instance": xs})
                if s == 1.0:
                    rows.append((xs, y))
        for nm in ("transform", "fit_transform"):
            out = np.asarray(getattr(m, nm)(np.array([r[0] for r in rows])))
            if out.shape != (len(rows), k):
                raise Violation("%s has shape %r" % (nm, out.shape), tr)
            for o, (x, y) in zip(out, rows):
                near([float(v) for v in o], y, 10 * d, {"case": case, "instance": x}, nm)
        near(sum(matrix(m, k, d, tr), []), sum(R, []), 0, tr, "the matrix at the end")
        cov.sample({"case": case, "matrix": R})
        return
    if case["mode"] == "wide":
        k, d, dens = case["k"], case["d"], case["dens"]
        tr = {"case": case}
        m = make(kind, k, dens)
        first = [((j * 7) % 11 - 4) * 0.5 for j in range(d)]
        y0 = vec(m.fit_transform_partial(np.array(first)), k, tr)
        R = matrix(m, k, d, tr)
        big = max(1.0, max(abs(v) for r in R for v in r)) * d
        near(y0, expect(R, first, k), 10 * big, tr, "the first instance")
        if kind != "gauss":
            entries(R, k, dens or (1 / 3.0 if kind == "hash" else 1 / math.sqrt(d)), tr)
        if kind == "hash" and k >= 20 and d > 16 and dens is None or kind == "gauss":      # nothing is projected twice in the same way
            cols, rws = {tuple(r) for r in R}, {tuple(c) for c in zip(*R)}
            if len(cols) < d or len(rws) < k:
                raise Violation("%d features have only %d different columns, %d outputs only %d different rows in the map" % (d, len(cols), k, len(rws)), tr)
        for f in range(d + 6):
            x = [1.0 if j in (f, (f * f + 3) % d) else 0.0 for j in range(d)] if f < d else first[::-1] if f == d else [(-1.0) ** j * (j + f) for j in range(d)]
            for s in (1.0, 1e-13, 1e9):
                xs = [v * s for v in x]
                cov.comp()
                cov.step((kind, k, d, dens), (f, s))
                near(vec((m.transform_partial if f % 2 else m.fit_transform_partial)(np.array(xs)), k, tr), expect(R, xs, k), s * 20 * big * (d if f > d else 1), {"case": case, "instance": xs}, "the instance")
        near(sum(matrix(m, k, d, tr), []), sum(R, []), 0, tr, "the matrix at the end")
        cov.trace()
        cov.sample({"case": case})
        return
    if case["mode"] == "word":
        k, d = case["k"], 3
        A = [[1.0, -2.0, 0.5], [0.0, 0.0, 0.0], [3.0, 0.25, -7.0]]
        syms = [(o, i) for o in ("F", "T", "P", "B") for i in range(3)]

        def play(w, dis):
            reset_rng(3)
            m = make(kind, k)
            tr = {"case": case, "calls": w, "disturbance": dis}
            cov.trace()
            seen = []
            for n, (o, i) in enumerate(w):
                cov.step((kind, k, dis, tuple(w[:n])[-4:]), (o, i))
                x = np.array(A[i])
                if o == "F":
                    if m.fit_partial(x) is not m:
                        raise Violation("fit_partial does not return the projector", tr)
                elif o == "B":
                    out = np.asarray(m.transform(np.array([A[i], A[0]])))
                    if out.shape != (2, k):
                        raise Violation("transform of 2 instances has shape %r" % (out.shape,), tr)
                    seen.append((i, vec(out[0], k, tr)))
                    seen.append((0, vec(out[1], k, tr)))
                else:
                    seen.append((i, vec(m.transform_partial(x) if o == "T" else m.fit_transform_partial(x), k, tr)))
                if dis == "seed":
                    reset_rng(n + 11)
                elif dis == "draw":
                    np.random.rand(3)
                elif dis == "same":
                    reset_rng(3)
            R = matrix(m, k, d, tr)
            for i, y in seen:
                cov.comp()
                near(y, expect(R, A[i], k), 100, tr, "instance %r" % (A[i],))
        for w in itertools.product(syms, repeat=case["len"]):
            for dis in ("seed", "draw", "same") if kind != "hash" and len(w) <= 3 else ("seed",):
                if dis == "same" and len(set(w)) == 1:
                    continue
                play(w, dis)
        for w in primitive_words(syms, 1):
            play(w * (case["lasso"] if case["k"] != 3 else 40 * case["lasso"]), "draw")
        cov.sample({"case": case, "calls": w})
        return
    if case["mode"] == "hash":
        dens = case["dens"]
        F = case["F"]
        for k in case.get("ks", (1, 2, 7, 40)):
            m = make("hash", k, dens)
            R = matrix(m, k, F, {"case": case, "k": k})
            n = entries(R, k, dens or 1 / 3.0, {"case": case, "k": k})
            tot = sum(n)
            if tot >= 2000:
                nz = (n[1] + n[2]) / tot
                want = dens or 1 / 3.0
                if abs(nz - want) > 0.06 * min(1, 10 * want) or abs(n[1] - n[2]) > 0.1 * tot:
                    raise Violation("%d zeros, %d positive and %d negative entries for density %r" % (n[0], n[1], n[2], want), {"case": case, "k": k})
            cov.trace()
            m2 = make("hash", k, dens)
            m2.fit(np.ones((3, 2)))
            for d in (1, 2, 3, 5, 10, 11, F - 1) if F < 100 else (99, 100, 101, 128, F - 1):
                for mm in (m, m2):
                    Rd = matrix(mm, k, d, {"case": case, "k": k, "features": d})
                    cov.comp(d * k)
                    cov.step(("hash", dens, k), d)
                    if Rd != R[:d]:
                        raise Violation("the map of the first %d features depends on the number of features or on the projector" % d, {"case": case, "k": k, "features": d, "got": Rd[-1], "expected": R[d - 1]})
            cov.outcome(tuple(n))
        cov.sample({"case": case, "zeros/plus/minus": n})
        return
    # a second process: the map does not depend on the process
    code = ("import sys,json;sys.path.insert(0,%r)\nimport numpy as np\nfrom pysad.transform.projection import StreamhashProjector as S\n"
            "print('RESULT'+json.dumps([[S(num_components=k).transform_partial(np.eye(7)[j]).tolist() for j in range(7)] for k in (1,2,5)]))" % REPO)
    outs = []
    for hs in ("0", "1", "4711"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=env, timeout=120)
        line = [ln for ln in p.stdout.splitlines() if ln.startswith("RESULT")]
        if not line:
            raise Violation("projecting in a fresh process fails: %s" % p.stderr[-500:], {"PYTHONHASHSEED": hs})
        outs.append(json.loads(line[0][6:]))
        cov.trace()
        cov.step("process", hs)
    here = [[make("hash", k).transform_partial(np.eye(7)[j]).tolist() for j in range(7)] for k in (1, 2, 5)]
    for o in outs:
        cov.comp(len(here))
        if o != here:
            raise Violation("the hash projection differs between processes", {"here": here, "there": o})
    cov.sample({"processes": 3})

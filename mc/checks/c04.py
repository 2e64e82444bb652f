"""C04: the same seed gives the same results."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc import big, zoo
from mc.core import VERIF, Violation
from mc.util import same

BOUNDS = {
    "quick": "all 29 model, 10 transformer, 12 postprocessor and 7 ensembler configurations plus shuffled streamers: fix_seed(s) for 6 seeds, all drive words of length <= 2 over {fit, score} x 2 instances after warm-up, "
             "re-run after 4 different amounts of consumed randomness and after other objects were created, and re-run in three fresh processes with different string-hash seeds; "
             "dataset iterator: 8 seeds, all placements of random draws (none/NumPy/random/reseed) between request and first element and between the elements of 4 rows; 48 large configurations (default-like sizes, up to 100 scores or 50 features) on streams of 30-2300 items, two runs",
    "thorough": "as quick with 20 seeds, words of length <= 4, 20 dataset seeds",
}
ASSUMPTIONS = ["the Inqmad model is driven on two words only because every new object is compiled anew"]
TECHNIQUE = "bounded exhaustive differential re-execution of seeded programs of the real code"


def fams():
    return ("models", "transformers", "postprocessors", "ensemblers")


def cases(tier):
    q = tier == "quick"
    for k in big.names():
        yield {"mode": "big", "key": k}
    for f in fams():
        for name, e in getattr(zoo, f)().items():
            seeds = range(6 if q else 20) if e.cost < 40 else range(2 if q else 6)
            for s in seeds:
                yield {"mode": "prog", "fam": f, "name": name, "seed": s, "len": (2 if q else 4) if e.cost < 5 else (1 if q else 2)}
    for src in ("array", "pandas"):
        for s in range(10 if q else 60):
            yield {"mode": "streamer", "src": src, "seed": s}
    for fmt in ("txt", "mat"):
        for s in range(8 if q else 20):
            yield {"mode": "data", "fmt": fmt, "seed": s}
    for h in ("1", "4242"):
        yield {"mode": "proc", "hashseed": h}
    for part in range(4):
        yield {"mode": "proc", "hashseed": "77", "part": part}
    for cls in ("AverageOfMaximum", "MaximumOfAverage"):
        yield {"mode": "dynamic", "cls": cls}
    yield {"mode": "fixseed"}


def program(fam, name, seed, word):
    """fix_seed, build, drive; returns the outputs."""
    import numpy as np
    from pysad.utils import fix_seed
    e = getattr(zoo, fam)()[name]
    scalar = fam == "postprocessors"

    def item(v):
        return np.float64(v) if scalar else np.array(v, dtype=float)
    fix_seed(seed)
    m = e.mk()
    out = []
    for j, w in enumerate(e.warm):
        if fam == "models":
            m.fit_partial(item(w), (j % 2) if e.labels else None)
        else:
            m.fit_partial(item(w))
    k = 0
    for op, i in word:
        x = item(e.alpha[i])
        if fam == "models":
            if op == "F":
                m.fit_partial(x, k % 2 if e.labels else None)
            else:
                if name == "PerfectModel" and k >= len(e.warm):
                    continue
                out.append(m.score_partial(x))
                k += 1
        elif op == "F":
            m.fit_partial(x)
        else:
            out.append(m.transform_partial(x))
    x = item(e.alpha[2])
    if fam == "models":
        if name != "PerfectModel":
            out.append(m.score_partial(x))
            out.append(m.fit_score_partial(x, 1 if e.labels else None))
    else:
        out.append(m.fit_transform_partial(x))
        out.append(m.transform_partial(x))
    return [np.array(o, dtype=float).tolist() for o in out]


def disturb(k):
    """Consumes randomness and creates other objects between two runs."""
    import random
    import numpy as np
    from pysad import models as M
    if k == 0:
        return
    np.random.rand(k * 3)
    random.random()
    if k == 2:
        np.random.seed(999)
        M.RandomModel().score_partial(np.zeros(2))
        M.xStream(num_components=2, n_chains=2, depth=2, window_size=2).fit_partial(np.zeros(2))
        M.LODA(num_bins=2, num_random_cuts=2).fit_partial(np.zeros(2))
    if k == 3:
        random.seed(5)
        m = M.HalfSpaceTrees(np.zeros(3), np.ones(3), window_size=2, num_trees=2, max_depth=2)
        m.fit_partial(np.ones(3) / 3)
        M.RSHash(np.zeros(2), np.ones(2), sampling_points=3, num_components=2).fit_partial(np.ones(2) / 2)


def words(n):
    ops = [(o, i) for o in "FS" for i in (0, 1)]
    return itertools.product(ops, repeat=n)


def run(case, cov):
    if case["mode"] == "big":
        return big.seeded(case["key"], cov, disturb)
    getattr(sys.modules[__name__], "_" + case["mode"])(case, cov)


def _prog(case, cov):
    fam, name, s = case["fam"], case["name"], case["seed"]
    ws = list(words(case["len"]))
    if name == "Inqmad":
        ws = ws[:1]
    for w in ws:
        tr = {"component": name, "seed": s, "word": w}
        first = program(fam, name, s, w)
        cov.trace()
        for j, op in enumerate(w):
            cov.step((name, s, w[:j]), op)
        cov.outcome(str(first))
        for k in ((1, 2, 3) if w == ws[0] else (1 + len(str(w)) % 3,)):
            if name == "Inqmad" and k != 2:
                continue
            disturb(k)
            again = program(fam, name, s, w)
            cov.trace()
            cov.comp()
            if not same(first, again):
                raise Violation("%s: outputs after fix_seed(%d) are %r in one run and %r in another" % (name, s, first, again), tr)
    cov.sample(tr)


def _streamer(case, cov):
    import numpy as np
    import pandas as pd
    from pysad.utils import ArrayStreamer, PandasStreamer, fix_seed
    s = case["seed"]
    for n in (2, 3, 5, 40):
        X, y = np.arange(2.0 * n).reshape(n, 2), np.arange(n)

        def prog(lab):
            fix_seed(s)
            if case["src"] == "array":
                it = ArrayStreamer(shuffle=True)
                a, b = X, y
            else:
                it = PandasStreamer(shuffle=True)
                a, b = pd.DataFrame(X), pd.Series(y)
            out = []
            for _ in range(2):
                out += [float(v[0][0] if lab else v[0]) for v in (it.iter(a, b) if lab else it.iter(a))]
            return out
        for lab in (False, True):
            first = prog(lab)
            for k in (1, 2, 3):
                disturb(k)
                again = prog(lab)
                cov.trace()
                cov.comp()
                cov.step((case["src"], n, lab, s), k)
                cov.outcome(str(first[:20]))
                if first != again:
                    raise Violation("shuffled order after fix_seed(%d) is %r in one run and %r in another" % (s, first, again), {"n": n})
    cov.sample({"seed": s, "order": first[:8]})


def _data(case, cov):
    """One fixed order per seed; random draws at every subset of positions, two interleaved iterators."""
    import random
    import numpy as np
    from pysad.utils import Data
    d = tempfile.mkdtemp(prefix="mc04")
    try:
        n = 4
        X, y = np.arange(2.0 * n).reshape(n, 2) + 1, np.arange(n) % 2
        if case["fmt"] == "txt":
            f = "a.txt"
            np.savetxt(os.path.join(d, f), np.hstack([X, y.reshape(-1, 1)]), delimiter=",")
        else:
            from scipy.io import savemat
            f = "a.mat"
            savemat(os.path.join(d, f), {"X": X, "y": y})
        acts = [lambda: None, lambda: np.random.rand(7), lambda: random.random(), lambda: np.random.seed(31), lambda: np.random.permutation(9)]
        base = None
        data = Data(d)
        for pre in range(len(acts)):
            acts[pre]()
            for word in itertools.product(range(len(acts)), repeat=3):
                it = iter(data.get_iterator(f, shuffle=True, seed=case["seed"]))
                acts[word[0]]()
                got = []
                for j in range(n):
                    got.append(next(it))
                    acts[word[1 + j % 2]]()
                got = [(float(a[0]), float(b)) for a, b in got]
                cov.trace()
                cov.comp()
                for j in range(3):
                    cov.step((case["fmt"], case["seed"], pre, word[:j]), word[j])
                cov.outcome(str(got))
                if base is None:
                    base = got
                if got != base:
                    raise Violation("the iterator with seed %d delivered %r, and %r when random numbers were drawn in between" % (case["seed"], base, got),
                                    {"before_request": pre, "between": word})
        # two iterators with different seeds requested before either is consumed
        other = [(float(a[0]), float(b)) for a, b in data.get_iterator(f, seed=case["seed"] + 100)]
        for pos in itertools.combinations(range(2 * n), n):
            i1, i2 = iter(data.get_iterator(f, seed=case["seed"])), iter(data.get_iterator(f, seed=case["seed"] + 100))
            g1, g2 = [], []
            for t in range(2 * n):
                (g1.append(next(i1)) if t in pos else g2.append(next(i2)))
            g1, g2 = [[(float(a[0]), float(b)) for a, b in g] for g in (g1, g2)]
            cov.trace()
            cov.comp()
            cov.step((case["fmt"], case["seed"], "two"), pos)
            if g1 != base or g2 != other:
                raise Violation("two interleaved seeded iterators deliver %r and %r instead of %r and %r" % (g1, g2, base, other), {"steps_of_first": pos})
        cov.sample({"seed": case["seed"], "order": base})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _fixseed(case, cov):
    """fix_seed fixes both global generators."""
    import random
    import numpy as np
    from pysad.utils import fix_seed
    for s in range(50):
        fix_seed(s)
        a = (np.random.rand(3).tolist(), random.random(), np.random.randint(0, 1000), random.randint(0, 1000))
        for k in range(4):
            disturb(k)
            fix_seed(s)
            b = (np.random.rand(3).tolist(), random.random(), np.random.randint(0, 1000), random.randint(0, 1000))
            cov.trace()
            cov.comp()
            cov.step(("fix_seed", s), k)
            cov.outcome(str(a))
            if a != b:
                raise Violation("fix_seed(%d): generators give %r and then %r" % (s, a, b), {"seed": s})
    cov.sample({"seed": s})


def _dynamic(case, cov):
    import numpy as np
    from pysad.transform import ensemble as X
    from pysad.utils import fix_seed
    cls = getattr(X, case["cls"] + "ScoreEnsembler")
    v = np.array([2.0 ** i for i in range(12)])
    for boot in (False, True):
        for s in range(10):
            outs = set()
            for _ in range(12):
                fix_seed(s)
                e = cls(n_buckets=3, method="dynamic", bootstrap_estimators=boot)
                outs.add(tuple(float(np.asarray(e.transform_partial(v)).item()) for _ in range(2)))
                cov.trace()
                cov.comp()
            cov.step((case["cls"], boot), s)
            cov.outcome(len(outs))
            if len(outs) > 1:
                cov.finding("%sScoreEnsembler(method='dynamic') gives %d different results after fix_seed(%d)" % (case["cls"], len(outs), s),
                            {"seed": s, "outputs": sorted(outs)[:3]}, "dynamic-" + case["cls"])
                return


def dump(part):
    """Executed in a fresh process: outputs of one program per component as JSON."""
    out = {}
    if part is not None:
        for key in big.names()[part::4]:
            out[key] = big.program(key, 11)
        return out
    for fam in fams():
        for name in getattr(zoo, fam)():
            out[name] = program(fam, name, 3, (("S", 0), ("F", 1), ("S", 1)))
    return out


def _proc(case, cov):
    env = dict(os.environ, PYTHONHASHSEED=case["hashseed"])
    code = ("import sys,json,warnings;warnings.simplefilter('ignore');o=sys.stdout;sys.stdout=open('/dev/null','w');"
            "sys.path[:0]=['/repo',%r];from mc.checks import c04;r=c04.dump(%r);o.write(json.dumps(r))" % (VERIF, case.get("part")))
    here = json.loads(json.dumps(dump(case.get("part"))))
    p = subprocess.run([sys.executable, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF)
    if p.returncode:
        raise Violation("a fresh process failed: %s" % p.stderr.decode()[-600:])
    there = json.loads(p.stdout.decode())
    for name in here:
        cov.trace()
        cov.comp()
        cov.step((name, "process"), case["hashseed"])
        if not same(here[name], there[name]):
            raise Violation("%s: the outputs after fix_seed are %s in this process and %s in a fresh one" % (name, str(here[name])[:300], str(there[name])[:300]),
                            {"PYTHONHASHSEED": case["hashseed"]})
    cov.sample({"process": case["hashseed"], "components": len(here)})

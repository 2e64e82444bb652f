"""C40: building and using components has no effects outside of them, apart from drawing random numbers."""
import itertools
import locale
import os
import random
import shutil
import sys
import tempfile
import threading
import warnings

from mc import zoo
from mc.checks import c36, c38, c39
from mc.core import Violation, reset_rng

BOUNDS = {
    "quick": "every model, transformer, postprocessor, calibrator, ensembler, meter, running statistic, window, metric, streamer and the dataset loader, and calls that are rejected, in a small configuration (and every class with one other setting): construction, a run through its warm-up, then all words of length 3 over {fit, evaluate, fit-and-evaluate, batch call} (expensive ones 2), "
             "started from 2 settings of the process and 2 states of the random generators; process-wide settings, files and the state of both global random generators compared after every call (a generator must not come back to an earlier state, nor be in the same state after different seeds)",
    "thorough": "as quick with words of length 4 (expensive ones 3) and 4 states of the generators",
}
ASSUMPTIONS = ["modules that are imported on first use (scikit-learn, statsmodels, JAX ...) may change settings while they are imported: every word is run once before it is observed, after which the settings are put back",
               "fix_seed and the dataset iterator with a seed are meant to reseed", "printing is not observed"]
PRINT, HOME = {}, "."
TECHNIQUE = "bounded exhaustive exploration of call words on the real code with a monitor of process-wide state"


def settings():
    import numpy as np
    return {"numpy error handling": np.geterr(), "numpy error callback": np.geterrcall(), "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
            "warning filters": [tuple(map(str, f)) for f in warnings.filters], "warning display": warnings.showwarning, "recursion limit": sys.getrecursionlimit(), "working directory": os.getcwd(),
            "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL), "trace function": sys.gettrace(), "import path": list(sys.path),
            "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "files": sorted((a, tuple(sorted(b)), tuple((f, os.stat(os.path.join(a, f)).st_mtime_ns) for f in sorted(c))) for a, b, c in os.walk(HOME)), "switch interval": sys.getswitchinterval(), "threads": [t.name for t in threading.enumerate()],
            "open files": sorted(x for x in map(link, os.listdir("/proc/self/fd")) if x.startswith(HOME))}


def link(fd):
    try:
        return os.readlink("/proc/self/fd/" + fd)
    except OSError:
        return ""


def generators():
    import numpy as np
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:]), random.getstate()


def put_back(d, old, filters, rnd):
    """Undo what a first use (of a module imported by it) left behind."""
    import numpy as np
    warnings.filters[:] = filters
    getattr(warnings, "_filters_mutated", lambda: None)()
    np.seterr(**old["numpy error handling"])
    np.seterrcall(old["numpy error callback"])
    np.set_printoptions(**{k: v for k, v in PRINT.items()})
    sys.setrecursionlimit(old["recursion limit"])
    os.chdir(d)
    os.environ.clear()
    os.environ.update(old["environment"])
    random.setstate(rnd)
    for f in os.listdir("."):
        if f not in ("tmp", "data"):
            shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    for f in os.listdir("tmp"):
        f = os.path.join("tmp", f)
        shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)


class Streams:
    """Shuffling streamers, which do draw."""
    @staticmethod
    def comps():
        import numpy as np
        import pandas as pd
        from pysad import utils as U
        X, y = np.arange(8.0).reshape(4, 2), np.array([0, 1, 1, 0])

        def do(wrap):
            def f(o, op, k):
                if op == "F":
                    o.iter(*wrap(X, y))
                elif op == "T":
                    list(o.iter(wrap(X, y)[0]))
                else:
                    list(o.iter(*wrap(X, y)))
            return f
        yield c38.Comp("streams/ArrayStreamer-shuffle", lambda: U.ArrayStreamer(shuffle=True), 6, do(lambda a, b: (a, b)))
        yield c38.Comp("streams/PandasStreamer-shuffle", lambda: U.PandasStreamer(shuffle=True), 6, do(lambda a, b: (pd.DataFrame(a), pd.Series(b))))


def comps():
    d, rng = {}, {}
    for fam in ("models", "transformers", "postprocessors", "ensemblers"):
        vs = zoo.variants()
        for n, e in getattr(zoo, fam)().items():
            c = c38._zoo(fam, e)
            c.cost, c.draws, c.fam, c.labels, c.e = e.cost, (e.rng and not n.endswith("-KNN") and n != "Inqmad") or n == "RandomModel", fam, e.labels, e
            d[c.name] = c
            for i, mk in enumerate(vs.get(n, [])):
                v = c38._zoo(fam, e)
                v.name, v.mk = "%s/variant%d" % (c.name, i), mk
                v.cost, v.draws, v.fam, v.labels, v.e = c.cost, c.draws, fam, e.labels, e
                d[v.name] = v
    for c in itertools.chain(c38._stats(), c38._more(), c39._streams()):
        if "Long-" in c.name or "40" in c.name or c.name.endswith(("Window60", "200")):
            continue
        c.cost, c.draws, c.fam = 1, False, None
        d[c.name] = c
    for name, lab, pred in itertools.product(("AUPRMetric", "AUROCMetric", "PrecisionMetric", "RecallMetric"), (0, 1), (0, 1)):
        def one_class(o, op, k, lab=lab, pred=pred):
            if op in "FP":
                o.update(lab, pred)
            if op in "TP":
                try:
                    o.get()
                except ValueError:
                    pass
        mk = (lambda name=name: getattr(__import__("pysad.evaluation").evaluation, name)())
        c = c38.Comp("metrics/%s-only-%d%d" % (name, lab, pred), mk, 8, one_class)
        c.cost, c.draws, c.fam = 1, False, None
        d[c.name] = c
    for n, (mk, ops, rej, warm) in c36.comps().items():
        # calls that are rejected with an exception
        def reject(o, op, k, rej=rej, warm=warm):
            if op in "FP":
                warm(o)
            for i, (_, r) in enumerate(rej):
                if op == "P" or op != "F" and k % len(rej) == i:
                    try:
                        r(o)
                    except Exception:  # noqa: rejection
                        pass
        c = c38.Comp("rejected/" + n, mk, 8, reject)
        c.cost, c.draws, c.fam = 1, False, None
        d[c.name] = c
    for f, sh in itertools.product(("x.txt", "x.mat"), (False, True)):
        def load(o, op, k, f=f, sh=sh):
            if op in "FP":
                o.get_data(f)
            if op in "TP":
                list(o.get_iterator(f, shuffle=sh))
        c = c38.Comp("data/%s%s" % (f[2:], "-shuffle" * sh), lambda: __import__("pysad.utils").utils.Data("data"), 6, load)
        c.cost, c.draws, c.fam = 1, sh, None
        d[c.name] = c
    for c in Streams.comps():
        c.cost, c.draws, c.fam = 1, True, None
        d[c.name] = c
    return d


def cases(tier):
    q = tier == "quick"
    for n, c in comps().items():
        k = (1 if "Inqmad" in n else 2 if c.cost >= 6 else 3) + (not q)
        for f in "FTPB":
            yield {"name": n, "len": k, "first": f, "states": 2 if q else 4}


def call(c, o, op, k):
    import numpy as np
    if op != "B":
        c._do(o, op, k)
    elif c.fam:
        e = c.e
        X = np.array([e.alpha[(k + j) % 3] for j in range(2)], dtype=float)
        if c.fam == "models":
            o.fit(X, np.array([0, 1])) if c.labels else o.fit_score(X)
            o.score(X)
        else:
            o.fit_transform(X)
            o.transform(X)
    else:
        c._do(o, "P", k)


def drive(c, word, cov, look, tr):
    """Construct, warm up, run the word; ``look(where)`` after every call."""
    o = c.mk()
    look("the constructor")
    n = max(2, c.n - 6)
    for k in range(n):
        call(c, o, "P", k)
        if k < 4 or k == n - 1:
            look("call %d (fit-and-evaluate)" % k)
    for j, op in enumerate(word):
        call(c, o, op, n + j)
        if cov is not None:
            cov.step((c.name, word[:j]), op)
        look("call %d (%s)" % (n + j, op))


def run(case, cov):
    import numpy as np
    c = comps()[case["name"]]
    words = [(case["first"],) + w for w in itertools.product("FTPB", repeat=case["len"] - 1)]
    if c.n > 30:
        words = [w for i, w in enumerate(words) if i % 4 == 0]
    global PRINT, HOME
    PRINT = np.get_printoptions()
    home, temp = os.getcwd(), tempfile.tempdir
    d = tempfile.mkdtemp(prefix="mc_c40_")
    HOME = d
    for f in ("tmp", "data"):
        os.mkdir(os.path.join(d, f))
    os.chdir(d)
    if case["name"].startswith("data/"):
        import scipy.io
        A = np.arange(12.0).reshape(4, 3)
        np.savetxt("data/x.txt", A, delimiter=",")
        scipy.io.savemat("data/x.mat", {"X": A[:, :2], "y": A[:, 2:]})
    tempfile.tempdir = os.path.join(d, "tmp")
    try:
        for word in words:
            tr = {"component": c.name, "calls": word}
            ends = []
            keep = settings(), list(warnings.filters), random.getstate()
            reset_rng(1)
            drive(c, word, None, lambda where: None, tr)      # first use of imported modules
            put_back(d, *keep)
            for i in range(case["states"]):
                old, lim = np.geterr(), sys.getrecursionlimit()
                with warnings.catch_warnings():
                    warnings.simplefilter("always" if i % 2 else "default")
                    warnings.filterwarnings("ignore", ".*")
                    np.seterr(**dict(zip(("divide", "over", "under", "invalid"), ["warn", "ignore"][::1 - i % 2 * 2] * 2)))
                    sys.setrecursionlimit(lim + 100 * i)
                    try:
                        reset_rng(11 + i)
                        s0, g0 = settings(), generators()
                        marks = []

                        def look(where):
                            s, g = settings(), generators()
                            cov.comp()
                            if s != s0:
                                k = [x for x in s if s[x] != s0[x]][0]
                                raise Violation("%s: %s changes the process-wide setting '%s' from %r to %r" % (c.name, where, k, str(s0[k])[:200], str(s[k])[:200]), tr)
                            if g[1] != g0[1] or not c.draws and g[0] != g0[0]:
                                raise Violation("%s: %s changes the state of the global generator of %s" % (c.name, where, "the random module" if g[1] != g0[1] else "numpy.random, although nothing about it is random"), tr)
                            h = hash(g[0])
                            if marks and h != marks[-1][1] and h in [m for _, m in marks]:
                                raise Violation("%s: %s puts numpy's global random generator back into the state it had after %s, so that numbers drawn since then come again"
                                                % (c.name, where, [w for w, m in marks if m == h][-1]), tr)
                            marks.append((where, h))
                        drive(c, word, cov, look, tr)
                        cov.trace()
                        cov.outcome((c.name, marks[-1][1] if c.draws else 0))
                        ends.append(marks)
                    finally:
                        np.seterr(**old)
                        sys.setrecursionlimit(lim)
            for a, b in itertools.combinations(ends, 2):
                for (w, x), (_, y) in zip(a, b):
                    cov.comp()
                    if x == y:
                        raise Violation("%s: after %s numpy's global random generator is in the same state whatever it was seeded with: it was reseeded" % (c.name, w), tr)
        cov.sample({"component": c.name, "words": len(words)})
    finally:
        os.chdir(home)
        tempfile.tempdir = temp
        shutil.rmtree(d)

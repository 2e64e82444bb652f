"""C30: the random cut forest scores by displacement within the last tree_size points."""
import itertools

from mc.core import Violation, reset_rng
from mc.rcf import Automaton
from mc.util import num, primitive_words

BOUNDS = {
    "quick": "tree_size 1-4, 1-12 trees, 1, 2 and 3 features (instances down to 1e-9 apart): all words of length <= 6 over 2 points (5 over 3), every point and an absent one scored after every fit, twice; all words of length 5 over {fit, score, fit_score} x {2 points, absent point}; "
             "lassos over all primitive words of length <= 3 to 6 x tree_size for tree_size to 3; streams b..ba..a for tree_size to 20, 70 and 256 with every block length (points leave the forest for good); default settings to 1400 fits; "
             "reference: every tree the rrcf library can build (one representative cut per cell)",
    "thorough": "as quick with words of length 8 / 6, more seeds, lassos of words of length 5 and tree_size 4",
}
ASSUMPTIONS = ["the trees themselves are those of the rrcf library: its displacement values are taken as they are, only which points a tree holds is decided here",
               "random cuts: every displacement a random cut can produce is accepted"]
TECHNIQUE = "bounded exhaustive exploration of call words on the real code; membership in the set of outcomes of a nondeterministic automaton over all random cut trees"
GEO = {"line": [(0.0,), (1.0,), (5.0,), (-3.0,)], "plane": [(0.0, 0.0), (1.0, 2.0), (1e6, -3.0), (0.5, 0.5)],
       "close": [(0.0, 0.0), (1e-7, 0.0), (3.0, 1.0), (3.0, 1.0 + 1e-9)],
       "space": [(1.0, 1.0, 1.0), (1.0, 1.0, 1.5), (2.0, 0.0, 9.0), (1e-3, 0.0, 0.0)]}


def cases(tier):
    q = tier == "quick"
    for g in GEO:
        for T in (1, 2, 3, 4):
            for nt in (1, 3) + ((7, 12) if T in (2, 3) else ()):
                yield {"mode": "fits", "geo": g, "T": T, "nt": nt, "pts": 2, "len": (6 if nt < 4 else 5) if q else 8, "seed": 1}
            yield {"mode": "ops", "geo": g, "T": T, "nt": 2, "len": 5 if q else 6, "seed": 2}
        for T in (1, 2, 3) if q else (1, 2, 3, 4):
            yield {"mode": "lasso", "geo": g, "T": T, "nt": 2, "plen": 3 if q else 5, "seed": 3}
            for s in range(2 if q else 6):
                yield {"mode": "fits", "geo": g, "T": T, "nt": 1, "pts": 3, "len": 5 if q else 6, "seed": s}
        for T in (2, 3, 5, 8, 20, 70, 256):
            yield {"mode": "blocks", "geo": g, "T": T, "seed": 5}
    yield {"mode": "default", "seed": 1, "n": 1400 if q else 5000}


def sums(vals, nt):
    """Possible means over nt trees."""
    out = {0.0}
    for _ in range(nt):
        out = {round(a + v, 9) for a in out for v in vals}
    return {a / nt for a in out}


def compare(got, vals, nt, what, tr, cov):
    g = num(got)
    cov.comp()
    cov.outcome(round(g, 9))
    want = sums(vals, nt)
    if not any(abs(g - w) <= 1e-7 * (1 + abs(w)) for w in want):
        raise Violation("%s is %r; a forest of the retained points can give %r" % (what, g, sorted(want)[:20]), tr)


def run(case, cov):
    import numpy as np
    from pysad.models import RobustRandomCutForest
    if case["mode"] == "default":
        m = RobustRandomCutForest()
        reset_rng(1)
        P = [(4.0, 1.0), (0.0, 1.0)]
        au = Automaton(P, 256)
        st = au.states(())
        for t in range(case["n"]):
            p = P[0] if t % 700 < 100 else P[1]
            m.fit_partial(np.array(p))
            st = au.step(st, p)
            if t % (16 if t < 500 else 48) == 0 or 250 < t < 262 or 340 < t < 362:
                for x in P:
                    cov.step(("default", t), x)
                    compare(m.score_partial(np.array(x)), au.values(st, x), 4, "score of %r after %d fits" % (x, t + 1), {"defaults": True, "fits": t + 1}, cov)
        cov.trace()
        cov.sample({"default": case["n"]})
        return
    G = GEO[case["geo"]]
    seed, T = case["seed"], case["T"]

    def make(nt):
        reset_rng(seed)
        return RobustRandomCutForest(num_trees=nt, tree_size=T)
    if case["mode"] == "fits":
        nt, npt = case["nt"], case["pts"]
        au = Automaton(G, T)
        probes = G[:npt + 1]
        for n in range(1, case["len"] + 1):
            for w in itertools.product(range(npt), repeat=n):
                if npt == 3 and len(set(w)) < 3:
                    continue
                m = make(nt)
                for i in w:
                    m.fit_partial(np.array(G[i]))
                st = au.states(tuple(G[i] for i in w))
                tr = {"case": case, "fitted": [G[i] for i in w]}
                cov.trace()
                for rep in (0, 1):
                    for x in probes:
                        cov.step((case["geo"], T, nt, tuple(w[-T:])), x)
                        compare(m.score_partial(np.array(x)), au.values(st, x), nt, "score of %r (round %d)" % (x, rep), tr, cov)
        cov.sample({"case": case, "library tree states": len(au.store)})
    elif case["mode"] == "ops":
        nt = case["nt"]
        au = Automaton(G, T)
        syms = [("F", 0), ("F", 1), ("P", 0), ("P", 1), ("S", 0), ("S", 2)]
        for w in itertools.product(syms, repeat=case["len"]):
            if w[0][0] == "S":
                continue
            m, hist = make(nt), ()
            tr = {"case": case, "calls": w}
            cov.trace()
            for o, i in w:
                x = G[i]
                cov.step((case["geo"], T, nt, tuple(hist[-T:])), (o, i))
                if o == "F":
                    if m.fit_partial(np.array(x)) is not m:
                        raise Violation("fit_partial does not return the model", tr)
                    hist += (x,)
                elif o == "P":
                    hist += (x,)
                    compare(m.fit_score_partial(np.array(x)), au.values(au.states(hist), x), nt, "fit_score of %r" % (x,), tr, cov)
                else:
                    compare(m.score_partial(np.array(x)), au.values(au.states(hist), x), nt, "score of %r" % (x,), tr, cov)
        cov.sample(tr)
    elif case["mode"] == "lasso":
        nt = case["nt"]
        au = Automaton(G, T)
        for w in primitive_words((0, 1), case["plen"]):
            m = make(nt)
            st = au.states(())
            tr = {"case": case, "period": w}
            cov.trace()
            for t in range(max(6 * T, 12)):
                p = G[w[t % len(w)]]
                m.fit_partial(np.array(p))
                st = au.step(st, p)
                cov.step((case["geo"], T, w, min(t, 2 * T)), "lasso")
                for x in G[:3]:
                    compare(m.score_partial(np.array(x)), au.values(st, x), nt, "score of %r after %d fits" % (x, t + 1), tr, cov)
        cov.sample({"case": case, "library tree states": len(au.store)})
    else:
        # blocks: a run of the larger point, then of the smaller one, until nothing of the first is retained
        hi, lo = sorted(G[:2], reverse=True)
        au = Automaton([hi, lo, G[2]], T)
        bs = range(1, T + 2) if T <= 8 else (1, 2, T - 1, T, T + 1) if T < 200 else (1, T - 1, T + 1)
        for b in bs:
            m = make(2)
            st = au.states(())
            tr = {"case": case, "stream": "%r x %d, then %r" % (hi, b, lo)}
            cov.trace()
            for t in range(b + T + 3):
                p = hi if t < b else lo
                m.fit_partial(np.array(p))
                st = au.step(st, p)
                cov.step((case["geo"], T, b, t), "block")
                if T < 200 or t < 3 or abs(t - T) < 3 or abs(t - b) < 3 or t >= b + T - 2 or t % 64 == 0:
                    for x in (hi, lo, G[2]):
                        compare(m.score_partial(np.array(x)), au.values(st, x), 2, "score of %r after %d fits" % (x, t + 1), tr, cov)
        cov.sample({"case": case, "library tree states": len(au.store)})

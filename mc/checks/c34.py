"""C34: baseline models behave as specified."""
import itertools

from mc.core import Violation, reset_rng
from mc.util import num, primitive_words

BOUNDS = {
    "quick": "perfect model: all words of length <= 9 over {fit 0, fit 1, fit -2.5, score} (never scoring an empty queue), all words of length 6 with fit_score and rejected fits, label types int, float, bool, NumPy, string-free; queues to 2000; "
             "null and random model: all words of length 6 over {fit, score, fit_score} x 3 inputs (arrays, NaN, None); random model under 20 seeds x 200 draws, its stream compared across different inputs, and with both global generators forced to every extreme output word (all zeros, all ones, every single bit set or cleared); batch calls; instances of 0 to 5000 features and of every type, 3000 readings",
    "thorough": "as quick with words of length 11 and queues to 20000",
}
ASSUMPTIONS = ["scoring an empty queue is out of scope"]
TECHNIQUE = "bounded exhaustive exploration of call words on the real code against a queue"


def cases(tier):
    q = tier == "quick"
    for f in itertools.product("abcS", repeat=2):
        if f[0] != "S":
            yield {"mode": "queue", "first": "".join(f), "len": 9 if q else 11}
    yield {"mode": "mixed", "len": 6 if q else 7}
    yield {"mode": "types"}
    yield {"mode": "long", "n": 2000 if q else 20000}
    yield {"mode": "null", "len": 5}
    yield {"mode": "random", "len": 5}
    for b in range(4):
        yield {"mode": "seeds", "from": 5 * b}
    yield {"mode": "extreme"}
    yield {"mode": "sizes", "n": 3000 if q else 30000}


def untemper(y):
    """Inverse of the Mersenne Twister's output function."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x


def force(word):
    """Both global generators deliver the given 32-bit word again and again."""
    import random
    import numpy as np
    k = untemper(word)
    np.random.set_state(("MT19937", np.full(624, k, dtype=np.uint32), 0, 0, 0.0))
    random.setstate((3, tuple([k] * 624) + (0,), None))


LAB = {"a": 0, "b": 1, "c": -2.5}


def run(case, cov):
    import numpy as np
    from pysad.models import NullModel, PerfectModel, RandomModel
    x = np.array([0.5, 1.0])

    def eq(got, want, what, tr):
        cov.comp()
        cov.outcome(str(want))
        if not (type(got) is not str and num(got) == want):
            raise Violation("%s is %r, expected %r" % (what, got, want), tr)
    if case["mode"] == "queue":
        def rec(w, n):
            # replay the word, checking every score; extend
            m, q = PerfectModel(), []
            tr = {"calls": w}
            cov.trace()
            for k, c in enumerate(w):
                if c == "S":
                    eq(m.score_partial(x), q.pop(0), "score %d" % k, tr)
                else:
                    if m.fit_partial(x, LAB[c]) is not m:
                        raise Violation("fit_partial does not return the model", tr)
                    q.append(LAB[c])
            while q:
                eq(m.score_partial(x), q.pop(0), "score of the rest", tr)

        for w in itertools.product("abcS", repeat=case["len"] - 2):
            w = case["first"] + "".join(w)
            h = 0
            ok = True
            for c in w:
                h += -1 if c == "S" else 1
                if h < 0:
                    ok = False
                    break
            if ok and w.count("c") <= 3:
                cov.step(("q", w[:-1][-5:]), w[-1])
                rec(w, 0)
        cov.sample({"calls": case["first"] + "..."})
    elif case["mode"] == "mixed":
        for w in itertools.product(("a", "b", "S", "P0", "P1", "R", "RP"), repeat=case["len"]):
            m, q = PerfectModel(), []
            tr = {"calls": w}
            cov.trace()
            for k, c in enumerate(w):
                cov.step(("m", tuple(q)), c)
                if c == "S":
                    if not q:
                        break
                    eq(m.score_partial(x), q.pop(0), "score %d" % k, tr)
                elif c[0] == "P":
                    q.append(int(c[1]))
                    eq(m.fit_score_partial(x, int(c[1])), q.pop(0), "fit_score %d" % k, tr)
                elif c[0] == "R":
                    try:
                        r = m.fit_partial(x, None) if c == "R" else m.fit_score_partial(x, None)
                    except ValueError:
                        r = "rejected"
                    if not (isinstance(r, str) and r == "rejected"):
                        raise Violation("a missing label was accepted", tr)
                else:
                    m.fit_partial(x, LAB[c])
                    q.append(LAB[c])
            else:
                for v in q:
                    eq(m.score_partial(None), v, "score of the rest", tr)
        cov.sample(tr)
    elif case["mode"] == "types":
        labs = [0, 1, 2, -1, 0.25, True, False, np.int32(1), np.int64(0), np.float32(0.5), np.float64(1e300), np.bool_(True), 10 ** 9, 1e-300]
        for a, b, c in itertools.product(range(len(labs)), repeat=3):
            m = PerfectModel()
            tr = {"labels": [repr(labs[i]) for i in (a, b, c)]}
            cov.trace()
            cov.step(("t", a, b), c)
            m.fit_partial(x, labs[a])
            m.fit_partial(None, labs[b])
            eq(m.score_partial(x), float(labs[a]), "first score", tr)
            m.fit_partial("ignored", labs[c])
            eq(m.score_partial(x), float(labs[b]), "second score", tr)
            eq(m.score_partial(x), float(labs[c]), "third score", tr)
        for n in range(1, 6):
            for y in itertools.product((0, 1, 3), repeat=n):
                X, ya = np.ones((n, 2)), np.array(y)
                got = PerfectModel().fit_score(X, ya)
                got2 = PerfectModel().fit(X, ya).score(X)
                cov.trace(2)
                for g in (got, got2):
                    cov.comp(n)
                    if [float(v) for v in g] != [float(v) for v in y]:
                        raise Violation("batch scores %r for labels %r" % (list(g), y), None)
        for call in ("fit", "fit_score"):
            try:
                getattr(PerfectModel(), call)(np.ones((2, 2)))
            except ValueError:
                continue
            raise Violation("%s without labels was accepted" % call, None)
        cov.sample(tr)
    elif case["mode"] == "long":
        n = case["n"]
        for per in primitive_words((0, 1), 3):
            m = PerfectModel()
            cov.trace()
            for t in range(n):
                m.fit_partial(x, per[t % len(per)] + t * 2)
            for t in range(n):
                eq(m.score_partial(x), per[t % len(per)] + t * 2, "score %d of a queue of %d" % (t, n), {"period": per})
                if t % 10 == 0:
                    m.fit_partial(x, -t)
            for t in range(0, n, 10):
                eq(m.score_partial(x), -t, "score of a late label", {"period": per})
            cov.step(("l", per), n)
        cov.sample({"n": n})
    elif case["mode"] in ("null", "random"):
        ins = [x, np.array([np.nan, -1e300]), None]
        syms = [(o, i) for o in "FSP" for i in range(3)]
        for w in itertools.product(syms, repeat=case["len"]):
            m = NullModel() if case["mode"] == "null" else RandomModel()
            reset_rng(2)
            tr = {"model": case["mode"], "calls": w}
            cov.trace()
            for o, i in w:
                cov.step((case["mode"], w[:2]), (o, i))
                if o == "F":
                    if m.fit_partial(ins[i], (None, 0, 1)[i]) is not m:
                        raise Violation("fit_partial does not return the model", tr)
                    continue
                g = num(m.score_partial(ins[i]) if o == "S" else m.fit_score_partial(ins[i], (None, 0, 1)[i]))
                cov.comp()
                if case["mode"] == "null":
                    eq(g, 0.5, "score", tr)
                elif not 0 <= g < 1:
                    raise Violation("score %r is not in [0, 1)" % g, tr)
        for n in range(1, 5):
            m = NullModel() if case["mode"] == "null" else RandomModel()
            for g in (m.fit_score(np.ones((n, 2))), m.score(np.ones((n, 2)))):
                if g.shape != (n,) or any((v != 0.5) if case["mode"] == "null" else not 0 <= v < 1 for v in g):
                    raise Violation("batch scores %r" % (g,), {"model": case["mode"]})
        cov.sample(tr)
    elif case["mode"] == "sizes":
        # constant scores for instances of every size, type and magnitude, and for long lives
        shapes = [np.full(d, v) for d in (0, 1, 2, 10, 100, 1000, 5000) for v in (0.0, 1.0, -1e308, np.inf)] + [np.arange(3), np.array(2.5), np.ones((2, 3)), [1.0, 2.0], 3.0, "text", {"a": 1}]
        for mk in (NullModel, RandomModel):
            m = mk()
            cov.trace()
            for k, a in enumerate(shapes * 3):
                cov.step((mk.__name__, k), "fit+score")
                m.fit_partial(a, k % 2)
                for g in (m.score_partial(a), m.fit_score_partial(a)):
                    cov.comp()
                    if not (num(g) == 0.5 if mk is NullModel else 0 <= num(g) < 1):
                        raise Violation("%s scores %r" % (mk.__name__, g), {"instance": repr(a)[:100], "call": k})
            for k in range(case["n"]):
                m.fit_partial(x)
                g = num(m.score_partial(x))
                cov.comp()
                if not (g == 0.5 if mk is NullModel else 0 <= g < 1):
                    raise Violation("%s scores %r" % (mk.__name__, g), {"fits": k})
            p = PerfectModel()
            for k, a in enumerate(shapes):
                p.fit_partial(a, k)
            for k, a in enumerate(shapes[::-1]):
                eq(p.score_partial(a), k, "score", {"instances": len(shapes)})
        cov.sample({"instances": len(shapes), "life": case["n"]})
    elif case["mode"] == "extreme":
        words = [0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xffffffe0, 0xffff0000, 0xfff00000] + [1 << i for i in range(32)] + [0xffffffff ^ (1 << i) for i in range(32)]
        for wd in words:
            for calls in itertools.product("SP", repeat=4):
                force(wd)
                m = RandomModel()
                tr = {"generator_output": hex(wd), "calls": calls}
                cov.trace()
                for t, o in enumerate(calls):
                    g = num(m.score_partial(x) if o == "S" else m.fit_score_partial(x))
                    cov.comp()
                    cov.step(("x", wd, t), o)
                    if not 0 <= g < 1:
                        raise Violation("random score %r is outside [0, 1)" % g, tr)
            force(wd)
            g = RandomModel().fit_score(np.ones((5, 2)))
            if any(not 0 <= v < 1 for v in g):
                raise Violation("batch of random scores %r leaves [0, 1)" % (g,), tr)
        reset_rng(0)
        cov.sample(tr)
    else:
        for s in range(case["from"], case["from"] + 5):
            seqs = []
            for ins in (lambda t: x, lambda t: np.array([t, -t, 1e9]), lambda t: None):
                reset_rng(s)
                m = RandomModel()
                g = []
                for t in range(200):
                    if t % 3 == 0:
                        m.fit_partial(ins(t))
                    g.append(num(m.score_partial(ins(t))))
                seqs.append(g)
                cov.trace()
            cov.step("seed", s)
            cov.comp(600)
            if any(not 0 <= v < 1 for g in seqs for v in g):
                raise Violation("a random score is outside [0, 1)", {"seed": s})
            if seqs[0] != seqs[1] or seqs[0] != seqs[2]:
                raise Violation("random scores depend on the input", {"seed": s})
            if len(set(seqs[0])) < 190 or min(seqs[0]) > 0.1 or max(seqs[0]) < 0.9:
                raise Violation("random scores do not cover [0, 1)", {"seed": s, "scores": seqs[0][:10]})
        cov.sample({"seeds": 5})

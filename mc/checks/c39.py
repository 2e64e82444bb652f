"""C39: different objects used from different threads do not influence each other.

Two real threads run under a controlled scheduler: a trace function that counts the executed lines (or
bytecode instructions) of the code under /repo/pysad hands the execution over at chosen points, so that
every schedule with a bounded number of preemptions is executed once.
"""
import dis
import sys
import threading

from mc import zoo
from mc.checks import c38
from mc.core import REPO, Violation, reset_rng
from mc.util import same

BOUNDS = {
    "quick": "about 270 pairs of objects (every component that draws no random numbers in its calls with a second object of the same class and settings, with one of another setting, and with two of other classes), each thread making 1-3 calls (fit, evaluate, fit-and-evaluate, batch call, construction); for both orders "
             "all schedules with one preemption at any line of pysad (same class and settings: any visible bytecode instruction, that is one that is not purely local), a line or instruction in a loop taken at its first, for some calls also second, and last execution; same class and settings: the schedules with two preemptions at two such lines as well (120 per pair, taken evenly)",
    "thorough": "one preemption at any visible bytecode instruction for all pairs, loops up to 12 executions and the last one; two preemptions at any two lines, up to 4000 schedules per pair",
}
ASSUMPTIONS = ["calls into numpy, scipy, scikit-learn, PyOD, combo and statsmodels are taken as atomic", "at most two threads, at most two preemptions"]
TECHNIQUE = "stateless model checking of the real code under a controlled thread scheduler, all schedules up to a preemption bound"
PRE = REPO + "/pysad/"
# these draw from the global random generators inside fits or evaluations: two users share that stream by design
DRAWS = ("RandomModel", "RobustRandomCutForest", "IForestASD", "IForestASD-init", "RefWindow-IForest", "Inqmad", "AverageOfMaximum", "MaximumOfAverage", "MaximumOfAverage-boot")
WAIT = 3.0
INVISIBLE = {dis.opmap[n] for n in ("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "LOAD_CONST", "STORE_FAST", "POP_TOP", "RESUME", "NOP", "COPY", "SWAP", "PUSH_NULL", "CACHE", "JUMP_FORWARD", "JUMP_BACKWARD", "RETURN_CONST", "RETURN_VALUE",
                                    "POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "BUILD_TUPLE", "BUILD_LIST", "BUILD_MAP", "BUILD_SLICE", "UNPACK_SEQUENCE", "IS_OP", "KW_NAMES", "EXTENDED_ARG", "END_FOR", "MAKE_FUNCTION", "UNARY_NOT") if n in dis.opmap}


class Sched:
    """Runs two bodies in two threads; ``plan`` = event counts at which the running thread hands over."""

    def __init__(self, bodies, plan, op):
        self.bodies, self.plan, self.op = bodies, list(plan), op
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.n, self.done = [0, 0], [False, False]
        self.res, self.free, self.where, self.log = [None, None], False, [], None

    def trace(self, who):
        def local(frame, event, arg):
            if event == ("opcode" if self.op else "line"):
                if self.op and frame.f_code.co_code[frame.f_lasti] in INVISIBLE:
                    return local        # only the thread itself can see what this instruction does
                self.n[who] += 1
                if self.log is not None:
                    self.log.append((frame.f_code, frame.f_lasti))
                if self.plan and self.plan[0][0] == who and self.n[who] == self.plan[0][1] and not self.free:
                    self.plan.pop(0)
                    if not self.done[1 - who]:
                        self.where.append("%s:%s" % (frame.f_code.co_filename[len(REPO) + 1:], frame.f_lineno))
                        self.switch(who)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PRE):
                return None
            if self.op:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return glob

    def switch(self, who):
        self.sem[1 - who].release()
        if not self.sem[who].acquire(timeout=WAIT):
            self.free = True        # the other one waits for a lock that this one holds

    def thread(self, who):
        self.sem[who].acquire()
        sys.settrace(self.trace(who))
        try:
            self.res[who] = ("value", self.bodies[who]())
        except BaseException as e:  # noqa: reported as the outcome of the body
            self.res[who] = ("exception", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            self.done[who] = True
            self.sem[1 - who].release()

    def run(self, first=0):
        ts = [threading.Thread(target=self.thread, args=(w,), daemon=True) for w in (0, 1)]
        for t in ts:
            t.start()
        self.sem[first].release()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise Violation("two calls on different objects in two threads do not both return", {"switched_at": self.where})
        return self.res


def _num(r):
    import numpy as np
    return None if r is None else np.array(r, dtype=float).ravel().tolist()


class Obj:
    """One of the two objects: a component of c38.comps() whose item counter starts at ``shift``."""

    def __init__(self, c, shift, mk=None, draws=True):
        self.c, self.shift, self.mk, self.draws = c, shift, mk or c.mk, draws

    def key(self, k):
        # items of the prefix in order (k < n), then shifted ones
        return k if k < self.c.n - 6 else k + self.shift

    def make(self, cut):
        reset_rng(7 + self.shift)
        o = self.mk()
        for k in range(cut):
            reset_rng(100 + k)
            self.c._do(o, "P" if k % 3 else "F", self.key(k))
        return o

    def body(self, o, word, cut):
        def f():
            x, out = o, []
            for j, op in enumerate(word):
                if op == "M":
                    x = self.mk()
                    for k in range(3):
                        out.append(_num(self.c._do(x, "P", self.key(k))))
                elif op == "B":
                    out.append(_num(self.batch(x, cut + j)))
                else:
                    out.append(_num(self.c._do(x, op, self.key(cut + j))))
            return out
        return f

    def batch(self, x, k):
        import numpy as np
        val = self.c.val
        X = np.array([val(k + self.shift), val(k + self.shift + 1)])
        if self.c.fam == "models":
            y = np.array([1, 0]) if self.c.labels else None
            return list(x.fit_score(X, y)) + ([] if self.c.labels else list(x.score(X[::-1])))
        return list(np.ravel(x.fit_transform(X))) + list(np.ravel(x.transform(X[::-1])))

    def after(self, o, cut):
        return [_num(self.c._do(o, op, self.key(cut + j))) for j, op in enumerate("TPT")]


def _streams():
    import numpy as np
    import pandas as pd
    from pysad import utils as U

    def arr(k):
        return np.arange(6.0).reshape(3, 2) * (k % 3 + 1) + k, np.array([k % 2, 1 - k % 2, 1])

    def a_do(o, op, k):
        X, y = arr(k)
        if op == "F":
            return None
        return [v for x in o.iter(X) for v in x] if op == "T" else [v for x, l in o.iter(X, y) for v in list(x) + [l]]

    def p_do(o, op, k):
        X, y = arr(k)
        X, y = pd.DataFrame(X, columns=["a", "b"]), pd.Series(y)
        if op == "F":
            return None
        return [v for x in o.iter(X) for v in np.ravel(x)] if op == "T" else [v for x, l in o.iter(X, y) for v in list(np.ravel(x)) + [l]]

    def mm_do(o, op, k):
        X, _ = arr(k)
        return None if op == "F" else [v for r in U.get_minmax_array(X) for v in r] + list(U.get_minmax_scalar(X))
    yield c38.Comp("streams/ArrayStreamer", lambda: U.ArrayStreamer(shuffle=False), 8, a_do)
    yield c38.Comp("streams/PandasStreamer", lambda: U.PandasStreamer(shuffle=False), 8, p_do)
    yield c38.Comp("streams/minmax", lambda: None, 8, mm_do)


def comps():
    d = {}
    for n, c in c38.comps().items():
        if n.split("/")[1] in DRAWS or "Long-" in n or "Running40" in n or n == "models/KNNCAD" or n.endswith(("Window60", "200")):
            continue
        d[n] = c
        if n.startswith("metrics/"):
            c.cost = 4
    for c in _streams():
        c.cost = 1
        d[c.name] = c
    for fam in ("models", "transformers", "postprocessors", "ensemblers"):
        for n, e in getattr(zoo, fam)().items():
            c = d.get(fam + "/" + n)
            if c is None:
                continue
            c.rng, c.fam, c.labels = e.rng, fam, e.labels

            def val(k, e=e, fam=fam):
                import numpy as np
                v = e.alpha[(k * k + k // 2) % 3]
                return float(v) if fam == "postprocessors" else np.array(v, dtype=float)
            c.val = val
    for c in d.values():
        if not hasattr(c, "rng"):
            c.rng, c.fam, c.labels = c.name.startswith("models/KNNCAD") and False, None, False
    return d


def pairs():
    """(name of A, name of B, number of the variant of B's class or None)"""
    cs, vs = comps(), zoo.variants()
    names = list(cs)
    for n in names:
        yield n, n, None
        for v in range(len(vs.get(n.split("/")[1], []))):
            yield n, n, v
    other = [n for n in names if "KNNCAD" not in n and "LocalOutlier" not in n]
    for i, n in enumerate(other):
        for s in (1, 5):
            yield n, other[(i + s) % len(other)], None


def cases(tier):
    q = tier == "quick"
    for a, b, v in pairs():
        plain = a == b and v is None
        for w in range(4 if a == b and (v is None or not q) else 1):
            yield {"a": a, "b": b, "variant": v, "words": w, "cap2": 4000 if not q else 120 if plain else 0, "op": plain or not q, "loops": 12 if not q else 1 if w else 2}


def _words(A, i):
    if i == 0:
        return ("P", "T"), ("P", "T")
    if i == 1 and A.c.cost < 6:
        return ("T", "F"), ("T", "T")
    if i == 2 and A.c.fam and A.c.cost < 40:
        return ("B",), ("B",)
    if i == 3 and not A.c.rng and A.c.cost < 6:
        return ("M",), ("M",)
    return None


def points(log, loops):
    """Event numbers (from 1) of the first ``loops`` and the last execution of every place."""
    seen, last, out = {}, {}, set()
    for i, p in enumerate(log):
        seen[p] = seen.get(p, 0) + 1
        last[p] = i + 1
        if seen[p] <= loops:
            out.add(i + 1)
    return sorted(out | set(last.values()))


def run(case, cov):
    cs = comps()
    A = Obj(cs[case["a"]], 0)
    mk = None if case["variant"] is None else zoo.variants()[case["a"].split("/")[1]][case["variant"]]
    B = Obj(cs[case["b"]], 4 if case["b"].startswith("metrics/") else 1, mk)
    cost = max(A.c.cost, B.c.cost)
    objs, ev, late = (A, B), None, 0
    cuts = tuple(max(2 if o.c.fam else 1, o.c.n - 6) + (4 if o.shift == 4 else 0) for o in objs)
    words = _words(A, case["words"])
    if words:
        def fresh():
            return [o.make(c) for o, c in zip(objs, cuts)]

        want, ev = [], [[None, None], [None, None]]
        for w in (0, 1):
            o = fresh()[w]
            r = objs[w].body(o, words[w], cuts[w])()
            want.append((r, objs[w].after(o, cuts[w] + (0 if words[w] == ("M",) else len(words[w])))))
            cov.outcome(str(want[-1])[:200])
            for op in (0, 1):
                old = -1
                for _ in range(5):      # the interpreter reports instructions of a function reliably from its second traced call on
                    o = fresh()[w]
                    s = Sched([objs[w].body(o, words[w], cuts[w]), lambda: None], [], op)
                    s.log = []
                    s.run()
                    if s.n[0] == old:
                        break
                    old = s.n[0]
                ev[op][w] = points(s.log, case["loops"] if op or case["loops"] < 3 else 3)

        def one(plan, op, first):
            o = fresh()
            s = Sched([objs[w].body(o[w], words[w], cuts[w]) for w in (0, 1)], plan, op)
            res = s.run(first)
            cov.trace()
            tr = {"first_thread": [objs[0].c.name, words[0], "item offset 0"], "second_thread": [objs[1].c.name, words[1], "item offset 1", "variant %s" % case["variant"]],
                  "switched_at": s.where, "plan": plan, "counted": "instructions" if op else "lines", "starts": first}
            for w in (0, 1):
                if res[w][0] == "exception":
                    raise Violation("%s in one thread while %s is used in another one: %s" % (objs[w].c.name, objs[1 - w].c.name, res[w][1]), tr)
                got = (res[w][1], objs[w].after(o[w], cuts[w] + (0 if words[w] == ("M",) else len(words[w]))))
                cov.comp(len(got[0]) + 3)
                if not same_all(got, want[w]):
                    raise Violation("%s gives %r while %s is used in another thread, alone it gives %r" % (objs[w].c.name, got, objs[1 - w].c.name, want[w]), tr)
            return s.free
        base = (case["a"], case["b"], case["variant"], words)
        for first in (0, 1):
            op = 1 if case["op"] and cost < 40 else 0
            for i in ev[op][first]:
                cov.step(base + (first, "one"), (op, i))
                late += one([(first, i)], op, first)
                if late > 2:
                    return      # the code under test locks: nothing more to see by preemption
        if cost < 4 and case["cap2"]:
            e0, e1 = ev[0]
            tot = len(e0) * len(e1)
            step = max(1, -(-2 * tot // case["cap2"]))
            for first in (0, 1):
                for q in range(first % step, tot, step):
                    i, j = e0[q // len(e1)], e1[q % len(e1)]
                    plan = [(0, i), (1, j)] if first == 0 else [(1, j), (0, i)]
                    cov.step(base + (first, "two", i), j)
                    late += one(plan, 0, first)
                    if late > 2:
                        return
        cov.sample({"objects": [case["a"], case["b"]], "events": [[len(x) for x in e] for e in ev]})


def same_all(x, y):
    if isinstance(x, (tuple, list)) and x and isinstance(x[0], (tuple, list, type(None))):
        return len(x) == len(y) and all(same_all(a, b) for a, b in zip(x, y))
    if x is None or y is None:
        return x is y
    return len(x) == len(y) and (len(x) == 0 or not isinstance(x[0], (list, tuple, type(None))) and same(x, y))

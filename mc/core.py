"""Bounded exhaustive explorer for pysad: runner, coverage accounting, evidence, replay.

A check module (mc/checks/cXX.py) defines

    TITLE, BOUNDS (text), ASSUMPTIONS (list of text)
    cases(tier) -> iterable of JSON-able dicts      (the partition of the explored space)
    run(case, cov)                                  (explores one part exhaustively)

``run`` raises Violation on the first disagreement.  Any other exception that escapes from
the code under test is a violation as well (the unchanged tree raises none).
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CASE_TIMEOUT = {"quick": 400, "thorough": 3600}
ACC_CAP = 1500000   # per process cap on remembered state hashes (memory guard, reported)


class Violation(Exception):
    def __init__(self, msg, trace=None, key=None):
        super().__init__(msg)
        self.msg, self.trace, self.key = msg, trace, key

    def __reduce__(self):
        return (Violation, (self.msg, self.trace, self.key))


class Cov:
    """Measured coverage of one run."""

    def __init__(self):
        self.st, self.tr, self.out = set(), set(), set()
        self.traces = self.comps = 0
        self.capped = False
        self.samples = []
        self.findings = []

    def state(self, s):
        if len(self.st) < ACC_CAP:
            self.st.add(hash(s))
        else:
            self.capped = True

    def step(self, s, op):
        """A transition: operation ``op`` taken in abstract state ``s``."""
        h = hash(s)
        if len(self.st) < ACC_CAP:
            self.st.add(h)
            self.tr.add(hash((h, op)))
        else:
            self.capped = True

    def outcome(self, o):
        if len(self.out) < 200000:
            self.out.add(hash(o))

    def trace(self, n=1):
        self.traces += n

    def comp(self, n=1):
        self.comps += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def finding(self, msg, trace, key):
        self.findings.append((msg, trace, key))

    def merge(self, o):
        self.st |= o.st
        self.tr |= o.tr
        self.out |= o.out
        self.traces += o.traces
        self.comps += o.comps
        self.capped |= o.capped
        self.findings += o.findings
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)


def reset_rng(seed=0):
    import random
    import numpy as np
    random.seed(seed)
    np.random.seed(seed)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class _Timeout(Exception):
    pass


def _alarm(*_):
    raise _Timeout()


_MOD = None
_TIER = "quick"


def _quiet():
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    warnings.simplefilter("ignore")
    try:
        import numpy as np
        np.seterr(all="ignore")
    except Exception:
        pass


def _execute(case):
    cov = Cov()
    reset_rng(0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT[_TIER])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _MOD.run(case, cov)
    except Violation as v:
        return cov, (v.msg, jsonable(v.trace), v.key)
    except _Timeout:
        return cov, ("a call did not return within %d s" % CASE_TIMEOUT[_TIER], None, None)
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa: an escaping exception is observable behaviour
        tb = traceback.format_exc()
        return cov, ("unexpected %s: %s" % (type(e).__name__, e), {"traceback": tb[-3000:]}, None)
    finally:
        signal.alarm(0)
    return cov, None


def _worker(arg):
    i, case = arg
    _quiet()
    cov, v = _execute(case)
    return i, cov, v


def load_known(prop):
    """(key, text) of the findings listed for this property in KNOWN_FINDINGS.txt."""
    known = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:") and ("property=%s " % prop) in line + " ":
                key = None
                for w in line.split():
                    if w.startswith("key="):
                        key = w[4:]
                text = line.split(key, 1)[1].strip() if key else line
                known.append((key, text))
    return known


def check(prop, tier, seed):
    global _MOD, _TIER
    t0 = time.time()
    _TIER = tier
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    _MOD = importlib.import_module("mc.checks.%s" % prop.lower())
    known = dict(load_known(prop))
    cov = Cov()
    bad, hit = None, {}
    scratch = tempfile.mkdtemp(prefix="mc_")
    tempfile.tempdir = scratch     # every scratch file of the exploration goes away with this folder
    try:
        cases = list(_MOD.cases(tier))
    except Exception as e:   # building the components already fails
        cases = []
        bad = (None, "unexpected %s while preparing the exploration: %s" % (type(e).__name__, e), {"traceback": traceback.format_exc()[-3000:]}, None)
    nproc = min(int(os.environ.get("MC_PROCS", "8")), max(1, len(cases)))
    ctx = mp.get_context("fork")
    nproc = max(1, nproc)
    pool = ctx.Pool(nproc, maxtasksperchild=getattr(_MOD, "TASKS_PER_CHILD", None))
    done = 0
    try:
        it = pool.imap_unordered(_worker, list(enumerate(cases)), chunksize=1)
        stall = CASE_TIMEOUT[tier] + 60
        while done < len(cases):
            try:
                i, c, v = it.next(timeout=stall)
            except StopIteration:
                break
            except mp.TimeoutError:
                bad = (None, "exploration stalled: a call neither returned nor raised", None, None)
                break
            done += 1
            cov.merge(c)
            vs = [(m, t, k) for (m, t, k) in c.findings]
            if v:
                vs.append(v)
            for msg, trace, key in vs:
                if key is not None and key in known:
                    hit.setdefault(key, (i, msg, trace))
                else:
                    bad = (i, msg, trace, key)
                    break
            if bad:
                break
    finally:
        pool.terminate()
        pool.join()
        shutil.rmtree(scratch, ignore_errors=True)

    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(cov.st), "transitions": len(cov.tr),
            "traces_validated_against_impl": cov.traces,
            "comparisons": cov.comps, "distinct_outcomes": len(cov.out),
            "parts_explored": done, "parts_total": len(cases),
            "samples": jsonable(cov.samples) or ["(none)"],
            "exhaustive": bad is None and done == len(cases),
            "state_accounting_capped": cov.capped,
            "bounds": _MOD.BOUNDS if isinstance(_MOD.BOUNDS, str) else _MOD.BOUNDS[tier],
            "validation": "every trace is executed on the real code imported from /repo and "
                          "compared with the reference at each step; there is no separate model run",
        },
        "assumptions": list(getattr(_MOD, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": 1 if bad else 0,
        "known_findings": sorted(hit),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k] or hit[k][1]))
    if bad:
        i, msg, trace, key = bad
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        case = cases[i] if i is not None else None
        body = {"property": prop, "tier": tier, "case": jsonable(case), "what": msg,
                "trace": trace, "finding_key": key}
        h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print("property %s violated: %s" % (prop, msg))
        if trace:
            print("trace: %s" % json.dumps(trace)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d comparisons=%d outcomes=%d parts=%d wall=%.1fs"
          % (prop, tier, len(cov.st), len(cov.tr), cov.traces, cov.comps, len(cov.out), done, wall))
    return 0


def replay(path):
    """Re-executes the violating part of a recorded run; exit 1 if it fails again."""
    global _MOD, _TIER
    sys.path.insert(0, REPO)
    body = json.load(open(path))
    _MOD = importlib.import_module("mc.checks.%s" % body["property"].lower())
    _TIER = body["tier"]
    os.environ["MC_REPLAY"] = "1"
    cov, v = _execute(body["case"])
    if v is None and cov.findings:
        v = cov.findings[0]
    if v is None:
        print("replay: property %s holds on this part" % body["property"])
        return 0
    print("replay: property %s violated: %s\ntrace: %s" % (body["property"], v[0], json.dumps(jsonable(v[1]))))
    return 1


def main(argv):
    if argv and argv[0] == "replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    return check(prop, tier, seed)

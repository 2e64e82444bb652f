"""Builds /verif/seeded/<id>/ from tools/seedspecs.py after confirming each change in a scratch copy of /repo.

usage: mkseed.py [--tests] id ...      (no id: every spec)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seedspecs import SPECS  # noqa

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: the behaviour is as promised
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def one(sid, spec, tests):
    wt = tempfile.mkdtemp(prefix="seed_%s_" % sid)
    try:
        repo = os.path.join(wt, "repo")
        subprocess.check_call(["cp", "-a", "/repo", repo])
        d = os.path.join(V, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(spec["demo"].lstrip("\n"))
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)

        def demo():
            return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
        r0 = demo()
        for f, a, b in spec["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(a) != 1:
                return sid, "edit of %s: %d matches" % (f, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r1 = demo()
        msg = []
        if r0.returncode != 0:
            msg.append("demo fails on the unchanged tree: " + (r0.stderr or r0.stdout)[-600:])
        if r1.returncode == 0:
            msg.append("demo passes with the patch")
        elif "Error" in r1.stderr and "AssertionError" not in r1.stderr:
            msg.append("(demo ends with) " + r1.stderr[-300:])
        if tests:
            out = os.path.join(wt, "j.xml")
            env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu",
                       MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                            "-o", "junit_family=xunit2", "--junitxml=" + out, "tests"], cwd=repo, env=env, capture_output=True)
            import xml.etree.ElementTree as ET
            bad = [c.get("classname") + "::" + c.get("name") for c in ET.parse(out).getroot().iter("testcase")
                   if c.find("failure") is not None or c.find("error") is not None]
            msg.append("tests: %s" % ("FAILED " + ", ".join(bad[:4]) if bad else "pass"))
        return sid, "; ".join(msg) or "ok"
    except Exception as e:
        return sid, repr(e)
    finally:
        shutil.rmtree(wt)


def main():
    tests = "--tests" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or list(SPECS)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for sid, m in ex.map(lambda i: one(i, SPECS[i], tests), ids):
            print(sid, SPECS[sid]["property"], m, flush=True)


main()

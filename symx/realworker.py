"""Runs harnesses concretely against the unmodified package (JSON lines on stdio).
Started with the repository's own interpreter."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    from symx import harness

    out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    os.dup2(2, 1)       # stray prints of the code under test must not break the protocol
    from symx import sched

    sched.install()
    import pycep

    assert os.path.realpath(pycep.__file__).startswith(os.path.realpath(REPO) + os.sep), pycep.__file__
    for line in sys.stdin:
        req = json.loads(line)
        mod = importlib.import_module(req["module"])
        f = [x for x in harness.REGISTRY[req["module"]] if x.h_name == req["harness"]][0]
        res = harness.run_concrete(f, req["witness"], req.get("tier", "quick"))
        out.write(json.dumps(res, ensure_ascii=True) + "\n")
        out.flush()


main()

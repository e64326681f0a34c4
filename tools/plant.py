#!/usr/bin/env python3
"""Writes and tries the planted bugs of tools/bugs.py: plant.py write [ids] | plant.py try [ids].

"try" applies each patch to /repo, runs the stable tests, the demonstration with and without the patch and the check of
the property, and undoes the patch."""
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from bugs import BUGS  # noqa: E402

REPO, SCRATCH = "/repo", "/tmp/plant_wt"
PY = "/opt/venv/bin/python"


def run(cmd, cwd=REPO, timeout=1000, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {})))
    return p.returncode, p.stdout.decode(errors="replace")


def write(b):
    d = os.path.join(root, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    if os.path.exists(SCRATCH):
        run("git -C %s worktree remove --force %s" % (REPO, SCRATCH))
    rc, out = run("git -C %s worktree add --detach %s HEAD" % (REPO, SCRATCH))
    assert rc == 0, out
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(SCRATCH, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, out = run("git -C %s diff" % SCRATCH)
        open(os.path.join(d, "patch.diff"), "w").write(out)
    finally:
        run("git -C %s worktree remove --force %s" % (REPO, SCRATCH))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def attempt(b, checks=None):
    """In a scratch worktree, so that /repo stays as it is."""
    d = os.path.join(root, "seeded", b["id"])
    wt = "/tmp/plant_" + b["id"]
    if os.path.exists(wt):
        run("git -C %s worktree remove --force %s" % (REPO, wt))
    rc, out = run("git -C %s worktree add --detach %s HEAD" % (REPO, wt))
    assert rc == 0, out
    env = {"PYTHONPATH": wt, "SDL_VIDEODRIVER": "dummy", "SDL_AUDIODRIVER": "dummy", "MPLBACKEND": "Agg",
           "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
    try:
        clean, out0 = run("bash %s/demo.sh" % d, cwd=wt, env=env)
        rc, out = run("git apply %s/patch.diff" % d, cwd=wt)
        assert rc == 0, out
        rc, tests = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=tests/envs/test_time.py", "tests"],
                        cwd=wt, env=dict(env, PYTHONHASHSEED="0"))
        broken, out1 = run("bash %s/demo.sh" % d, cwd=wt, env=env)
        results = []
        for c in checks or [b["property"]]:
            t = time.time()
            rc, out = run([PY, "check.py", c], cwd=root, env={"VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_REPO": wt})
            hits = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % c)]
            clauses = [l.split()[1] for l in out.splitlines() if l.startswith("  clause ")]
            results.append((c, rc, len(hits), round(time.time() - t), clauses))
            last = out
    finally:
        run("git -C %s worktree remove --force %s" % (REPO, wt))
    print("%-28s demo clean=%d patched=%d  tests=%s  checks=%s" % (b["id"], clean, broken, tests.strip().splitlines()[-1], results), flush=True)
    if clean != 0:
        print(out0[-1500:])
    if not broken:
        print(out1[-1500:])
    if not any(r[2] and r[1] == 1 for r in results):
        print("   MISSED", last[-600:])


def summary(res):
    if isinstance(res, dict):
        return {k: (len(v) if hasattr(v, "__len__") and not isinstance(v, str) else v) for k, v in res.items()}
    return str(res)[:200]


if __name__ == "__main__":
    ids = sys.argv[2:]
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        if sys.argv[1] in ("write", "both"):
            write(b)
        if sys.argv[1] in ("try", "both"):
            attempt(b)

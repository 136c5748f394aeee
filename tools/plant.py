"""Planted bugs: make and try them in a scratch copy of /repo, never in /repo itself.

  plant.py make FILE.py   FILE.py defines id, property, needs, breaks, edits [(file, old, new)], demo
  plant.py try ID [Pxx]   does the patch apply to originals, do the tests pass, does the demo tell, does the check catch it
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "f298089"
DEMO = """#!/bin/sh
# run with cwd /repo
KERAS_BACKEND=jax JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD" \\
  exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="groco_mut_")
    shutil.rmtree(d)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def originals(patch):
    """lines of the original repository that the patch removes, out of all it removes"""
    n = m = 0
    f = None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            blame = sh(["git", "blame", "-s", f], cwd="/repo")[1].splitlines()
        elif line.startswith("@@"):
            k = int(re.match(r"@@ -(\d+)", line)[1])
        elif line.startswith("-") and f:
            m += 1
            n += blame[k - 1].startswith("^" + BASE) or blame[k - 1].lstrip("^").startswith(BASE)
            k += 1
        elif line.startswith(" "):
            k += 1
    return n, m


def make(path):
    bug = runpy.run_path(path)
    d = copy()
    try:
        for f, old, new in bug["edits"]:
            text = open(os.path.join(d, f)).read()
            assert text.count(old) == 1, (bug["id"], f, old, text.count(old))
            open(os.path.join(d, f), "w").write(text.replace(old, new))
        patch = sh(["git", "diff"], cwd=d)[1]
    finally:
        shutil.rmtree(d)
    out = os.path.join(HERE, "seeded", bug["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
    json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]),
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    return bug["id"]


def attempt(id, prop=None, check=True):
    src = os.path.join(HERE, "seeded", id)
    meta = json.load(open(os.path.join(src, "meta.json")))
    prop = prop or meta["property"]
    patch = open(os.path.join(src, "patch.diff")).read()
    d, s = copy(), tempfile.mkdtemp(prefix="groco_demo_")
    try:
        for f in os.listdir(src):
            if f not in ("meta.json", "patch.diff"):
                shutil.copy(os.path.join(src, f), s)
        n, m = originals(patch)
        base = sh(["sh", os.path.join(s, "demo.sh")], cwd=d)
        rc, out = sh(["git", "apply", os.path.join(src, "patch.diff")], cwd=d)
        assert rc == 0, out
        bad = sh(["sh", os.path.join(s, "demo.sh")], cwd=d)
        tests = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "tests"], cwd=d,
                   env=dict(KERAS_BACKEND="jax", JAX_PLATFORMS="cpu", PYTHONPATH=d))
        last = tests[1].strip().splitlines()[-1]
        print(f"{id}: original lines {n}/{m}; demo base {base[0]} patched {bad[0]}; tests {last}", flush=True)
        if base[0]:
            print(base[1][-600:])
        print("   demo:", (bad[1].strip().splitlines() or [""])[-1][:200])
        if "failed" in last:
            print("   ", "\n    ".join(x for x in tests[1].splitlines() if x.startswith("FAILED"))[:600])
        for p in prop.split(",") if check else []:
            rc, out = sh(["./check", p], cwd=HERE, env=dict(GROCO_REPO=d, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            lines = out.strip().splitlines()
            print(f"   {p}: exit {rc}", "CAUGHT" if rc == 1 and f"VIOLATION property={p}" in out else "MISSED", lines[-1][:160])
            print("     ", "\n      ".join(x[:150] for x in lines if " -- event" in x)[:480], flush=True)
    finally:
        shutil.rmtree(d)
        shutil.rmtree(s)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            attempt(make(f))
    else:
        attempt(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None)

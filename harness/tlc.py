"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class Machinery(Exception):
    """The machinery failed: no verdict."""


def run_java(args, env=None, timeout=800, cwd=None, heap="6g", workers=NPROC):
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers)] + args
    try:
        p = subprocess.run(cmd, cwd=cwd or os.path.join(HERE, "spec"), env={**os.environ, **(env or {})},
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(name, expect="ok", timeout=800):
    """Check a model; expect is "ok", or the name of the invariant that has to be violated."""
    rc, out = run_java(["-config", f"{name}.cfg", (name.split("__")[0]) + ".tla"], timeout=timeout)
    ok = "Model checking completed. No error has been found." in out
    gen, dist = counts(out)
    res = dict(model=name, generated=gen, distinct=dist, result="holds" if ok else "violated")
    if expect == "ok" and not ok:
        raise Machinery(f"model {name} does not hold:\n" + out[-3000:])
    if expect != "ok" and f"Invariant {expect} is violated" not in out:
        raise Machinery(f"model {name} should violate {expect}:\n" + out[-3000:])
    if gen == 0:
        raise Machinery(f"model {name} explored nothing:\n" + out[-3000:])
    return res


def behaviours(name, num, seed, depth=40, tag="HIST", timeout=300):
    """Behaviours of a model from TLC's simulator, as the model prints them."""
    rc, out = run_java(["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), "-config", f"{name}.cfg",
                        (name.split("__")[0]) + ".tla"], timeout=timeout, workers=1)
    found = re.findall(r'<<\s*"' + tag + r'",\s*("(?:[^"\\]|\\.)*")\s*>>', out)
    hs = [json.loads(json.loads(f)) for f in found]
    if len(hs) < num * 0.9:
        raise Machinery(f"model {name} printed {len(hs)} behaviours of {num}:\n" + out[-2000:])
    return hs[:num]

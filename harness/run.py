"""Run the check of one property:  python -m harness.run P05 [--replay FILE]

1. the design: TLC checks the models that the check lists, exhaustively
2. the code: sessions are recorded with the code in /repo, in parallel processes
3. the binding: TLC judges every session against the specification (TraceGroCo)
"""
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

from harness.tlc import Machinery, counts, model_check, run_java

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GROCO_REPO", "/repo")
PY = "/opt/venv/bin/python"
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


def child_env(extra=None):
    env = dict(os.environ)
    env.update(
        KERAS_BACKEND="jax",
        JAX_PLATFORMS="cpu",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=f"{REPO}:{HERE}",
        PYTHONWARNINGS="ignore",
        TF_CPP_MIN_LOG_LEVEL="3",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1",
        PYTHONHASHSEED="0",
    )
    env.update(extra or {})
    return env


def record(prop, cases, tmp):
    """Record sessions for all cases in parallel; returns (tables, sessions)."""
    n = max(1, min(NPROC, len(cases)))
    procs = []
    for i in range(n):
        inp, outp = os.path.join(tmp, f"in{i}.json"), os.path.join(tmp, f"out{i}.json")
        with open(inp, "w") as f:
            json.dump(dict(prop=prop, tables=i == n - 1,
                           cases=[(k, c) for k, c in enumerate(cases) if k % n == i]), f)
        log = open(os.path.join(tmp, f"log{i}"), "w")
        procs.append((subprocess.Popen([PY, "-m", "harness.worker", inp, outp], cwd=tmp, env=child_env(),
                                       stdout=log, stderr=subprocess.STDOUT), outp, log))
    sessions, tables, err = {}, None, None
    deadline = time.time() + 820
    for i, (p, outp, log) in enumerate(procs):
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            rc = "timeout"
        log.close()
        if rc != 0:
            err = f"worker {i} ended with {rc}:\n" + open(log.name).read()[-3000:]
            break
        d = json.load(open(outp))
        for k, s in d["sessions"]:
            sessions[k] = s
        tables = d["tables"] or tables
    if err:
        for p, _, _ in procs:
            p.kill()
        raise Machinery(err)
    return tables or {}, [sessions[k] for k in range(len(cases))]


def judge(tables, sessions, tmp, timeout=800):
    """Verdicts of the specification: list of None (accepted) or (event index, clause)."""
    verdicts = [None] * len(sessions)
    todo = list(range(len(sessions)))
    gen = dist = 0
    for attempt in range(8):
        path = os.path.join(tmp, f"trace{attempt}.json")
        with open(path, "w") as f:
            json.dump({"groups": tables, "sessions": [sessions[k] for k in todo]}, f)
        rc, out = run_java(["-config", "TraceGroCo.cfg", "TraceGroCo.tla"], env={"TRACE": path}, timeout=timeout)
        os.remove(path)
        bad = re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out)
        if "Model checking completed. No error has been found." in out:
            for sid, l, clause in bad:
                verdicts[todo[int(sid) - 1]] = (int(l), clause)
            gen, dist = counts(out)
            want = sum((verdicts[k][0] + 1 if verdicts[k] else len(sessions[k]) + 2) for k in todo)
            if dist != want:
                raise Machinery(f"judged {dist} states instead of {want}\n" + out[-2000:])
            return verdicts, gen, dist
        # an event that the specification cannot even evaluate is no behaviour of it
        m = re.findall(r"^/?\\?/?\s*sid = (\d+)", out, re.M) or re.findall(r"sid = (\d+)", out)
        if not m:
            raise Machinery("TLC failed:\n" + out[-4000:])
        k = todo[int(m[-1]) - 1]
        lines = re.findall(r"\bl = (\d+)", out)
        verdicts[k] = (int(lines[-1]) if lines else 1, "cannot be evaluated")
        sys.stderr.write(f"session {k} cannot be evaluated:\n" + "\n".join(
            x for x in out.splitlines() if "rror" in x)[-400:] + "\n")
        todo = [j for j in todo if j != k]
        if not todo:
            return verdicts, gen, dist
    return verdicts, gen, dist


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    mod = importlib.import_module(f"harness.checks.{prop.lower()}")
    from harness import known

    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tmp = tempfile.mkdtemp(prefix=f"groco_{prop}_")
    try:
        models = []
        for m in [] if replay or "--no-models" in sys.argv else mod.models(tier):
            models.append(model_check(*m))
        if replay:
            cases = [json.load(open(replay))["case"]]
        else:
            cases = mod.cases(random.Random(f"{seed}/{prop}"), tier)
            cases += known.representatives(prop)
        t0 = time.time()
        tables, sessions = record(prop, cases, tmp)
        t1 = time.time()
        verdicts, gen, dist = judge(tables, sessions, tmp)
        t2 = time.time()
    except (Machinery, subprocess.TimeoutExpired) as e:
        print(f"ERROR property={prop} {e}")
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    if not replay:
        for f in os.listdir(rdir):
            if f.startswith(prop + "-"):
                os.remove(os.path.join(rdir, f))
    violations, findings = 0, {}
    for k, v in enumerate(verdicts):
        if v is None:
            continue
        finding = known.match(prop, cases[k], sessions[k], v[1])
        if finding:
            findings.setdefault(finding["id"], (finding, []))[1].append(k)
            continue
        violations += 1
        if violations <= 10:
            path = os.path.join(rdir, f"{prop}-{violations}.json")
            if not replay:
                with open(path, "w") as f:
                    json.dump(dict(property=prop, case=cases[k], event=v[0], clause=v[1],
                                   session=sessions[k]), f)
            ev = sessions[k][v[0] - 1] if v[0] <= len(sessions[k]) else {}
            print(f"  {v[1]} -- event {v[0]} ({ev.get('op')}) of case {json.dumps(cases[k])[:400]} {ev.get('err','')} {ev.get('msg','')}")
            print(f"VIOLATION property={prop} replay={path}")
    if "--verbose" in sys.argv:
        for k, v in enumerate(verdicts):
            if "class" in cases[k]:
                print(k, v, json.dumps(cases[k])[:300])
    for fid, (f, ks) in findings.items():
        print(f"KNOWN-FINDING: property={prop} {f['what']} ({len(ks)} recorded sessions)")
    ops = {}
    for s in sessions:
        for e in s:
            key = e["op"] + ("" if e.get("out", "ok") == "ok" else ":" + e["out"])
            ops[key] = ops.get(key, 0) + 1
    distinct = len({json.dumps(c, sort_keys=True) for c in cases})
    if not replay:
        ev = dict(
            property=prop, tier=tier, seed=seed, level="model_checking",
            coverage=dict(
                states=dist + sum(m["distinct"] for m in models),
                transitions=gen + sum(m["generated"] for m in models),
                traces_validated_against_impl=sum(1 for v in verdicts if v is None),
                samples=[dict(case=cases[k], events=[e["op"] for e in sessions[k]][:12])
                         for k in range(0, len(cases), max(1, len(cases) // 5))][:6],
                models=models, recorded_sessions=len(sessions), distinct_cases=distinct,
                events_by_outcome=ops, trace_states=dist, rule=mod.RULE,
                known_findings=[f["id"] for f, _ in findings.values()],
                seconds=dict(models=round(t0 - start, 1), record=round(t1 - t0, 1), judge=round(t2 - t1, 1)),
            ),
            assumptions=getattr(mod, "ASSUMPTIONS", []) + [
                "the Keras and JAX primitives GroCo builds on behave as in the installed versions",
                "values are compared exactly on integer-valued tensors; averages to 3 decimals",
            ],
            wall_s=round(time.time() - start, 1), violations=violations,
        )
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(sessions)} sessions, {sum(map(len, sessions))} events, {dist} trace states, "
          f"{len(models)} models, {violations} violations, {time.time() - start:.1f} s "
          f"(models {t0-start:.0f}, record {t1-t0:.0f}, judge {t2-t1:.0f})")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())

"""Calls leave no trace and do not interfere."""
import hashlib
import json
import random
import sys
import threading
import time

import numpy as np

from harness import gen, history, lib, tlc
from harness.checks import p11

RULE = ("calls within calls: layers whose activation calls another layer, alone and in several threads; "
        "behaviours of MCLifecycle (TLC simulation) with refused and half-way failing calls, eager and compiled, replayed with "
        "random layers of every kind: every call, weights and configurations against GroCo.tla; several threads calling one or "
        "two layers with random delays at every line of GroCo and with gates inside of the activation: every result against LayerSem")


def models(tier):
    m = [("MCLifecycle",), ("Threads",), ("Threads__nolock", "RightWeights"), ("Threads__nofinally", "NoTrace"),
         ("Threads__plainlock", "NoDeadlock"), ("Threads__perlayer", "NoDeadlock")]
    return m + ([("MCLifecycle__deep",), ("Threads__deep",)] if tier == "thorough" else [])


def cases(rng, tier):
    out = []
    q = tier == "quick"
    n = 60 if q else 600
    hs = tlc.behaviours("MCLifecycle__fail", n, rng.randrange(10**6))
    hp = tlc.behaviours("MCLifecycle__failpool", n // 3, rng.randrange(10**6))
    for i in range(n):
        cfg, shape = p11.any_layer(rng, i, **(dict(acts=("linear", "relu")) if i % 5 < 3 else {}))
        h = hp[i // 3] if cfg["kind"] in ("pool", "global") else hs[i]
        out.append(dict(t="history", cfg=cfg, shape=shape, hist=h, style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    for i in range(24 if q else 250):
        cfg, shape = p11.any_layer(rng, i, **({} if i % 5 > 2 else dict(acts=("linear",), dims=2, group=rng.choice(["P4", "P2MM", "P4M"]))))
        out.append(dict(t="threads", cfg=cfg, shape=shape, how=rng.choice(["delay", "delay", "gate"]),
                        layers=rng.choice([1, 1, 2]), style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    for i in range(10 if q else 100):
        while True:
            cfg, shape = p11.any_layer(rng, rng.randrange(60))
            if cfg["kind"] in ("pool", "global") and cfg["group"] not in ("Oh", "O"):
                break
        out.append(dict(t="threads", cfg=cfg, shape=shape, how="delay", layers=1 + (i % 5 == 4), style=gen.style(rng, cfg["group"]),
                        seed=2 * rng.randrange(10**6)))
    for i in range(8 if q else 80):
        out.append(dict(t="own", layers=[p11.any_layer(rng, rng.randrange(60)) for _ in range(3)], seed=rng.randrange(10**6)))
    for i in range(8 if q else 80):
        pair = []
        while len(pair) < 2:
            cfg, shape = p11.any_layer(rng, rng.randrange(60), **({} if i % 4 > 2 else dict(dims=2, group=rng.choice(["P4", "P2MM", "P4M"]))))
            if not pair and cfg["kind"] not in ("conv", "convT"):
                continue
            pair.append((dict(cfg, act="linear") if "act" in cfg else cfg, shape))
        out.append(dict(t="nested", pair=pair, threads=i % 3, style=gen.style(rng, pair[0][0]["group"]), seed=rng.randrange(10**6)))
    return out


class Gate:
    """An activation that waits inside of the call, to let other threads in; optionally fails every now and then."""

    def __init__(self, rng, fails):
        self.rng, self.fails, self.armed = rng, fails, False
        self.__name__ = "gate"

    def __call__(self, x):
        if self.armed:
            time.sleep(self.rng.choice([0, 0.001, 0.01, 0.03]))
            if self.fails and self.rng.random() < 0.3:
                raise history.Failure()
        return x


def tracer(rng, p, sleep):
    """delays at the lines of GroCo"""
    def local(frame, event, arg):
        if event == "line" and rng.random() < p:
            time.sleep(rng.random() * sleep)
        return local

    def glob(frame, event, arg):
        return local if "/groco/" in frame.f_code.co_filename else None

    return glob


def run_threads(case):
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    conv = cfg["kind"] in ("conv", "convT")
    gates = {}
    for id in ["a", "b"][: case["layers"]]:
        extra = {}
        if conv and case["how"] == "gate":
            gates[id] = Gate(random.Random(case["seed"]), s.rng.random() < 0.5)
            extra = dict(activation=gates[id])
        if not s.new(id, dict(cfg, act="linear") if conv else cfg, case["style"], extra):
            return s.events
        if not s.build(id, shape):
            return s.events
        s.load(id)
        s.layers[id](lib.ints(s.rng, shape))   # compiled operations are cached from here on
    others = history.inputs_for(s.rng, cfg, shape)
    # inputs of one shape, or of other batch and spatial sizes
    xs = [lib.ints(s.rng, shape if case["seed"] % 2 else others[k]) for k in (1, 2, 3)]
    refused = lib.ints(s.rng, others[5])
    for id in s.layers:
        for x in xs:
            s.layers[id](x)
    evs, n = [], 3
    start = threading.Barrier(n)
    for g in gates.values():
        g.armed = True

    def work(t):
        rng = random.Random(case["seed"] * 10 + t)
        if case["how"] == "delay" or not conv:
            sys.settrace(tracer(rng, 0.5, 0.002))
        start.wait(60)
        for k in range(4):
            id = rng.choice(sorted(s.layers))
            x = refused if rng.random() < 0.15 else rng.choice(xs)
            ev = dict(op="call", id=id, x=lib.enc(x), out="ok", err="", y={"s": [], "at": [], "v": [], "scale": 1})
            try:
                y = np.asarray(s.layers[id](x))
                ev["y"] = lib.enc_at(y, lib.choose_at(rng, y.size, 12), s.scale(id))
            except history.Failure as e:
                ev = dict(op="fail", id=id, out="error", err="Failure")
            except Exception as e:
                ev.update(out="error", err=type(e).__name__, msg=str(e)[:200])
            evs.append(ev)
        sys.settrace(None)

    ths = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n)]
    for t in ths:
        t.start()
    end = time.time() + 60
    for t in ths:
        t.join(max(0.1, end - time.time()))
    lib.stuck = any(t.is_alive() for t in ths)
    s.events += list(evs)
    s.add(op="expect", legal=True, out="ok" if not lib.stuck else "a thread waits for ever")
    for g in gates.values():
        g.armed = False
    if not lib.stuck:
        for id in list(s.layers):
            s.check_weights(id)
            s.call(id, xs[0], 15)
    return s.events


def run_own(case):
    """every thread makes, builds and calls a layer of its own"""
    recs = [lib.Session(case["seed"] + t) for t in range(3)]
    start = threading.Barrier(3)

    def work(t):
        s, (cfg, shape), id = recs[t], case["layers"][t], "abc"[t]
        rng = random.Random(case["seed"] * 10 + t)
        start.wait(60)
        sys.settrace(tracer(rng, 0.3, 0.001))
        try:
            if s.new(id, cfg, gen.style(rng, cfg["group"])):
                if rng.random() < 0.5:
                    if not s.build(id, shape):
                        return
                    s.load(id)
                    s.call(id, lib.ints(rng, shape), 12)
                else:
                    s.first_call(id, lib.ints(rng, shape), 12)
                other = history.inputs_for(rng, cfg, shape)[2]
                s.call(id, lib.ints(rng, other), 12)
        except Exception as e:
            s.events.append(lib.err_event(e))
        finally:
            sys.settrace(None)

    ths = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(3)]
    for t in ths:
        t.start()
    end = time.time() + 120
    for t in ths:
        t.join(max(0.1, end - time.time()))
    lib.stuck = any(t.is_alive() for t in ths)
    evs = [dict(op="expect", legal=True, out="ok" if not lib.stuck else "a thread waits for ever")]
    for s in recs:
        evs += list(s.events)
    if not lib.stuck:
        for s in recs:
            n = len(s.events)
            for id in s.layers:
                if s.layers[id].built:
                    s.check_weights(id)
            evs += s.events[n:]
    return evs


class Nest:
    """An activation that calls another layer (but not within such a call), and catches what it raises or not."""

    def __init__(self):
        self.inner, self.inside = None, threading.local()
        self.__name__ = "nest"

    def __call__(self, x):
        if self.inner and not getattr(self.inside, "now", False):
            self.inside.now = True
            try:
                self.inner()
            finally:
                self.inside.now = False
        return x


def run_nested(case):
    s = lib.Session(case["seed"])
    evs, nests, xs, bad = [], {}, {}, {}
    inside = threading.local()

    def call(id, rng):
        x = xs[id] if rng.random() < 0.8 else bad[id]
        ev = dict(op="call", id=id, x=lib.enc(x), out="ok", err="", y={"s": [], "at": [], "v": [], "scale": 1})
        try:
            y = np.asarray(s.layers[id](x))
            ev["y"] = lib.enc_at(y, lib.choose_at(rng, y.size, 10), s.scale(id))
        except history.Failure:
            ev = dict(op="fail", id=id, out="error", err="Failure")
        except Exception as e:
            ev.update(out="error", err=type(e).__name__, msg=str(e)[:200])
        evs.append(ev)

    for id, (cfg, shape) in zip("ab", case["pair"]):
        conv = cfg["kind"] in ("conv", "convT")
        if conv:
            nests[id] = Nest()
            nests[id].inside = inside
        if not s.new(id, cfg, case["style"] if id == "a" else gen.style(s.rng, cfg["group"]), dict(activation=nests[id]) if conv else {}):
            return s.events
        if not s.build(id, shape):
            return s.events
        s.load(id)
        xs[id] = lib.ints(s.rng, shape)
        bad[id] = lib.ints(s.rng, history.inputs_for(s.rng, cfg, shape)[5])
        s.layers[id](xs[id])
    for id, n in nests.items():
        other = "b" if id == "a" else "a"
        rngs = random.Random(case["seed"] + ord(id))

        def inner(other=other, rng=rngs):
            if rng.random() < 0.2:
                raise history.Failure()
            call(other, rng)
            if rng.random() < 0.2:
                raise history.Failure()

        n.inner = inner

    def work(t):
        rng = random.Random(case["seed"] * 10 + t)
        for k in range(4):
            call(rng.choice("ab"), rng)

    ths = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(1 + case["threads"])]
    for t in ths:
        t.start()
    end = time.time() + 60
    for t in ths:
        t.join(max(0.1, end - time.time()))
    lib.stuck = any(t.is_alive() for t in ths)
    s.events += list(evs)
    s.add(op="expect", legal=True, out="ok" if not lib.stuck else "a thread waits for ever")
    if not lib.stuck:
        for n in nests.values():
            n.inner = None
        for id in "ab":
            s.check_weights(id)
            s.call(id, xs[id], 15)
    return s.events


def tables_of(name):
    t = lib.table(name)
    return hashlib.sha1(json.dumps(t, sort_keys=True).encode()).hexdigest()


def run(case):
    if case["t"] == "threads":
        return run_threads(case)
    if case["t"] == "own":
        return run_own(case)
    if case["t"] == "nested":
        return run_nested(case)
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    watch = [g for g in {cfg["group"], lib.sub_name(cfg)} if g not in ("Oh", "O", "D4h")]
    before = {g: tables_of(g) for g in watch}
    history.play(s, cfg, shape, case["hist"], case["style"])
    for g in watch:
        s.add(op="same", what="tables of the group changed", a=before[g], b=tables_of(g))
    for id, layer in s.layers.items():
        if layer.built:
            s.check_weights(id)
    return s.events

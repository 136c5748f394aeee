"""Global group pooling."""
import random

import numpy as np

from harness import gen, lib
from harness.checks import p06

RULE = ("random global pooling layers: values against LayerSem!GlobalItems, invariance under random elements; extents (some signals of more than 65536 entries, some whose sum exceeds the precision of their average), "
        "formats and keepdims; data that changes size between calls")


def models(tier):
    return [("MCPool__global",)]


def cases(rng, tier):
    out = []
    for i in range(100 if tier == "quick" else 900):
        D = rng.choice([1, 2, 2, 3])
        g = rng.choice(lib.GROUPS3 if D == 3 else lib.GROUPS2)
        cfg = lib.global_cfg(dims=D, pool=rng.choice(["max", "average"]), fmt=rng.choice(["last", "last", "first"]),
                             keep=rng.random() < 0.5, group=g)
        n = p03_extents(rng, g, D)
        shape = lib.in_shape(cfg, rng.randint(1, 3), n, rng.randint(1, 3), True)
        if i % 6 == 0:
            shape = gen.coincident(rng, cfg, shape)[1]
        out.append(dict(cfg=cfg, shape=shape,
                        style=gen.precise(rng, cfg, gen.style(rng, cfg["group"])), seed=rng.randrange(10**6)))
    for i in range(4 if tier == "quick" else 24):
        # more entries than fit into 16 bits
        g, n = [("P4M", [130, 130]), ("P2MM", [40, 450]), ("P4", [300, 60]), ("D4", [25, 25, 15])][i % 4]
        cfg = lib.global_cfg(dims=lib.DIM[g], pool=rng.choice(["max", "average"]), fmt=rng.choice(["last", "first"]), keep=False, group=g)
        out.append(dict(cfg=cfg, shape=lib.in_shape(cfg, 1, n, 1, True), style=gen.style(rng, g), large=True, seed=rng.randrange(10**6)))
    for i in range(8 if tier == "quick" else 60):
        # averages that half precision holds, of entries that it does not hold the sum of
        D = rng.choice([1, 2, 2, 3])
        g = rng.choice(lib.GROUPS3 if D == 3 else lib.GROUPS2[1:])
        cfg = lib.global_cfg(dims=D, pool="average", fmt=rng.choice(["last", "first"]), keep=rng.random() < 0.5, group=g)
        out.append(dict(cfg=cfg, shape=lib.in_shape(cfg, rng.randint(1, 3), p03_extents(rng, g, D), rng.randint(1, 3), True),
                        style=dict(gen.style(rng, g), dtype=rng.choice(["float16", "mixed_float16"]), policy=rng.random() < 0.3), extreme=True, seed=rng.randrange(10**6)))
    return out


def p03_extents(rng, g, D):
    from harness.checks import p03

    return [rng.randint(1, 6)] if D == 1 else p03.preserved(rng, g)


def run(case):
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    if not s.new("a", cfg, case["style"]):
        return s.events
    x = lib.ints(s.rng, shape, *((-5, 5) if case.get("large") else (-90, 90)))
    if s.rng.random() < 0.3:
        x = -abs(x) - 1
    if case["style"].get("xtype"):
        x = (abs(x) if case["style"]["xtype"] == "uint8" else x).astype(case["style"]["xtype"])
    if case.get("extreme"):
        s.coarse = True
        c = 32 * lib.ints(s.rng, shape, 900, 1900) * s.rng.choice([-1, 1])
        last = cfg["fmt"] == "last"
        c = c[tuple(slice(None) if a in (0, len(shape) - 1 if last else 1) else slice(0, 1) for a in range(len(shape)))]
        x = np.broadcast_to(c, shape).astype("float32")
    if s.rng.random() < 0.5:
        s.first_call("a", x)
    else:
        s.build("a", shape)
        s.call("a", x)
    avg = cfg["pool"] == "average"
    if cfg["dims"] > 1 and not (case.get("large") or case.get("extreme")):
        s.equiv(s.layers["a"], x[:1], cfg, cfg["group"], cfg["group"], "none", p06.pick(s.rng, lib.ORDER[cfg["group"]], 5),
                invariant=True, tol=1 if avg else 0, scale=1000 if avg else 1)
    return s.events

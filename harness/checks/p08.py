"""Group pooling."""
import random

import numpy as np

from harness import gen, lib
from harness.checks import p06

RULE = ("random pooling configurations (1D to 3D, all groups and subgroups, sizes, strides, modes, formats): values against "
        "LayerSem!PoolItems, commutation with random elements, refusals; extents of more than 8 bits; the known odd same_equiv case only for its values")


def models(tier):
    quick = [("MCPool",), ("MCPool__odd", "Equivariant"), ("MCCosets",)]
    return quick if tier == "quick" else quick + [("MCPool__3d",)]


def cases(rng, tier):
    out = []
    q = tier == "quick"
    mk = lambda **k: dict(k, style=gen.precise(rng, k["cfg"], gen.style(rng, k["cfg"]["group"]), 0.2 * (k["t"] == "value")), seed=rng.randrange(10**6))
    for i in range(70 if q else 700):
        cfg, shape = gen.pool(rng, dims=rng.choice([1, 2, 2, 2]), group=lib.GROUPS2[i % 7])
        out.append(mk(t="value", cfg=cfg, shape=shape))
    for i in range(14 if q else 140):
        cfg, shape = gen.pool(rng, dims=3, group=["D4", "D4h", "O", "Oh"][i % 4])
        out.append(mk(t="value", cfg=cfg, shape=shape))
    for D, g, h in gen.pairs() * (2 if q else 10):
        cfg, shape = gen.pool(rng, dims=D, group=g, sub=h, kmax=2, hi=4 if D == 2 else 3)
        out.append(mk(t="value", cfg=cfg, shape=shape))
    for i in range(8 if q else 80):
        cfg, shape = gen.coincident(rng, *gen.pool(rng, dims=[1, 2, 2][i % 3], group=["P4", "P2", "P2MM", "PMw", "P4M"][i % 5], kmax=3, hi=6))
        out.append(mk(t="value", cfg=cfg, shape=shape))
    n = 0
    while n < (50 if q else 500):
        D = 3 if n % 8 == 0 else 2
        cfg, shape = gen.pool(rng, dims=D, group=lib.GROUPS2[n % 7] if D == 2 else rng.choice(["D4", "D4h", "O"]), allow=False)
        if gen.odd_same(cfg, [shape[a] for a in lib.sp_axes(cfg)]):
            continue
        n += 1
        out.append(mk(t="equiv", cfg=cfg, shape=shape))
    for i in range(24 if q else 240):
        cfg, shape = gen.pool(rng, dims=rng.choice([2, 2, 2, 3]), want=False, allow=False)
        out.append(mk(t="refuse", cfg=cfg, shape=shape, ok=gen.spatial(rng, cfg, 1, 9 if cfg["dims"] == 2 else 5)))
    for i in range(10 if q else 100):
        cfg, shape = gen.pool(rng, dims=2, group=rng.choice(["P4", "P4M"]), allow=False, square=False, pools=("max",))
        if not gen.odd_same(cfg, [shape[a] for a in lib.sp_axes(cfg)]):
            out.append(mk(t="rect", cfg=cfg, shape=shape))
    for i, case in enumerate(out):
        if case["t"] == "value":
            case["near"] = gen.neighbours(rng, case["cfg"], case["shape"], 1) if i % 3 == 2 else []
    for i in range(8 if q else 60):
        # averages that half precision holds, of entries that it does not hold the sum of
        cfg, shape = gen.pool(rng, kmax=1, group=rng.choice(["P4M", "P4", "P2MM", "P2"]), sub="P1", dims=rng.choice([1, 2]), pools=("average",))
        out.append(mk(t="value", cfg=cfg, shape=shape, near=[], extreme=True))
        out[-1]["style"] = dict(gen.style(rng, cfg["group"]), dtype=rng.choice(["float16", "mixed_float16"]), policy=rng.random() < 0.3)
    for i in range(4 if q else 40):
        cfg, shape = gen.pool(rng, dims=rng.choice([1, 2, 2]))
        out.append(mk(t="value", cfg=cfg, shape=gen.long(rng, cfg, shape), near=[]))
        out[-1]["style"] = gen.style(rng, cfg["group"])
    return out


def run(case):
    if case["t"] not in ("value", "equiv", "silent"):
        return p06.run(case)
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    if not s.new("a", cfg, case["style"]) or not s.build("a", shape):
        return s.events
    s.neighbours(case.get("near", []), case["style"])
    avg = cfg["pool"] == "average"
    x = lib.ints(s.rng, shape, -60, 60)
    if case.get("extreme"):
        s.coarse = True
        ga = lib.gr_axis(cfg)
        x = np.broadcast_to(32 * np.take(lib.ints(s.rng, shape, 900, 1900), [0], axis=ga) * s.rng.choice([-1, 1]), shape).astype("float32")
        s.call("a", x, 60)
    elif case["t"] != "silent":
        if s.rng.random() < 0.3:
            x = -abs(x) - 1       # nothing but padding is as large as zero
        if case["style"].get("xtype"):
            x = (abs(x) if case["style"]["xtype"] == "uint8" else x).astype(case["style"]["xtype"])
        s.call("a", x, 60)
    if case["t"] != "value":
        act = lib.sub_name(cfg)
        s.equiv(s.layers["a"], x[:1], cfg, act, cfg["group"], act, p06.pick(s.rng, lib.ORDER[act], 4 if case["t"] == "equiv" else 7),
                tol=1 if avg else 0, scale=1000 if avg else 1)
    return s.events

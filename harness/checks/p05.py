"""Values of group convolutions."""
import random

from harness import gen, lib

RULE = ("random configurations (all groups, subgroups, kernel sizes, strides, dilations, padding modes, formats, biases, "
        "activations) and inputs on the grid and on the group, some with another layer much like it at its side, some with more than 65536 weights or with extents of more than 8 bits; sampled outputs against LayerSem!ConvValue")


def models(tier):
    return [("MCConv__kernel",)] if tier == "quick" else [("MCConv__kernel",), ("MCConv__kernelOh",)]


def cases(rng, tier):
    out = []
    n2, n3 = (80, 22) if tier == "quick" else (900, 250)
    for i in range(n2):
        g = lib.GROUPS2[i % 7]
        cfg, shape = gen.conv(rng, dims=2, group=g)
        out.append(dict(cfg=cfg, shape=shape, style=gen.precise(rng, cfg, gen.style(rng, cfg["group"])), implicit=rng.random() < 0.3, seed=rng.randrange(10**6)))
    for i in range(n3):
        g = ["D4", "D4h", "O", "D4", "D4h", "O", "Oh"][i % 7]
        cfg, shape = gen.conv(rng, dims=3, group=g)
        out.append(dict(cfg=cfg, shape=shape, style=gen.precise(rng, cfg, gen.style(rng, cfg["group"])), implicit=rng.random() < 0.3, seed=rng.randrange(10**6)))
    for _ in range(6 if tier == "quick" else 30):
        # pooling the whole group from a signal on the group to the plain subgroup and back
        g = rng.choice(["P4M", "P4", "P2MM"])
        for grp in (False, True):
            cfg, shape = gen.conv(rng, dims=2, group=g, sub=rng.choice(lib.SUBGROUPS[g]), grp=grp, aniso=True)
            out.append(dict(cfg=cfg, shape=shape, style=gen.precise(rng, cfg, gen.style(rng, cfg["group"])), implicit=False, seed=rng.randrange(10**6)))
    for D, g, h in gen.pairs() * (1 if tier == "quick" else 5):
        cfg, shape = gen.conv(rng, dims=D, group=g, sub=h, grp=True, max_ch=1, max_filters=2, kmax=3 if D == 2 else 2, hi=6 if D == 2 else 3)
        out.append(dict(cfg=cfg, shape=shape, style=gen.style(rng, g), implicit=rng.random() < 0.3, seed=rng.randrange(10**6)))
    for i in range(8 if tier == "quick" else 80):
        cfg, shape = gen.coincident(rng, *gen.conv(rng, dims=2, group=["P4", "P2", "P2MM", "PMw", "P4M"][i % 5], kmax=3, hi=6))
        out.append(dict(cfg=cfg, shape=shape, style=gen.style(rng, cfg["group"]), implicit=rng.random() < 0.3, seed=rng.randrange(10**6)))
    for i, case in enumerate(out):
        case["near"] = gen.neighbours(rng, case["cfg"], case["shape"], 1) if i % 4 == 3 else []
    for i in range(4 if tier == "quick" else 40):
        cfg, shape = gen.conv(rng, dims=3 if i % 4 == 3 else 2, group="D4" if i % 4 == 3 else None, max_ch=1, max_filters=2)
        out.append(dict(cfg=cfg, shape=gen.long(rng, cfg, shape), style=gen.style(rng, cfg["group"]), implicit=False, near=[], seed=rng.randrange(10**6)))
    for i in range(3 if tier == "quick" else 12):
        # more weights than fit into 16 bits
        g, D, ch, f = [("P4", 2, 64, 36), ("P4M", 2, 29, 34), ("D4", 3, 20, 18), ("P2MM", 2, 61, 33)][i % 4]
        cfg = lib.conv_cfg(dims=D, group=g, sub=rng.choice(lib.SUBGROUPS[g]), k=3, filters=f, mode=rng.choice(gen.MODES[2:]))
        out.append(dict(cfg=cfg, shape=lib.in_shape(cfg, 1, 3, ch, True), style={}, implicit=False, wide=True, near=[], seed=rng.randrange(10**6)))
    return out


def run(case):
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    first = s.rng.random() < 0.5
    if first:
        s.neighbours(case["near"], case["style"])
    big = cfg["dims"] == 3
    if not s.new("a", cfg, case["style"]):
        return s.events
    small = cfg["act"] == "square"
    rx, rw = gen.ranges(case["style"], *(((-3, 3), (-2, 2)) if small else ((-9, 9), (-6, 6))))
    x = lib.ints(s.rng, shape, *rx).astype(case["style"].get("xtype", "float32"))
    if case["implicit"]:
        s.first_call("a", x, 40, rw)
    else:
        if s.build("a", shape):
            s.load("a", *rw)
    if not first:
        s.neighbours(case["near"], case["style"])
    s.call("a", x, 12 if case.get("wide") else 30 if big else 70)
    return s.events

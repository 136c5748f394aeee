"""Transposed group convolutions."""
import random

from harness import gen, lib
from harness.checks import p06

RULE = ("random transposed convolutions: values for any strides and padding mode against LayerSem!ConvValue; equivariance "
        "for stride 1 and for stride equal to the kernel size with valid padding; refusals")


def models(tier):
    quick = [("MCConv__quickT",), ("MCConv__kernel",)]
    return quick if tier == "quick" else quick + [("MCConv__transpose",), ("MCConv__p4mT",), ("MCConv__kernelOh",)]


def documented(cfg):
    """the cases in which the documentation promises equivariance"""
    st, k, mode = cfg["s"], cfg["k"], cfg["mode0"].lower()
    if set(st) == {1}:
        return True
    return st == k and set(cfg["d"]) == {1} and mode.startswith("valid")


def known(cfg):
    """stride 1, same_equiv, even size: a known finding"""
    return cfg["mode0"].lower() == "same_equiv" and any(gen.dilated(k, d) % 2 == 0 for k, d in zip(cfg["k"], cfg["d"]))


def cases(rng, tier):
    out = []
    q = tier == "quick"
    mk = lambda **k: dict(k, style=gen.precise(rng, k["cfg"], gen.style(rng, k["cfg"]["group"]), 0.2 * (k["t"] == "value")), seed=rng.randrange(10**6))
    conv = lambda **k: gen.conv(rng, kind="convT", hi=5 if k.get("dims") == 2 else 3, **k)
    for i in range(50 if q else 500):
        cfg, shape = conv(dims=2, group=lib.GROUPS2[i % 7])
        out.append(mk(t="value", cfg=cfg, shape=shape))
    for i in range(10 if q else 100):
        cfg, shape = conv(dims=3, group=["D4", "D4h", "O", "D4", "Oh"][i % 5], kmax=2, max_filters=1, max_ch=1)
        out.append(mk(t="value", cfg=cfg, shape=shape))
    for D, g, h in gen.pairs() * (1 if q else 5):
        cfg, shape = gen.conv(rng, kind="convT", dims=D, group=g, sub=h, grp=True, max_ch=1, max_filters=2, kmax=3 if D == 2 else 2, hi=4 if D == 2 else 2)
        out.append(mk(t="value", cfg=cfg, shape=shape))
    for i in range(8 if q else 80):
        cfg, shape = gen.coincident(rng, *gen.conv(rng, kind="convT", dims=2, group=["P4", "P2", "P2MM", "PMw", "P4M"][i % 5], kmax=3, hi=4))
        out.append(mk(t="value", cfg=cfg, shape=shape))
    n = 0
    while n < (40 if q else 400):
        D = rng.choice([2, 2, 2, 2, 3])
        cfg, shape = conv(dims=D, group=lib.GROUPS2[n % 7] if D == 2 else rng.choice(["D4", "D4h", "O"]), allow=False,
                          acts=("linear", "relu"), max_filters=2, max_ch=1, smax=1, kmax=3)
        if rng.random() < 0.5:
            cfg["s"], cfg["d"] = list(cfg["k"]), [1] * D
            cfg["mode0"] = rng.choice(["valid", "valid_equiv"])
        n_ = gen.spatial(rng, cfg, 1, 5 if D == 2 else 3)
        if not documented(cfg) or known(cfg) or n_ is None:
            continue
        n += 1
        out.append(mk(t="equiv", cfg=cfg, shape=lib.in_shape(cfg, 1, n_, 1, rng.random() < 0.7)))
    for i in range(16 if q else 160):
        cfg, shape = conv(dims=2, want=False, allow=False)
        out.append(mk(t="refuse", cfg=cfg, shape=shape, ok=gen.spatial(rng, cfg, 1, 6)))
    for i, case in enumerate(out):
        if case["t"] == "value":
            case["near"] = gen.neighbours(rng, case["cfg"], case["shape"], 1) if i % 4 == 3 else []
    for i in range(2 if q else 20):
        cfg, shape = conv(dims=2, max_ch=1, max_filters=2)
        out.append(mk(t="value", cfg=cfg, shape=gen.long(rng, cfg, shape, 12000), near=[]))
        out[-1]["style"] = gen.style(rng, cfg["group"])
    for i in range(2 if q else 8):
        # more weights than fit into 16 bits
        g, sub, D, ch, f = [("P4M", "P4", 2, 61, 31), ("D4h", "D4", 3, 18, 17), ("P2MM", "P2MM", 2, 62, 30)][i % 3]
        cfg = lib.conv_cfg(dims=D, group=g, sub=sub, k=3, filters=f, mode="valid", kind="convT")
        out.append(dict(t="value", cfg=cfg, shape=lib.in_shape(cfg, 1, 2, ch, True), style={}, near=[], seed=rng.randrange(10**6)))
    return out


def run(case):
    if case["t"] != "value":
        return p06.run(case)
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    small = cfg["act"] == "square"
    first = s.rng.random() < 0.5
    if first:
        s.neighbours(case["near"], case["style"])
    if s.new("a", cfg, case["style"]) and s.build("a", shape):
        rx, rw = gen.ranges(case["style"], *(((-3, 3), (-2, 2)) if small else ((-9, 9), (-6, 6))))
        s.load("a", *rw)
        if not first:
            s.neighbours(case["near"], case["style"])
        s.call("a", lib.ints(s.rng, shape, *rx).astype(case["style"].get("xtype", "float32")), 60 if cfg["filters"] < 9 else 12)
    return s.events

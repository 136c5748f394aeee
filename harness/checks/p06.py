"""Equivariance of group convolutions, and refusals."""
import random

from harness import gen, lib

RULE = ("random configurations that do not allow non-equivariance and inputs that fit (the layer commutes with random elements "
        "of the subgroup: EquivVerdict), that do not fit (ValueError), or that are not square (Equiv1Verdict); "
        "values of the calls against LayerSem")
KIND = "conv"


def models(tier):
    quick = [("MCConv__quick",), ("MCConv__sharp",), ("MCConv__loose", "Equivariant")]
    return quick if tier == "quick" else quick + [("MCConv",), ("MCConv__p4m",), ("MCConv__3d",)]


def cases(rng, tier, conv=gen.conv):
    out = []
    q = tier == "quick"
    mk = lambda **k: dict(k, style=gen.style(rng, k["cfg"]["group"]), seed=rng.randrange(10**6))
    for i in range(56 if q else 600):
        cfg, shape = conv(rng, dims=2, group=lib.GROUPS2[i % 7], allow=False, acts=("linear", "relu"), max_filters=2, max_ch=2)
        out.append(mk(t="equiv", cfg=cfg, shape=shape))
    for i in range(10 if q else 120):
        cfg, shape = conv(rng, dims=3, group=["D4", "D4h", "O", "D4", "Oh"][i % 5], allow=False, acts=("linear",), max_filters=1, max_ch=1)
        out.append(mk(t="equiv", cfg=cfg, shape=shape))
    for D, g, h in gen.pairs() * (1 if q else 5):
        if g != "Oh" or not q:
            cfg, shape = conv(rng, dims=D, group=g, sub=h, grp=True, allow=False, acts=("linear",), max_filters=1, max_ch=1, kmax=3, hi=6 if D == 2 else 3)
            out.append(mk(t="equiv", cfg=cfg, shape=shape))
    for i in range(24 if q else 250):
        cfg, shape = conv(rng, dims=rng.choice([2, 2, 2, 3]), want=False, allow=False)
        ok = gen.spatial(rng, cfg, 1, 9 if cfg["dims"] == 2 else 5)
        out.append(mk(t="refuse", cfg=cfg, shape=shape, ok=ok))
    for i in range(20 if q else 200):
        cfg, shape = conv(rng, dims=2, group=rng.choice(["P4", "P4M"]), allow=False, square=False)
        out.append(mk(t="rect", cfg=cfg, shape=shape))
    for i in range(6 if q else 40):
        cfg, shape = conv(rng, dims=2, group=rng.choice(["P4", "P4M"]), sub="P4", allow=False)
        cfg["k"] = rng.choice([[1, 2], [3, 2], [2, 3], [3, 1]])
        out.append(mk(t="kernel", cfg=cfg, shape=lib.in_shape(cfg, 1, 6, 1, False)))
    return out


def pick(rng, order, n=4):
    e = list(range(1, order))
    return sorted(rng.sample(e, min(n, len(e)))) or [0]


def equiv(s, id, shape, batch=1, n=4):
    cfg = s.cfgs[id]
    grp = lib.on_group(cfg, shape)
    act = lib.sub_name(cfg)
    xdom = lib.dom_name(cfg) if grp else "none"
    ydom = cfg["group"] if cfg["kind"] == "convT" else act
    x = lib.ints(s.rng, [batch] + list(shape)[1:], -7, 7)
    return s.equiv(s.layers[id], x, cfg, act, xdom, ydom, pick(s.rng, lib.ORDER[act], n))


def equiv1(s, id, x, elem):
    """a signal, its transform by one element, and what the layer makes of both"""
    import numpy as np

    cfg = s.cfgs[id]
    act = lib.sub_name(cfg)
    sp, ga = lib.sp_axes(cfg), lib.gr_axis(cfg)
    xdom = lib.dom_name(cfg) if lib.on_group(cfg, x.shape) else "none"
    gx = lib.transform(x, lib.labels(act)[elem], sp, None if xdom == "none" else ga, None if xdom == "none" else xdom)
    ev = dict(op="equiv1", dims=cfg["dims"], fmt=cfg["fmt"], acting=act, elem=elem, xdom=xdom,
              ydom=cfg["group"] if cfg["kind"] == "convT" else act,
              x=lib.enc(x), gx=lib.enc(gx), y={"s": [], "v": []}, gy={"s": [], "v": []}, out="ok", gout="ok")
    for a, (inp, res) in dict(out=(x, "y"), gout=(gx, "gy")).items():
        try:
            ev[res] = lib.enc(np.asarray(s.layers[id](inp)))
        except Exception as e:
            ev[a] = type(e).__name__
    s.events.append(ev)


def run(case):
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    if not s.new("a", cfg, case["style"], case.get("extra")):
        return s.events
    t = case["t"]
    if t == "equiv":
        if s.build("a", shape):
            s.load("a")
            equiv(s, "a", shape, n=4 if cfg["dims"] == 2 else 2)
            s.call("a", lib.ints(s.rng, shape), 25)
    elif t == "silent":  # known findings: equivariance only
        if case.get("extra"):     # arguments that the specification does not cover
            layer = s.layers["a"]
            layer.build(tuple(shape))
            layer.set_weights([lib.ints(s.rng, w.shape, -4, 4) for w in layer.get_weights()])
            equiv(s, "a", shape, n=7)
        elif s.build("a", shape):
            s.load("a")
            equiv(s, "a", shape, n=7)
    elif t == "kernel":
        s.call("a", lib.ints(s.rng, shape), 5)
    elif t == "refuse":
        x = lib.ints(s.rng, shape)
        s.call("a", x, 5)   # unbuilt: building refuses
        if case["ok"]:
            good = lib.in_shape(cfg, shape[0], case["ok"], shape[-1] if cfg["fmt"] == "last" else shape[1], lib.on_group(cfg, shape))
            s.new("b", cfg, case["style"])
            if s.build("b", good):
                s.load("b")
                s.call("b", lib.ints(s.rng, good), 10)
                s.call("b", x, 5)      # built for another extent
                s.call("b", lib.ints(s.rng, good), 10)
    elif t == "rect":
        if s.build("a", shape):
            s.load("a")
            x = lib.ints(s.rng, shape)
            s.call("a", x, 20)
            act = lib.sub_name(cfg)
            for e in pick(s.rng, lib.ORDER[act], 2):
                equiv1(s, "a", x, e)
    return s.events

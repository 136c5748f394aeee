"""The equivariance check returns the exact deviation."""
import random

import numpy as np

from harness import gen, lib
from harness.checks import p03, p06

RULE = ("check_equivariance for random groups, acting, domain and target subgroups, placements of axes, and functions: layers, pointwise "
        "and weighted functions, mixtures of the group axis, and functions that deviate at a single entry; signals and deviations of magnitudes from 2^-40 to 2^40, and deviations small against the signal; the reported value against the "
        "largest deviation computed by the specification from the recorded results of the function; signals that do not fit have to raise")


def models(tier):
    return [("MCSymmetry",)]


FUNCTIONS = ["identity", "square", "weights", "weights", "one", "one", "one", "roll", "mix", "mix", "shift"]


def cases(rng, tier):
    out = []
    q = tier == "quick"
    for i in range(110 if q else 1000):
        g = lib.GROUPS2[i % 7] if i % 4 else rng.choice(["D4", "D4h", "O", "D4"])
        d = lib.DIM[g]
        subs = lib.SUBGROUPS[g]
        pick = lambda: rng.choice(subs + [g])
        dom, tgt = rng.choice([("none", "none"), ("none", pick()), (pick(), pick()), (pick(), pick()), (pick(), "none")])
        n = p03.preserved(rng, g, 4)
        if g in ("O", "Oh"):
            n = [rng.choice([1, 2])] * 3
        c = dict(t="function", group=g, acting=pick(), dom=dom, tgt=tgt, n=n, fn=rng.choice(FUNCTIONS), defaults=rng.random() < 0.5,
                 extra=rng.choice([0, 1, 1]) if d == 2 else rng.choice([0, 0, 1]), batch=rng.randint(1, 3), dtype=rng.choice(["float32", "float32", "int32"]),
                 style=rng.choice(["last", "any"]), negative=rng.random() < 0.3, seed=rng.randrange(10**6))
        # homogeneous functions also at other magnitudes: deviations much smaller or larger than one, or than the signal
        c["exp"] = rng.choice([0, 0, -24, -40, 12, 40]) if c["dtype"] == "float32" and c["fn"] not in ("square", "shift") else 0
        c["hi"] = 9 if c["fn"] not in ("identity", "one", "roll") or rng.random() < 0.6 else 2**18
        out.append(c)
    for i in range(24 if q else 250):
        kind = rng.choice(["conv", "conv", "pool"])
        f = gen.conv if kind == "conv" else gen.pool
        kw = dict(acts=("linear", "relu"), max_filters=1, max_ch=1) if kind == "conv" else dict(pools=("max",))
        for _ in range(30):   # most of them misaligned
            cfg, shape = f(rng, dims=2, hi=6, allow=i % 4 > 0, modes=["valid", "same"] if i % 4 else gen.MODES, **kw)
            if i % 4 == 0 or not gen.admissible(dict(cfg, allow=False), [shape[a] for a in lib.sp_axes(cfg)]):
                break
        out.append(dict(t="layer", cfg=cfg, shape=shape, group=rng.random() < 0.5, style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    for i in range(12 if q else 60):
        g = rng.choice(["P4", "P4M", "P2MM"])
        out.append(dict(t="misfit", group=g, seed=rng.randrange(10**6), where=rng.choice(["signal", "result"])))
    return out


def event(s, fn, x, group, sp, ga, acting, dom, tgt, kw, unit=1):
    """run the check, and on its own the function on the signal and on all of its transforms"""
    from groco.utils import check_equivariance

    r = x.ndim
    elems = [e for e in group_elements(group, acting)]
    sp_ = [a % r for a in sp]
    ga_ = None if dom == "none" else ga % r
    gx = np.stack([lib.transform(x, e, sp_, ga_, None if dom == "none" else dom) if dom == "none" or acting_fits(e, dom)
                   else padded(x, e, sp_, ga_, dom) for e in elems])
    ev = dict(op="check", group=group, acting=acting, dom=dom, tgt=tgt, sp=list(sp), ga=0 if ga is None else ga,
              x=lib.enc(x / unit), gx=lib.enc(gx / unit), out="ok", err="", val=0, y={"s": [], "v": []}, gy={"s": [], "v": []})
    ev["y"] = lib.enc(fn(x) / unit)
    ev["gy"] = lib.enc(np.asarray(fn(gx.reshape((-1,) + gx.shape[2:]))) / unit)
    try:
        v = np.asarray(check_equivariance(fn if not hasattr(fn, "layer") else fn.layer, x, **kw))
        ev["val"] = lib.enc(v.reshape(1) / unit)["v"][0] if v.size == 1 else lib.BAD
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
    s.events.append(ev)


def group_elements(group, acting):
    return lib.labels(acting)


def acting_fits(e, dom):
    lab = lib.labels(dom)
    return all(lib.compose(lib.inverse(e), h) in lab for h in lab)


def padded(x, e, sp, ga, dom):
    """a signal on a subgroup is zero outside of it"""
    y = lib.act_np(e, x, sp)
    lab = lib.labels(dom)
    parts = []
    for h in lab:
        t = lib.compose(lib.inverse(e), h)
        parts.append(np.take(y, lab.index(t), axis=ga) if t in lab else np.zeros_like(np.take(y, 0, axis=ga)))
    return np.stack(parts, axis=ga).astype(x.dtype)


def function(rng, name, x, ga, dom, tgt, sp, unit=1):
    """a function of batches of signals on dom to signals on tgt; integers to integers"""
    shape = list(x.shape[1:])
    no, nt = (1 if dom == "none" else lib.ORDER[dom]), (1 if tgt == "none" else lib.ORDER[tgt])
    one = [rng.randrange(n) for n in shape]
    w = lib.ints(rng, shape, -2, 2).astype(x.dtype)
    hit = np.zeros(shape, x.dtype)
    hit[tuple(one)] = rng.choice([-3, 2, 5]) * unit
    M = lib.ints(rng, (no, nt), -2, 2).astype(x.dtype)
    if name != "mix":
        M = np.ones_like(M) if dom == "none" or tgt == "none" or dom != tgt else np.eye(no, dtype=x.dtype)

    def fn(v):
        v = np.asarray(v)
        if name == "square":
            v = v * v
        elif name == "weights":
            v = v * w
        elif name == "one":
            v = v + hit
        elif name == "shift":
            v = v * 2 - 1
        elif name == "roll":
            v = np.roll(v, 1, axis=sp[0])
        if dom == "none" and tgt == "none":
            return v
        if dom == "none":
            v = np.expand_dims(v, ga)
        v = np.moveaxis(np.moveaxis(v, ga, -1) @ M, -1, ga)
        return np.take(v, 0, axis=ga) if tgt == "none" else v

    return fn


def run(case):
    s = lib.Session(case["seed"])
    rng = s.rng
    if case["t"] == "layer":
        return run_layer(case, s)
    if case["t"] == "misfit":
        return run_misfit(case, s)
    g, dom, tgt, d = case["group"], case["dom"], case["tgt"], lib.DIM[case["group"]]
    grp = dom != "none"
    r = 1 + d + grp + case["extra"]
    rest = list(range(1, r))
    if case["style"] == "any":
        rng.shuffle(rest)
    sp = rest[:d]
    ga = rest[d] if grp else None
    if (dom == "none") != (tgt == "none"):
        # the axis comes or goes, after the spatial ones so that these stay where they are
        sp = sorted(sp) if case["style"] == "any" else sp
        top = max(sp) + 1
        if grp:
            sp = [a if a < r - 1 else rest[d] for a in sp]
            ga = r - 1
        else:
            ga = rng.randint(top, r)
    shape = [0] * r
    shape[0] = case["batch"]
    for a, e in zip(sp, case["n"]):
        shape[a] = e
    if grp:
        shape[ga] = lib.ORDER[dom]
    shape = [e or rng.randint(1, 3) for e in shape]
    unit = 2.0 ** case["exp"] if case["exp"] else 1
    x = lib.ints(rng, shape, -case["hi"], case["hi"]).astype(case["dtype"])
    if case["exp"]:
        x = x * np.float32(unit)
    fn = function(rng, case["fn"], x, ga, dom, tgt, sp, unit)
    if case["negative"] and (dom == "none") == (tgt == "none"):
        sp = [a - r if rng.random() < 0.5 else a for a in sp]
        ga = ga - r if ga is not None and rng.random() < 0.5 else ga
    kw = dict(group=lib.group_of(g), spatial_axes=tuple(sp), group_axis=ga, acting_group=case["acting"],
              domain_group=None if dom == "none" else dom, target_group=None if tgt == "none" else tgt)
    if case["defaults"]:
        for k in ("acting_group", "domain_group", "target_group"):
            if kw[k] == g:
                kw.pop(k)
                if rng.random() < 0.5:
                    kw[k] = ""
        if tuple(sp) == (1, 2):
            kw.pop("spatial_axes")
    event(s, fn, x, g, sp, ga, case["acting"], dom, tgt, kw, unit)
    return s.events


def run_layer(case, s):
    cfg, shape = case["cfg"], case["shape"]
    n = [shape[a] for a in lib.sp_axes(cfg)]
    style = case["style"]
    if len(set(n)) > 1:      # a group made from another one acts on the signals that the other one can act on
        style = dict(style, chain=None)
    if not s.new("a", cfg, style) or not s.build("a", shape):
        return s.events
    s.load("a", -3, 3)
    x = lib.ints(s.rng, [s.rng.randint(1, 2)] + shape[1:], -4, 4)
    grp = lib.on_group(cfg, shape)
    act = s.rng.choice(lib.SUBGROUPS[lib.sub_name(cfg)])
    if len(set(n)) > 1 and act in ("P4", "P4M"):
        return s.events
    y = np.asarray(s.layers["a"](x))
    out = [y.shape[a] for a in lib.sp_axes(cfg)]
    if y.size == 0 or len(set(out)) > 1 and (act in ("P4", "P4M") or style["chain"]):
        return s.events
    fn = lambda v: np.asarray(s.layers["a"](v))
    fn.layer = s.layers["a"]
    dom = cfg["group"] if grp else "none"
    kw = dict(spatial_axes=lib.sp_axes(cfg), group_axis=lib.gr_axis(cfg), acting_group=act,
              domain_group=dom if grp else None, target_group=lib.sub_name(cfg))
    if case["group"]:
        kw["group"] = lib.group_of(cfg["group"])
    event(s, fn, x, cfg["group"], lib.sp_axes(cfg), lib.gr_axis(cfg), act, dom, lib.sub_name(cfg), kw)
    return s.events


def run_misfit(case, s):
    """signals or results that are not on the group they are said to be on"""
    from groco.utils import check_equivariance

    g, rng = case["group"], s.rng
    order = lib.ORDER[g]
    wrong = rng.choice([n for n in (1, 2, 3, 5, 6) if n != order])
    if case["where"] == "signal":
        x = lib.ints(rng, [1, 3, 3, wrong, 1])
        fn = rng.choice([lambda v: v, lambda v: np.take(np.asarray(v), [i % wrong for i in range(order)], axis=3)])
    else:
        x, fn = lib.ints(rng, [1, 3, 3, order, 1]), lambda v: np.concatenate([np.asarray(v)] * 2, axis=3)
    ev = dict(op="expect", legal=False, out="ok", err="")
    try:
        check_equivariance(fn, x, group=lib.group_of(g), group_axis=3)
    except Exception as e:
        ev["out"], ev["err"] = "error", type(e).__name__
    s.events.append(ev)
    return s.events

"""Misuse is refused, alternative spellings mean the same."""
import numpy as np

from harness import gen, lib
from harness.checks import p11

RULE = ("layers with an unknown or unrelated group, subgroup or padding mode, tried out on a fitting input; built layers called with inputs of "
        "the wrong rank, group order, channels or padding, between good calls that have to be unaffected; group pooling of signals on the grid; "
        "every layer in two random spellings of the same arguments, with the same weights; the named shorthands of convolutions")

MODELS2 = [("MCLifecycle",)]


def models(tier):
    return MODELS2 if tier == "quick" else MODELS2 + [("MCLifecycle__deep",)]


BAD_GROUPS = ["P3", "p4", "", "P4m", "C4", "None", "4", "P4 ", "Oh_", "P2mm"]
BAD_MODES = ["full", "causal", "equiv", "", "_equiv", "valid_equiv_equiv", "same_valid", "None", "valid ", "equiv_same"]
ALIASES = ["P4M", "P4", "P2MM", "PMh", "PMw", "P2", "P1", "Oh", "O", "D4h", "D4"]
WRONG = ["rank-", "rank+", "rank++", "order", "order", "channels", "grid", "padding", "other group"]


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(90 if q else 600):
        while True:
            cfg, shape = p11.any_layer(rng, rng.randrange(5), allow=rng.random() < 0.5)
            if cfg["kind"] != "global":
                break
        what = ["group", "subgroup", "mode", "dims"][i % 4]
        if what == "group":
            cfg = dict(cfg, group=rng.choice(BAD_GROUPS), sub="")
        elif what == "subgroup":
            bad = [n for n in lib.ORDER if n not in lib.SUBGROUPS[cfg["group"]]] + ["p1", "P3", " ", "None "]
            cfg = dict(cfg, sub=rng.choice(bad))
        elif what == "mode":
            cfg = dict(cfg, mode0=rng.choice(BAD_MODES))
        else:
            if cfg["kind"] == "pool":
                cfg, shape = gen.conv(rng, kind=rng.choice(["conv", "convT"]))
            g = rng.choice(lib.GROUPS3 if cfg["dims"] == 2 else lib.GROUPS2[1:])
            if lib.on_group(cfg, shape):
                shape = list(shape)
                shape[lib.gr_axis(cfg)] = lib.ORDER[g]
            cfg = dict(cfg, group=g, sub="")
        out.append(dict(t="config", cfg=cfg, shape=shape, style=dict(sizes=rng.choice(["tuple", "list"]), group_object=what != "group" and rng.random() < 0.3),
                        explicit=rng.random() < 0.5, seed=rng.randrange(10**6)))
    for i in range(70 if q else 700):
        cfg, shape = p11.any_layer(rng, i)
        out.append(dict(t="inputs", cfg=cfg, shape=shape, wrong=[rng.choice(WRONG) for _ in range(3)], first=rng.random() < 0.3,
                        style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    for i in range(60 if q else 600):
        cfg, shape = p11.any_layer(rng, i, **({} if i % 5 == 4 else dict(want=rng.random() < 0.9)))
        cfg = dict(cfg, mode0=spelled(rng, cfg["mode0"]))
        out.append(dict(t="spelling", cfg=cfg, shape=shape, styles=[gen.style(rng, cfg["group"]), gen.style(rng, cfg["group"])], seed=rng.randrange(10**6)))
    for i in range(22 if q else 110):
        g = ALIASES[i % 11]
        cfg, shape = gen.conv(rng, dims=lib.DIM[g], kind="conv", group=g, grp=None if g != "Oh" else False)
        out.append(dict(t="alias", cfg=cfg, shape=shape, style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    return out


def spelled(rng, mode):
    return rng.choice([mode, mode.upper(), "_".join(w.capitalize() for w in mode.split("_"))])


def run(case):
    return globals()["run_" + case["t"]](case)


def raw(cfg):
    extra = {}
    if cfg["group"] == "None":
        extra["group"] = None
    if cfg["group"] == "4":
        extra["group"] = 4
    if cfg["mode0"] == "None":
        extra["padding"] = None
    return extra


def run_config(case):
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    style = dict(case["style"])
    if cfg["group"] not in lib.ORDER:
        style["group_object"] = False
    if not s.new("a", cfg, style, raw(cfg)):
        return s.events
    if case["explicit"]:      # building first may fail, calling afterwards has to
        s.build("a", shape)
    s.call("a", lib.ints(s.rng, shape), 5)
    return s.events


def misfit(s, cfg, shape, wrong):
    """an input that differs from the shape in some way, or None"""
    sh = list(shape)
    grp = lib.on_group(cfg, sh)
    rng = s.rng
    if wrong == "rank-":
        sh = sh[:-1] if not grp else sh[:-2]
    elif wrong == "rank+":
        sh = sh + [2] if grp else sh + [2, 2]
    elif wrong == "rank++":
        sh = sh + [2, 1, 1]
    elif wrong == "order" or wrong == "other group":
        if not grp:
            return None
        other = [n for n in ((1, 2, 3, 4, 5, 6, 8) if wrong == "order" else sorted(set(lib.ORDER.values()))[:-1]) if n != sh[lib.gr_axis(cfg)]]
        sh[lib.gr_axis(cfg)] = rng.choice(other)
    elif wrong == "channels":
        sh[1 if cfg["fmt"] == "first" else -1] += rng.choice([1, 2])
    elif wrong == "grid":
        if grp:
            sh.pop(lib.gr_axis(cfg))
        else:
            sh.insert(lib.gr_axis(cfg), lib.in_order(cfg))
    elif wrong == "padding":
        n = gen.spatial(rng, cfg, 1, 7, want=False)
        if n is None or cfg["kind"] == "global":
            return None
        for a, e in zip(lib.sp_axes(cfg), n):
            sh[a] = e
    return sh


def run_inputs(case):
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    if not s.new("a", cfg, case["style"]):
        return s.events
    if case["first"]:        # the very first use is a misuse
        wrong = [] if cfg["kind"] == "global" else [w for w in case["wrong"] if w in ("order", "rank-", "padding") or cfg["kind"] in ("pool",) and w == "grid"]
        if wrong:
            sh = misfit(s, cfg, shape, wrong[0])
            if sh is not None:
                s.call("a", lib.ints(s.rng, sh), 5)
                return s.events
    if not s.build("a", shape):
        return s.events
    s.load("a")
    s.call("a", lib.ints(s.rng, shape), 8)
    for wrong in case["wrong"]:
        sh = misfit(s, cfg, shape, wrong)
        if sh is None:
            continue
        s.call("a", lib.ints(s.rng, sh), 5)
        s.check_weights("a")
        s.call("a", lib.ints(s.rng, shape), 8)
    return s.events


def run_spelling(case):
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    x = lib.ints(s.rng, shape)
    weights, res = None, {}
    for id, style in zip("ab", case["styles"]):
        c = cfg if id == "a" else dict(cfg, mode0=spelled(s.rng, cfg["mode0"].lower()))
        if not s.new(id, c, style):
            continue
        try:
            s.layers[id].build(tuple(shape) if s.rng.random() < 0.5 else list(shape))
        except Exception:
            s.call(id, x, 5)
            res[id] = None
            continue
        s.build(id, shape, explicit=False)
        s.load(id, weights=weights)
        if cfg["kind"] in ("conv", "convT"):
            weights = weights or s.layers[id].get_weights()
        res[id] = s.call(id, x, 20)
    if len(res) == 2:
        a, b = res["a"], res["b"]
        s.add(op="same", what="another outcome", a=a is None, b=b is None)
        if a is not None and b is not None:
            s.add(op="same", what="other values", a=bool(a.shape == b.shape and np.array_equal(a, b)), b=True)
    return s.events


def run_alias(case):
    """P4MConv2D and the like"""
    import groco.layers as L

    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    cls = getattr(L, f"{cfg['group']}Conv{cfg['dims']}D")
    ev = s.add(op="new", id="a", cfg=cfg, out="ok", err="")
    t = tuple
    kw = dict(kernel_size=t(cfg["k"]), strides=t(cfg["s"]), dilation_rate=t(cfg["d"]), filters=cfg["filters"], use_bias=cfg["bias"],
              padding=cfg["mode0"], allow_non_equivariance=cfg["allow"], subgroup=cfg["sub"], activation=lib.activation(cfg["act"]),
              data_format="channels_" + cfg["fmt"])
    try:
        s.layers["a"] = cls(**kw)
        s.cfgs["a"] = cfg
    except Exception as e:
        ev["out"], ev["err"] = "error", type(e).__name__
        return s.events
    if s.build("a", shape):
        s.load("a")
        s.call("a", lib.ints(s.rng, shape), 30)
    return s.events

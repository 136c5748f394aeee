"""Channels-first and channels-last agree."""
import numpy as np

from harness import gen, lib
from harness.checks import p11

RULE = ("random layers of every kind twice, with channels first and last, the same weights and the same data with the axes moved: outcome, "
        "values (each against LayerSem) and inferred shapes; layers without a format, and with None, under both Keras defaults, "
        "also recreated after the default has changed; the padding layer")


def models(tier):
    return [("MCFormat",)] + ([("MCFormat__deep",)] if tier == "thorough" else [])


def cases(rng, tier):
    out = []
    q = tier == "quick"
    for i in range(70 if q else 600):
        cfg, shape = p11.any_layer(rng, i, fmt="last", **({} if i % 5 == 4 else dict(want=rng.random() < 0.9)))
        if i % 6 == 0:
            cfg, shape = gen.coincident(rng, cfg, shape)
        out.append(dict(t="pair", cfg=cfg, shape=shape, style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    for i in range(40 if q else 400):
        cfg, shape = p11.any_layer(rng, i, **(dict(acts=("linear",)) if i % 5 < 3 else {}))
        out.append(dict(t="default", cfg=cfg, shape=shape, how=rng.choice(["absent", "none"]), change=rng.random() < 0.5,
                        style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    return out


def to_first(x):
    return np.moveaxis(x, -1, 1)


def run(case):
    return run_pair(case) if case["t"] == "pair" else run_default(case)


def run_pair(case):
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    x = lib.ints(s.rng, shape, -6, 6)
    xs = {"last": x, "first": np.ascontiguousarray(to_first(x))}
    res = {}
    weights = None
    for fmt in ("last", "first"):
        c = dict(cfg, fmt=fmt)
        if not s.new(fmt, c, case["style"]):
            continue
        f = xs[fmt]
        try:
            s.layers[fmt].build(f.shape)
        except Exception as e:
            s.call(fmt, f, 5)
            res[fmt] = (type(e).__name__, None)
            continue
        s.build(fmt, f.shape, explicit=False)
        s.load(fmt, -4, 4, weights)
        weights = weights or (s.layers[fmt].get_weights() if cfg["kind"] in ("conv", "convT") else None)
        y = s.call(fmt, f, 25)
        if y is None:
            res[fmt] = (s.events[-1]["err"], None)
            continue
        res[fmt] = ("ok", to_first(y) if fmt == "last" and cfg["kind"] != "global" else y)
        if cfg["kind"] == "global" and cfg["keep"] and fmt == "last":
            res[fmt] = ("ok", to_first(y))
    if len(res) == 2:
        a, b = res["last"], res["first"]
        s.add(op="same", what="another outcome", a=a[0], b=b[0])
        if a[0] == b[0] == "ok":
            s.add(op="same", what="another shape", a=list(a[1].shape), b=list(b[1].shape))
            if cfg["pool"] == "average":
                same = a[1].shape == b[1].shape and bool(np.allclose(a[1], b[1], rtol=1e-5, atol=1e-5))
            else:
                same = bool(np.array_equal(a[1], b[1]))
            s.add(op="same", what="other values", a=same, b=True)
    return s.events


def run_default(case):
    """no format given: the Keras default at the time of construction"""
    import keras

    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    old = keras.config.image_data_format()
    try:
        keras.config.set_image_data_format("channels_" + cfg["fmt"])
        style = dict(case["style"], omit_format=True)
        extra = {"data_format": None} if case["how"] == "none" else {}
        if not s.new("a", cfg, style, extra):
            return s.events
        if case["change"]:       # the layer keeps what it was made with
            keras.config.set_image_data_format("channels_" + ("last" if cfg["fmt"] == "first" else "first"))
        p11.infer(s, "a", shape, "compute")
        if s.build("a", shape):
            s.load("a")
            s.call("a", lib.ints(s.rng, shape), 25)
        from harness.checks import p12

        if p12.recreate(s, "a", "b", "from_config", shape) and s.build("b", shape):
            s.load("b")
            s.call("b", lib.ints(s.rng, shape), 25)
    finally:
        keras.config.set_image_data_format(old)
    return s.events

"""Inferred shapes."""
import random

from harness import gen, lib

RULE = ("random layers of every kind: shapes from compute_output_shape (before and after building, several extents, known and "
        "unknown batch), of symbolic outputs and of functional models, against LayerSem!OutShape; then the actual call")


def models(tier):
    return [("MCPadding",)]


def any_layer(rng, i, **k):
    """all kinds of layers in turn, every third one of each in three dimensions"""
    kind = ["conv", "conv", "convT", "pool", "global"][i % 5]
    if kind != "global" and "dims" not in k and "group" not in k:
        k = dict(k, dims=3 if i // 5 % 3 == 0 else 2 if kind != "pool" else rng.choice([2, 2, 1]))
    if kind == "pool":
        return gen.pool(rng, **k)
    if kind == "global":
        D = 1 + i // 5 % 3
        g = rng.choice(lib.GROUPS2 if D < 3 else ["D4", "D4h", "O"])
        cfg = lib.global_cfg(dims=D, pool=rng.choice(["max", "average"]), fmt=k.get("fmt") or rng.choice(["last", "first"]),
                             keep=rng.random() < 0.5, group=g)
        return cfg, lib.in_shape(cfg, rng.randint(1, 2), [rng.randint(1, 4) for _ in range(D)], rng.randint(1, 2), True)
    return gen.conv(rng, kind=kind, hi=7 if kind == "conv" else 4, **k)


def cases(rng, tier):
    out = []
    for i in range(100 if tier == "quick" else 1000):
        cfg, shape = any_layer(rng, i)
        if i % 6 == 0:
            cfg, shape = gen.coincident(rng, cfg, shape)
        more = []
        for _ in range(3):
            n = gen.spatial(rng, cfg, 1, 11 if cfg["dims"] < 3 else 6)
            if n:
                more.append(n)
        out.append(dict(cfg=cfg, shape=shape, more=more, style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    return out


def infer(s, id, shape, how):
    import keras

    layer = s.layers[id]
    ev = dict(op="shape", id=id, how=how, **{"in": [-1 if d is None else int(d) for d in shape]}, res=[], out="ok", err="")
    try:
        if how == "compute":
            r = layer.compute_output_shape(tuple(shape))
        elif how == "list":
            r = layer.compute_output_shape(list(shape))
        elif how == "input":
            r = layer(keras.Input(tuple(shape[1:]), batch_size=shape[0])).shape
        elif how == "spec":
            r = layer.compute_output_spec(keras.KerasTensor(tuple(shape))).shape
        else:
            i = keras.Input(tuple(shape[1:]), batch_size=shape[0])
            r = keras.Model(i, layer(i)).output_shape
        ev["res"] = [-1 if d is None else int(d) for d in r]
    except NotImplementedError:
        return    # pooling layers compute no shape without a symbolic call
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
    s.events.append(ev)


def with_extents(cfg, shape, n):
    shape = list(shape)
    for a, e in zip(lib.sp_axes(cfg), n):
        shape[a] = e
    return shape


def run(case):
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    if not s.new("a", cfg, case["style"]):
        return s.events
    unknown = [None] + shape[1:]
    how = s.rng.choice
    infer(s, "a", how([shape, unknown]), how(["compute", "list"]))
    sym_first = s.rng.random() < 0.4
    if sym_first:                      # built by the symbolic call
        infer(s, "a", unknown, how(["input", "model"]))
    if s.build("a", shape, explicit=not sym_first):
        s.load("a")
        infer(s, "a", how([shape, unknown]), how(["input", "model", "spec"]))
        s.call("a", lib.ints(s.rng, shape), 8)
        infer(s, "a", how([shape, unknown]), "compute")
        for n in case["more"]:
            sh = with_extents(cfg, shape, n)
            infer(s, "a", [how([None, sh[0]])] + sh[1:], how(["compute", "input", "spec", "model"]))
            s.call("a", lib.ints(s.rng, sh), 5)
    return s.events

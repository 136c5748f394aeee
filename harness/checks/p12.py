"""Round trips through the configuration."""
import contextlib
import json
import os
import random
import shutil
import tempfile

import numpy as np

from harness import gen, lib
from harness.checks import p11

RULE = ("random layers of every kind and the padding layer, recreated by from_config, clone_model, deserialization, and saving "
        "and loading a model (before and after building), possibly several times: Recreate of GroCo.tla, then calls of the "
        "recreated layer with the same weights against LayerSem")


def models(tier):
    return [("MCLifecycle",)]


def cases(rng, tier):
    out = []
    for i in range(100 if tier == "quick" else 800):
        cfg, shape = p11.any_layer(rng, i, **(dict(acts=("linear", "relu")) if i % 5 in (0, 1, 2) else {}))
        out.append(dict(cfg=cfg, shape=shape, how=rng.choice(["from_config", "from_config", "serialize", "clone", "save", "weights"]),
                        first=rng.choice(["none", "build", "call"]), twice=rng.random() < 0.3, style=gen.style(rng, cfg["group"]),
                        extra=rng.random() < 0.3, given=rng.random() < 0.35, seed=rng.randrange(10**6)))
    for _ in range(12 if tier == "quick" else 100):
        out.append(dict(padding=True, seed=rng.randrange(10**6)))
    return out


def plain(v):
    if isinstance(v, dict):
        return all(isinstance(k, str) and plain(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(plain(x) for x in v)
    return v is None or type(v) in (bool, int, float, str)


def same_config(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


@contextlib.contextmanager
def elsewhere(yes):
    """where Keras has other defaults"""
    import keras

    before = keras.config.image_data_format()
    try:
        if yes:
            keras.config.set_image_data_format("channels_first" if before == "channels_last" else "channels_last")
        yield
    finally:
        keras.config.set_image_data_format(before)


def roundtrip(layer, how, shape, moved=False):
    """the recreated layer, and its weights if they come along"""
    import keras

    custom = {type(layer).__name__: type(layer)}
    if how == "from_config":
        d = layer.get_config()
        with elsewhere(moved):
            return type(layer).from_config(d)
    if how == "serialize":
        d = json.loads(json.dumps(keras.saving.serialize_keras_object(layer)))
        with elsewhere(moved):
            return keras.saving.deserialize_keras_object(d, custom_objects=custom)
    i = keras.Input(tuple(shape[1:]))
    model = keras.Model(i, layer(i))
    if how == "clone":
        return keras.models.clone_model(model).layers[-1]
    tmp = tempfile.mkdtemp(prefix="groco_p12_")
    try:
        if how == "weights":
            path = os.path.join(tmp, "m.weights.h5")
            model.save_weights(path)
            new = keras.models.clone_model(model)
            new.load_weights(path)
            return new.layers[-1]
        path = os.path.join(tmp, "m.keras")
        model.save(path)
        with elsewhere(moved):
            return keras.models.load_model(path, custom_objects=custom).layers[-1]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def recreate(s, id, new, how, shape, moved=False):
    layer = s.layers[id]
    ev = dict(op="recreate", id=id, new=new, how=how, plain=False, same=False, told={"none": True}, out="ok", err="")
    try:
        config = layer.get_config()
        ev["plain"] = plain(config)
        ev["told"] = lib.told(layer, s.cfgs[id]["dims"]) or ev["told"]
        other = roundtrip(layer, how, shape, moved)
        ev["same"] = same_config(config, other.get_config()) and type(other) is type(layer)
        s.layers[new], s.cfgs[new] = other, s.cfgs[id]
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:300]
    s.events.append(ev)
    return ev["out"] == "ok"


def run_padding(case):
    from groco.layers.padding import EquivariantPadding

    rng = random.Random(case["seed"])
    D = rng.choice([1, 2, 3])
    p = dict(k=[rng.randint(1, 4) for _ in range(D)], s=[rng.randint(1, 3) for _ in range(D)],
             d=[rng.randint(1, 2)] * D, mode0=rng.choice(gen.MODES), allow=rng.random() < 0.5, transpose=rng.random() < 0.5,
             fmt=rng.choice(["last", "first"]))
    layer = EquivariantPadding(kernel_size=tuple(p["k"]), dimensions=D, strides=tuple(p["s"]), dilation_rate=p["d"][0],
                               padding=p["mode0"], allow_non_equivariance=p["allow"], transpose=p["transpose"],
                               data_format="channels_" + p["fmt"])
    evs = [dict(op="expect", legal=True, out="ok" if plain(layer.get_config()) else "config not plain")]
    other = EquivariantPadding.from_config(json.loads(json.dumps(layer.get_config())))
    evs.append(dict(op="same", what="another configuration", a=json.dumps(layer.get_config(), sort_keys=True),
                    b=json.dumps(other.get_config(), sort_keys=True)))
    for _ in range(3):
        n = [rng.randint(1, 7) for _ in range(D)]
        x = lib.ints(rng, [1] + n + [1] if p["fmt"] == "last" else [1, 1] + n)
        ev = dict(p, op="pad", dims=D, x=lib.enc(x), y={"s": [], "v": []}, out="ok", err="")
        try:
            ev["y"] = lib.enc(np.asarray(other(x)))
        except Exception as e:
            ev["out"], ev["err"] = "error", type(e).__name__
        evs.append(ev)
    return evs


def names(layer):
    """what else a convolution has been given"""
    return {k: type(getattr(layer, k)).__name__ for k in ("kernel_initializer", "bias_initializer", "kernel_regularizer", "bias_regularizer",
            "activity_regularizer", "kernel_constraint", "bias_constraint")} | dict(
                name=layer.name, trainable=bool(layer.trainable), dtype=layer.dtype_policy.name, compute=layer.compute_dtype)


def run_given(case, s, extra):
    """initializers, regularizers, constraints and precision come along"""
    import keras

    cfg, shape, rng = case["cfg"], case["shape"], s.rng
    k0, b0 = rng.choice([-3, 2, 5]), rng.choice([-2, 1, 4])
    extra = dict(extra, kernel_initializer=keras.initializers.Constant(float(k0)), bias_initializer=keras.initializers.Constant(float(b0)))
    if rng.random() < 0.5:
        extra.update(kernel_regularizer=keras.regularizers.L1(1.0), bias_regularizer=keras.regularizers.L1(1.0))
    if rng.random() < 0.5:
        extra.update(kernel_constraint=rng.choice(["non_neg", "max_norm"]), bias_constraint="non_neg")
    if rng.random() < 0.3:
        extra.update(dtype=rng.choice(["float32", "mixed_bfloat16", "float16"]))
    elif rng.random() < 0.3 and "kernel_regularizer" not in extra:
        extra.update(activity_regularizer="l2")
    if not s.new("a", cfg, case["style"], extra):
        return s.events
    how = case["how"]
    if how in ("clone", "save", "weights") and not s.build("a", shape):
        return s.events
    if not recreate(s, "a", "b", how, shape):
        return s.events
    s.add(op="same", what="not made of the same", a=names(s.layers["a"]), b=names(s.layers["b"]))
    for id in "ab":
        built = s.layers[id].built
        if not s.build(id, shape, explicit=not built):
            return s.events
        w = [np.full(t.shape, v, "float32") for t, v in zip(s.layers[id].get_weights(), (k0, b0))]
        s.add(op="load", id=id, w=dict(kernel=lib.enc(w[0]), bias=lib.enc(w[1]) if cfg["bias"] else lib.enc(np.zeros(0))))
        s.check_weights(id)      # initialized with these, or saved and loaded
    if "kernel_regularizer" in extra and s.layers["a"].trainable:   # Keras penalizes what it trains
        w = [lib.ints(rng, t.shape, -4, 4) for t in s.layers["a"].get_weights()]
        for id in "ab":
            s.load(id, weights=w)
            s.add(op="loss", id=id, val=int(np.rint(float(sum(s.layers[id].losses)))))
    if not extra.get("dtype"):
        s.call("b", lib.ints(rng, shape), 12)
    return s.events


def run(case):
    if case.get("padding"):
        return run_padding(case)
    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    extra = {}
    if case["extra"]:
        extra = dict(name="some_name", trainable=False) if cfg["kind"] != "global" else dict(name="some_name")
    conv = cfg["kind"] in ("conv", "convT")
    if conv and case["given"]:
        return run_given(case, s, extra)
    if not s.new("a", cfg, case["style"], extra):
        return s.events
    x = lib.ints(s.rng, shape)
    built = case["first"] != "none" or case["how"] in ("clone", "save", "weights")
    if built:
        if s.build("a", shape):
            s.load("a")
        if case["first"] == "call":
            s.call("a", x, 20)
    ids = ["a", "b", "c"] if case["twice"] else ["a", "b"]
    for old, new in zip(ids, ids[1:]):
        if not recreate(s, old, new, case["how"], shape, s.rng.random() < 0.4):
            return s.events
        kept = case["how"] in ("save", "weights")
        if case["how"] in ("clone", "save", "weights"):
            if not s.build(new, shape, explicit=False):
                return s.events
        elif built or case["twice"]:
            if not s.build(new, shape, explicit=not s.layers[new].built):   # deserializing builds
                return s.events
        if kept:       # the weights have to have come along: the specification knows them from the original
            if cfg["kind"] in ("conv", "convT"):
                w = s.layers[old].get_weights()
                s.add(op="load", id=new, w=dict(kernel=lib.enc(w[0]), bias=lib.enc(w[1]) if cfg["bias"] else lib.enc(np.zeros(0))))
                s.check_weights(new)
        elif built or case["twice"]:
            if built:
                s.load(new, weights=s.layers["a"].get_weights())
            else:
                s.load(new)
        if built or case["twice"]:
            s.call(new, x, 20)
            s.add(op="same", what="another trainability", a=bool(s.layers["a"].trainable), b=bool(s.layers[new].trainable))
        elif s.build(new, shape):
            s.load(new)
            s.call(new, x, 20)
    if built:
        s.check_weights("a")
        s.call("a", x, 20)
    return s.events

"""Compiled, symbolic and trained use."""
import copy

import numpy as np

from harness import gen, lib
from harness.checks import p06, p11, p16

RULE = ("random layers of every kind called eagerly and compiled, as functional and sequential models, in a model inside a compiled function, "
        "and in prediction over uneven batches, in random order and with several spatial shapes; convolutions trained by gradient descent, the "
        "trained weights against the gradient by LayerSem; random networks trained with several optimizers, then called, evaluated and tested "
        "for equivariance")
ASSUMPTIONS = ["single layers are trained on a loss that is linear in the output, where integers stay exact"]


def models(tier):
    return [("MCStack",)] + ([("MCLifecycle__deep",)] if tier == "thorough" else [])


USES = ["eager", "jit", "functional", "sequential", "predict", "jitmodel", "training", "batches", "sum", "keyword", "time", "vmap", "checkpoint", "copy", "list", "device", "nested"]


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(64 if q else 600):
        cfg, shape = p11.any_layer(rng, i, **({} if i % 8 == 7 else dict(want=rng.random() < 0.95)))
        shape = [rng.randint(1, 5)] + list(shape[1:])
        out.append(dict(t="uses", cfg=cfg, shape=shape, uses=[rng.choice(USES) for _ in range(4)], built=rng.choice(["explicit", "model", "call"]),
                        style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    for i in range(24 if q else 240):
        D = 2 if i % 4 else 3
        cfg, shape = gen.conv(rng, dims=D, kind=rng.choice(["conv", "conv", "convT"]), acts=("linear",), kmax=3, max_filters=2, max_ch=2,
                              hi=5 if D == 2 else 3, group=None if D == 2 else rng.choice(["D4", "D4h", "O"]))
        shape = [rng.randint(2, 5)] + list(shape[1:])
        out.append(dict(t="train", cfg=cfg, shape=shape, epochs=rng.randint(1, 3), batch=rng.randint(1, 5), trainable=rng.random() < 0.85,
                        how=rng.choice(["fit", "fit", "batch", "eager"]), style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    base = p16.cases(rng, tier)
    for c in base[: 24 if q else 240]:
        out.append(dict(c, t="network", use=rng.choice(["functional", "sequential", "subclass"]), optimizer=rng.choice(["sgd", "adam", "rmsprop"]),
                        end=rng.choice(["max", "average"]), depth=min(c["depth"], 3)))
    return out


def run(case):
    return globals()["run_" + case["t"]](case)


# ---------------------------------------------------------------- one layer, many uses
def use(s, layer, how, shape):
    """a function that applies the layer in some way"""
    import jax
    import keras
    import keras.random

    inp = lambda: keras.Input(tuple(shape[1:]))
    if how == "eager":
        return layer
    if how == "jit":
        return jax.jit(lambda v: layer(v))
    if how == "functional":
        i = inp()
        return keras.Model(i, layer(i))
    if how == "sequential":
        return keras.Sequential([inp(), layer])
    if how == "predict":
        i = inp()
        m = keras.Model(i, layer(i))
        b = s.rng.randint(1, 3)
        return lambda v: m.predict(v, batch_size=b, verbose=0)
    if how == "jitmodel":
        i = inp()
        m = keras.Model(i, layer(i))
        return jax.jit(lambda v: m(v))
    if how == "training":
        return lambda v: layer(v, training=True)
    if how == "batches":          # one example at a time
        return lambda v: np.concatenate([np.asarray(layer(v[b:b + 1])) for b in range(v.shape[0])], axis=0)
    if how == "keyword":
        return lambda v: layer(inputs=v)
    if how == "time":             # steps of a sequence
        time = keras.layers.TimeDistributed(layer)
        return lambda v: time(np.stack([v, v * 1, v - v], axis=1))[:, s.rng.randrange(2)]
    if how == "vmap":
        return jax.vmap(lambda v: layer(v[None])[0])
    if how == "checkpoint":
        return jax.checkpoint(lambda v: layer(v))
    if how == "copy":
        return copy.deepcopy(layer)
    if how == "list":             # nested lists of numbers, or another type of array
        return lambda v: layer(keras.ops.convert_to_tensor(v.tolist(), dtype="float32")) if v.size else layer(v)
    if how == "device":
        return lambda v: layer(jax.numpy.asarray(v))
    if how == "nested":           # a model in a model
        i, j = inp(), inp()
        return keras.Model(j, keras.Model(i, layer(i))(j))
    if how == "sum":              # in a larger program, that uses the layer twice
        return jax.jit(lambda v: layer(v) + layer(v) - layer(v * 1))


def run_uses(case):
    import keras

    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    if not s.new("a", cfg, case["style"]):
        return s.events
    x = lib.ints(s.rng, shape)
    if case["built"] == "explicit":
        if not s.build("a", shape):
            return s.events
    else:
        try:
            if case["built"] == "model":
                i = keras.Input(tuple(shape[1:]))
                keras.Model(i, s.layers["a"](i))
            else:
                s.layers["a"](x)
        except Exception:
            s.call("a", x, 3)        # has to be refused
            return s.events
        s.build("a", shape, explicit=False)
    s.load("a")
    s.layers["a"].trainable = s.rng.random() < 0.7
    for how in case["uses"]:
        try:
            fn = use(s, s.layers["a"], how, shape)
        except Exception as e:
            s.events.append(lib.err_event(e))
            continue
        s.call("a", x, 12, fn)
        if s.rng.random() < 0.4:
            s.load("a") if how in ("eager", "functional", "sequential", "training", "batches") else None
        if how in ("eager", "functional", "training"):
            x = lib.ints(s.rng, shape)
        if s.rng.random() < 0.3 and how in ("jit", "eager"):      # another extent through the same function
            n = gen.spatial(s.rng, cfg, 1, 8 if cfg["dims"] < 3 else 4)
            if n:
                sh = list(shape)
                for a, e in zip(lib.sp_axes(cfg), n):
                    sh[a] = e
                s.call("a", lib.ints(s.rng, sh), 10, fn)
                s.call("a", x, 6, fn)
    return s.events


# ---------------------------------------------------------------- training a layer
def linear_loss():
    import keras
    from keras import ops

    class Linear(keras.losses.Loss):
        def call(self, y_true, y_pred):
            return ops.sum(ops.reshape(y_true * y_pred, (ops.shape(y_pred)[0], -1)), axis=-1)

    return Linear(reduction="sum")


def run_train(case):
    import keras

    cfg, shape = case["cfg"], case["shape"]
    s = lib.Session(case["seed"])
    if not s.new("a", cfg, case["style"]) or not s.build("a", shape):
        return s.events
    s.load("a", -3, 3)
    x = lib.ints(s.rng, shape, -3, 3)
    y = s.call("a", x, 8)
    if y is None or y.size == 0:
        return s.events
    layer = s.layers["a"]
    layer.trainable = case["trainable"]
    i = keras.Input(tuple(shape[1:]))
    m = keras.Model(i, layer(i))
    m.compile(optimizer=keras.optimizers.SGD(learning_rate=1.0), loss=linear_loss(), run_eagerly=case["how"] == "eager")
    for turn in range(2):
        c = np.zeros(y.shape, "float32")
        for _ in range(8):
            c[tuple(s.rng.randrange(n) for n in c.shape)] = s.rng.choice([-2, -1, 1, 2])
        ev = dict(op="train", id="a", x=lib.enc(x), c=lib.enc(c), epochs=case["epochs"], trainable=case["trainable"], out="ok", err="", at=[],
                  w=dict(kernel={"s": [], "v": []}, bias={"s": [], "v": []}))
        try:
            if case["how"] == "batch":
                for _ in range(case["epochs"]):
                    for b in range(0, shape[0], case["batch"]):
                        m.train_on_batch(x[b:b + case["batch"]], c[b:b + case["batch"]])
            else:
                m.fit(x, c, batch_size=case["batch"], epochs=case["epochs"], verbose=0)
            w = layer.get_weights()
            ev["w"] = dict(kernel=lib.enc(w[0]), bias=lib.enc(w[1]) if cfg["bias"] else lib.enc(np.zeros(0)))
            ev["at"] = lib.choose_at(s.rng, w[0].size, 6)
        except Exception as e:
            ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
        s.events.append(ev)
        if ev["out"] != "ok":
            break
        s.call("a", x, 10, s.rng.choice([layer, m, lambda v: m.predict(v, batch_size=2, verbose=0)]))
        s.add(op="same", what="number of weights", a=[len(layer.weights), len(layer.trainable_weights)],
              b=[1 + cfg["bias"], (1 + cfg["bias"]) * case["trainable"]])
    return s.events


def run_lazy(case):
    """a sequential model that learns about its input when it is trained"""
    import keras

    import groco.layers as L

    s = lib.Session(1)
    ev = s.add(op="expect", legal=True, out="ok", err="")
    m = keras.Sequential([L.GroupConv2D(group="P4", filters=2, kernel_size=3), L.GlobalGroupMaxPooling2D()])
    m.compile("sgd", "mse")
    try:
        m.fit(lib.ints(s.rng, [2, 5, 5, 1]), lib.ints(s.rng, [2, 2]), verbose=0)
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
    return s.events


# ---------------------------------------------------------------- training a network
def run_network(case):
    import keras

    s = lib.Session(case["seed"])
    rng, D, g = s.rng, case["dims"], case["group"]
    base = dict(dims=D, fmt=case["fmt"])
    n = [rng.randint(4, 7 if D == 2 else 4)] * D
    shape = lib.in_shape(lib.conv_cfg(dims=D, group=g, fmt=case["fmt"]), 4, n, 1, not case["lift"])
    x = lib.ints(rng, shape, -3, 3)
    xdom = "none" if case["lift"] else g
    cur, layers, cfgs = list(shape), [], []
    last = g
    for i in range(case["depth"]):
        cfg = p16.next_layer(rng, case, last, cur, i == 0)
        if cfg is None:
            break
        id = f"l{i}"
        if not s.new(id, cfg, gen.style(rng, cfg["group"])) or not s.build(id, cur):
            return s.events
        y = np.zeros(1)
        y = np.asarray(s.layers[id](np.zeros(cur, "float32")))
        if y.size == 0 or y.size > 8000:
            break
        layers.append(id)
        cur, last = list(y.shape), lib.sub_name(cfg)
    if not layers or not s.new("end", lib.global_cfg(dims=D, pool=case["end"], fmt=case["fmt"], group=last)) or not s.build("end", cur):
        return s.events
    fns = [s.layers[i] for i in layers + ["end"]]
    classes = rng.randint(1, 3)
    fns.append(keras.layers.Dense(classes))

    def chain(v):
        for f in fns:
            v = f(v)
        return v

    class Net(keras.Model):
        def __init__(self):
            super().__init__()
            self.parts = fns

        def call(self, v):
            return chain(v)

    s.add(op="expect", legal=True, out="ok", err="")
    ev = s.events[-1]
    try:
        if case["use"] == "functional":
            i = keras.Input(tuple(shape[1:]))
            m = keras.Model(i, chain(i))
        elif case["use"] == "sequential":
            m = keras.Sequential([keras.Input(tuple(shape[1:]))] + fns)
        else:
            m = Net()
            m(x)
        m.compile(optimizer={"sgd": keras.optimizers.SGD(1e-3), "adam": keras.optimizers.Adam(1e-2),
                             "rmsprop": keras.optimizers.RMSprop(1e-2)}[case["optimizer"]], loss="mse")
        target = lib.ints(rng, [shape[0], classes], -2, 2)
        before = [v.shape for v in m.weights]
        m.evaluate(x, target, verbose=0)
        m.fit(x, target, batch_size=rng.randint(1, 4), epochs=2, verbose=0)
        p = m.predict(x, batch_size=3, verbose=0)
        y = np.asarray(m(x))
        loss = float(m.evaluate(x, target, batch_size=rng.choice([2, 4]), verbose=0))
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
        return s.events
    s.add(op="same", what="shapes of the weights", a=[list(v) for v in before], b=[list(v.shape) for v in m.weights])
    close = lambda a, b: bool(np.allclose(a, b, rtol=1e-4, atol=1e-4))
    s.add(op="same", what="prediction and call differ", a=close(p, y), b=True)
    s.add(op="same", what="evaluation and call differ", a=close(loss, np.mean((y - target) ** 2)), b=True)
    # trained with what are no integers
    elems = p06.pick(rng, lib.ORDER[last], 3 if D == 2 else 2)
    top = float(np.abs(y).max()) + 1
    if np.isfinite(top) and top < 1e6:
        scale = max(1, min(1000, int(10**7 / top)))
        fn = rng.choice([m, lambda v: m.predict(v, batch_size=4, verbose=0)])
        s.equiv(fn, x[:1], base, last, xdom, "none", elems, invariant=True, tol=3 + int(top * scale * 1e-4), scale=scale)
    # and what they compute, layer by layer, from weights that are integers
    v = x
    for id in layers:
        s.load(id, -1, 1)
        v = s.call(id, np.rint(v), 8)
        if v is None or np.abs(v).max() > 40000:
            return s.events
    s.call("end", np.rint(v), 8)
    return s.events

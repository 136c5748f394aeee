"""Parameters are shared over the group."""
import numpy as np

from harness import gen, lib

RULE = ("random convolutions of all kinds: number and shapes of the weights (every group and subgroup), results after assigning other "
        "weights in several ways to layers frozen or not, gradients of a random linear loss (eager and compiled) against the sum over all transformed copies, "
        "penalties of regularizers on the shared weights only")
ASSUMPTIONS = ["gradients are compared for layers without activation, at sampled entries of the kernel and for all of the bias"]


def models(tier):
    return [("MCConv__kernel",)] if tier == "quick" else [("MCConv__kernel",), ("MCConv__kernelOh",)]


def cases(rng, tier):
    out = []
    for i in range(64 if tier == "quick" else 700):
        D = 2 if i % 4 else 3
        g = (lib.GROUPS2[i % 7]) if D == 2 else ["D4", "O", "D4h", "O"][i // 4 % 4]
        cfg, shape = gen.conv(rng, dims=D, group=g, kind=rng.choice(["conv", "conv", "convT"]), acts=("linear",), kmax=3,
                              max_filters=2, max_ch=2, hi=(6 if D == 2 else 3))
        out.append(dict(cfg=cfg, shape=shape, t=rng.choice(["grad", "grad", "gradjit", "assign", "loss"]), style=gen.style(rng, cfg["group"]),
                        seed=rng.randrange(10**6)))
    for i in range(16 if tier == "quick" else 160):      # every kind of layer, with a bias
        D = 2 + i % 2
        cfg, shape = gen.conv(rng, dims=D, kind=["conv", "convT"][i // 2 % 2], kmax=3, max_filters=3, max_ch=2, hi=6 if D == 2 else 3,
                              group=None if D == 2 else rng.choice(["D4", "D4h", "O"]))
        cfg["bias"] = True
        out.append(dict(cfg=cfg, shape=shape, t="assign", style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    for i in range(40 if tier == "quick" else 300):
        cfg, shape = gen.conv(rng, dims=3 if i % 3 == 0 else 2, kind=rng.choice(["conv", "convT"]), max_filters=5, max_ch=4)
        out.append(dict(cfg=cfg, shape=shape, t="count", style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    return out


def gradient(s, id, x, jit):
    import jax
    import jax.numpy as jnp

    layer, cfg = s.layers[id], s.cfgs[id]
    y = np.asarray(layer(x))
    c = lib.ints(s.rng, y.shape, -2, 2)
    mask = np.array([s.rng.random() < min(0.3, 120 / c.size) for _ in range(c.size)]).reshape(c.shape)
    c = c * mask

    def loss(tv, ntv):
        out, _ = layer.stateless_call(tv, ntv, x)
        return jnp.sum(out * c)

    g = jax.grad(loss)
    ev = dict(op="grad", id=id, x=lib.enc(x), c=lib.enc(c), out="ok", err="", at=[], dk={"s": [], "v": []}, db={"s": [], "v": []})
    try:
        tv = [v.value for v in layer.trainable_variables]
        ntv = [v.value for v in layer.non_trainable_variables]
        res = (jax.jit(g) if jit else g)(tv, ntv)
        ev["dk"] = lib.enc(res[0])
        ev["db"] = lib.enc(res[1]) if cfg["bias"] else lib.enc(np.zeros(0))
        ev["at"] = lib.choose_at(s.rng, res[0].size, 4)
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
    s.events.append(ev)


def assign(s, id, how):
    layer, cfg = s.layers[id], s.cfgs[id]
    w = [lib.ints(s.rng, v.shape, -4, 4) for v in layer.weights]
    if how == "set":
        layer.set_weights(w)
    elif how == "assign":
        for v, a in zip(layer.weights, w):
            v.assign(a)
    elif how == "attributes":
        layer.kernel.assign(w[0])
        if cfg["bias"]:
            layer.bias.assign(w[1])
    else:                    # a step of gradient descent
        import keras

        opt = keras.optimizers.SGD(learning_rate=1.0)
        old = layer.get_weights()
        opt.apply([a - b for a, b in zip(old, w)], layer.trainable_variables)
    s.add(op="load", id=id, w=dict(kernel=lib.enc(w[0]), bias=lib.enc(w[1]) if cfg["bias"] else lib.enc(np.zeros(0))))


def freeze(s, frozen):
    s.add(op="freeze", id="a", trainable=not frozen)
    s.layers["a"].trainable = not frozen


def run(case):
    import keras

    cfg, shape, t = case["cfg"], case["shape"], case["t"]
    s = lib.Session(case["seed"])
    extra = dict(kernel_regularizer=keras.regularizers.L1(1.0), bias_regularizer=keras.regularizers.L1(1.0)) if t == "loss" else {}
    if not s.new("a", cfg, case["style"], extra) or not s.build("a", shape):
        return s.events
    layer = s.layers["a"]
    s.add(op="same", what="number of trainable weights", a=len(layer.trainable_weights), b=1 + cfg["bias"])
    s.add(op="same", what="number of parameters", a=int(layer.count_params()), b=int(sum(w.size for w in layer.get_weights())))
    s.load("a", -3, 3)
    x = lib.ints(s.rng, shape, -4, 4)
    if t in ("grad", "gradjit"):
        gradient(s, "a", x, t == "gradjit")
        assign(s, "a", "step")
        gradient(s, "a", lib.ints(s.rng, shape, -4, 4), t == "gradjit")
    elif t == "loss":
        for _ in range(2):
            layer(x)
            s.add(op="loss", id="a", val=int(round(float(sum(layer.losses)))), n=len(layer.losses))
            s.load("a")
    elif t == "assign":
        hows = ["set", "assign", "attributes", "step"]
        s.rng.shuffle(hows)
        s.call("a", x, 6)
        frozen = s.rng.random() < 0.5
        for how in hows:
            if layer.trainable == frozen and how != "step" or s.rng.random() < 0.2:
                freeze(s, frozen)        # may have been called in the other state just before
                s.call("a", x, 4)
            if how == "step":
                freeze(s, False)
            assign(s, "a", how)
            s.call("a", x, 12)
            s.check_weights("a")
    return s.events

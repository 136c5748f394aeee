"""Networks of group layers are equivariant end to end."""
import numpy as np

from harness import gen, lib
from harness.checks import p06

RULE = ("random chains of 2 to 5 group convolutions, transposed convolutions and poolings, each taking the signal of the previous one "
        "on its subgroup, composed directly or as a functional or sequential model, optionally ending in a global pooling, "
        "some with kernels of one shape throughout: commutation "
        "with random elements of the last subgroup (or invariance); values of every layer of the chain against LayerSem")


def models(tier):
    return [("MCStack",)] + ([("MCStack__deep",)] if tier == "thorough" else [])


def cases(rng, tier):
    out = []
    for i in range(72 if tier == "quick" else 800):
        D = 3 if i % 6 == 5 else 2
        g = rng.choice(["P4M", "P4M", "P4", "P2MM", "PMw", "P2"]) if D == 2 else rng.choice(["D4h", "O", "D4", "D4", "Oh"])
        out.append(dict(dims=D, group=g, lift=rng.random() < 0.6, depth=rng.randint(2, 4 if D == 2 else 2),
                        end=rng.choice(["none", "max", "average", "keep"]), use=rng.choice(["direct", "functional", "sequential"]),
                        fmt=rng.choice(["last", "last", "first"]), alike=i % 4 == 1, seed=rng.randrange(10**6)))
    return out


def next_layer(rng, case, group, shape, first):
    """a layer that takes signals on the given group"""
    D = case["dims"]
    kw = dict(dims=D, group=group, allow=False, fmt=case["fmt"], kmax=2 if case["alike"] else 3, smax=1 if case["alike"] else 3)
    kind = "conv" if first and len(shape) == D + 2 else rng.choice(["conv", "conv", "pool", "convT"])
    n = [shape[a] for a in lib.sp_axes(dict(dims=D, fmt=case["fmt"]))]
    for _ in range(40):
        if kind == "pool":
            cfg, _ = gen.pool(rng, **kw)
            ok = not gen.odd_same(cfg, n)
        else:
            cfg, _ = gen.conv(rng, kind=kind, max_filters=1 if D == 3 or case["alike"] else 2, acts=("linear", "relu"), lo=1, hi=5,
                              **(dict(sub="") if kind == "convT" else {}), **kw)
            ok = True
            if kind == "convT":
                st, k = cfg["s"], cfg["k"]
                ok = (set(st) == {1} and not cfg["mode0"].endswith("same_equiv") or st == k and set(cfg["d"]) == {1} and
                      cfg["mode0"].startswith("valid")) and max(n) <= 4 and max(st) <= 2
        if ok and rng.random() < 0.5 and group in cfg["sub"]:
            cfg["sub"] = ""
        big = [gen.dilated(a, b) <= c for a, b, c in zip(cfg["k"], cfg["d"], n)]
        if ok and all(big) and gen.admissible(cfg, n):
            return cfg
    return None


def run(case):
    import keras

    s = lib.Session(case["seed"])
    rng, D, g = s.rng, case["dims"], case["group"]
    base = dict(dims=D, fmt=case["fmt"])
    hi = 7 if D == 2 else 4
    n = [rng.randint(3, hi)] * D
    if g in ("PMw", "P2MM", "P2"):
        n = [rng.randint(3, hi) for _ in range(D)]
    cfg0 = lib.conv_cfg(dims=D, group=g, fmt=case["fmt"])
    # with as many channels as elements, the kernels of the first layers have the same shape
    shape = lib.in_shape(cfg0, 1, n, lib.ORDER[g] if case["alike"] and case["lift"] else 1, not case["lift"])
    x0 = x = lib.ints(rng, shape, -3, 3)
    xdom = "none" if case["lift"] else g
    layers, acting, exact = [], None, True
    for i in range(case["depth"]):
        cfg = next_layer(rng, case, g, list(x.shape), i == 0)
        if cfg is None:
            break
        id = f"l{i}"
        if not s.new(id, cfg, gen.style(rng, cfg["group"])) or not s.build(id, x.shape):
            return s.events
        s.load(id, -1, 1)
        y = s.call(id, x, 12)
        if y is None or y.size == 0 or y.size > 6000 or np.abs(y).max() > 40000:
            break
        layers.append(id)
        exact &= cfg["pool"] != "average"
        x, g = y, lib.sub_name(cfg)
        if not exact:
            x = np.rint(x)         # what follows is recorded for integers only
    if not layers:
        return s.events
    invariant = case["end"] != "none"
    fns = [s.layers[i] for i in layers]
    if invariant:
        gc = lib.global_cfg(dims=D, pool="average" if case["end"] == "average" else "max", fmt=case["fmt"], keep=case["end"] == "keep", group=g)
        if not s.new("end", gc) or not s.build("end", x.shape):
            return s.events
        if s.call("end", x, 10) is None:
            return s.events
        fns.append(s.layers["end"])
        exact &= case["end"] != "average"

    def direct(v):
        for f in fns:
            v = f(v)
        return v

    fn = direct
    if case["use"] == "functional":
        inp = keras.Input(tuple(shape[1:]))
        fn = keras.Model(inp, direct(inp))
    elif case["use"] == "sequential":
        fn = keras.Sequential([keras.Input(tuple(shape[1:]))] + fns)
    elems = p06.pick(rng, lib.ORDER[g], 4 if D == 2 else 2)
    scale, tol = 1, 0
    if not exact:
        top = float(np.abs(np.asarray(direct(x0))).max()) + 1
        scale = max(1, min(1000, int(10**7 / top)))
        tol = 2 + int(top * scale * 1e-5)
    s.equiv(fn, x0, base, g, xdom, "none" if invariant else g, elems, invariant=invariant, tol=tol, scale=scale)
    return s.events

"""The equivariant padding."""
import random

from harness import gen, lib

RULE = ("the padding layer on its own, all small combinations of extent, size, stride, mode in 1D, random ones (dilation, "
        "transpose, formats, dtypes, mixed axes) in 1D to 3D: PadVerdict; sizes beyond 8 and extents beyond 15 bits; several inputs with one layer")


def models(tier):
    return [("MCPadding",)] if tier == "quick" else [("MCPadding",), ("MCPadding__deep",)]


def cases(rng, tier):
    q = tier == "quick"
    out = []
    # exhaustive in one dimension, many extents with the same layer
    for k in range(1, 6 if q else 9):
        for s in range(1, 5 if q else 7):
            for mode in gen.MODES:
                for tr in (False, True):
                    for allow in ((False, True) if not mode.endswith("equiv") or k == 3 else (False,)):
                        out.append(dict(dims=1, k=[k], s=[s], d=[1], mode0=mode, allow=allow, transpose=tr, fmt="last",
                                        ns=[[n] for n in range(1, 9 if q else 17)], fixed=q is False, seed=rng.randrange(10**6)))
    if q:   # a different half of them with every seed
        rng.shuffle(out)
        out = out[: len(out) * 2 // 3]
    for _ in range(120 if q else 1500):
        D = rng.choice([1, 2, 2, 3])
        mode = rng.choice(gen.MODES + ["SAME_EQUIV", "VALID", "Valid_Equiv"])
        out.append(dict(dims=D, k=[rng.randint(1, 6) for _ in range(D)], s=[rng.randint(1, 4) for _ in range(D)],
                        d=[rng.choice([1, 1, 2, 3]) for _ in range(D)] if rng.random() < 0.4 else [1] * D,
                        mode0=mode, allow=rng.random() < 0.3, transpose=rng.random() < 0.3,
                        fmt=rng.choice(["last", "first"]),
                        ns=[[rng.randint(1, 8 if D < 3 else 5) for _ in range(D)] for _ in range(3)], seed=rng.randrange(10**6)))
    for i in range(48 if q else 400):
        # sizes of more than 8 bits, some of more than 15
        D = 2 if i % 3 == 2 else 1
        big = lambda hi: rng.choice([rng.randint(1, 5), rng.randint(100, hi)])
        out.append(dict(dims=D, k=[big(300) for _ in range(D)], s=[rng.choice([2, 3, 3, 5, 7, 11, big(200)]) for _ in range(D)],
                        d=[rng.choice([1, 1, 2, 3, 40]) for _ in range(D)], mode0=rng.choice(gen.MODES + gen.MODES[2:] * 2), allow=rng.random() < 0.3,
                        transpose=rng.random() < 0.3, fmt=rng.choice(["last", "first"]),
                        ns=[[rng.randint(100, 700) if D == 1 else rng.choice([rng.randint(1, 8), rng.randint(120, 300)]) for _ in range(D)]
                            for _ in range(3)] + ([[rng.randint(30000, 40000)]] if D == 1 and i % 6 == 0 else []), seed=rng.randrange(10**6)))
    return out


def run(case):
    import numpy as np
    from keras import ops
    from groco.layers.padding import EquivariantPadding

    rng = random.Random(case["seed"])
    D = case["dims"]
    size = lambda v: int(v[0]) if len(set(v)) == 1 and rng.random() < 0.5 else rng.choice([tuple, list])(v)
    kw = dict(kernel_size=size(case["k"]), dimensions=D, padding=case["mode0"], allow_non_equivariance=case["allow"],
              data_format="channels_" + case["fmt"], transpose=case["transpose"])
    if set(case["s"]) != {1} or rng.random() < 0.5:
        kw["strides"] = size(case["s"])
    if set(case["d"]) != {1} or rng.random() < 0.5:
        kw["dilation_rate"] = size(case["d"])
    for name, default in dict(padding="valid_equiv", allow_non_equivariance=False, data_format="channels_last", transpose=False).items():
        if kw[name] == default and rng.random() < 0.4:
            kw.pop(name)
    layer = EquivariantPadding(**kw)
    evs = []
    for n in case["ns"]:
        b, c = rng.randint(1, 2), rng.randint(1, 2)
        shape = [b] + n + [c] if case["fmt"] == "last" else [b, c] + n
        x = lib.ints(rng, shape, -9, 9).astype(rng.choice(["float32", "float32", "float16", "int32"]))
        ev = dict(op="pad", dims=D, fmt=case["fmt"], k=case["k"], s=case["s"], d=case["d"], mode0=case["mode0"],
                  allow=case["allow"], transpose=case["transpose"], x=lib.enc(x), y={"s": [], "v": []}, out="ok", err="")
        try:
            y = np.asarray(layer(ops.convert_to_tensor(x)))   # Keras converts arrays, tensors keep their type
            ev["y"] = lib.enc(y if y.dtype == x.dtype else np.full(y.shape, lib.BAD))
        except Exception as e:
            ev["out"], ev["err"] = "error", type(e).__name__
        evs.append(ev)
    return evs

"""The action on signals on the grid."""
import random

import numpy as np

from harness import gen, lib

RULE = ("random groups, acting subgroups, ranks, positions and orders of the spatial and the new axis, extents, dtypes; "
        "every entry of the result against Actions!ActionVerdict")
SPECIAL = [0.0, -0.0, np.inf, -np.inf, 1e-7, 65504.0]


def models(tier):
    return [("MCSymmetry",)]


def preserved(rng, group, hi=5):
    """extents that all elements of the group preserve"""
    if group in ("P4", "P4M", "O", "Oh"):
        return [rng.randint(1, hi if group[0] == "P" else 3)] * lib.DIM[group]
    if group in ("D4", "D4h"):
        n = rng.randint(1, 3)
        return [n, n, rng.randint(1, 4)]
    return [rng.randint(1, hi) for _ in range(2)]


def placement(rng, d, extra):
    """positions of d spatial axes among d + extra, in any order"""
    return rng.sample(range(d + extra), d)


def cases(rng, tier):
    out = []
    n = 14 if tier == "quick" else 150
    for g in lib.DIM:
        d = lib.DIM[g]
        for i in range(n if d == 2 else n // 2 + 1):
            extra = rng.choice([0, 1, 1, 2, 2, 3] if d == 2 else [0, 1, 2])
            sp = sorted(placement(rng, d, extra)) if rng.random() < 0.4 else placement(rng, d, extra)
            r = d + extra
            out.append(dict(
                group=g, acting=rng.choice(lib.SUBGROUPS[g]) if rng.random() < 0.6 else "",
                n=preserved(rng, g), other=[rng.randint(1, 3) for _ in range(extra)],
                sp=[a if rng.random() < 0.8 else a - r for a in sp],
                new=rng.randint(-(r + 1), r), dtype=rng.choice(["float32", "float32", "int32", "float16", "bits", "list", "bits32", "large32"]),
                chain=gen.chain(rng, g, 0.3), own=rng.random() < 0.3, how=rng.choice(HOW), seed=rng.randrange(10**6), defaults=i % 5 == 0))
    return out


def signal(rng, case, shape):
    """the signal to act on, and how to record it"""
    if case["dtype"] == "bits":
        b = np.array([rng.randrange(2**16) for _ in range(int(np.prod(shape)))], "uint16")
        b = np.where((b & 0x7C00) == 0x7C00, b & 0xFC00, b).astype("uint16")  # infinities, but no NaN
        x = b.view("float16").reshape(shape)
        return x, lambda t: lib.enc(np.ascontiguousarray(np.asarray(t)).view("uint16")) \
            if np.asarray(t).dtype == np.float16 else lib.enc(np.full(np.asarray(t).shape, lib.BAD))
    if case["dtype"] in ("bits32", "large32"):
        # any patterns, recorded by their numbers: what matters is which of them are the same
        n = int(np.prod(shape))
        if case["dtype"] == "bits32":
            special = [0x80000000, 0x7F800000, 0xFF800000, 0x7FC00000, 1, 0x007FFFFF, 0x7F7FFFFF, 0x3F800001, 0x4B800001]
            b = [rng.choice(special) if rng.random() < 0.3 else rng.randrange(2**32) for _ in range(n)]
            b = [v & 0xFF800000 if v & 0x7F800000 == 0x7F800000 and v != 0x7FC00000 else v for v in b]
        else:
            b = [rng.randrange(2**32) for _ in range(n)]
        codes = {0: 0}
        for v in b:
            codes.setdefault(v, len(codes))
        dt = "float32" if case["dtype"] == "bits32" else "int32"

        def number(t):
            t = np.ascontiguousarray(np.asarray(t))
            if t.dtype != dt:
                return lib.enc(np.full(t.shape, lib.BAD))
            return lib.enc(np.array([codes.get(int(v), lib.BAD) for v in t.reshape(-1).view("uint32")]).reshape(t.shape))

        return np.array(b, "uint32").view(dt).reshape(shape), number
    x = lib.ints(rng, shape, -900, 900)
    dtype = "float32" if case["dtype"] == "list" else case["dtype"]
    x = x.astype(dtype)

    def rec(t):
        t = np.asarray(t)
        return lib.enc(t) if t.dtype == dtype else lib.enc(np.full(t.shape, lib.BAD))

    return x, rec


HOW = ["eager", "eager", "jit", "vmap", "jvp"]


def perform(fn, x, case):
    """the action eagerly, compiled, vectorized over signals, or its derivative in the direction of the signal"""
    import jax

    how = case.get("how", "eager")
    if how == "jit":
        return jax.jit(fn)(x)
    if how == "vmap":
        return jax.vmap(fn)(np.stack([np.zeros_like(x), x, np.asarray(x)[::-1] if x.ndim else x]))[1]
    if how == "jvp" and x.dtype == "float32" and case["dtype"] == "float32":
        return jax.jvp(fn, (np.ones_like(x),), (x,))[1]
    return fn(x)


def shape_of(case, r):
    shape = [0] * r
    others = list(case["other"])
    pos = {a % r: e for a, e in zip(case["sp"], case["n"])}
    return [pos[a] if a in pos else others.pop(0) for a in range(r)]


def group(case):
    if not case["chain"]:
        return lib.group_of(case["group"])
    # an action that always performs all elements of the parent takes the signals that all of them preserve
    square = len(set(case["n"])) == 1
    if case["chain"][0] in ("P4", "P4M") and not square:
        return lib.group_of(case["group"])
    return lib.derived(case["group"], case["chain"], case["own"] and square)


def run(case):
    rng = random.Random(case["seed"])
    r = len(case["n"]) + len(case["other"])
    x, rec = signal(rng, case, shape_of(case, r))
    kw = dict(spatial_axes=tuple(case["sp"]), new_group_axis=case["new"], domain_group=None)
    if case["acting"]:
        kw["acting_group"] = case["acting"]
    ev = dict(op="action", acting=case["acting"] or case["group"], dom="none", sp=case["sp"], new=case["new"], ga=0,
              x=rec(x), y={"s": [], "v": []}, out="ok", err="")
    try:
        arg = x
        if case["dtype"] == "list":
            from keras import ops
            arg = ops.convert_to_tensor(x)
        g = group(case)
        ev["y"] = rec(perform(lambda t: g.action(t, **kw), arg, case))
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
    return [ev]

"""Axis utilities."""
import numpy as np

from harness import lib

RULE = ("random tensors of rank 1 to 7 with extents 0 to 4, all pairs of axes written from the start and from the end: every helper's result "
        "against its definition on coordinates; shapes with an unknown extent; splitting what was merged; inputs as numpy arrays and as tensors, "
        "eagerly, compiled and symbolic")


def models(tier):
    return [("MCAxes",)] + ([("MCAxes__deep",)] if tier == "thorough" else [])


FNS = ["merge_axes", "merge_axes", "move_axis_to_left_of", "move_axis_to_left_of", "split_axes", "split_shapes", "merge_shapes", "split_merged", "index"]


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for r in range(2, 6 if q else 8):
        for a in range(-r, r):
            for b in range(-r, r):
                if (a - b) % r:
                    out.append(dict(t="pair", r=r, a=a, b=b, seed=rng.randrange(10**6)))
    for i in range(120 if q else 1200):
        out.append(dict(t="one", r=rng.randint(1, 7), fn=rng.choice(FNS), how=rng.choice(["numpy", "tensor", "jit"]), seed=rng.randrange(10**6)))
    for i in range(60 if q else 600):
        if i % 20 == 0:
            out.append(dict(t="large", seed=rng.randrange(10**6)))
        out.append(dict(t="unknown", r=rng.randint(2, 6), fn=rng.choice(["merge_shapes", "split_shapes", "symbolic"]), seed=rng.randrange(10**6)))
    return out


def numbered(rng, r, top=4):
    sh = [rng.randint(1, top) for _ in range(r)]
    if rng.random() < 0.15:          # no elements, but a shape all the same
        sh[rng.randrange(r)] = 0
        sh[rng.randrange(r)] *= rng.choice([0, 1])
    while np.prod(sh) > 600:
        sh[rng.randrange(r)] = 1
    n = int(np.prod(sh))
    v = list(range(n))
    rng.shuffle(v)
    return np.array(v, "int32").reshape(sh)


def record(s, fn, x, a=0, b=0, f=1, how="numpy"):
    import jax
    from keras import ops

    from groco import utils

    ev = dict(op="util", fn=fn, x=lib.enc(x), a=a, b=b, f=f, y={"s": [], "v": []}, out="ok", err="")
    t = x if how == "numpy" else ops.convert_to_tensor(x)
    call = {
        "merge_axes": lambda v: utils.merge_axes(v, merged_axis=a, target_axis=b),
        "move_axis_to_left_of": lambda v: utils.move_axis_to_left_of(v, moved_axis=a, target_axis=b),
        "split_axes": lambda v: utils.split_axes(v, left_size=f, right_axis=a),
        "split_merged": lambda v: utils.split_axes(utils.merge_axes(v, a, b), x.shape[a], landing(x.ndim, a, b)),
        "index": utils.get_index_tensor,
    }
    try:
        if fn == "merge_shapes":
            ev["y"] = {"s": [int(i) for i in utils.merge_shapes(how_shape(x, how), a, b)], "v": []}
        elif fn == "split_shapes":
            ev["y"] = {"s": [int(i) for i in utils.split_shapes(how_shape(x, how), f, a)], "v": []}
        else:
            g = call[fn]
            y = np.asarray(jax.jit(g)(t) if how == "jit" and fn != "index" else g(t))
            ev["y"] = lib.enc(y)
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
    s.events.append(ev)


def landing(r, a, b):
    """where the target axis is, after merging"""
    p = b % r - (a % r < b % r)
    return p - (r - 1) if b < 0 else p


def how_shape(x, how):
    return {"numpy": tuple, "tensor": list, "jit": lambda v: tuple(v)}[how](x.shape)


def factor(rng, n):
    return rng.choice([f for f in range(1, max(n, 3) + 1) if n % f == 0])


def run(case):
    return globals()["run_" + case["t"]](case)


def run_pair(case):
    s = lib.Session(case["seed"])
    r, a, b = case["r"], case["a"], case["b"]
    x = numbered(s.rng, r, 3)
    how = s.rng.choice(["numpy", "tensor"])
    record(s, "move_axis_to_left_of", x, a, b, how=how)
    record(s, "merge_axes", x, a, b, how=how)
    record(s, "merge_shapes", x, a, b, how=how)
    if x.shape[a] > 0:
        record(s, "split_merged", x, a, b, how=how)
    f = factor(s.rng, x.shape[a])
    record(s, "split_axes", x, a, f=f, how=how)
    record(s, "split_shapes", x, a, f=f, how=how)
    return s.events


def run_one(case):
    s = lib.Session(case["seed"])
    fn = case["fn"]
    r = case["r"] if fn in ("index", "split_axes", "split_shapes") else max(2, case["r"])
    x = numbered(s.rng, r)
    a = s.rng.randrange(r)
    b = s.rng.choice([c for c in range(r) if c != a] or [0])
    if s.rng.random() < 0.5:
        a -= r
    if s.rng.random() < 0.5:
        b -= r
    if fn == "split_merged" and x.shape[a] == 0:
        fn = "merge_axes"
    record(s, fn, x, a, b, factor(s.rng, x.shape[a]), case["how"])
    if fn == "index":      # the defining identity, for another tensor of the shape
        from keras import ops

        from groco import utils

        z = lib.ints(s.rng, x.shape)
        index = utils.get_index_tensor(x)
        back = np.asarray(ops.take(ops.reshape(z, -1), index)) if z.size else z.reshape(-1)[np.asarray(index)]
        s.add(op="same", what="index tensor does not gather the tensor", a=lib.enc(back), b=lib.enc(z))
    return s.events


def run_large(case):
    """more entries than 16 bits can count, sampled"""
    from groco import utils
    from keras import ops

    s = lib.Session(case["seed"])
    r = s.rng.randint(1, 5)
    sh = [s.rng.choice([1, 3, 8, 40]) for _ in range(r)]
    z = s.rng.randrange(r)
    sh[z] = s.rng.randint(70000, 200000) // int(np.prod(sh) // sh[z]) + 1
    n = int(np.prod(sh))
    at = sorted(set([0, n - 1] + [s.rng.randrange(n) for _ in range(30)] + [m for m in (127, 255, 32768, 65535, 65536, 65537) if m < n]))
    ev = dict(op="largeindex", shape=sh, at=at, res=[], y=[], out="ok", err="")
    try:
        y = np.asarray(utils.get_index_tensor(ops.zeros(sh)))
        ev["res"] = [int(i) for i in y.shape]
        ev["y"] = lib.enc(y.reshape(-1)[at])["v"]
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
    s.events.append(ev)
    return s.events


def run_unknown(case):
    """one extent is unknown, as that of the batch"""
    import keras

    from groco import utils

    s = lib.Session(case["seed"])
    r = case["r"]
    sh = [s.rng.choice([1, 2, 3, 4, 6]) for _ in range(r)]
    where = s.rng.randrange(r) if case["fn"] != "symbolic" else 0
    sh[where] = None
    known = [z for z in range(r) if z != where]
    merge = case["fn"] == "merge_shapes" or case["fn"] == "symbolic" and len(known) > 1 and s.rng.random() < 0.5
    if merge and len(known) < 2:
        return s.events
    a = s.rng.choice(known)
    b = s.rng.choice([c for c in known if c != a]) if merge else a
    f = factor(s.rng, sh[a])
    if s.rng.random() < 0.5:
        a -= r
    if s.rng.random() < 0.5:
        b -= r
    ev = dict(op="shapeutil", fn="merge_shapes" if merge else "split_shapes", **{"in": [-1 if z is None else z for z in sh]}, a=a, b=b, f=f,
              res=[], out="ok", err="")
    try:
        if case["fn"] == "symbolic":
            t = keras.KerasTensor(tuple(sh))
            res = (utils.merge_axes(t, a, b) if merge else utils.split_axes(t, f, a)).shape
        else:
            res = utils.merge_shapes(sh, a, b) if merge else utils.split_shapes(tuple(sh), f, a)
        ev["res"] = [-1 if z is None else int(z) for z in res]
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
    s.events.append(ev)
    return s.events

"""The action on signals on a group."""
import random

from harness import gen, lib
from harness.checks import p03

RULE = ("random groups, acting and domain subgroups and placements of spatial, group and new axis; every entry of the "
        "result against Actions!ActionVerdict, and again for acting on a component of the result")


def models(tier):
    return [("MCSymmetry",)]


def cases(rng, tier):
    out = []
    n = 12 if tier == "quick" else 120
    for g in lib.DIM:
        d = lib.DIM[g]
        subs = lib.SUBGROUPS[g]
        pairs = [(a, b) for a in subs for b in subs]
        k = {"Oh": 8, "O": 5, "D4h": 8}.get(g, n + len(pairs) // 2)
        k = k if tier == "quick" else k * 5
        for i in range(k):
            a, b = pairs[i % len(pairs)] if i < len(pairs) or rng.random() < 0.3 else rng.choice(pairs)
            extra = rng.choice([0, 1, 1, 2] if d == 2 else [0, 0, 1])
            r = d + 1 + extra
            pos = rng.sample(range(r), d + 1)
            if rng.random() < 0.4:
                pos = sorted(pos)
            gi = rng.choice([0, d, d])
            ga, sp = pos[gi], pos[:gi] + pos[gi + 1:]
            ext = p03.preserved(rng, g, 3)
            if g in ("Oh", "O"):
                ext = [rng.choice([1, 2])] * 3
            out.append(dict(group=g, acting=a, dom=b, spell=rng.randrange(3), n=ext,
                            other=[rng.randint(1, 2) for _ in range(extra)],
                            sp=[z if rng.random() < 0.8 else z - r for z in sp],
                            ga=ga if rng.random() < 0.8 else ga - r, new=rng.randint(-(r + 1), r),
                            dtype=rng.choice(["float32", "float32", "int32", "bits", "bits32", "large32"]), chain=gen.chain(rng, g, 0.3), own=rng.random() < 0.3, how=rng.choice(p03.HOW), seed=rng.randrange(10**6),
                            again=g not in ("Oh", "O") or rng.random() < 0.2))
    return out


def act(case, x, rec, acting):
    kw = dict(spatial_axes=tuple(case["sp"]), new_group_axis=case["new"], group_axis=case["ga"],
              acting_group=acting, domain_group=case["dom"])
    if case["spell"] == 1:  # the default, or the empty name, for the whole group
        if acting == case["group"]:
            kw["acting_group"] = ""
        if case["dom"] == case["group"]:
            kw.pop("domain_group")
    ev = dict(op="action", acting=acting, dom=case["dom"], sp=case["sp"], new=case["new"], ga=case["ga"], x=rec(x),
              y={"s": [], "v": []}, out="ok", err="")
    y = None
    try:
        g = p03.group(case)
        y = p03.perform(lambda t: g.action(t, **kw), x, case)
        ev["y"] = rec(y)
    except Exception as e:
        ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
    return ev, y


def run(case):
    import numpy as np

    rng = random.Random(case["seed"])
    r = len(case["n"]) + 1 + len(case["other"])
    shape, others = [], list(case["other"])
    pos = {a % r: e for a, e in zip(case["sp"], case["n"])}
    pos[case["ga"] % r] = lib.ORDER[case["dom"]]
    shape = [pos[a] if a in pos else others.pop(0) for a in range(r)]
    x, rec = p03.signal(rng, case, shape)
    ev, y = act(case, x, rec, case["acting"])
    evs = [ev]
    if y is not None and case["again"]:
        y = np.asarray(y)
        ax = case["new"] % (r + 1)
        z = np.take(y, rng.randrange(y.shape[ax]), axis=ax)
        if list(z.shape) == shape:
            evs.append(act(case, z, rec, rng.choice(lib.SUBGROUPS[case["group"]]))[0])
    return evs

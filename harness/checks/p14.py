"""A layer works for every input, independent of its history."""
from harness import gen, history, lib, tlc
from harness.checks import p11

RULE = ("behaviours of MCLifecycle (TLC simulation) replayed with random layers of every kind: built with one input (explicitly, by a "
        "call, or symbolically), called with others of different extents and batch sizes, eagerly, compiled and symbolically, pooling "
        "layers built again, all in random order, among other layers that look much like it (other subgroup of the same order, "
        "other kind of input with the same kernel, other group, padding or format): every outcome against GroCo.tla and LayerSem")


def models(tier):
    return [("MCLifecycle",)] + ([("MCLifecycle__deep",)] if tier == "thorough" else [])


def cases(rng, tier):
    out = []
    n = 100 if tier == "quick" else 900
    hs = tlc.behaviours("MCLifecycle__vary", n, rng.randrange(10**6))
    hp = tlc.behaviours("MCLifecycle__rebuild", n // 2, rng.randrange(10**6))
    for i in range(n):
        cfg, shape = p11.any_layer(rng, i, **(dict(acts=("linear", "relu")) if i % 5 < 3 else {}))
        h = hp[i // 2] if cfg["kind"] in ("pool", "global") else hs[i]
        near = gen.neighbours(rng, cfg, shape, 3 if cfg["kind"] == "conv" else 2) if i % 5 < 3 or i % 2 else []
        out.append(dict(cfg=cfg, shape=shape, hist=h, others=[[rng.choice([0, 0, 0, 1, 2, 3]), c, n] for c, n in near], style=gen.style(rng, cfg["group"]), seed=rng.randrange(10**6)))
    return out


def run(case):
    s = lib.Session(case["seed"])
    history.play(s, case["cfg"], case["shape"], case["hist"], case["style"], others=case["others"])
    return s.events

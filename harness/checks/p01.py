from harness import lib

RULE = ("one session per group, and per group derived from a parent group: order, composition and inverses against "
        "the symmetries inferred from the action on a signal with distinct values; plus random signals acted on by all elements")
DERIVED = [("P4M", "P4"), ("P4M", "P2MM"), ("P4M", "PMw"), ("P4M", "PMh"), ("P4M", "P2"), ("P4M", "P1"), ("P4", "P2"),
           ("P2MM", "PMw"), ("P2MM", "PMh"), ("Oh", "O"), ("Oh", "D4h"), ("Oh", "D4"), ("O", "D4"), ("D4h", "D4")]


def models(tier):
    return [("MCSymmetry",)]


def chains(rng):
    """groups made in several steps, and from groups with an action of the user's"""
    out = [dict(group=g, chain=c) for g in lib.PARENTS for c in lib.PARENTS[g] if len(c) > 1]
    # an action that always performs all elements takes signals that all of them preserve
    return out + [dict(group=g, chain=c, own=True) for g in lib.PARENTS for c in lib.PARENTS[g] if rng.random() < 0.6]


def cases(rng, tier):
    out = [dict(group=g) for g in lib.DIM]
    out += [dict(group=s, chain=[p]) for p, s in DERIVED]
    out += chains(rng)
    for g in lib.DIM:
        for _ in range(2 if tier == "quick" else 8):
            out.append(dict(group=g, signal=rng.randrange(10**6), n=rng.choice([2, 3, 4] if lib.DIM[g] == 2 else [2, 3])))
    return out


def run(case):
    name = case["group"]
    if "chain" in case:
        g = lib.derived(name, case["chain"], case.get("own", False))
        return [dict(op="derived", name=name, sub="", out="ok", t=lib.table(name, g))]
    if "signal" in case:
        import random

        rng, d = random.Random(case["signal"]), lib.DIM[name]
        x = lib.ints(rng, [case["n"]] * d + [2], -1000, 1000)
        y = lib.group_of(name).action(x, spatial_axes=tuple(range(d)), new_group_axis=0, domain_group=None)
        return [dict(op="action", acting=name, dom="none", sp=list(range(d)), new=0, ga=0, x=lib.enc(x), y=lib.enc(y), out="ok")]
    return [dict(op="group", name=name)]

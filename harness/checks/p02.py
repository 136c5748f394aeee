from harness import lib
from harness.checks.p01 import DERIVED, chains

RULE = "one session per group and listed subgroup, of the provided groups and of groups derived from a parent"


def models(tier):
    return [("MCCosets",)]


def cases(rng, tier):
    return [dict(group=g) for g in lib.DIM] + [dict(group=s, chain=[p]) for p, s in DERIVED] + chains(rng)


def run(case):
    name = case["group"]
    if "chain" in case:
        g = lib.derived(name, case["chain"], case.get("own", False))
        t = lib.table(name, g)
        subs = sorted(set(g.subgroup) | (set(lib.SUBGROUPS[name]) & set(lib.SUBGROUPS[case["chain"][0]])))
        return [dict(op="derived", name=name, sub=s, out="ok", t=t) for s in subs]
    g = lib.group_of(name)
    return [dict(op="subgroup", name=name, sub=s) for s in sorted(set(g.subgroup) | set(g.cosets) | set(lib.SUBGROUPS[name]))]

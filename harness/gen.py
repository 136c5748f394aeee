"""Generation of configurations and inputs. The generators know the padding rule only to aim at
accepted (or refused) inputs; whether an input has to be accepted is judged by the specification."""
from harness import lib


def dilated(k, d):
    return (k - 1) * d + 1


def built_in(n, k, s, same, transpose):
    if same:
        return max((-(-n // s) - 1) * s + k - n, 0)
    return max(s - k, 0) if transpose else 0


def extra(n, k, s, same, transpose=False):
    b = built_in(n, k, s, same, transpose)
    for e in range(2 * s + 1):
        if (b + e) % 2 == 0 and (n + b + e - k) % s == 0:
            return b, e
    return b, -1


def padding_ok(n, k, s, mode, allow, transpose=False):
    mode = mode.lower()
    equiv = mode.endswith("_equiv")
    b, e = extra(n, k, s, mode.startswith("same"), transpose)
    if not equiv and allow:
        return True, b, 0
    return e == 0 or (e > 0 and equiv), b, max(e, 0)


def admissible(cfg, sp):
    return all(
        padding_ok(n, dilated(k, d), s, cfg["mode0"], cfg["allow"], cfg["kind"] == "convT")[0]
        for n, k, s, d in zip(sp, cfg["k"], cfg["s"], cfg["d"])
    )


def exchanging(group):
    """axes that the group exchanges"""
    if group in ("P4", "P4M", "D4", "D4h"):
        return [(0, 1)]
    return [(0, 1), (1, 2), (0, 2)] if group in ("O", "Oh") else []


def iso(rng, group, dims, choices, even=0.3):
    """a size per axis, the same along axes that the group exchanges"""
    v = [rng.choice(choices) for _ in range(dims)]
    if rng.random() < 0.5:
        v = [v[0]] * dims
    for a, b in exchanging(group):
        v[b] = v[a]
    if group in ("O", "Oh"):
        v = [v[0]] * dims
    return v


def pick_group(rng, dims, group=None):
    g = group or rng.choice(lib.GROUPS2 + ["P4M", "P2MM", "P4"] if dims == 2 else ["D4", "D4h", "D4h", "O", "Oh"])
    proper = [h for h in lib.SUBGROUPS[g] if h != g]
    r = rng.random()
    if r < 0.5 and proper:
        return g, rng.choice(proper)
    return g, g if r < 0.6 else ""


def coincident(rng, cfg, shape):
    """the same with some of the sizes of batch, space, channels and filters equal to the order of the group"""
    n = lib.in_order(cfg) if lib.on_group(cfg, shape) else lib.ORDER[lib.sub_name(cfg)]
    if cfg["kind"] == "conv" and rng.random() < 0.3:
        n = lib.ORDER[lib.sub_name(cfg)]
    if n > 8:
        return cfg, shape
    some = lambda: rng.random() < 0.6
    last = cfg["fmt"] == "last"
    ch = shape[-1] if last else shape[1]
    sp = [shape[a] for a in lib.sp_axes(cfg)]
    if cfg["filters"] and some():
        cfg = dict(cfg, filters=n)
    same = [n] * cfg["dims"]
    covered = cfg["kind"] == "convT" or all(n >= dilated(k, d) for k, d in zip(cfg["k"], cfg["d"]))
    if some() and covered and admissible(cfg, same) and not odd_same(cfg, same) and n ** cfg["dims"] <= 64:
        sp = same
    return cfg, lib.in_shape(cfg, n if some() else shape[0], sp, n if some() else ch, lib.on_group(cfg, shape))


def pairs():
    """every group with every proper subgroup: (dimensions, group, subgroup)"""
    return [(lib.DIM[g], g, h) for g in lib.DIM for h in lib.SUBGROUPS[g] if h != g]


MODES = ["valid", "same", "valid_equiv", "same_equiv"]


def spatial(rng, cfg, lo, hi, want=True, square=True, tries=60):
    """extents for which the padding is possible (or not); often such that it is needed"""
    needed = want and cfg["mode0"].lower().endswith("_equiv") and rng.random() < 0.6
    for t in range(tries):
        keff = [dilated(k, d) for k, d in zip(cfg["k"], cfg["d"])]
        n = [rng.randint(lo, hi) for _ in range(cfg["dims"])]
        if cfg["kind"] != "convT":
            n = [max(a, b) for a, b in zip(n, keff)]
        if square and cfg["dims"] > 1:
            m = max(n)
            for a, b in exchanging(cfg["group"]):
                n[a] = n[b] = m
        if admissible(cfg, n) == want and (not needed or t > tries // 2 or any(
                extra(e, k, s, cfg["mode0"].lower().startswith("same"), cfg["kind"] == "convT")[1] > 0
                for e, k, s in zip(n, keff, cfg["s"]))):
            return n
    return None


def conv(rng, dims=None, want=True, modes=MODES, kind="conv", acts=("linear", "relu", "square", "negate"),
         kmax=4, smax=3, allow=None, fmt=None, square=True, group=None, sub=None, grp=None, aniso=False,
         max_filters=3, max_ch=3, lo=1, hi=None, dil=True):
    """a configuration of a convolution and the shape of an input for it"""
    while True:
        D = dims or rng.choice([2, 2, 2, 3])
        g, s_ = pick_group(rng, D, group)
        s_ = s_ if sub is None else sub
        big = g == "Oh" or g == "O"
        k = iso(rng, g, D, list(range(1, (kmax if D == 2 else min(kmax, 3)) + 1)))
        st = iso(rng, g, D, [1] * 3 + list(range(2, smax + 1))) if not aniso else [rng.randint(1, smax) for _ in range(D)]
        dl = [1] * D
        if dil and max(st) == 1 and rng.random() < 0.3:
            dl = iso(rng, g, D, [1, 2, 3] if D == 2 else [1, 2])
        mode = rng.choice(modes)
        al = rng.random() < 0.4 if allow is None else allow
        f = fmt or rng.choice(["last", "last", "last", "first"])
        cfg = lib.conv_cfg(dims=D, group=g, sub=s_, k=k, s=st, d=dl, mode=mode, allow=al,
                           filters=1 if g == "Oh" else min(rng.choice([1, 2, 2, 3]), max_filters), bias=rng.random() < 0.7,
                           act=rng.choice(acts), fmt=f, kind=kind)
        on = rng.random() < 0.6 if grp is None else grp
        if g == "Oh" and on and grp is None:
            on = rng.random() < 0.3
        n = spatial(rng, cfg, lo, hi or (8 if D == 2 else 4), want, square)
        if n is None:
            continue
        ch = 1 if big else min(rng.choice([1, 2, 2, 3]), max_ch)
        return cfg, lib.in_shape(cfg, rng.choice([1, 1, 2, 3]), n, ch, on)


def pool(rng, dims=None, want=True, modes=MODES, allow=None, fmt=None, square=True, group=None, sub=None, lo=1, hi=None,
         pools=("max", "average"), kmax=4, smax=4):
    while True:
        D = dims or rng.choice([2, 2, 2, 3, 1])
        g, s_ = pick_group(rng, 3 if D == 3 else 2, group)
        s_ = s_ if sub is None else sub
        k = iso(rng, g if D > 1 else "P1", D, list(range(1, (kmax if D < 3 else min(kmax, 3)) + 1)))
        st = list(k) if rng.random() < 0.5 else iso(rng, g if D > 1 else "P1", D, list(range(1, smax + 1)))
        cfg = lib.pool_cfg(dims=D, group=g, sub=s_, k=k, s=st, mode=rng.choice(modes),
                           allow=rng.random() < 0.3 if allow is None else allow, pool=rng.choice(pools),
                           fmt=fmt or rng.choice(["last", "last", "first"]))
        n = spatial(rng, cfg, lo, hi or (9 if D < 3 else 5), want, square and D > 1)
        if n is None:
            continue
        return cfg, lib.in_shape(cfg, rng.choice([1, 1, 2]), n, rng.randint(1, 2), True)


def long(rng, cfg, shape, top=30000):
    """an input as admissible as that of the given shape, with extents of more than 8 bits where the group lets it"""
    shape = list(shape)
    axes = lib.sp_axes(cfg)
    shape[0] = 1
    size = 1
    for v in shape:
        size *= v
    swaps = exchanging(cfg["group"]) if cfg["dims"] > 1 else []
    grown = list(axes) if swaps and cfg["dims"] == 2 else [rng.choice(axes)] if not swaps else [axes[2]] if cfg["group"] in ("D4", "D4h") else axes
    period = 2
    for s in cfg["s"]:
        period *= s
    limit = 1
    while size // max(1, shape[grown[0]] ** len(grown)) * (shape[grown[0]] + limit * period) ** len(grown) < top and limit * period < 400:
        limit += 1
    by = rng.randint(max(1, limit * 2 // 3), limit) * period
    for a in grown:
        shape[a] += by
    return shape


def odd_same(cfg, sp):
    """pooling with odd built-in and odd extra padding: Keras puts the odd zero on the wrong side"""
    if not cfg["mode0"].lower() == "same_equiv":
        return False
    for n, k, s, d in zip(sp, cfg["k"], cfg["s"], cfg["d"]):
        b, e = extra(n, dilated(k, d), s, True, cfg["kind"] == "convT")
        if e > 0 and b % 2 == 1:
            return True
    return False


PRECISIONS = ["float16", "mixed_float16", "bfloat16", "mixed_bfloat16"]


def precise(rng, cfg, style, p=0.2):
    """sometimes a layer of lower precision, for inputs so small that the results are exact all the same"""
    if rng.random() < p and cfg["act"] != "square" and cfg["pool"] != "average":
        style = dict(style, dtype=rng.choice(PRECISIONS), policy=rng.random() < 0.4)
    if rng.random() < p:
        style = dict(style, xtype=rng.choice(["int32", "float16", "uint8"]))
    return style


def ranges(style, x, w):
    """ranges of inputs and weights"""
    if style.get("xtype") == "uint8":
        x = (0, 9)
    if style.get("dtype"):
        x, w = (0 if style.get("xtype") == "uint8" else -2, 2), (-1, 1)
    return x, w


def chain(rng, group, p=0.5):
    """sometimes the groups from which a user makes the group"""
    chains = lib.PARENTS.get(group, [])
    return rng.choice(chains) if chains and rng.random() < p else None


def style(rng, group=None):
    return dict(chain=chain(rng, group), sizes=rng.choice(["tuple", "list", "int"]), omit=rng.random() < 0.5,
                group_object=rng.random() < 0.3, sub_none=rng.random() < 0.3, strides_none=rng.random() < 0.3,
                default_mode=rng.random() < 0.4, positional=rng.random() < 0.2)


def neighbours(rng, cfg, shape, n=2):
    """other layers that look much like this one: what one of them keeps must not serve another"""
    out = []
    dims, last = cfg["dims"], cfg["fmt"] == "last"
    grp = lib.on_group(cfg, shape)
    sp = [shape[a] for a in lib.sp_axes(cfg)]
    ch = shape[-1] if last else shape[1]
    conv_kind = cfg["kind"] in ("conv", "convT")
    # those with weights of the same shape come first
    sharp = ["order", "group"] if cfg["kind"] != "global" else ["pool"]
    other = ["same", "format"] + (["subgroup", "padding"] if cfg["kind"] != "global" else ["keep"])
    if conv_kind:
        sharp += ["lift", "regroup"]
        other += ["bias", "dilation"]
    if cfg["kind"] == "pool":
        other += ["pool", "strides"]
    rng.shuffle(sharp)
    rng.shuffle(other)
    if rng.random() < 0.3:
        sharp, other = other, sharp
    for why in sharp + other:
        if len(out) == n:
            break
        c, on, cin = dict(cfg), grp, ch
        if why == "order":
            alike = [h for h in lib.SUBGROUPS[cfg["group"]] if lib.ORDER[h] == lib.ORDER[lib.sub_name(cfg)] and h != lib.sub_name(cfg)]
            if not alike:
                continue
            c["sub"] = rng.choice(alike)
        elif why == "subgroup":
            c["sub"] = rng.choice(lib.SUBGROUPS[cfg["group"]])
        elif why == "group":
            alike = [g for g in lib.DIM if lib.DIM[g] == lib.DIM[cfg["group"]] and lib.ORDER[g] == lib.ORDER[cfg["group"]] and g != cfg["group"]]
            if not alike:
                continue
            c["group"] = rng.choice(alike)
            if c["sub"] not in lib.SUBGROUPS[c["group"]]:
                c["sub"] = rng.choice([h for h in lib.SUBGROUPS[c["group"]] if lib.ORDER[h] == lib.ORDER[cfg["sub"]]] or [""]) if c["sub"] else ""
        elif why == "padding":
            c["mode0"], c["allow"] = rng.choice(MODES), rng.random() < 0.5
        elif why == "format":
            c["fmt"] = "first" if last else "last"
        elif why in ("lift", "regroup") and cfg["kind"] == "convT" and not grp:
            continue
        elif why == "lift" and grp:          # the same kernel, for a signal on the grid
            on, cin = False, ch * lib.in_order(cfg)
        elif why == "lift" and ch % lib.in_order(cfg) == 0:
            on, cin = True, ch // lib.in_order(cfg)
        elif why == "regroup" and grp:       # the same kernel for another group, that has the acting group too
            held = [g for g in lib.DIM if lib.sub_name(cfg) in lib.SUBGROUPS[g]
                    and ch * lib.in_order(cfg) % lib.ORDER[g] == 0 and g != cfg["group"]]
            if not held or cfg["kind"] != "conv":
                continue
            c["group"], c["sub"] = rng.choice(held), lib.sub_name(cfg)
            cin = ch * lib.in_order(cfg) // lib.ORDER[c["group"]]
        elif why in ("lift", "regroup"):
            continue
        elif why == "bias":
            c["bias"] = not cfg["bias"]
        elif why == "dilation" and set(cfg["s"]) == {1}:
            c["d"] = [1 if min(cfg["d"]) > 1 else 2] * dims
        elif why == "pool":
            c["pool"] = "max" if cfg["pool"] == "average" else "average"
        elif why == "keep":
            c["keep"] = not cfg["keep"]
        elif why == "strides":
            c["s"] = [rng.randint(1, 3)] * dims
        if cfg["kind"] != "global":
            square = dims == 1 or all(sp[a] == sp[b] and c["k"][a] == c["k"][b] for a, b in exchanging(c["group"]))
            fits = all(dilated(k, d) <= e for k, d, e in zip(c["k"], c["d"], sp)) or c["kind"] == "convT"
            if not square or not fits or not admissible(c, sp) or c["kind"] == "pool" and odd_same(c, sp):
                continue
        out.append((c, lib.in_shape(c, rng.choice([1, shape[0] or 1]), sp, cin, on)))
    return out

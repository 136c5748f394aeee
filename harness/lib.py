"""Recording of sessions with the real code, for validation against the TLA+ specification.

Everything here observes GroCo through its public interface only."""
import itertools
import os
import random

import numpy as np

stuck = False  # set when a thread of a session waits for ever: nothing more is recorded by this process
BAD = 777777777  # a value that no specification expects: not finite, not integral, or too large


def enc(t, scale=1):
    """Tensor -> shape and integer values (times scale)."""
    t = np.asarray(t)
    a = t.astype("float64") * scale
    with np.errstate(all="ignore"):
        r = np.rint(a)
        ok = np.isfinite(a) & (np.abs(r) < 2**30)
        if scale == 1:
            ok &= np.abs(a - r) < 1e-3
    v = np.where(ok, np.nan_to_num(r), BAD).astype("int64")
    return {"s": [int(i) for i in t.shape], "v": [int(i) for i in v.reshape(-1)]}


def enc_at(t, at, scale=1):
    e = enc(t, scale)
    at = sorted(set(int(i) for i in at if i < len(e["v"])))
    return {"s": e["s"], "at": at, "v": [e["v"][i] for i in at], "scale": scale}


def choose_at(rng, size, limit):
    if size <= limit:
        return list(range(size))
    return sorted(rng.sample(range(size), limit))


# ---------------------------------------------------------------------------------- groups
DIM = dict(P1=2, P2=2, PMw=2, PMh=2, P2MM=2, P4=2, P4M=2, Oh=3, O=3, D4h=3, D4=3)
GROUPS2 = ["P1", "P2", "PMw", "PMh", "P2MM", "P4", "P4M"]
GROUPS3 = ["D4", "D4h", "O", "Oh"]
# the documented sizes, used to generate inputs (never to judge)
ORDER = dict(P1=1, P2=2, PMw=2, PMh=2, P2MM=4, P4=4, P4M=8, Oh=48, O=24, D4h=16, D4=8)
SUBGROUPS = dict(
    P1=["P1"],
    P2=["P2", "P1"],
    PMw=["PMw", "P1"],
    PMh=["PMh", "P1"],
    P2MM=["P2MM", "PMh", "PMw", "P1"],
    P4=["P4", "P2", "P1"],
    P4M=["P4M", "P4", "P2MM", "PMw", "PMh", "P2", "P1"],
    Oh=["Oh", "O", "D4h", "D4"],
    O=["O", "D4"],
    D4h=["D4h", "D4"],
    D4=["D4"],
)


def symmetries(d):
    return [
        (p, s)
        for p in itertools.permutations(range(d))
        for s in itertools.product((1, -1), repeat=d)
    ]


def act_np(g, x, sp, compose=None):
    """Transform the spatial axes sp of array x by the signed permutation g."""
    p, s = g
    axes = list(range(x.ndim))
    for a, ax in enumerate(sp):
        axes[ax] = sp[p[a]]
    y = np.transpose(x, axes)
    for a, ax in enumerate(sp):
        if s[a] < 0:
            y = np.flip(y, ax)
    return y


def compose(g, h):
    return (
        tuple(h[0][g[0][a]] for a in range(len(g[0]))),
        tuple(g[1][a] * h[1][g[0][a]] for a in range(len(g[0]))),
    )


def inverse(g):
    d = len(g[0])
    q = tuple(g[0].index(b) for b in range(d))
    return q, tuple(g[1][q[b]] for b in range(d))


_labels = {}


def group_of(name):
    from groco.groups import group_dict

    return group_dict[name]


# groups made by a user from another one, possibly in several steps
PARENTS = dict(P4=[["P4M"]], P2MM=[["P4M"]], PMw=[["P4M"], ["P4M", "P2MM"]], PMh=[["P4M"], ["P2MM"], ["P4M", "P2MM"]],
               P2=[["P4M"], ["P4"], ["P4M", "P4"]], P1=[["P4M"], ["P4"], ["P4M", "P4", "P2"], ["P2MM", "PMw"]],
               O=[["Oh"]], D4h=[["Oh"]], D4=[["O"], ["D4h"], ["Oh", "O"], ["Oh", "D4h"]])


def derived(name, chain, own_action=False):
    """the group of that name, made from the last group of the chain, which is made from the one before"""
    from groco.groups import Group

    g = group_of(chain[0])
    if own_action:         # a group described by the user, with a plain function as its action
        old = g._action
        g = Group(name=g.name, order=g.order, composition=g.composition, subgroup=g.subgroup, cosets=g.cosets,
                  action=lambda signal, spatial_axes, new_group_axis: old(signal, spatial_axes, new_group_axis))
    for n in list(chain[1:]) + [name]:
        g = Group(name=n, order=ORDER[n], parent=g)
    return g


def probe(name, group=None):
    """Transforms of a signal with distinct values by all elements of a group."""
    d = DIM[name]
    x = np.arange(1, 3**d + 1, dtype="float32").reshape((3,) * d)
    y = np.asarray(
        (group or group_of(name)).action(
            x, spatial_axes=tuple(range(d)), new_group_axis=0, domain_group=None
        )
    )
    return x, y


def labels(name):
    """Signed permutations of the elements, inferred from the action."""
    if name not in _labels:
        d = DIM[name]
        x, y = probe(name)
        res = []
        for i in range(y.shape[0]):
            found = [
                g for g in symmetries(d) if np.array_equal(act_np(g, x, tuple(range(d))), y[i])
            ]
            res.append(found[0] if found else (tuple(range(d)), (1,) * d))
        _labels[name] = res
    return _labels[name]


def transform(x, g, sp, ga=None, dom=None):
    """(g f)(p, h) = f(g^-1 p, g^-1 h) on numpy arrays."""
    y = act_np(g, x, sp)
    if ga is not None:
        lab = labels(dom)
        gi = inverse(g)
        idx = []
        for h in lab:
            t = compose(gi, h)
            idx.append(lab.index(t) if t in lab else 0)
        y = np.take(y, idx, axis=ga)
    return y


def table(name, group=None):
    g = group or group_of(name)
    x, y = probe(name, g)
    ints = lambda t: [int(i) for i in np.asarray(t).reshape(-1)]
    return {
        "order": int(g.order),
        "composition": [ints(r) for r in np.asarray(g.composition)],
        "inverses": ints(g.inverses),
        "subgroup": {k: ints(v) for k, v in g.subgroup.items()},
        "cosets": {k: ints(v) for k, v in g.cosets.items()},
        "probe": enc(x)["v"],
        "acted": [enc(y[i])["v"] for i in range(y.shape[0])],
    }


def tables():
    """Tables and probes of all groups, for the specification."""
    out = {}
    for name in DIM:
        try:
            out[name] = table(name)
        except Exception as e:  # left out: events that need this group cannot be explained
            print("no tables for", name, e)
    return out


# ---------------------------------------------------------------------------------- layers
def conv_cfg(dims=2, group="P4", sub="", k=3, s=1, d=1, mode="valid_equiv", allow=False,
             filters=1, bias=True, act="linear", fmt="last", kind="conv"):
    t = lambda v: list(v) if isinstance(v, (list, tuple)) else [v] * dims
    return dict(kind=kind, dims=dims, fmt=fmt, group=group, sub=sub, k=t(k), s=t(s), d=t(d),
                mode0=mode, allow=allow, filters=filters, bias=bias, act=act, pool="none",
                keep=False)


def pool_cfg(dims=2, group="P4", sub="", k=2, s=None, mode="valid_equiv", allow=False,
             pool="max", fmt="last"):
    t = lambda v: list(v) if isinstance(v, (list, tuple)) else [v] * dims
    return dict(kind="pool", dims=dims, fmt=fmt, group=group, sub=sub, k=t(k),
                s=t(k if s is None else s), d=[1] * dims, mode0=mode, allow=allow, filters=0,
                bias=False, act="linear", pool=pool, keep=False)


def global_cfg(dims=2, pool="max", fmt="last", keep=False, group="P4"):
    return dict(kind="global", dims=dims, fmt=fmt, group=group, sub="", k=[1] * dims, s=[1] * dims,
                d=[1] * dims, mode0="valid", allow=True, filters=0, bias=False, act="linear",
                pool=pool, keep=keep)


def activation(name):
    from keras import ops

    return {"linear": None, "relu": "relu", "square": ops.square, "negate": ops.negative}[name]


def layer_class(cfg):
    import groco.layers as L

    d = cfg["dims"]
    if cfg["kind"] == "conv":
        return getattr(L, f"GroupConv{d}D")
    if cfg["kind"] == "convT":
        return getattr(L, f"GroupConv{d}DTranspose")
    pool = {"max": "Max", "average": "Average"}[cfg["pool"]]
    return getattr(L, ("GlobalGroup" if cfg["kind"] == "global" else "Group") + f"{pool}Pooling{d}D")


def make_layer(cfg, style=None, extra=None):
    """Construct the layer; style lists alternative spellings of the same arguments."""
    style = style or {}
    sizes = style.get("sizes", "tuple")

    def size(v):
        if sizes == "int" and len(set(v)) == 1:
            return int(v[0])
        return list(v) if sizes == "list" else tuple(v)

    kw = {}
    if not style.get("omit_format"):
        kw["data_format"] = "channels_first" if cfg["fmt"] == "first" else "channels_last"
    if cfg["kind"] == "global":
        if cfg["keep"] or not style.get("omit"):
            kw["keepdims"] = cfg["keep"]
    else:
        kw["group"] = cfg["group"]
        if style.get("group_object"):
            chain = style.get("chain")
            # the parent cannot act on such kernels, and what pooling sums depends on the representatives of the cosets
            if chain and (cfg["kind"] == "pool" or chain[0] in ("P4", "P4M") and len(set(cfg["k"])) > 1):
                chain = None
            kw["group"] = derived(cfg["group"], chain) if chain else group_of(cfg["group"])
        if cfg["sub"] != "":
            kw["subgroup"] = cfg["sub"]
        elif style.get("sub_none"):
            kw["subgroup"] = None
        elif not style.get("omit"):
            kw["subgroup"] = ""
        if not (style.get("default_mode") and cfg["mode0"] == "valid_equiv"):
            kw["padding"] = cfg["mode0"]
        if cfg["allow"] or not style.get("omit"):
            kw["allow_non_equivariance"] = cfg["allow"]
        if cfg["kind"] == "pool":
            if not (style.get("default_mode") and set(cfg["k"]) == {2}):
                kw["pool_size"] = size(cfg["k"])
            if style.get("strides_none") and cfg["s"] == cfg["k"]:
                kw["strides"] = None
            elif not (style.get("omit") and cfg["s"] == cfg["k"]):
                kw["strides"] = size(cfg["s"])
        else:
            kw["kernel_size"] = size(cfg["k"])
            if not (style.get("omit") and set(cfg["s"]) == {1}):
                kw["strides"] = size(cfg["s"])
            if not (style.get("omit") and set(cfg["d"]) == {1}):
                kw["dilation_rate"] = size(cfg["d"])
            kw["filters"] = cfg["filters"]
            if not (style.get("default_mode") and cfg["bias"]):
                kw["use_bias"] = cfg["bias"]
            if cfg["act"] != "linear":
                kw["activation"] = activation(cfg["act"])
    if style.get("dtype"):
        if style.get("policy"):   # by the default of Keras, for all layers
            import keras

            before = keras.config.dtype_policy()
            keras.config.set_dtype_policy(style["dtype"])
            try:
                return make_layer(cfg, dict(style, dtype=None), extra)
            finally:
                keras.config.set_dtype_policy(before)
        kw["dtype"] = style["dtype"]
    kw.update(extra or {})
    if style.get("positional") and cfg["kind"] in ("conv", "convT"):
        return layer_class(cfg)(kw.pop("group"), kw.pop("kernel_size"), **kw)
    return layer_class(cfg)(**kw)


def on_group(cfg, shape):
    return len(shape) == cfg["dims"] + 3


def in_order(cfg):
    """order of the group that a signal on the group lives on"""
    g = cfg["group"]
    if cfg["kind"] == "convT" and cfg["sub"] != "":
        g = cfg["sub"]
    return ORDER[g]


def dom_name(cfg):
    return cfg["sub"] if cfg["kind"] == "convT" and cfg["sub"] != "" else cfg["group"]


def sub_name(cfg):
    return cfg["sub"] or cfg["group"]


def in_shape(cfg, batch, sp, ch, grp):
    sp = list(sp) if isinstance(sp, (list, tuple)) else [sp] * cfg["dims"]
    g = [in_order(cfg)] if grp else []
    if cfg["fmt"] == "last":
        return [batch] + sp + g + [ch]
    return [batch, ch] + sp + g


def sp_axes(cfg):
    return tuple(range(1, cfg["dims"] + 1)) if cfg["fmt"] == "last" else tuple(range(2, cfg["dims"] + 2))


def gr_axis(cfg):
    return cfg["dims"] + 1 if cfg["fmt"] == "last" else cfg["dims"] + 2


def ints(rng, shape, lo=-9, hi=9):
    return np.array([rng.randint(lo, hi) for _ in range(int(np.prod(shape)))], "float32").reshape(
        tuple(shape)
    )


def told(layer, dims):
    """what the configuration tells about the layer, every size in full"""
    c = layer.get_config()
    out = {}
    for key, name in (("kernel_size", "k"), ("pool_size", "k"), ("strides", "s"), ("dilation_rate", "d")):
        v = c.get(key)
        if v is not None:
            out[name] = [int(v)] * dims if isinstance(v, int) else [int(n) for n in v]
    for key, name in (("group", "group"), ("subgroup", "sub"), ("padding", "mode"), ("data_format", "fmt")):
        if isinstance(c.get(key), str):
            out[name] = c[key].replace("channels_", "").lower()
    for key, name in (("allow_non_equivariance", "allow"), ("use_bias", "bias"), ("keepdims", "keep"), ("filters", "filters")):
        if isinstance(c.get(key), (bool, int)):
            out[name] = c[key]
    for name in ("group", "sub"):
        if name in out:
            out[name] = c["group" if name == "group" else "subgroup"]
    return out


# ---------------------------------------------------------------------------------- sessions
class Session:
    def __init__(self, seed=0, scale=None):
        self.coarse = False     # averages that are large, and integers
        self.events = []
        self.rng = random.Random(seed)
        self.layers = {}
        self.cfgs = {}

    def add(self, **ev):
        self.events.append(ev)
        return ev

    # --- layers
    def new(self, id, cfg, style=None, extra=None):
        ev = dict(op="new", id=id, cfg=cfg, out="ok", err="")
        try:
            self.layers[id] = make_layer(cfg, style, extra)
            self.cfgs[id] = cfg
        except Exception as e:
            ev["out"], ev["err"] = "error", type(e).__name__
        self.events.append(ev)
        return ev["out"] == "ok"

    def weights_of(self, id):
        cfg = self.cfgs[id]
        if cfg["kind"] not in ("conv", "convT"):
            return {"kernel": enc(np.zeros(0)), "bias": enc(np.zeros(0))}
        w = self.layers[id].get_weights()
        return {
            "kernel": enc(np.asarray(w[0]) * 4096) if self.fractional(w[0]) else enc(w[0]),
            "bias": enc(w[1]) if len(w) > 1 else enc(np.zeros(0)),
        }

    @staticmethod
    def fractional(w):
        return bool(np.any(np.asarray(w) != np.rint(np.asarray(w))))

    def shapes_of(self, id):
        """the weights, as they are after building: values do not matter yet"""
        cfg = self.cfgs[id]
        if cfg["kind"] not in ("conv", "convT"):
            return {"kernel": {"s": [], "v": []}, "bias": {"s": [], "v": []}}, len(
                self.layers[id].weights
            )
        w = self.layers[id].get_weights()
        sh = [[int(i) for i in t.shape] for t in w] + [[0], [0]]
        return {"kernel": {"s": sh[0], "v": []}, "bias": {"s": sh[1], "v": []}}, len(w)

    def build(self, id, shape, explicit=True):
        ev = dict(op="build", id=id, shape=[int(i) for i in shape], out="ok", err="",
                  w={"kernel": {"s": [], "v": []}, "bias": {"s": [], "v": []}}, nw=0)
        try:
            if explicit:
                self.layers[id].build(tuple(shape))
            ev["w"], ev["nw"] = self.shapes_of(id)
        except Exception as e:
            ev["out"], ev["err"] = "error", type(e).__name__
        self.events.append(ev)
        return ev["out"] == "ok"

    def load(self, id, lo=-4, hi=4, weights=None):
        """give a built layer random integer weights"""
        cfg = self.cfgs[id]
        if cfg["kind"] not in ("conv", "convT"):
            return
        layer = self.layers[id]
        w = weights or [ints(self.rng, t.shape, lo, hi) for t in layer.get_weights()]
        layer.set_weights(w)
        self.add(op="load", id=id, w=dict(kernel=enc(w[0]), bias=enc(w[1]) if cfg["bias"] else enc(np.zeros(0))))

    def check_weights(self, id):
        """what can be seen of a layer: its weights and its configuration"""
        cfg = self.cfgs[id]
        w = self.layers[id].get_weights()
        if cfg["kind"] not in ("conv", "convT"):
            w = dict(kernel=enc(np.zeros(0)), bias=enc(np.zeros(0)))
        else:
            w = dict(kernel=enc(w[0]), bias=enc(w[1]) if cfg["bias"] else enc(np.zeros(0)))
        self.add(op="weights", id=id, w=w, told=told(self.layers[id], cfg["dims"]) or {"none": True})

    def scale(self, id):
        cfg = self.cfgs[id]
        return 1000 if cfg["pool"] == "average" and not self.coarse else 1

    def call(self, id, x, limit=60, fn=None, at=None):
        """call a layer (through fn) and record input and (samples of) output"""
        ev = dict(op="call", id=id, x=enc(x), out="ok", err="",
                  y={"s": [], "at": [], "v": [], "scale": 1})
        y = None
        try:
            y = (fn or self.layers[id])(x)
            if fn is None and self.layers[id].compute_dtype != str(y.dtype):
                raise TypeError(f"result of type {y.dtype}, not {self.layers[id].compute_dtype}")
            y = np.asarray(y).astype("float32")
            at = choose_at(self.rng, y.size, limit) if at is None else at
            ev["y"] = enc_at(y, at, self.scale(id))
        except Exception as e:
            ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
        self.events.append(ev)
        return y

    def first_call(self, id, x, limit=60, weights=(-4, 4)):
        """build implicitly by calling: recorded as building, giving weights, and calling"""
        try:
            self.layers[id](x)
            built = True
        except Exception as e:
            self.add(op="build", id=id, shape=[int(i) for i in x.shape], out="error",
                     err=type(e).__name__, w={"kernel": {"s": [], "v": []}, "bias": {"s": [], "v": []}}, nw=0)
            built = False
        if built:
            self.build(id, x.shape, explicit=False)
            self.load(id, *weights)
            return self.call(id, x, limit)

    def neighbours(self, others, style=None, limit=5):
        """other layers in the same process, each used once"""
        style = {k: v for k, v in (style or {}).items() if k not in ("dtype", "xtype", "chain")}
        for cfg, shape in others:
            id = f"n{len(self.events)}"
            if self.new(id, cfg, style) and self.build(id, shape):
                self.load(id)
                self.call(id, ints(self.rng, shape), limit)

    def equiv(self, fn, x, cfg, acting, xdom, ydom, elems, invariant=False, tol=0, scale=1, raises="ok"):
        """one call with a signal and its transforms stacked along the batch"""
        sp, ga = sp_axes(cfg), gr_axis(cfg)
        lab = labels(acting)
        parts = [x]
        for i in elems:
            parts.append(transform(x, lab[i], sp, None if xdom == "none" else ga,
                                   None if xdom == "none" else xdom))
        X = np.concatenate(parts, axis=0)
        ev = dict(op="equiv", dims=cfg["dims"], fmt=cfg["fmt"], acting=acting, xdom=xdom, ydom=ydom,
                  elems=list(elems), nb=int(x.shape[0]), x=enc(X), y={"s": [], "v": []},
                  out="ok", err="", invariant=invariant, tol=tol)
        Y = None
        try:
            Y = np.asarray(fn(X))
            ev["y"] = enc(Y, scale)
        except Exception as e:
            ev["out"], ev["err"], ev["msg"] = "error", type(e).__name__, str(e)[:200]
        self.events.append(ev)
        return X, Y


def err_event(e):
    return dict(op="expect", legal=True, out="error", err=type(e).__name__, msg=str(e)[:300])

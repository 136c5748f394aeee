"""Replay of behaviours of MCLifecycle with real layers."""
import sys

import numpy as np

from harness import gen, lib
from harness.checks import p11, p12


class Failure(RuntimeError):
    pass


class Interrupt(BaseException):
    """like KeyboardInterrupt: no Exception"""


# not operation.py, whose base class takes part in every access to a layer
OPERATIONS = tuple(f"/keras/src/ops/{f}.py" for f in ("numpy", "nn", "core"))


class OpFailure:
    """While active, the n-th call of a Keras operation fails (n = 0: count them)."""

    def __init__(self, n, error):
        self.n, self.error, self.count = n, error, 0

    def hook(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.endswith(OPERATIONS):
            self.count += 1
            if self.count == self.n:
                raise self.error("in operation")

    def __enter__(self):
        sys.setprofile(self.hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def inputs_for(rng, cfg, shape):
    """shapes for the input tokens 1 to 6 of MCLifecycle"""
    last = cfg["fmt"] == "last"
    grp = lib.on_group(cfg, shape)
    ch = shape[-1] if last else shape[1]
    hi = (9 if cfg["dims"] < 3 else 5) if cfg["kind"] != "convT" else 4
    res = {1: shape}
    for t in (2, 3):
        n = gen.spatial(rng, cfg, 1, hi) or [shape[a] for a in lib.sp_axes(cfg)]
        res[t] = lib.in_shape(cfg, rng.choice([b for b in (0, 1, 2, 3) if b != shape[0]]), n, ch, grp)
    # another rank: signals on the group instead of the grid, or the other way round, or no signals at all
    wrong = shape + [1] if rng.random() < 0.3 else lib.in_shape(cfg, 1, [shape[a] for a in lib.sp_axes(cfg)], ch, not grp)
    if rng.random() < 0.2:
        wrong = shape[:-2]
    res[5] = wrong
    bad = gen.spatial(rng, cfg, 1, hi + 3, want=False) if cfg["kind"] != "global" else None
    res[4] = lib.in_shape(cfg, 1, bad, ch, grp) if bad else wrong
    six = list(shape)
    if grp and cfg["kind"] != "global" and (cfg["kind"] == "pool" or rng.random() < 0.5):
        ax = lib.gr_axis(cfg)
        six[ax] = rng.choice([n for n in (1, 2, 3, 4, 5, 8) if n != six[ax]])
    elif cfg["kind"] in ("conv", "convT"):
        six[-1 if last else 1] = ch + rng.choice([1, 2])
    else:
        six = wrong
    res[6] = six
    # no layer can be built for these; that the padding refuses may be of the other kind
    never = list(shape)
    if grp and cfg["kind"] != "global":
        never[lib.gr_axis(cfg)] = lib.in_order(cfg) + rng.choice([1, 2, -1])
    else:
        never = never[:-1] if not grp else never[:-2]
    other = lib.in_shape(cfg, 1, bad, ch, not grp) if bad else never
    res["never"] = [never, never, other]
    return res


def jitted(layer):
    import jax

    return jax.jit(lambda x: layer(x))


def stateless(layer):
    """with the weights passed along"""
    tv = [v.value for v in layer.trainable_variables]
    ntv = [v.value for v in layer.non_trainable_variables]
    return lambda x: layer.stateless_call(tv, ntv, x)[0]


def way(how, layer):
    return {"jit": jitted, "stateless": stateless}[how](layer) if how in ("jit", "stateless") else None


def fail(s, id, x, how):
    """a call during which one operation fails; a normal call if nothing happens to fail"""
    rng = s.rng
    error = rng.choice([Failure, Interrupt, ValueError])
    fn = jitted(s.layers[id]) if how == "jit" else s.layers[id]
    before = s.layers[id].get_weights()
    with OpFailure(0, error) as count:
        fn(x)
    fn = jitted(s.layers[id]) if how == "jit" else s.layers[id]
    n = rng.randint(1, max(count.count, 1))
    try:
        with OpFailure(n, error):
            y = np.asarray(fn(x))
    except BaseException as e:
        if isinstance(e, (SystemExit, KeyboardInterrupt)):
            raise
        s.add(op="fail", id=id, out="error", err=type(e).__name__, how=how, at=n)
        return
    at = lib.choose_at(rng, y.size, 20)
    s.add(op="call", id=id, x=lib.enc(x), out="ok", err="", y=lib.enc_at(y, at, s.scale(id)))


def play(s, cfg, shape, hist, style, limit=12, others=()):
    """one session with the real layers; others are used in between"""
    inputs = inputs_for(s.rng, cfg, shape)
    for i, h in enumerate(hist):
        s.neighbours([o[1:] for o in others if o[0] == i], style)
        op, _, how = h["op"].partition(":")
        id, arg = h["id"], h["arg"]
        sh = inputs.get(int(arg)) if arg.isdigit() else None
        if op == "refusebuild":
            sh = inputs["never"][int(arg) - 4]
            if arg == "4":
                sh = inputs[4] if inputs[4] is not inputs[5] else s.rng.choice(inputs["never"])
        if op in ("new", "recreate"):
            s.layers.pop(arg if op == "recreate" else id, None)
        if op == "new":
            if not s.new(id, cfg, style):
                return
        elif op == "build":
            if s.layers[id].built and cfg["kind"] in ("conv", "convT"):
                return
            if s.rng.random() < 0.3 and not s.layers[id].built:   # by a first call
                if s.first_call(id, lib.ints(s.rng, sh), limit) is None:
                    return
            elif not s.build(id, sh):
                return
            else:
                s.load(id)
        elif op == "refusebuild":
            # building explicitly with another rank is up to Keras, that keeps the channels it was given
            if len(sh) not in (cfg["dims"] + 2, cfg["dims"] + 3) or s.rng.random() < 0.7 and not s.layers[id].built:
                s.call(id, lib.ints(s.rng, sh), 5)
            else:
                try:     # whether at building or at calling is up to the layer
                    s.layers[id].build(tuple(sh))
                    s.call(id, lib.ints(s.rng, sh), 5)
                    del s.layers[id]
                    return
                except Exception as e:
                    s.add(op="build", id=id, shape=sh, out="error", err=type(e).__name__, nw=0,
                          w={"kernel": {"s": [], "v": []}, "bias": {"s": [], "v": []}})
        elif op == "load":
            s.load(id)
        elif op in ("call", "refuse"):
            s.call(id, lib.ints(s.rng, sh), limit, fn=way(how, s.layers[id]))
        elif op == "fail":
            fail(s, id, lib.ints(s.rng, sh), how)
        elif op == "shape":
            p11.infer(s, id, s.rng.choice([sh, [None] + sh[1:]]), s.rng.choice(["input", "model", "spec", "compute"]))
        elif op == "observe":
            s.check_weights(id)
        elif op == "recreate":
            if not p12.recreate(s, id, arg.strip('"'), "from_config", None):
                return
        elif op == "freeze":
            s.add(op="freeze", id=id, trainable=arg == "1")
            s.layers[id].trainable = arg == "1"
        elif op == "drop":
            s.add(op="drop", id=id)
            del s.layers[id]

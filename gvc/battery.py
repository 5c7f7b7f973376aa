"""Runs the real library on concrete inputs against independent oracles: replays the verifier's
counterexamples, and stands in (bounded) where the verifier gave no answer.

A case is a dict {"task": name, ..., "sizes": {...}}; check(case) returns None if the property held on
it, 'rejected: ...' if the case is outside of the property, or a string saying what failed.
"""

import argparse
import contextlib
import itertools
import json
import math
import multiprocessing
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GVC_REPO", "/repo")
os.environ["KERAS_BACKEND"] = "jax"
os.environ["JAX_PLATFORMS"] = "cpu"
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ["KERAS_HOME"] = os.environ.get("GVC_KERAS_HOME", "/tmp/gvc_keras_home")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

spec = __import__("importlib.util").util.spec_from_file_location("gvc_elements", os.path.join(HERE, "elements.py"))
G = __import__("importlib.util").util.module_from_spec(spec)
spec.loader.exec_module(G)

CLASSES = {
    ("conv", 2): "GroupConv2D", ("conv", 3): "GroupConv3D", ("tconv", 2): "GroupConv2DTranspose", ("tconv", 3): "GroupConv3DTranspose",
    **{("pool", d, p): f"Group{n}Pooling{d}D" for d in (1, 2, 3) for p, n in (("max", "Max"), ("average", "Average"))},
    **{("gpool", d, p): f"GlobalGroup{n}Pooling{d}D" for d in (1, 2, 3) for p, n in (("max", "Max"), ("average", "Average"))},
}
DEFAULTS = dict(
    kind="conv", ndim=2, group="P4", subgroup=None, lifting=False, padding="valid_equiv", allow=False, fmt="channels_last",
    strides=1, dilation=1, pool="max", bias=True, act="act", keepdims=False, name=None, k_ge_s=False, extra=(),
)

keras = ops = None


def load():
    global keras, ops
    import keras as k
    from keras import ops as o

    keras, ops = k, o
    import groco  # noqa: F401
    import groco.groups  # noqa: F401
    import groco.layers  # noqa: F401

    assert os.path.realpath(groco.__file__).startswith(os.path.realpath(REPO)), groco.__file__


class Failed(Exception):
    pass


class Rejected(Exception):
    pass


def fail_if(cond, msg):
    if cond:
        raise Failed(msg)


def A(x):
    return np.asarray(ops.convert_to_numpy(x)) if not isinstance(x, np.ndarray) else x


def same(what, a, b, tol=1e-3):
    a, b = A(a), A(b)
    fail_if(a.shape != b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    if a.size:
        bad = ~np.isclose(a.astype("float64"), b.astype("float64"), rtol=1e-4, atol=tol)
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad))
            raise Failed(f"{what}: {a[i]} instead of {b[i]} at {i} ({int(bad.sum())} of {a.size} entries differ)")


# ---------------------------------------------------------------- oracles on arrays

def act(x, m, axes):
    perm, flips = m
    order = list(range(x.ndim))
    for a, f in enumerate(flips):
        if f:
            x = np.flip(x, axes[a])
    for a, b in enumerate(perm):
        order[axes[b]] = axes[a]
    return np.transpose(x, order)


def act_on_group(x, name, g, axes, ga, dom):
    comp, inv = G.tables(name)
    y = act(x, G.ELEMENTS[name][g], axes)
    where = {e: i for i, e in enumerate(dom)}
    parts = []
    for h in dom:
        j = where.get(comp[inv[g]][h])
        s = np.take(y, [0 if j is None else j], axis=ga)
        parts.append(np.zeros_like(s) if j is None else s)
    return np.concatenate(parts, axis=ga)


built_in_total, axis_padding = G.built_in_total, G.axis_padding


# ---------------------------------------------------------------- layers of a case

def full(case):
    out = dict(DEFAULTS)
    out.update(case)
    if out["subgroup"] is None:
        out["subgroup"] = out["group"]
    return out


class Z:
    def __init__(self, c):
        z = c["sizes"]
        d = c["ndim"]
        self.n, self.k, self.s, self.d = (tuple(z[x])[:d] for x in ("n", "k", "s", "d"))
        if c.get("k_ge_s"):
            self.k = tuple(max(a, b) for a, b in zip(self.k, self.s))
        self.B, self.C, self.F = z["B"], z["C"], z["F"]
        self.n2 = tuple(z.get("n2") or [v + 1 for v in self.n])[:d]


def strides_of(c, z):
    s = c["strides"]
    if s == "sym":
        return z.s
    if s == "kernel":
        return z.k
    if isinstance(s, (list, tuple)):
        return tuple(z.s[i] if x == "sym" else x for i, x in enumerate(s))
    return s


def dilation_of(c, z):
    return z.d if c["dilation"] == "sym" else c["dilation"]


def per_axis(v, d):
    return tuple(v) if isinstance(v, (tuple, list)) else (v,) * d


def activation(x):
    # injective and not odd, so that neither signs nor scales are lost
    return ops.where(x > 0, 2 * x, x) + 0.5


def kwargs_of(c, z):
    kind = c["kind"]
    kw = {}
    if c["name"]:
        kw["name"] = c["name"]
    if kind == "gpool":
        if c["keepdims"]:
            kw["keepdims"] = True
        if c["fmt"]:
            kw["data_format"] = c["fmt"]
        return kw
    kw.update(group=c["group"], padding=c["padding"])
    if c["fmt"]:
        kw["data_format"] = c["fmt"]
    if c["subgroup"] != c["group"]:
        kw["subgroup"] = c["subgroup"]
    if c["allow"]:
        kw["allow_non_equivariance"] = True
    s = strides_of(c, z)
    if kind == "pool":
        kw["pool_size"] = z.k
        if s is not None:
            kw["strides"] = s
        if c["ndim"] == 1:
            for k in ("pool_size", "strides"):
                if isinstance(kw.get(k), tuple) and not c.get("tuple1"):
                    kw[k] = kw[k][0]
        return kw
    kw["kernel_size"] = z.k
    kw["filters"] = z.F
    kw["strides"] = s if s is not None else 1
    if c["dilation"] != 1:
        kw["dilation_rate"] = dilation_of(c, z)
    if not c["bias"]:
        kw["use_bias"] = False
    if c["act"]:
        kw["activation"] = activation
    kw.update({k: (tuple(v) if isinstance(v, list) else v) for k, v in dict(c["extra"] or ()).items()})
    return kw


def layer_class(c):
    import groco.layers as L

    return getattr(L, CLASSES[(c["kind"], c["ndim"]) + ((c["pool"],) if "pool" in c["kind"] else ())])


def make(c, z):
    try:
        return layer_class(c)(**kwargs_of(c, z))
    except ValueError as e:
        raise Rejected(f"{str(e)[:80]}")


def groups():
    from groco.groups import group_dict

    return group_dict


def subgroup(c):
    return [int(i) for i in A(groups()[c["group"]].subgroup[c["subgroup"]])]


def domain(c):
    if c["kind"] in ("conv", "tconv") and c["lifting"]:
        return None
    return subgroup(c) if c["kind"] == "tconv" else list(range(G.ORDER[c["group"]]))


def acting(c):
    return list(range(G.ORDER[c["group"]])) if c["kind"] == "tconv" else subgroup(c)


def first_axis(c):
    return 2 if c["fmt"] == "channels_first" else 1


def axes(c):
    return tuple(range(first_axis(c), first_axis(c) + c["ndim"]))


def group_axis(c):
    return first_axis(c) + c["ndim"]


def signal_shape(c, z, n=None, B=None):
    dom = domain(c)
    gd = () if dom is None else (len(dom),)
    n, B = n or z.n, B or z.B
    return (B, z.C) + tuple(n) + gd if c["fmt"] == "channels_first" else (B,) + tuple(n) + gd + (z.C,)


def rng_of(c):
    return np.random.default_rng(int(c.get("seed", 0)) + 12345)


def draw(rng, shape):
    # negative on the whole, as a maximum is then not hidden by a padding of zeros
    return rng.integers(-6, 4, size=shape).astype("float32")


def set_weights(layer, rng):
    for w in layer.weights:
        w.assign(draw(rng, tuple(w.shape)))


def call(layer, x):
    try:
        return A(layer(x))
    except ValueError as e:
        raise Rejected(f"{str(e)[:80]}")


def built(c, z, rng, earlier=False):
    layer = make(c, z)
    x = draw(rng, signal_shape(c, z))
    if earlier:
        call(layer, draw(rng, signal_shape(c, z, n=z.n2, B=z.B + 1)))
    else:
        try:
            layer.build(tuple(x.shape))
        except ValueError as e:
            raise Rejected(f"{str(e)[:80]}")
    set_weights(layer, rng)
    return layer, x


def act_in(c, x, g):
    dom = domain(c)
    if dom is None:
        return act(x, G.ELEMENTS[c["group"]][g], axes(c))
    return act_on_group(x, c["group"], g, axes(c), group_axis(c), dom)


def act_out(c, y, g):
    return act_on_group(y, c["group"], g, axes(c), group_axis(c), acting(c))


def odd_same_pooling(c, z, n):
    """The known finding of C12: see known_findings.txt."""
    if c["kind"] != "pool" or c["padding"].lower() != "same_equiv":
        return False
    s = per_axis(strides_of(c, z) or z.k, c["ndim"])
    return any(built_in_total("same", a, K, b) % 2 for a, K, b in zip(n, z.k, s))


# ---------------------------------------------------------------- the properties

def check_equivariance(c):
    c = full(c)
    z = Z(c)
    if c.get("only") != "known" and odd_same_pooling(c, z, z.n):
        raise Rejected("known finding: an odd total of 'same' pooling")
    rng = rng_of(c)
    layer, x = built(c, z, rng, c.get("history_"))
    y = call(layer, x)
    gens = G.generators(c["group"], subgroup(c)) or [0]
    for g in gens + ([e for e in subgroup(c)][:6] if G.ORDER[c["group"]] <= 8 else []):
        same(f"layer(g x) = g layer(x) for element {g}", layer(np.ascontiguousarray(act_in(c, x, g))), act_out(c, y, g))


def plain_layer(c, z, **changes):
    d = c["ndim"]
    n = {"max": "Max", "average": "Average"}[c["pool"]]
    name = {"conv": f"Conv{d}D", "tconv": f"Conv{d}DTranspose", "pool": f"{n}Pooling{d}D", "gpool": f"Global{n}Pooling{d}D"}[c["kind"]]
    kw = kwargs_of(c, z)
    for k in ("group", "subgroup", "allow_non_equivariance"):
        kw.pop(k, None)
    if "padding" in kw:
        kw["padding"] = kw["padding"].lower().replace("_equiv", "")
    kw.update(changes)
    return getattr(keras.layers, name)(**kw)


def merged_shape(c, z):
    dom = domain(c)
    f = 1 if dom is None else len(dom)
    return (z.B, f * z.C) + z.n if c["fmt"] == "channels_first" else (z.B,) + z.n + (f * z.C,)


def by_name(layer, name):
    for w in layer.weights:
        if w.path.split("/")[-1] == name or w.name.split("/")[-1] == name:
            return w
    return None


def check_own_weights(c):
    c = full(c)
    z = Z(c)
    layer = make(c, z)
    try:
        layer.build(signal_shape(c, z))
    except ValueError as e:
        raise Rejected(str(e)[:80])
    plain = plain_layer(c, z)
    plain.build(merged_shape(c, z))
    a = [(w.name, tuple(w.shape), w.trainable) for w in layer.weights]
    b = [(w.name, tuple(w.shape), w.trainable) for w in plain.weights]
    fail_if(a != b, f"weights {a} instead of {b}")
    fail_if(layer.filters != z.F, f"filters {layer.filters} instead of {z.F}")


def to_last(c, x):
    return np.moveaxis(x, 1, -1) if c["fmt"] == "channels_first" else x


def folded(c, x):
    """channels_last, group index and channels in one axis."""
    x = to_last(c, x)
    if domain(c) is None:
        return x
    return x.reshape(x.shape[:-2] + (x.shape[-2] * x.shape[-1],))


def explicit_padding(c, z, x_spatial):
    s = per_axis(strides_of(c, z) if strides_of(c, z) is not None else z.k if c["kind"] == "pool" else 1, c["ndim"])
    d = per_axis(dilation_of(c, z), c["ndim"])
    out = []
    for n, k, st, dl in zip(x_spatial, z.k, s, d):
        p = axis_padding(c["padding"], n, (k - 1) * dl + 1, st, c["allow"], c["kind"] == "tconv")
        if p is None:
            return None
        out.append(p)
    return out


def orbit(c, z, kernel, g):
    """(*k, in, F) kernel transformed by g; on a signal on the group also its group index."""
    d = c["ndim"]
    sp = tuple(range(d))
    dom = domain(c)
    if c["kind"] == "tconv":
        kernel = np.swapaxes(kernel, -1, -2)
    if dom is None:
        out = act(kernel, G.ELEMENTS[c["group"]][g], sp)
    else:
        k = kernel.reshape(kernel.shape[:d] + (len(dom), z.C, kernel.shape[-1]))
        out = act_on_group(k, c["group"], g, sp, d, dom)
        out = out.reshape(out.shape[:d] + (len(dom) * z.C, kernel.shape[-1]))
    return np.swapaxes(out, -1, -2) if c["kind"] == "tconv" else out


def check_computes(c):
    c = full(c)
    z = Z(c)
    rng = rng_of(c)
    layer, x = built(c, z, rng, c.get("history_"))
    y = to_last(c, call(layer, x))
    xl = to_last(c, x)
    pads = explicit_padding(c, z, z.n)
    fail_if(pads is None, "accepted although no padding keeps the grids aligned")
    zc = dict(c, fmt="channels_last")
    d = c["ndim"]
    if c["kind"] == "pool":
        comp, _ = G.tables(c["group"])
        G0 = groups()[c["group"]]
        reps = [int(r) for r in A(G0.cosets[c["subgroup"]])]
        agg = np.max if c["pool"] == "max" else np.mean
        parts = []
        for h in subgroup(c):
            v = agg(np.stack([np.take(xl, comp[h][r], axis=d + 1) for r in reps]), axis=0)
            v = np.pad(v, [(0, 0)] + pads + [(0, 0)]).astype("float32")
            parts.append(A(plain_layer(zc, z, data_format="channels_last")(v)))
        same("output", y, np.stack(parts, axis=d + 1))
        return
    xf = np.pad(folded(c, x), [(0, 0)] + pads + [(0, 0)])
    kernel, bias = by_name(layer, "kernel"), by_name(layer, "bias")
    fail_if(kernel is None or (bias is None) == bool(c["bias"]), "no kernel or bias")
    parts = []
    for g in acting(c):
        p = plain_layer(zc, z, data_format="channels_last")
        p.build(xf.shape)
        p.kernel.assign(orbit(c, z, A(kernel.value), g))
        if c["bias"]:
            p.bias.assign(bias.value)
        parts.append(A(p(xf)))
    same("output", y, np.stack(parts, axis=d + 1))


def check_global_pooling(c):
    c = full(dict(c, kind="gpool"))
    z = Z(c)
    rng = rng_of(c)
    layer = layer_class(c)(**kwargs_of(c, z))
    for n, B in ((z.n, z.B), (z.n2, z.B + 1)):
        x = draw(rng, signal_shape(c, z, n=n, B=B))
        y = A(layer(x))
        ax = axes(c) + (group_axis(c),)
        agg = np.max if c["pool"] == "max" else np.mean
        same("aggregate", y, agg(x.astype("float64"), axis=ax, keepdims=bool(c["keepdims"])))
        if c["ndim"] == G.DIMS[c["group"]]:
            for g in G.generators(c["group"], list(range(G.ORDER[c["group"]]))):
                if n == z.n:
                    same(f"invariant under element {g}", layer(np.ascontiguousarray(act_in(c, x, g))), y)


def check_output_shape(c):
    c = full(c)
    z = Z(c)
    rng = rng_of(c)
    layer, x = built(c, z, rng, c.get("other"))
    y = call(layer, x)
    if y.size == 0:
        raise Rejected("the window does not fit into the input")
    got = tuple(layer.compute_output_shape(tuple(x.shape)))
    fail_if(tuple(got) != tuple(y.shape), f"computed shape {got}, actual {y.shape}")
    got = tuple(layer.compute_output_shape((None,) + tuple(x.shape[1:])))
    fail_if(got != (None,) + tuple(y.shape[1:]), f"computed shape {got} of unknown batch size, actual {y.shape}")
    fail_if(y.ndim != c["ndim"] + 3, f"rank of {y.shape}")
    fail_if(y.shape[group_axis(c)] != len(acting(c)), f"group axis of {y.shape}")
    fail_if(y.shape[1 if c["fmt"] == "channels_first" else -1] != z.F, f"channel axis of {y.shape}")
    fail_if(y.shape[0] != z.B, f"batch axis of {y.shape}")
    sym_out = layer(keras.KerasTensor((None,) + tuple(x.shape[1:])))
    fail_if(tuple(sym_out.shape) != (None,) + tuple(y.shape[1:]), f"symbolic output {sym_out.shape}, actual {y.shape}")


class Interrupt(Exception):
    pass


class Faulty:
    def __init__(self, at=None):
        self.at, self.count = at, 0

    def __enter__(self):
        self.saved = []
        import keras.ops
        import keras.src.ops

        for mod in (keras.ops, keras.src.ops):
            for n, f in list(vars(mod).items()):
                if callable(f) and not n.startswith("_") and not isinstance(f, type):
                    self.saved.append((mod, n, f))
                    setattr(mod, n, self.wrap(f))
        return self

    def wrap(self, f):
        def g(*a, **k):
            i = self.count
            self.count += 1
            if i == self.at:
                raise Interrupt()
            return f(*a, **k)

        return g

    def __exit__(self, *exc):
        for mod, n, f in self.saved:
            setattr(mod, n, f)


def plain_config(cfg):
    return json.dumps(cfg, sort_keys=True, default=lambda v: f"<{type(v).__name__}>")


def snapshot(layer):
    return (
        [(id(w), w.name, A(w.value).tobytes()) for w in layer.weights], getattr(layer, "filters", None), plain_config(layer.get_config()),
        [id(getattr(layer, n, None)) for n in ("kernel", "bias", "_kernel")],
    )


def unchanged(what, a, b):
    for name, u, v in zip(("weights", "filters", "configuration", "kernel and bias"), a, b):
        fail_if(u != v, f"{what} changed the layer's {name}")


def check_leaves_unchanged(c):
    c = full(c)
    z = Z(c)
    rng = rng_of(c)
    layer, x = built(c, z, rng)
    before = snapshot(layer)
    y = call(layer, x)
    unchanged("a call", before, snapshot(layer))
    same("repeated call", layer(x), y)
    with Faulty() as count:
        layer(x)
    for i in range(count.count):
        try:
            with Faulty(i):
                layer(x)
        except Interrupt:
            pass
        unchanged(f"a call failing at operation {i} of {count.count}", before, snapshot(layer))
    same("call after failing calls", layer(x), y)
    shape = list(x.shape)
    ch = 1 if c["fmt"] == "channels_first" else len(shape) - 1
    more = shape[:ch] + [shape[ch] + 1] + shape[ch + 1:]
    for what, bad in (("rank", shape[:-1]), ("channels", more)):
        with contextlib.suppress(Exception):
            layer(draw(rng, bad))
        unchanged(f"a call with the wrong {what}", before, snapshot(layer))
    with contextlib.suppress(ValueError):
        layer(draw(rng, signal_shape(c, z, n=z.n2, B=z.B + 1)))
    unchanged("a call on another size", before, snapshot(layer))
    same("call after another size", layer(x), y)
    if c["kind"] in ("conv", "tconv"):
        old = [A(w.value).copy() for w in layer.weights]
        set_weights(layer, rng)
        fresh = layer_class(c)(**kwargs_of(c, z))
        fresh.build(tuple(x.shape))
        for w, v in zip(fresh.weights, layer.weights):
            w.assign(v.value)
        same("new weights", layer(x), fresh(x))
        for w, v in zip(layer.weights, old):
            w.assign(v)
        same("old weights again", layer(x), y)


def share(a, b):
    fail_if([tuple(w.shape) for w in a.weights] != [tuple(w.shape) for w in b.weights],
            f"weights {[tuple(w.shape) for w in b.weights]} instead of {[tuple(w.shape) for w in a.weights]}")
    for u, v in zip(a.weights, b.weights):
        v.assign(u.value)


def check_formats(c):
    c = full(c)
    z = Z(c)
    rng = rng_of(c)
    last, first = dict(c, fmt="channels_last"), dict(c, fmt="channels_first")
    a, x = built(last, z, rng)
    y = call(a, x)
    xf = np.ascontiguousarray(np.moveaxis(x, -1, 1))
    b = layer_class(first)(**kwargs_of(first, z))
    b.build(tuple(xf.shape))
    share(a, b)
    yf = A(b(xf))
    want = y if c["kind"] == "gpool" and not c["keepdims"] else np.moveaxis(y, -1, 1)
    same("channels_first", yf, want)
    if c.get("default"):
        saved = keras.config.image_data_format()
        try:
            for fmt, xx, yy in (("channels_last", x, y), ("channels_first", xf, yf)):
                keras.config.set_image_data_format(fmt)
                d = layer_class(c)(**kwargs_of(dict(c, fmt=None), z))
                d.build(tuple(xx.shape))
                share(a, d)
                same(f"unset data format with the default {fmt}", d(xx), yy)
        finally:
            keras.config.set_image_data_format(saved)


def serializable(v):
    if v is None or type(v) in (str, bool, int, float):
        return True
    if type(v) in (list, tuple):
        return all(map(serializable, v))
    return type(v) is dict and all(type(k) is str and serializable(x) for k, x in v.items())


def norm(v):
    return json.loads(json.dumps(v))


def check_rebuilt(c):
    c = full(c)
    z = Z(c)
    rng = rng_of(c)
    kw = kwargs_of(c, z)
    if "activation" in kw:
        kw["activation"] = c["act"] if c["act"] in ("relu", "tanh", "elu") else "softplus"
    ref = dict(kw)
    if c.get("as_object") and "group" in kw:
        kw["group"] = groups()[kw["group"]]
    cls = layer_class(c)
    try:
        a = cls(**kw)
    except ValueError as e:
        raise Rejected(str(e)[:80])
    config = a.get_config()
    bad = [k for k, v in config.items() if not serializable(v)]
    fail_if(bad, f"not plain values: {bad}")
    if c["kind"] != "gpool":
        for k, v in (("group", c["group"]), ("subgroup", c["subgroup"]), ("padding", c["padding"]), ("allow_non_equivariance", c["allow"])):
            fail_if(config.get(k) != v or type(config.get(k)) is not type(v), f"reports {k} {config.get(k)!r} instead of {v!r}")
    b = cls.from_config(norm(config))
    fail_if(norm(b.get_config()) != norm(config), f"configuration of the rebuilt layer {b.get_config()} instead of {config}")
    for k in ("group", "subgroup", "allow_non_equivariance"):
        ref.pop(k, None)
    if "padding" in ref:
        ref["padding"] = ref["padding"].lower().replace("_equiv", "")
    d, n = c["ndim"], {"max": "Max", "average": "Average"}[c["pool"]]
    name = {"conv": f"Conv{d}D", "tconv": f"Conv{d}DTranspose", "pool": f"{n}Pooling{d}D", "gpool": f"Global{n}Pooling{d}D"}[c["kind"]]
    plain = getattr(keras.layers, name)(**ref)
    for k, v in plain.get_config().items():
        if k in ("name", "padding"):
            continue
        fail_if(k not in config or norm(config[k]) != norm(v), f"reports {k} {config.get(k, 'missing')!r} instead of {v!r}")
    if c["name"]:
        fail_if(not (b.name == c["name"] == config.get("name")), f"name {b.name}")
    x = draw(rng, signal_shape(c, z))
    try:
        y = A(a(x))
    except ValueError:
        try:
            b(x)
        except ValueError:
            return
        raise Failed("only the original layer rejects the input")
    set_weights(a, rng)
    y = A(a(x))
    b.build(tuple(x.shape))
    share(a, b)
    same("rebuilt layer", b(x), y)


def check_named_group(c):
    c = full(c)
    z = Z(c)
    rng = rng_of(c)
    obj = groups()[c["group"]]
    fail_if(obj.name != c["group"] or obj.order != G.ORDER[c["group"]], f"registry gives {obj.name} of order {obj.order}")
    kw = kwargs_of(c, z)
    cls = layer_class(c)
    a, x = built(c, z, rng)
    y = call(a, x)
    fail_if(y.shape[group_axis(c)] != len(acting(c)), f"group axis of {y.shape}")
    variants = [("object", dict(kw, group=obj))]
    if c["subgroup"] == c["group"]:
        variants += [("empty subgroup", dict(kw, subgroup="")), ("subgroup is the group", dict(kw, subgroup=c["group"]))]
    for what, k in variants:
        b = cls(**k)
        b.build(tuple(x.shape))
        share(a, b)
        same(what, b(x), y)
        ca, cb = a.get_config(), b.get_config()
        ca.pop("name"), cb.pop("name")
        fail_if(plain_config(ca) != plain_config(cb), f"{what}: configuration {cb} instead of {ca}")
    if c["kind"] == "conv" and c["subgroup"] == c["group"]:
        import groco.layers as L
        import groco.layers.conv2d
        import groco.layers.conv3d

        n = f"{c['group']}Conv{c['ndim']}D"
        named = getattr(L, n, None) or getattr(groco.layers.conv2d, n, None) or getattr(groco.layers.conv3d, n, None)
        fail_if(named is None, f"no {n}")
        b = named(**{k: v for k, v in kw.items() if k not in ("group", "subgroup")})
        fail_if(not isinstance(b, cls), f"{n} makes a {type(b).__name__}")
        b.build(tuple(x.shape))
        share(a, b)
        same(n, b(x), y)
        fail_if(b.get_config()["group"] != c["group"] or b.get_config()["subgroup"] != c["group"], f"{n}: group {b.get_config()['group']}")


def check_batch(c):
    c = full(c)
    z = Z(c)
    rng = rng_of(c)
    layer = make(c, z)
    x = draw(rng, signal_shape(c, z))
    if c.get("unknown", True):
        try:
            layer.build((None,) + tuple(x.shape[1:]))
        except ValueError as e:
            raise Rejected(str(e)[:80])
    y = call(layer, x)
    set_weights(layer, rng)
    y = A(layer(x))
    fail_if(y.shape[0] != z.B, f"{y.shape[0]} instead of {z.B} entries")
    for i in range(z.B):
        same(f"entry {i}", A(layer(x[i:i + 1]))[0], y[i])
    if z.B > 1:
        p = rng.permutation(z.B)
        same("permuted entries", layer(np.ascontiguousarray(x[p])), y[p])
        x2 = x.copy()
        x2[0] = draw(rng, x2[0].shape)
        same("other entries", A(layer(x2))[1:], y[1:])


def check_registries(c):
    from groco.groups import group_dict
    from groco.groups.space_groups import space_group_dict
    from groco.groups.wallpaper_groups import wallpaper_group_dict

    for d, names in ((group_dict, set(G.ORDER)), (wallpaper_group_dict, {n for n in G.ORDER if G.DIMS[n] == 2}),
                     (space_group_dict, {n for n in G.ORDER if G.DIMS[n] == 3})):
        fail_if(set(d) != names, f"registry of {sorted(d)}")
        for n, g in d.items():
            fail_if(g.name != n or g.order != G.ORDER[n] or group_dict[n] is not g, f"{n} maps to {g.name} of order {g.order}")


def check_wiring(c):
    """A layer accepts a size if and only if its padding can be."""
    c = full(c)
    z = Z(c)
    try:
        layer = layer_class(c)(**kwargs_of(c, z))
    except ValueError as e:
        raise Rejected(str(e)[:80])
    want = explicit_padding(c, z, z.n)
    try:
        layer.build(signal_shape(c, z))
        accepted = True
    except ValueError as e:
        accepted = False
        why = str(e)
        if want is not None and ("negative" in why.lower() or "would result" in why.lower()):
            raise Rejected("no output at all")
    fail_if(accepted != (want is not None), f"{'accepted' if accepted else 'rejected'}, although padding {want} is required")


def check_bad_option(c):
    """Unknown padding options are TypeErrors."""
    c = full(c)
    z = Z(c)
    kw = kwargs_of(dict(c, padding="valid"), z)
    bad = c["bad"]
    if isinstance(bad, dict):
        bad = {"bytes": b"same", "tuple": ("same",), "list": ["valid"], "dict": {}, "object": object(), "none": None}[bad["kind"]]
    kw["padding"] = bad
    for allow in (False, True):
        try:
            layer_class(c)(**dict(kw, allow_non_equivariance=allow)).build(signal_shape(c, z))
        except TypeError:
            continue
        except Exception as e:
            raise Failed(f"{type(e).__name__} instead of a TypeError for padding {bad!r}")
        raise Failed(f"padding {bad!r} accepted")


def padding_class():
    from groco.layers.padding import EquivariantPadding

    return EquivariantPadding


def check_padding(c):
    d = c["dimensions"]
    n, k, s, dl = (tuple(c[x]) for x in ("n", "k", "s", "d"))
    fmt = c.get("fmt", "channels_last")
    kw = dict(kernel_size=k, dimensions=d, strides=s, padding=c["padding"], data_format=fmt)
    if any(v != 1 for v in dl):
        kw["dilation_rate"] = dl
    if c.get("scalar"):
        kw.update({a: v[0] for a, v in kw.items() if isinstance(v, tuple) and len(set(v)) == 1})
    if c.get("allow"):
        kw["allow_non_equivariance"] = True
    if c.get("transpose"):
        kw["transpose"] = True
    layer = padding_class()(**kw)
    B, C = c.get("B", 2), c.get("C", 3)
    shape = (B,) + n + (C,) if fmt == "channels_last" else (B, C) + n
    want = [axis_padding(c["padding"], a, (b - 1) * e + 1, t, c.get("allow", False), c.get("transpose", False)) for a, b, t, e in zip(n, k, s, dl)]
    try:
        layer.build(shape)
        accepted = True
    except ValueError:
        accepted = False
    fail_if(accepted and None in want, f"accepted, although no padding keeps the grids aligned: {want}")
    fail_if(not accepted and None not in want, f"rejected, although padding {want} keeps the grids aligned")
    if not accepted:
        return
    x = rng_of(c).integers(1, 9, size=shape).astype("float32")
    p = [(0, 0)] + want + [(0, 0)] if fmt == "channels_last" else [(0, 0), (0, 0)] + want
    ref = np.pad(x, p)
    same("padded input", layer.call(x), ref)
    got = tuple(layer.compute_output_shape((None,) + shape[1:]))
    fail_if(got != (None,) + ref.shape[1:], f"computed shape {got}, actual {ref.shape}")


# ---------------------------------------------------------------- groups

def table(x):
    return A(x).astype(int).tolist()


def check_tables(c):
    """C01 of a group or of one induced by restriction."""
    g = groups()[c["group"]]
    for s in c.get("restrict", []):
        sub = table(g.subgroup[s])
        h = restrict(g, s)
        comp, inv = table(h.composition), table(h.inverses)
        pc = table(g.composition)
        pi = table(g.inverses)
        loc = {e: i for i, e in enumerate(sub)}
        fail_if(comp != [[loc[pc[a][b]] for b in sub] for a in sub], f"composition induced on {s}")
        fail_if(inv != [loc[pi[a]] for a in sub], f"inverses induced on {s}")
        names = {n for n in g.subgroup if set(table(g.subgroup[n])) <= set(sub)}
        fail_if(set(h.subgroup) != names or set(h.cosets) != names, f"subgroups induced on {s}: {sorted(h.subgroup)}")
        for n in names:
            fail_if(table(h.subgroup[n]) != [loc[e] for e in table(g.subgroup[n])], f"subgroup {n} induced on {s}")
            fail_if(table(h.cosets[n]) != [loc[e] for e in table(g.cosets[n]) if e in loc], f"cosets {n} induced on {s}")
        g = h
    comp, inv, n = table(g.composition), table(g.inverses), g.order
    fail_if(len(comp) != n or any(len(r) != n or not all(0 <= v < n for v in r) for r in comp), "not closed")
    fail_if(any(comp[0][a] != a or comp[a][0] != a for a in range(n)), "element 0 is not the identity")
    fail_if(len(inv) != n or any(comp[inv[a]][a] != 0 or comp[a][inv[a]] != 0 for a in range(n)), "inverses")
    M = np.array(comp)
    fail_if((M[M] != np.array([[[comp[a][v] for v in comp[b]] for b in range(n)] for a in range(n)])).any(), "not associative")


def restrict(g, s):
    from groco.groups import Group

    return Group(name=s, order=len(g.subgroup[s]), parent=g)


def check_subgroups(c):
    g = groups()[c["group"]]
    comp, inv = table(g.composition), table(g.inverses)
    fail_if(set(g.subgroup) != set(g.cosets), "subgroups and cosets")
    fail_if(not set(G.SUBGROUPS[c["group"]]) <= set(g.subgroup), f"subgroups {sorted(g.subgroup)}")
    for s, els in g.subgroup.items():
        els = table(els)
        fail_if(len(set(els)) != len(els) or 0 not in els or els[0] != 0, f"{s}: elements {els}")
        fail_if(any(comp[a][b] not in els for a in els for b in els) or any(inv[a] not in els for a in els), f"{s}: not closed")
        own = groups()[s]
        fail_if(own.order != len(els), f"{s}: order {len(els)}")
        oc = table(own.composition)
        fail_if(any(comp[els[i]][els[j]] != els[oc[i][j]] for i in range(len(els)) for j in range(len(els))), f"{s}: composes otherwise")
        reps = table(g.cosets[s])
        fail_if(0 not in reps, f"{s}: representatives {reps}")
        fail_if(sorted(comp[h][r] for h in els for r in reps) != list(range(g.order)), f"{s}: representatives {reps} are no transversal")


def check_documented(c):
    name = c["group"]
    g = groups()[name]
    comp, inv = G.tables(name)
    fail_if(table(g.composition) != comp, "composition is not that of the documented transformations")
    fail_if(table(g.inverses) != inv, "inverses are not those of the documented transformations")
    fail_if(set(G.ELEMENTS[name]) != G.documented(name), "elements")


def placed(rank, spatial, name, rng, extra=None, sizes=None):
    base = G.tied_sizes(name, lambda a: (sizes or [4, 3, 5])[a])
    shape = [None] * rank
    for a, n in zip(spatial, base):
        shape[a] = n
    if extra:
        shape[extra[0]] = extra[1]
    for i in range(rank):
        if shape[i] is None:
            shape[i] = 2 + i % 2
    return draw(rng, tuple(shape))


def check_grid(c):
    name, rank, ax, new, sub = c["group"], c["rank"], tuple(c["axes"]), c["new"], c.get("sub", "")
    rng = rng_of(c)
    g = groups()[name]
    x = placed(rank, ax, name, rng, sizes=c.get("n"))
    els = list(range(g.order)) if sub in ("", name) else table(g.subgroup[sub])
    kw = {"acting_group": sub} if sub else {}
    y = A(g.action(x, spatial_axes=ax, new_group_axis=new, domain_group=None, **kw))
    want = np.stack([act(x, G.ELEMENTS[name][e], ax) for e in els], axis=new)
    same(f"action of {sub or name}", y, want)
    if c.get("induced") and sub:
        y = A(restrict(g, sub).action(x, spatial_axes=ax, new_group_axis=new, domain_group=None))
        same(f"action of the induced {sub}", y, want)


def check_group(c):
    name, rank, ax, ga, new = c["group"], c["rank"], tuple(c["axes"]), c["group_axis"], c["new"]
    acting_, dom_ = c.get("acting", ""), c.get("domain", "")
    rng = rng_of(c)
    g = groups()[name]
    a = list(range(g.order)) if not acting_ else table(g.subgroup[acting_])
    d = list(range(g.order)) if not dom_ else table(g.subgroup[dom_])
    x = placed(rank, ax, name, rng, extra=(ga, len(d)), sizes=c.get("n"))
    y = g.action(x, spatial_axes=ax, group_axis=ga, new_group_axis=new, acting_group=acting_, domain_group=dom_)
    same("action", y, np.stack([act_on_group(x, name, e, ax, ga, d) for e in a], axis=new))


def check_upsample(c):
    name, sub, rank, ga, dtype = c["group"], c["sub"], c["rank"], c["group_axis"], c.get("dtype", "float32")
    g = groups()[name]
    els = table(g.subgroup[sub])
    rng = rng_of(c)
    shape = tuple(len(els) if a == ga else 2 + a % 2 for a in range(rank))
    x = draw(rng, shape).astype(dtype)
    y = g.upsample(ops.convert_to_tensor(x), ga, sub)
    want = np.zeros(shape[:ga] + (g.order,) + shape[ga + 1:], dtype)
    for i, e in enumerate(els):
        want[(slice(None),) * ga + (e,)] = np.take(x, i, axis=ga)
    same("upsampled", y, want)
    fail_if(str(A(y).dtype) != dtype, f"dtype {A(y).dtype} instead of {dtype}")
    same("taken back", np.take(A(y), els, axis=ga), x)


def check_utils(c):
    from groco import utils

    what, shape = c["what"], tuple(c["shape"])
    rng = rng_of(c)
    rank = len(shape)
    x = np.arange(int(np.prod(shape)), dtype="float32").reshape(shape)
    if what == "move":
        m, t = c["axes"]
        rest = [a for a in range(rank) if a != m % rank]
        at = rest.index(t % rank)
        same("moved", utils.move_axis_to_left_of(x, moved_axis=m, target_axis=t), np.transpose(x, rest[:at] + [m % rank] + rest[at:]))
    elif what == "merge":
        m, t = c["axes"]
        rest = [a for a in range(rank) if a != m % rank]
        at = rest.index(t % rank)
        w = np.transpose(x, rest[:at] + [m % rank] + rest[at:])
        w = w.reshape(w.shape[:at] + (w.shape[at] * w.shape[at + 1],) + w.shape[at + 2:])
        same("merged", utils.merge_axes(x, merged_axis=m, target_axis=t), w)
        got = tuple(utils.merge_shapes(list(shape), merged_axis=m, target_axis=t))
        fail_if(got != w.shape, f"merged shape {got} instead of {w.shape}")
        if 0 not in (m % rank, t % rank):
            got = tuple(utils.merge_shapes((None,) + shape[1:], merged_axis=m, target_axis=t))
            fail_if(got != (None,) + w.shape[1:], f"merged shape {got} instead of {(None,) + w.shape[1:]}")
    elif what == "split":
        axis, left = c["axis"], c["left"]
        a = axis % rank
        w = x.reshape(shape[:a] + (left, shape[a] // left) + shape[a + 1:])
        same("split", utils.split_axes(x, left_size=left, right_axis=axis), w)
    elif what == "index":
        t = A(utils.get_index_tensor(x))
        fail_if(t.shape != shape, f"index tensor of shape {t.shape}")
        same("gathered", np.take(x.reshape(-1), t.astype(int)), x)
        fail_if(not np.issubdtype(t.dtype, np.integer), f"index tensor of dtype {t.dtype}")


# ---------------------------------------------------------------- the checker

def check_checker(c):
    from groco.utils import check_equivariance as checker

    name = c["group"]
    g = groups()[name]
    d = G.DIMS[name]
    ax = tuple(c.get("spatial") or range(1, d + 1))
    ga = c.get("group_axis") if c.get("group_axis") is not None else d + 1
    rng = rng_of(c)
    act_, dom_, tgt_ = c.get("acting", ""), c.get("domain", ""), c.get("target", "")

    def els(s):
        return None if s is None else list(range(g.order)) if not s else table(g.subgroup[s])

    dom, tgt, a = els(dom_), els(tgt_), els(act_)
    seed = int(rng.integers(1 << 30))

    def shape(on, n, B, wrong=0):
        rank = d + 2 + (on is not None)
        sh = [None] * rank
        for i, v in zip(ax, G.tied_sizes(name, lambda i: n + (i if name not in G.TIED else 0))):
            sh[i] = v
        if on is not None:
            sh[ga] = len(on) + wrong
        sh[0] = B
        return tuple(2 if v is None else v for v in sh)

    so = shape(tgt, 2, 1, c.get("wrong_out", 0))[1:]

    def layer(x):
        x = A(x)
        w = np.random.default_rng(seed).integers(-3, 4, size=(int(np.prod(x.shape[1:])), int(np.prod(so)))).astype("float64")
        return ops.convert_to_tensor((x.reshape(x.shape[0], -1).astype("float64") @ w + np.arange(w.shape[1])).reshape((-1,) + so).astype("float32"))

    if not c.get("group_arg", True):
        real = layer

        class WithGroup:
            group_transforms = type("T", (), {"group": g})()

            def __call__(self, x):
                return real(x)

        layer = WithGroup()
    x = draw(rng, shape(dom, 3, c.get("B", 2), c.get("wrong_in", 0)))
    if c.get("equivariant") and dom_ == tgt_:
        def layer(x):
            return ops.convert_to_tensor(2 * A(x) + 1 if dom is None or len(dom) == g.order else 2 * A(x))

    kw = dict(acting_group=act_, domain_group=dom_, target_group=tgt_, spatial_axes=ax)
    if c.get("group_arg", True) or not hasattr(layer, "group_transforms"):
        kw["group"] = g
    if dom is not None or tgt is not None:
        kw["group_axis"] = ga
    wrong = c.get("wrong_in") or c.get("wrong_out")
    try:
        got = float(checker(layer, ops.convert_to_tensor(x), **kw))
    except AssertionError:
        fail_if(not wrong, "AssertionError on a proper signal")
        return
    fail_if(wrong, "a wrong order in the group axis is accepted")

    def acted(t, e, on):
        return act(t, G.ELEMENTS[name][e], ax) if on is None else act_on_group(t, name, e, ax, ga, on)

    y = A(layer(x))
    want = max(float(np.abs(A(layer(np.ascontiguousarray(acted(x, e, dom)))) - acted(y, e, tgt)).max()) for e in a)
    fail_if(abs(got - want) > 1e-3 * max(1, abs(want)), f"reports {got} instead of {want}")


CHECKS = {n[6:]: f for n, f in list(globals().items()) if n.startswith("check_")}


def check(case):
    """None, 'rejected: ...' or what failed."""
    try:
        CHECKS[case["task"]](case)
        return None
    except Rejected as e:
        return f"rejected: {e}"
    except Failed as e:
        return str(e)
    except MemoryError:
        return "rejected: too large"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if "/groco/" in f.filename]
        if not own and not [f for f in tb if "site-packages" in f.filename]:
            return f"rejected: harness: {type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}"
        at = own[-1] if own else tb[-1]
        return f"{type(e).__name__}: {str(e)[:200]} at {os.path.basename(at.filename)}:{at.lineno}"


def work(case):
    t = time.time()
    r = check(case)
    return case, r, time.time() - t


def too_large(case):
    if "sizes" not in case:
        return False
    z = case["sizes"]
    c = full(case)
    order = G.ORDER[c["group"]]
    v = z["B"] * z["C"] * math.prod(z["n"]) * order
    v2 = z["B"] * z["C"] * math.prod(z.get("n2") or [1]) * order
    w = math.prod(z["k"]) * z["C"] * z["F"] * order * order
    return max(v, v2, w) > 3e7 or math.prod(z["n"]) * z["F"] * order * z["C"] * math.prod(z["k"]) > 3e9 or max(z["d"]) * max(z["k"]) > 2000


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--cases")
    p.add_argument("--replay")
    p.add_argument("--out")
    p.add_argument("--jobs", type=int, default=2)
    p.add_argument("--seconds", type=float, default=100)
    a = p.parse_args()
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)["case"]
        load()
        r = check(case)
        print("holds" if r is None else r)
        sys.exit(0 if r is None or r.startswith("rejected") else 1)
    with open(a.cases) as f:
        cases = json.load(f)
    t0 = time.time()
    out = {"run": 0, "held": 0, "rejected": 0, "failed": [], "too_large": 0, "wall_s": 0, "left": 0, "harness": []}
    todo = []
    for c in cases:
        if too_large(c):
            out["too_large"] += 1
        else:
            todo.append(c)
    pool = None
    if a.jobs > 1 and len(todo) > 4:
        ctx = multiprocessing.get_context("spawn")
        pool = ctx.Pool(a.jobs, initializer=load)
        results = pool.imap_unordered(work, todo, 1)
    else:
        load()
        results = map(work, todo)
    n = 0
    for case, r, t in results:
        n += 1
        out["run"] += 1
        if r is None:
            out["held"] += 1
        elif r.startswith("rejected"):
            out["rejected"] += 1
            if "harness" in r:
                out["harness"].append([case, r])
        else:
            out["failed"].append([case, r])
        if time.time() - t0 > a.seconds:
            out["left"] = len(todo) - n
            break
    if pool:
        pool.terminate()
    out["wall_s"] = round(time.time() - t0, 2)
    with open(a.out, "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()

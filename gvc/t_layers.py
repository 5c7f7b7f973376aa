"""The layers on symbolic inputs (C07-C13, C16-C19, C21, C22)."""

import contextlib
import sys

from . import contracts, groupdata as G, keras_stub as K, oblig as O, poly, sym, tensor as T, terms
from .poly import SInt, Unsupported, binder, size_symbol

CONV_FUNCTIONS = {
    "{L}.__init__", "{L}.build", "{L}.call", "GroupTransforms.__init__", "GroupTransforms.build", "GroupTransforms.build_conv",
    "GroupTransforms.prepare_call", "GroupTransforms.merge_group_axis_and_pad", "GroupTransforms.transform_kernel",
    "GroupTransforms.repeat_bias", "GroupTransforms.restore_group_axis", "GroupTransforms._compute_transformed_kernel_indices",
    "GroupTransforms._compute_repeated_bias_indices", "Group.action", "merge_axes", "split_axes", "get_index_tensor", "backup_and_restore",
}
POOL_FUNCTIONS = {
    "GroupPooling.__init__", "GroupPooling.build", "GroupPooling.call", "GroupTransforms.__init__", "GroupTransforms.build",
    "GroupTransforms.build_pool", "GroupTransforms.subgroup_pooling", "GroupTransforms.merge_group_axis_and_pad",
    "GroupTransforms.restore_group_axis", "merge_axes", "split_axes",
}
GLOBAL_FUNCTIONS = {"GlobalGroupPooling." + f for f in ("__init__", "build", "call", "pool_group", "restore_group_axis")}


def report(what, cfg):
    cfg = sym.full(cfg)
    rep = O.Report(f"{what}({sym.label(cfg)})")
    rep.cfg = cfg
    name = sym.CLASSES[(cfg["kind"], cfg["ndim"]) + ((cfg["pool"],) if "pool" in cfg["kind"] else ())]
    fs = {"conv": CONV_FUNCTIONS, "tconv": CONV_FUNCTIONS, "pool": POOL_FUNCTIONS, "gpool": GLOBAL_FUNCTIONS}[cfg["kind"]]
    rep.functions |= {f.replace("{L}", name) for f in fs}
    return rep, cfg


def run(rep, cfg, fn, contract=True, limit=600, budget=600, rejecting=False):
    def with_contract(ctx):
        K.reset()
        c = contracts.padding_contract(rejecting) if contract and cfg["kind"] != "gpool" else None
        with c or contextlib.nullcontext():
            fn(ctx)

    O.run_paths(rep, with_contract, limit=limit, budget=budget)
    if not rep.proved and not rep.failed:
        rep.add("some input is accepted", "undecided", "", "vacuous: every path is rejected")
    return rep


def accept(layer, x):
    """The layer's output; paths on which it rejects the input are outside of the property."""
    try:
        return layer(x)
    except ValueError:
        raise O.Reject()


def history(cfg, z, layer):
    """Have the layer see an input of another size first."""
    other = sym.signal(cfg, z, "earlier", n=z.second(cfg, "'"), B=size_symbol("B'"))
    accept(layer, other)


# ---------------------------------------------------------------- C09, C10, C12

def equivariance(history_=False, contract=True, elements=None, **cfg):
    rep, cfg = report("equivariance" + (" after another size" if history_ else ""), cfg)

    def fn(ctx):
        # an odd total with same_equiv pooling is a known finding (see known_findings.txt)
        ctx.even_totals = cfg["kind"] == "pool" and cfg["padding"] == "same_equiv"
        z = sym.Sizes(cfg)
        layer = sym.make(cfg, z)
        x = sym.signal(cfg, z)
        if history_:
            history(cfg, z, layer)
        y = accept(layer, x)
        rep.cover("accepted")
        for g in elements or sym.generators(cfg):
            left = layer(sym.act_in(cfg, x, g))
            rep.cover(f"element {g}")
            if not O.prove_tensors(f"element {g}: layer(g x) = g layer(x)", left, sym.act_out(cfg, y, g), rep):
                return

    return run(rep, cfg, fn, contract)


# ---------------------------------------------------------------- C07, C08, C11, C13

def plain_layer(cfg, z):
    """The Keras layer of the same settings."""
    kl = sys.modules["keras.layers"]
    d = cfg["ndim"]
    if cfg["kind"] == "conv":
        cls = getattr(kl, f"Conv{d}D")
    elif cfg["kind"] == "tconv":
        cls = getattr(kl, f"Conv{d}DTranspose")
    elif cfg["kind"] == "pool":
        cls = getattr(kl, f"{'Max' if cfg['pool'] == 'max' else 'Average'}Pooling{d}D")
    else:
        cls = getattr(kl, f"Global{'Max' if cfg['pool'] == 'max' else 'Average'}Pooling{d}D")
    kw = sym.layer_kwargs(cfg, z)
    for k in ("group", "subgroup", "allow_non_equivariance"):
        kw.pop(k, None)
    if "padding" in kw:
        kw["padding"] = built_in(cfg)
    return cls(**kw)


def built_in(cfg):
    return cfg["padding"][:-6] if cfg["padding"].endswith("_equiv") else cfg["padding"]


def merged_shape(cfg, z, B="?"):
    dom = sym.domain(cfg)
    f = 1 if dom is None else len(dom)
    B = z.B if isinstance(B, str) else B
    if cfg["fmt"] == "channels_first":
        return (B, f * z.C) + tuple(z.n)
    return (B,) + tuple(z.n) + (f * z.C,)


def weight(layer, name):
    for w in layer.weights:
        if w.name.endswith("/" + name):
            return w
    return None


def own_weights(**cfg):
    """C07: the layer owns the plain layer's weights."""
    rep, cfg = report("weights", cfg)

    def fn(ctx):
        z = sym.Sizes(cfg)
        layer = sym.make(cfg, z)
        try:
            layer.build(sym.signal_shape(cfg, z))
        except ValueError:
            raise O.Reject()
        K.reset()
        plain = plain_layer(cfg, z)
        plain.build(merged_shape(cfg, z))
        rep.cover("built")
        mine, theirs = layer.weights, plain.weights
        if not O.prove_formula("number of weights", len(mine) == len(theirs), rep):
            return
        for a, b in zip(mine, theirs):
            O.prove_formula(f"{b.name}: name", a.name.split("/")[-1] == b.name.split("/")[-1], rep)
            O.prove_dims(f"{b.name}: shape", a.shape, b.shape, rep)
            O.prove_formula(f"{b.name}: trainable", a.trainable == b.trainable, rep)
        O.prove_formula("filters", _same(layer.filters, z.F), rep)

    return run(rep, cfg, fn)


def _same(a, b):
    d = a - b
    return poly.eq0(d) if isinstance(d, SInt) else d == 0


def computes(history_=False, contract=True, **cfg):
    """C07 and C08: the output is the plain convolution with the orbit of the owned kernel; C11: pooling."""
    rep, cfg = report("computes" + (" after another size" if history_ else ""), cfg)

    def fn(ctx):
        z = sym.Sizes(cfg)
        layer = sym.make(cfg, z)
        x = sym.signal(cfg, z)
        if history_:
            history(cfg, z, layer)
        y = accept(layer, x)
        rep.cover("accepted")
        p = None
        if cfg["kind"] != "gpool":
            args = sym.padding_args(cfg, z)
            p = contracts.pads(ctx, contracts.ghosts_of(ctx), args, merged_shape(cfg, z))
        if cfg["kind"] in ("conv", "tconv"):
            k, b = weight(layer, "kernel"), weight(layer, "bias")
            if k is None or (b is None) != (not cfg["bias"]):
                raise Unsupported("no kernel or bias")
            want = sym.conv_spec(cfg, z, x, k.value, b.value if b is not None else None, p)
        else:
            want = sym.pool_spec(cfg, z, x, None if p is None else p + [(0, 0)])
        O.prove_tensors("output", y, want, rep)

    return run(rep, cfg, fn, contract)


def global_pooling(**cfg):
    """C13."""
    cfg = dict(cfg, kind="gpool")
    rep, cfg = report("global pooling", cfg)

    def fn(ctx):
        z = sym.Sizes(cfg)
        layer = sym.make(cfg, z)
        x = sym.signal(cfg, z)
        y = layer(x)
        axes = sym.axes(cfg) + (sym.group_axis(cfg),)
        agg = T.max if cfg["pool"] == "max" else T.mean
        O.prove_tensors("aggregate", y, agg(x, axis=axes, keepdims=cfg["keepdims"]), rep)
        rep.cover("pooled")
        if cfg["ndim"] == G.DIMS[cfg["group"]]:
            for g in sym.generators(cfg):
                O.prove_tensors(f"element {g}: invariant", layer(sym.act_in(cfg, x, g)), y, rep)
        # on inputs of another size afterwards
        z2 = sym.Sizes(cfg, "'")
        x2 = sym.signal(cfg, z2, "x2")
        O.prove_tensors("another size", layer(x2), agg(x2, axis=axes, keepdims=cfg["keepdims"]), rep)

    return run(rep, cfg, fn)


# ---------------------------------------------------------------- C16

def output_shape(other=False, contract=True, **cfg):
    rep, cfg = report("output shape" + (" of another size" if other else ""), cfg)
    rep.functions |= {"GroupTransforms.merge_group_axis_and_pad_shape", "GroupTransforms.correct_output_shape", "merge_shapes"}

    def fn(ctx):
        z = sym.Sizes(cfg)
        layer = sym.make(cfg, z)
        x = sym.signal(cfg, z)
        if other:
            history(cfg, z, layer)
        y = accept(layer, x)
        # an output there is: the window fits into the padded input
        for n in y.shape[1:]:
            ctx.assume(poly.ge0(n - 1) if isinstance(n, poly.SInt) else n >= 1)
        rep.cover("accepted")
        shape = layer.compute_output_shape(tuple(x.shape))
        O.prove_dims("computed shape is the actual shape", tuple(shape), y.shape, rep)
        shape = layer.compute_output_shape((None,) + tuple(x.shape[1:]))
        if O.prove_formula("rank", len(shape) == len(y.shape), rep):
            O.prove_dims("unknown batch size", tuple(shape), (None,) + tuple(y.shape[1:]), rep)
        if O.prove_formula("documented rank", len(y.shape) == cfg["ndim"] + 3, rep):
            O.prove_dims("documented group axis", (y.shape[sym.group_axis(cfg)],), (len(sym.acting(cfg)),), rep)
            O.prove_dims("documented channel axis", (y.shape[1 if cfg["fmt"] == "channels_first" else -1],), (z.F,), rep)
            O.prove_dims("documented batch axis", (y.shape[0],), (z.B,), rep)

    return run(rep, cfg, fn, contract)


# ---------------------------------------------------------------- C17

class Interrupt(Exception):
    """The injected failure."""


class Faulty:
    """Makes the n-th operation of a block raise; counts the operations."""

    def __init__(self, at=None):
        self.at, self.count = at, 0

    def __enter__(self):
        self.saved = []
        mods = [sys.modules[m] for m in ("keras.ops", "keras.ops.numpy", "keras.src.ops") if m in sys.modules]
        for mod in {id(m): m for m in mods}.values():
            for n, f in list(vars(mod).items()):
                if callable(f) and not n.startswith("_"):
                    self.saved.append((mod, n, f))
                    setattr(mod, n, self.wrap(f))
        return self

    def wrap(self, f):
        def g(*a, **k):
            i = self.count
            self.count += 1
            if i == self.at:
                raise Interrupt()
            return f(*a, **k)

        return g

    def __exit__(self, *exc):
        for mod, n, f in self.saved:
            setattr(mod, n, f)


def snapshot(layer):
    return dict(
        weights=[(w, w.name, w.value) for w in layer.weights], filters=getattr(layer, "filters", None), config=layer.get_config(),
        named={n: (getattr(layer, n, None), getattr(getattr(layer, n, None), "value", None)) for n in ("kernel", "bias", "_kernel")},
    )


def unchanged(rep, what, before, after):
    ok = O.prove_formula(f"{what}: same weights", len(before["weights"]) == len(after["weights"]) and all(
        a[0] is b[0] and a[1] == b[1] for a, b in zip(before["weights"], after["weights"])), rep)
    for a, b in zip(before["weights"], after["weights"]):
        if a[2] is not b[2]:
            ok = O.prove_tensors(f"{what}: value of {a[1]}", b[2], a[2], rep) and ok
    for n in before["named"]:
        ok = O.prove_formula(f"{what}: layer.{n}", before["named"][n][0] is after["named"][n][0], rep) and ok
    f, g = before["filters"], after["filters"]
    ok = O.prove_formula(f"{what}: filters", f is g if f is None or g is None else _same(f, g), rep) and ok
    return prove_same_config(rep, f"{what}: configuration", before["config"], after["config"]) and ok


def prove_same_config(rep, name, a, b):
    d = config_difference(a, b)
    if d is None:
        rep.add(name, "proved", "normal form")
        return True
    rep.add(name, "refuted", "", d, O.some_model(poly.CTX))
    return False


def config_difference(a, b, at=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{at}{k} only on one side"
            d = config_difference(a[k], b[k], f"{at}{k}.")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{at}: {a} and {b}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = config_difference(x, y, f"{at}{i}.")
            if d:
                return d
        return None
    if poly.is_int(a) and poly.is_int(b) and not isinstance(a, bool) and not isinstance(b, bool):
        d = a - b
        same = poly.prove(poly.eq0(d)) if isinstance(d, SInt) else d == 0
        return None if same else f"{at}: {a} and {b}"
    return None if type(a) is type(b) and a == b else f"{at}: {a!r} and {b!r}"


def leaves_unchanged(contract=True, **cfg):
    """C17: the frame of a call, successful or not, and what the next call computes."""
    rep, cfg = report("call leaves unchanged", cfg)

    def fn(ctx):
        z = sym.Sizes(cfg)
        layer = sym.make(cfg, z)
        x = sym.signal(cfg, z)
        try:
            layer.build(tuple(x.shape))
        except ValueError:
            raise O.Reject()
        before = snapshot(layer)
        y = accept(layer, x)
        rep.cover("called")
        unchanged(rep, "a call", before, snapshot(layer))
        O.prove_tensors("repeated call", layer(x), y, rep)
        with Faulty() as count:
            layer(x)
        for i in range(count.count):
            raised = False
            try:
                with Faulty(i):
                    layer(x)
            except Interrupt:
                raised = True
            if not raised:
                continue
            rep.cover("failing call")
            if not unchanged(rep, f"a call failing at operation {i}", before, snapshot(layer)):
                return
        O.prove_tensors("call after failing calls", layer(x), y, rep)
        # inputs it does not accept
        shape = list(x.shape)
        for what, bad in (("rank", T.variable("bad", shape[:-1])), ("channels", T.variable("bad", bad_channels(cfg, z, shape)))):
            try:
                layer(bad)
            except (ValueError, AssertionError, IndexError, TypeError):
                rep.cover(f"rejected {what}")
            unchanged(rep, f"a call with the wrong {what}", before, snapshot(layer))
        if cfg["kind"] in ("conv", "tconv"):
            x2 = sym.signal(cfg, z, "x2", n=z.second(cfg, "'"), B=size_symbol("B'"))
            try:
                layer(x2)
                rep.cover("another size")
            except ValueError:
                rep.cover("another size rejected")
            unchanged(rep, "a call on another size", before, snapshot(layer))
            O.prove_tensors("call after another size", layer(x), y, rep)
            # new weights
            args = sym.padding_args(cfg, z)
            p = contracts.pads(ctx, contracts.ghosts_of(ctx), args, merged_shape(cfg, z)) if contract else None
            k, b = weight(layer, "kernel"), weight(layer, "bias")
            new_k = T.variable("newkernel", k.shape)
            new_b = T.variable("newbias", b.shape) if b is not None else None
            k.assign(new_k)
            if b is not None:
                b.assign(new_b)
            if contract:
                O.prove_tensors("new weights", layer(x), sym.conv_spec(cfg, z, x, new_k, new_b, p), rep)
            old = before["weights"]
            for w in old:
                w[0].assign(w[2])
            O.prove_tensors("old weights again", layer(x), y, rep)

    return run(rep, cfg, fn, contract)


def bad_channels(cfg, z, shape):
    a = 1 if cfg["fmt"] == "channels_first" else len(shape) - 1
    return shape[:a] + [shape[a] + 1] + shape[a + 1:]


# ---------------------------------------------------------------- C18

def formats(contract=True, default=False, **cfg):
    rep, cfg = report("data formats", cfg)
    last, first = dict(cfg, fmt="channels_last"), dict(cfg, fmt="channels_first")

    def fn(ctx):
        z = sym.Sizes(cfg)
        a = sym.make(last, z)
        x = sym.signal(last, z)
        y = accept(a, x)
        c = len(x.shape) - 1
        xf = T.moveaxis(x, c, 1)
        K.reset()
        b = sym.make(first, z)
        rep.cover("accepted")
        b.build(tuple(xf.shape))
        share(rep, a, b)
        yf = b(xf)
        want = y if cfg["kind"] == "gpool" and not cfg["keepdims"] else T.moveaxis(y, len(y.shape) - 1, 1)
        O.prove_tensors("channels_first", yf, want, rep)
        if default:
            for fmt, xx, yy in (("channels_last", x, y), ("channels_first", xf, yf)):
                K.reset()
                K.set_image_data_format(fmt)
                d = sym.make(dict(cfg, fmt=None), z)
                d.build(tuple(xx.shape))
                share(rep, a, d)
                O.prove_tensors(f"unset means the default {fmt}", d(xx), yy, rep)

    return run(rep, cfg, fn, contract)


def share(rep, a, b):
    """Give b the weights of a."""
    for u, v in zip(a.weights, b.weights):
        O.prove_dims(f"{u.name}: shape", v.shape, u.shape, rep)
        v.assign(u.value)


# ---------------------------------------------------------------- C19

def plain_value(v):
    if v is None or isinstance(v, (str, bool, float, SInt)) or (isinstance(v, int) and type(v) is int):
        return True
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return all(map(plain_value, v))
    if type(v) is dict:
        return all(isinstance(k, str) and plain_value(x) for k, x in v.items())
    return False


def rebuilt(as_object=False, contract=True, **cfg):
    rep, cfg = report("rebuilt from the configuration" + (" (group object)" if as_object else ""), cfg)

    def fn(ctx):
        z = sym.Sizes(cfg)
        kw = sym.layer_kwargs(cfg, z)
        if as_object and "group" in kw:
            kw["group"] = sym.groups()[kw["group"]]
        cls = sym.layer_class(cfg)
        a = cls(**kw)
        config = a.get_config()
        bad = [k for k, v in config.items() if not plain_value(v)]
        O.prove_formula("plain values" + (f" ({bad})" if bad else ""), not bad, rep)
        if cfg["kind"] != "gpool":
            for k, want in (("group", cfg["group"]), ("subgroup", cfg["subgroup"]), ("padding", cfg["padding"]), ("allow_non_equivariance", cfg["allow"])):
                prove_same_config(rep, f"reported {k}", config.get(k), want)
        b = cls.from_config(dict(config))
        prove_same_config(rep, "configuration of the rebuilt layer", b.get_config(), config)
        # everything the plain Keras layer reports
        K.reset()
        plain = plain_layer(cfg, z)
        for k, v in plain.get_config().items():
            if k in ("name", "padding"):
                continue
            prove_same_config(rep, f"Keras setting {k}", config.get(k, "missing"), v)
        if cfg["name"]:
            O.prove_formula("name", b.name == cfg["name"] == config.get("name"), rep)
        rep.cover("rebuilt")
        x = sym.signal(cfg, z)
        try:
            y = a(x)
        except ValueError:
            try:
                b(x)
                rep.add("both reject", "refuted", "", "only the original rejects", O.some_model(ctx))
            except ValueError:
                rep.cover("both reject")
            return
        b.build(tuple(x.shape))
        share(rep, a, b)
        O.prove_tensors("same function", b(x), y, rep)
        rep.cover("called")

    return run(rep, cfg, fn, contract)


# ---------------------------------------------------------------- C21

def named_group(contract=True, **cfg):
    """A group's name, the group itself; the subgroup omitted, empty, None or the whole group."""
    rep, cfg = report("named group", cfg)

    def fn(ctx):
        z = sym.Sizes(cfg)
        cls = sym.layer_class(cfg)
        obj = sym.groups()[cfg["group"]]
        O.prove_formula("registry name", obj.name == cfg["group"], rep)
        O.prove_formula("registry order", obj.order == G.ORDER[cfg["group"]], rep)
        kw = sym.layer_kwargs(cfg, z)
        a = cls(**kw)
        x = sym.signal(cfg, z)
        y = accept(a, x)
        O.prove_dims("order in the group axis", (y.shape[sym.group_axis(cfg)],), (len(sym.acting(cfg)),), rep)
        rep.cover("named")
        variants = [("object", dict(kw, group=obj))]
        if cfg["subgroup"] == cfg["group"]:
            variants += [("empty subgroup", dict(kw, subgroup="")), ("subgroup is the group", dict(kw, subgroup=cfg["group"]))]
        for what, k in variants:
            K.reset()
            b = cls(**k)
            b.build(tuple(x.shape))
            share(rep, a, b)
            O.prove_tensors(what, b(x), y, rep)
            ca, cb = a.get_config(), b.get_config()
            prove_same_config(rep, f"{what}: configuration", {k: v for k, v in ca.items() if k != "name"}, {k: v for k, v in cb.items() if k != "name"})
        if cfg["kind"] == "conv" and cfg["subgroup"] == cfg["group"]:
            named = getattr(sys.modules["groco.layers"], f"{cfg['group']}Conv{cfg['ndim']}D", None)
            if named is None:
                named = constructors().get(f"{cfg['group']}Conv{cfg['ndim']}D")
            if not O.prove_formula("convenience constructor exists", named is not None, rep):
                return
            K.reset()
            b = named(**{k: v for k, v in kw.items() if k not in ("group", "subgroup")})
            O.prove_formula("convenience constructor: class", isinstance(b, cls), rep)
            b.build(tuple(x.shape))
            share(rep, a, b)
            O.prove_tensors("convenience constructor", b(x), y, rep)
            O.prove_formula("convenience constructor: group", b.get_config()["group"] == cfg["group"] == b.get_config()["subgroup"], rep)

    return run(rep, cfg, fn, contract)


def constructors():
    out = {}
    for n, m in list(sys.modules.items()):
        if n.startswith("groco.layers"):
            out.update({k: v for k, v in vars(m).items() if k.endswith(("Conv2D", "Conv3D"))})
    return out


def registries_task():
    rep = O.Report("registries")

    def fn(ctx):
        gd = sym.groups()
        w = sys.modules["groco.groups.wallpaper_groups"].wallpaper_group_dict
        s = sys.modules["groco.groups.space_groups"].space_group_dict
        O.prove_formula("all groups", set(gd) == set(G.ORDER), rep)
        O.prove_formula("wallpaper groups", set(w) == {n for n in G.ORDER if G.DIMS[n] == 2}, rep)
        O.prove_formula("space groups", set(s) == {n for n in G.ORDER if G.DIMS[n] == 3}, rep)
        for d in (gd, w, s):
            for n, g in d.items():
                O.prove_formula(f"{n}: name", g.name == n, rep)
                O.prove_formula(f"{n}: order", g.order == G.ORDER[n], rep)
                O.prove_formula(f"{n}: one object", gd[n] is g, rep)
        ks = constructors()
        for n in G.ORDER:
            O.prove_formula(f"{n}Conv{G.DIMS[n]}D exists", f"{n}Conv{G.DIMS[n]}D" in ks, rep)

    return O.run_paths(rep, fn)


# ---------------------------------------------------------------- C22

def batch(contract=True, unknown=True, **cfg):
    rep, cfg = report("batch entries", cfg)

    def fn(ctx):
        z = sym.Sizes(cfg)
        layer = sym.make(cfg, z)
        x = sym.signal(cfg, z)
        if unknown:
            try:
                layer.build((None,) + tuple(x.shape[1:]))
            except ValueError:
                raise O.Reject()
        y = accept(layer, x)
        rep.cover("accepted")
        if not O.prove_dims("number of entries", (y.shape[0],), (z.B,), rep):
            return
        e = binder("entry", z.B)
        one = T.STensor((1,) + tuple(x.shape[1:]), lambda idx: x.at((e,) + tuple(idx[1:])), x.dtype)
        y1 = layer(one)
        want = T.STensor((1,) + tuple(y.shape[1:]), lambda idx: y.at((e,) + tuple(idx[1:])), y.dtype)
        O.prove_tensors("entry alone", y1, want, rep)

    return run(rep, cfg, fn, contract)


# ---------------------------------------------------------------- C14, C15

def wiring(contract=True, **cfg):
    """A layer is rejected at build if and only if the padding of its settings and of its folded input is."""
    rep, cfg = report("accepts what its padding does", cfg)

    def fn(ctx):
        z = sym.Sizes(cfg)
        layer = sym.make(cfg, z)
        try:
            layer.build(sym.signal_shape(cfg, z))
            got = True
        except contracts.ContractReject:
            got = False
        except ValueError:
            # the Keras layer's own objections, to a window larger than the input, are not about equivariance
            K.reset()
            try:
                plain_layer(cfg, z).build(merged_shape(cfg, z))
            except ValueError:
                raise O.Reject()
            got = False
        want = not contracts.ghosts_of(ctx).rejects(ctx, sym.padding_args(cfg, z), merged_shape(cfg, z))
        rep.cover("accepted" if got else "rejected")
        O.prove_formula("accepted if and only if its padding is", got == want, rep)

    return run(rep, cfg, fn, contract, rejecting=True)


def bad_options():
    """Every other padding option is a TypeError, for every layer."""
    from .t_padding import BAD, unknown_string

    rep = O.Report("padding options of the layers")
    rep.functions |= {"EquivariantPadding.format_padding_option", "EquivariantPadding.__init__"}
    for key in sym.CLASSES:
        if key[0] == "gpool":
            continue
        c = sym.full(dict(kind=key[0], ndim=key[1], group="P4" if key[1] < 3 else "D4", pool=key[2] if len(key) > 2 else "max"))

        def fn(ctx):
            K.reset()
            z = sym.Sizes(c)
            kw = sym.layer_kwargs(c, z)
            for bad in BAD + [unknown_string(ctx)]:
                for allow in (False, True):
                    rejected_with_type_error(rep, f"{sym.CLASSES[key]}: {bad!r}", lambda: sym.layer_class(c)(**dict(kw, padding=bad, allow_non_equivariance=allow)), bad)
            rep.cover("checked")

        O.run_paths(rep, fn)
    return rep


def rejected_with_type_error(rep, name, make, bad):
    m = {"sizes": {}, "bad_value": bad if isinstance(bad, (int, float, str)) and type(bad) in (int, float, str, bool) else None}
    try:
        make()
    except TypeError:
        rep.add(f"{name} is rejected", "proved", "path")
    except Unsupported:
        raise
    except Exception as e:
        rep.add(f"{name} is rejected", "refuted", "", f"{type(e).__name__} instead of a TypeError", m)
    else:
        rep.add(f"{name} is rejected", "refuted", "", "accepted", m)

"""Layers of the verified code on symbolic inputs, and what they should compute.

A configuration is a dict:
  kind     conv | tconv | pool | gpool
  ndim     1, 2, 3
  group, subgroup
  lifting  (conv, tconv) whether the input is a signal on the grid only
  padding  valid | same | valid_equiv | same_equiv
  allow    the opt-out
  fmt      channels_last | channels_first | None
  strides  'sym' | 1 | 'kernel' | None (default) | one of 'sym' and numbers per axis
  dilation 'sym' | 1
  pool     max | average
  bias, act, keepdims
Sizes (inputs, kernels, strides, dilation, batch, channels, filters) are symbols.
"""

import sys

from . import contracts, groupdata as G, keras_stub as K, oblig as O, poly, tensor as T, terms
from .poly import SInt, size_symbol

DEFAULTS = dict(
    kind="conv", ndim=2, group="P4", subgroup=None, lifting=False, padding="valid_equiv", allow=False, fmt="channels_last",
    strides=1, dilation=1, pool="max", bias=True, act="act", keepdims=False, name=None, k_ge_s=False, extra=(),
)

CLASSES = {
    ("conv", 2): "GroupConv2D", ("conv", 3): "GroupConv3D", ("tconv", 2): "GroupConv2DTranspose", ("tconv", 3): "GroupConv3DTranspose",
    ("pool", 1, "max"): "GroupMaxPooling1D", ("pool", 2, "max"): "GroupMaxPooling2D", ("pool", 3, "max"): "GroupMaxPooling3D",
    ("pool", 1, "average"): "GroupAveragePooling1D", ("pool", 2, "average"): "GroupAveragePooling2D",
    ("pool", 3, "average"): "GroupAveragePooling3D",
    ("gpool", 1, "max"): "GlobalGroupMaxPooling1D", ("gpool", 2, "max"): "GlobalGroupMaxPooling2D",
    ("gpool", 3, "max"): "GlobalGroupMaxPooling3D", ("gpool", 1, "average"): "GlobalGroupAveragePooling1D",
    ("gpool", 2, "average"): "GlobalGroupAveragePooling2D", ("gpool", 3, "average"): "GlobalGroupAveragePooling3D",
}


def full(cfg):
    out = dict(DEFAULTS)
    out.update(cfg)
    if out["subgroup"] is None:
        out["subgroup"] = out["group"]
    return out


def label(cfg):
    d = {k: v for k, v in cfg.items() if DEFAULTS.get(k, "?") != v or k in ("kind", "group")}
    return ",".join(f"{k}={v}" for k, v in d.items())


def groups():
    return sys.modules["groco.groups"].group_dict


def layer_class(cfg):
    key = (cfg["kind"], cfg["ndim"]) + ((cfg["pool"],) if cfg["kind"] in ("pool", "gpool") else ())
    return getattr(sys.modules["groco.layers"], CLASSES[key])


class Sizes:
    def __init__(self, cfg, tag=""):
        g, d = cfg["group"], cfg["ndim"]

        def tied(name, lb=1):
            return G.tied_sizes(g, lambda a: size_symbol(f"{name}{a}", lb), d)

        self.n = tied("n" + tag)
        self.k = tied("k")
        self.s = tied("s")
        if cfg.get("k_ge_s"):
            self.k = tuple(a + b for a, b in zip(self.s, tied("extra", 0)))
        self.d = tied("d")
        self.B, self.C, self.F = (size_symbol(x) for x in "BCF")
        if not tag and poly.CTX is not None:
            poly.CTX.sizes = self

    def second(self, cfg, tag):
        self.n2 = G.tied_sizes(cfg["group"], lambda a: size_symbol(f"n{tag}{a}"), cfg["ndim"])
        return self.n2


def strides_of(cfg, z):
    s = cfg["strides"]
    if isinstance(s, (tuple, list)):
        return tuple(z.s[i] if x == "sym" else x for i, x in enumerate(s))
    return {"sym": z.s, "kernel": z.k, None: None}.get(s, s)


def dilation_of(cfg, z):
    return z.d if cfg["dilation"] == "sym" else cfg["dilation"]


def layer_kwargs(cfg, z):
    kind = cfg["kind"]
    kw = {}
    if cfg["name"]:
        kw["name"] = cfg["name"]
    if kind == "gpool":
        if cfg["keepdims"]:
            kw["keepdims"] = True
        if cfg["fmt"]:
            kw["data_format"] = cfg["fmt"]
        return kw
    kw.update(group=cfg["group"], padding=cfg["padding"])
    if cfg["fmt"]:
        kw["data_format"] = cfg["fmt"]
    if cfg["subgroup"] != cfg["group"]:
        kw["subgroup"] = cfg["subgroup"]
    if cfg["allow"]:
        kw["allow_non_equivariance"] = True
    s = strides_of(cfg, z)
    if kind == "pool":
        kw["pool_size"] = z.k
        if s is not None:
            kw["strides"] = s
        return kw
    kw["kernel_size"] = z.k
    kw["filters"] = z.F
    kw["strides"] = s if s is not None else 1
    if cfg["dilation"] != 1:
        kw["dilation_rate"] = dilation_of(cfg, z)
    if not cfg["bias"]:
        kw["use_bias"] = False
    if cfg["act"]:
        kw["activation"] = cfg["act"]
    kw.update(dict(cfg["extra"]))
    return kw


def make(cfg, z):
    """The layer; paths on which its constructor rejects the settings are outside of the properties."""
    try:
        layer = layer_class(cfg)(**layer_kwargs(cfg, z))
    except ValueError:
        if getattr(poly.CTX, "made", False):
            raise  # after a layer of the same settings was accepted
        raise O.Reject()
    poly.CTX.made = True
    return layer


def domain(cfg):
    """The group elements the input lives on (None: on the grid only)."""
    if cfg["kind"] in ("conv", "tconv") and cfg["lifting"]:
        return None
    if cfg["kind"] == "tconv":
        return list(groups()[cfg["group"]].subgroup[cfg["subgroup"]])
    return list(range(G.ORDER[cfg["group"]]))


def acting(cfg):
    """The group elements the output lives on."""
    if cfg["kind"] == "tconv":
        return list(range(G.ORDER[cfg["group"]]))
    return list(groups()[cfg["group"]].subgroup[cfg["subgroup"]])


def invariance(cfg):
    """The elements whose action the layer commutes with."""
    return list(groups()[cfg["group"]].subgroup[cfg["subgroup"]])


def first_axis(cfg):
    return 2 if cfg["fmt"] == "channels_first" else 1


def axes(cfg):
    a = first_axis(cfg)
    return tuple(range(a, a + cfg["ndim"]))


def group_axis(cfg):
    return first_axis(cfg) + cfg["ndim"]


def signal_shape(cfg, z, n=None, dom="?", B="?"):
    dom = domain(cfg) if dom == "?" else dom
    gd = () if dom is None else (len(dom),)
    n = z.n if n is None else n
    B = z.B if isinstance(B, str) else B
    if cfg["fmt"] == "channels_first":
        return (B, z.C) + tuple(n) + gd
    return (B,) + tuple(n) + gd + (z.C,)


def signal(cfg, z, name="x", n=None, B="?"):
    return T.variable(name, signal_shape(cfg, z, n, B=B))


def act_in(cfg, x, g):
    dom = domain(cfg)
    if dom is None:
        return G.acted(x, G.ELEMENTS[cfg["group"]][g], axes(cfg))
    return G.acted_on_group(x, cfg["group"], g, axes(cfg), group_axis(cfg), dom)


def act_out(cfg, y, g):
    return G.acted_on_group(y, cfg["group"], g, axes(cfg), group_axis(cfg), acting(cfg))


def generators(cfg):
    return G.generators(cfg["group"], invariance(cfg)) or [0]


# ---------------------------------------------------------------- specifications of the outputs

def split_index(cfg, idx):
    """(batch, position, group index, channel) of an output index."""
    d = cfg["ndim"]
    if cfg["fmt"] == "channels_first":
        return idx[0], tuple(idx[2:2 + d]), idx[2 + d], idx[1]
    return idx[0], tuple(idx[1:1 + d]), idx[1 + d], idx[2 + d]


def at_signal(cfg, x, b, pos, h, c):
    gd = () if h is None else (h,)
    if cfg["fmt"] == "channels_first":
        return x.at((b, c) + tuple(pos) + gd)
    return x.at((b,) + tuple(pos) + gd + (c,))


def folded(cfg, x):
    """channels_last, with the group axis folded into the channels (group index slow)."""
    dom = domain(cfg)
    z = x.shape
    d = cfg["ndim"]
    sp = z[2:2 + d] if cfg["fmt"] == "channels_first" else z[1:1 + d]
    C = z[1] if cfg["fmt"] == "channels_first" else z[-1]
    if dom is None:
        return T.STensor((z[0],) + tuple(sp) + (C,), lambda idx: at_signal(cfg, x, idx[0], idx[1:-1], None, idx[-1]), x.dtype)
    perm = T.STensor(
        (z[0],) + tuple(sp) + (len(dom), C), lambda idx: at_signal(cfg, x, idx[0], idx[1:1 + d], idx[1 + d], idx[2 + d]), x.dtype
    )
    return T.reshape(perm, (z[0],) + tuple(sp) + (len(dom) * C,))


def orbit_kernel(cfg, kernel, g, C, transpose=False):
    """The owned kernel transformed by g. kernel: (*k, |dom| C, F), or (*k, F, |dom| C) transposed."""
    d = cfg["ndim"]
    dom = domain(cfg)
    comp, inv = G.tables(cfg["group"])
    perm, flips = G.ELEMENTS[cfg["group"]][g]
    kshape = kernel.shape

    def read_at(pos, j, c, f):
        src = [None] * d
        for a in range(d):
            v = pos[perm[a]]
            src[a] = kshape[a] - 1 - v if flips[a] else v
        cin = c if j is None else j * C + c
        return kernel.at(tuple(src) + ((f, cin) if transpose else (cin, f)))

    F = kshape[-2] if transpose else kshape[-1]
    sp = kshape[:d]
    if dom is None:
        def fn(idx):
            f, c = (idx[-2], idx[-1]) if transpose else (idx[-1], idx[-2])
            return read_at(idx[:d], None, c, f)

        return T.STensor(tuple(sp) + ((F, C) if transpose else (C, F)), fn, kernel.dtype)
    where = {e: i for i, e in enumerate(dom)}

    def part(h):
        j = where.get(comp[inv[g]][h])

        def fn(idx):
            f, c = (idx[-2], idx[-1]) if transpose else (idx[-1], idx[-2])
            if j is None:
                return terms.const(0)
            return read_at(idx[:d], j, c, f)

        return T.STensor(tuple(sp) + ((F, C) if transpose else (C, F)), fn, kernel.dtype)

    return T.concatenate([part(h) for h in dom], axis=-1 if transpose else -2)


def conv_spec(cfg, z, x, kernel, bias, pads):
    """What a group convolution computes on x, padded by pads (None: not at all)."""
    xf = folded(cfg, x)
    lo = first_axis(cfg)
    if pads is not None:
        p = [(0, 0)] + [pads[lo + i] for i in range(cfg["ndim"])] + [(0, 0)]
        xf = T.pad(xf, p)
    s = strides_of(cfg, z)
    built_in = cfg["padding"][:-6] if cfg["padding"].endswith("_equiv") else cfg["padding"]
    parts = []
    for g in acting(cfg):
        kg = orbit_kernel(cfg, kernel, g, z.C, cfg["kind"] == "tconv")
        if cfg["kind"] == "tconv":
            y = T.conv_transpose(xf, kg, s, built_in, None, "channels_last", 1)
        else:
            y = T.conv(xf, kg, s, built_in, "channels_last", dilation_of(cfg, z))
        parts.append(y)
    sp = parts[0].shape[1:-1]
    A = len(parts)
    shape = (x.shape[0], z.F) + tuple(sp) + (A,) if cfg["fmt"] == "channels_first" else (x.shape[0],) + tuple(sp) + (A, z.F)

    def fn(idx):
        b, pos, a, f = split_index(cfg, idx)
        v = terms.to_rp(parts[a].at((b,) + pos + (f,)))
        if bias is not None:
            v = v + terms.to_rp(bias.at((f,)))
        return terms.app(cfg["act"], v) if cfg["act"] else v

    return T.STensor(shape, fn)


def pool_spec(cfg, z, x, pads):
    """What a group pooling computes: cosets and windows aggregated at once."""
    lo = first_axis(cfg)
    d = cfg["ndim"]
    G0 = groups()[cfg["group"]]
    comp, _ = G.tables(cfg["group"])
    sub = [int(h) for h in G0.subgroup[cfg["subgroup"]]]
    reps = [int(r) for r in G0.cosets[cfg["subgroup"]]]
    if pads is not None:
        x = T.pad(x, pads)
    sp = tuple(x.shape[lo:lo + d])
    s = strides_of(cfg, z)
    s = z.k if s is None else s
    built_in = cfg["padding"][:-6] if cfg["padding"].endswith("_equiv") else cfg["padding"]
    parts = []
    B = x.shape[0]
    C = x.shape[1] if cfg["fmt"] == "channels_first" else x.shape[-1]
    for h in sub:
        per = []
        for r in reps:
            sl = T.STensor((B,) + sp + (C,), lambda idx, e=comp[h][r]: at_signal(cfg, x, idx[0], idx[1:-1], e, idx[-1]), x.dtype)
            per.append(sl)
        if cfg["pool"] == "max":
            agg = T.STensor((B,) + sp + (C,), lambda idx, per=per: terms.extremum("nmax", [p.at(idx) for p in per]))
            parts.append(T.max_pool(agg, z.k, s, built_in, "channels_last"))
        else:
            def mean(idx, per=per):
                t = terms.const(0)
                for p in per:
                    t = t + terms.to_rp(p.at(idx))
                return t * terms.recip(len(per))

            parts.append(T.average_pool(T.STensor((B,) + sp + (C,), mean), z.k, s, built_in, "channels_last"))
    osp = parts[0].shape[1:-1]
    shape = (B, C) + tuple(osp) + (len(sub),) if cfg["fmt"] == "channels_first" else (B,) + tuple(osp) + (len(sub), C)

    def fn(idx):
        b, pos, a, c = split_index(cfg, idx)
        return parts[a].at((b,) + pos + (c,))

    return T.STensor(shape, fn)


def padding_args(cfg, z):
    s = strides_of(cfg, z)
    if s is None:
        s = z.k if cfg["kind"] == "pool" else 1
    return dict(
        kernel_size=z.k, dimensions=cfg["ndim"], strides=s, padding=cfg["padding"], allow_non_equivariance=cfg["allow"],
        data_format=cfg["fmt"] or "channels_last", transpose=cfg["kind"] == "tconv", dilation_rate=dilation_of(cfg, z),
    )

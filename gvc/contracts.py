"""Contracts of GroCo's functions, as seen by their callers.

`PaddingContract` stands for EquivariantPadding: it never computes a padding, but returns ghost
numbers that are only known to satisfy the postcondition. That the class as it is written does so
is what the tasks of gvc/tasks_padding.py prove.
"""

import inspect
import sys

from . import poly, tensor as T
from .poly import SInt, eq0, ge0, is_int, pkey, size_symbol


class ContractReject(ValueError):
    """The callee raises the ValueError its contract allows."""


def per_axis(v, d):
    return tuple(v) if isinstance(v, (tuple, list)) else (v,) * d


class Ghosts:
    """The paddings of the current path, by axis parameters."""

    def __init__(self):
        self.known = []
        self.rejections = []

    def rejects(self, ctx, args, input_shape):
        """Whether the padding rejects this size: any answer, but one answer per axis parameters."""
        option = args["padding"].upper()
        if option in ("SAME", "VALID") and args["allow_non_equivariance"]:
            return False
        d = args["dimensions"]
        lo = 1 if args["data_format"] == "channels_last" else 2
        ks, ss, ds = (per_axis(args[x], d) for x in ("kernel_size", "strides", "dilation_rate"))
        raw = [v for i in range(d) for v in (input_shape[lo + i], (ks[i] - 1) * ds[i] + 1, ss[i])]
        kind = (option, bool(args["transpose"]))
        for k, vs, v in self.rejections:  # equations found since may have changed the normal forms
            if k == kind and [pkey(ctx.nf(x)) for x in vs] == [pkey(ctx.nf(x)) for x in raw]:
                return v
        r = size_symbol(f"reject{len(self.rejections)}", 0)
        ctx.assume(ge0_(1 - r))
        v = ctx.decide(eq0(r - 1))
        self.rejections.append((kind, raw, v))
        return v

    def axis(self, ctx, option, n, K, s):
        """(before, after) of one axis of size n for windows of extent K and stride s."""
        key = (option, pkey(ctx.nf(n)), pkey(ctx.nf(K)), pkey(ctx.nf(s)))
        for (o, *k), v in self.known:  # equations found since may have changed the normal forms
            if (o, *(pkey(ctx.nf(x)) for x in k)) == key:
                return tuple(map(ctx.nf, v))
        orig = (option, n, K, s)
        i = len(self.known)
        n, K, s = ctx.nf(n), ctx.nf(K), ctx.nf(s)
        one = not isinstance(s, SInt) and s == 1

        if option == "VALID" or (one and option == "VALID_EQUIV"):
            if not one:
                m = size_symbol(f"m{i}", 0) if ctx.decide(ge0_(n - K)) else -1 - size_symbol(f"m{i}'", 0)
                ctx.define(n, K + s * m)
            v = (0, 0)
        elif option == "VALID_EQUIV":
            h = size_symbol(f"h{i}", 0)
            m = size_symbol(f"m{i}", 0) if ctx.decide(ge0_(n + 2 * h - K)) else -1 - size_symbol(f"m{i}'", 0)
            ctx.define(n, K + s * m - 2 * h)
            # the padding is minimal: at most one stride too much
            ctx.assume(ge0_(2 * s - 1 - 2 * h))
            v = (h, h)
        else:
            m = size_symbol(f"m{i}", 0)
            u = size_symbol(f"u{i}", 0)
            if option == "SAME":
                pi, h = 0, 0
            else:
                h = size_symbol(f"h{i}", 0)
                if getattr(ctx, "even_totals", False):
                    pi = 0
                else:
                    odd = size_symbol(f"odd{i}", 0)
                    ctx.assume(ge0_(1 - odd))
                    pi = 1 if ctx.decide(eq0(odd - 1)) else 0
                if one:
                    h = 0
                else:
                    ctx.assume(ge0_(2 * s - 1 - 2 * h - pi))
            t = 2 * u + pi
            if one:
                # K - 1 is the padding of stride 1
                ctx.define(K, t + 1)
            else:
                ctx.define(n, s * m + K - t - 2 * h - pi)
                ctx.assume(ge0_(ctx.nf(K) - 1 - t))
                ctx.assume(ge0_(t - ctx.nf(K) + s))
            v = (h + pi, h)
        self.known.append((orig, v))
        return v


def ghosts_of(ctx):
    if getattr(ctx, "ghosts", None) is None:
        ctx.ghosts = Ghosts()
    return ctx.ghosts


def ge0_(p):
    return ge0(p) if isinstance(p, SInt) else p >= 0


def pads(ctx, ghosts, args, input_shape):
    """The padding of every axis by the contract; None if there is none."""
    option = args["padding"].upper()
    if option in ("SAME", "VALID") and args["allow_non_equivariance"]:
        return None
    d = args["dimensions"]
    lo = 1 if args["data_format"] == "channels_last" else 2
    ks, ss, ds = (per_axis(args[x], d) for x in ("kernel_size", "strides", "dilation_rate"))
    out = [(0, 0)] * len(input_shape)
    for i in range(d):
        K = (ks[i] - 1) * ds[i] + 1
        a, b = ghosts.axis(ctx, option, input_shape[lo + i], K, ss[i])
        out[lo + i] = (b, a) if args["transpose"] else (a, b)
    return out


class Patched:
    """Put contracts in place of the functions, for the duration of a block."""

    def __init__(self, *items):
        self.items = items  # (object, attribute, replacement)

    def __enter__(self):
        self.saved = [(o, a, o.__dict__.get(a)) for o, a, r in self.items]
        for o, a, r in self.items:
            setattr(o, a, r)

    def __exit__(self, *exc):
        for o, a, v in self.saved:
            if v is None:
                delattr(o, a)
            else:
                setattr(o, a, v)


PADDING_DEFAULTS = dict(
    strides=1, padding="valid_equiv", allow_non_equivariance=False, data_format="channels_last", transpose=False, dilation_rate=1
)


def padding_class():
    m = sys.modules.get("groco.layers.padding")
    return getattr(m, "EquivariantPadding", None)


def padding_contract(rejecting=False):
    """The replacement of EquivariantPadding's build, call and compute_output_shape; rejecting: any size may be
    rejected (else paths on which one is are left out)."""
    cls = padding_class()
    if cls is None:
        return None
    real_init = cls.__init__

    def init(self, *args, **kwargs):
        real_init(self, *args, **kwargs)
        names = ["kernel_size", "dimensions", "strides", "padding", "allow_non_equivariance", "data_format", "transpose", "dilation_rate"]
        a = dict(PADDING_DEFAULTS)
        a.update(dict(zip(names, args)))
        a.update({k: v for k, v in kwargs.items() if k in names})
        object.__setattr__(self, "_contract_args", a)

    def build(self, input_shape):
        if rejecting:
            if ghosts_of(poly.CTX).rejects(poly.CTX, self._contract_args, input_shape):
                raise ContractReject("rejected")
            return
        pads(poly.CTX, ghosts_of(poly.CTX), self._contract_args, input_shape)

    def call(self, inputs):
        p = pads(poly.CTX, ghosts_of(poly.CTX), self._contract_args, inputs.shape)
        if p is None or not any(isinstance(y, SInt) or y for x in p for y in x):
            return inputs
        return T.pad(inputs, p)

    def compute_output_shape(self, input_shape):
        p = pads(poly.CTX, ghosts_of(poly.CTX), self._contract_args, input_shape)
        if p is None:
            return tuple(input_shape)
        return tuple(n + a + b if any(isinstance(y, SInt) or y for y in (a, b)) else n for n, (a, b) in zip(input_shape, p))

    return Patched(
        (cls, "__init__", init), (cls, "build", build), (cls, "call", call), (cls, "compute_output_shape", compute_output_shape)
    )

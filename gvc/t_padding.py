"""EquivariantPadding against its contract (C14, C15), and the premise of every contract using it.

The sizes are s = 2 sigma or 2 sigma + 1, K = (k - 1) d + 1, and n = K + s m + rho (valid) or
n = s c + phi (same) with 0 <= rho, phi < s and m of either sign, which is to say any sizes.
"""

import sys

from . import contracts, keras_stub as K, oblig as O, poly, tensor as T
from .poly import SInt, eq0, ge0, is_int, size_symbol


def sz(x):
    return ge0(x) if isinstance(x, SInt) else x >= 0


def zero(x):
    return eq0(x) if isinstance(x, SInt) else x == 0


class Axis:
    """One axis: input size n, kernel size k with dilation d (extent K), stride s, spec of the padding."""

    def __init__(self, ctx, i, option, stride, dilated, transpose=False):
        if stride == "one":
            s = 1
        elif stride == "odd":
            s = 2 * size_symbol(f"sigma{i}", 1) + 1
        elif stride == "even":
            s = 2 * size_symbol(f"sigma{i}", 1)
        else:
            s = stride
        self.s, self.option = s, option
        # K = (k - 1) d + 1
        if dilated:
            self.d, k1 = size_symbol(f"d{i}", 1), size_symbol(f"k{i}-1", 0)
            self.k, self.K = k1 + 1, k1 * self.d + 1
        else:
            self.d = 1
            self.k = self.K = size_symbol(f"K{i}", 1)
        if transpose and stride != "one":
            ctx.assume(sz(self.K - s))
        self.phi = 0
        if stride == "one":
            self.n = size_symbol(f"n{i}", 1)
        elif option.startswith("VALID"):
            rho = size_symbol(f"rho{i}", 0)
            ctx.assume(sz(s - 1 - rho))
            ctx.decide(zero(rho))
            m = size_symbol(f"m{i}", 0)
            below = size_symbol(f"below{i}", 0)
            ctx.assume(sz(1 - below))
            self.n = self.K + ctx.nf(rho) + (s * m if ctx.decide(zero(below)) else -s * (m + 1))
            ctx.assume(sz(self.n - 1))
        else:
            self.phi = size_symbol(f"phi{i}", 0)
            ctx.assume(sz(s - 1 - self.phi))
            ctx.decide(zero(self.phi))
            self.phi = ctx.nf(self.phi)
            self.n = s * size_symbol(f"c{i}", 0) + self.phi
            ctx.assume(sz(self.n - 1))

    def built_in(self, ctx):
        """The total padding Keras's convolution or pooling adds."""
        if self.option.startswith("VALID"):
            return 0
        if not isinstance(self.s, SInt) and self.s == 1:
            return self.K - 1
        last = self.s if ctx.decide(zero(self.phi)) else self.phi
        return self.K - last if ctx.decide(sz(self.K - last)) else 0


def possible(ctx, ax, tag):
    """A total padding T' that would do, generic: even, at least the built-in one, aligned."""
    h = size_symbol(f"any_h{tag}", 0)
    t = ax.built_in(ctx)
    ctx.assume(sz(2 * h - t))
    m = size_symbol(f"any_m{tag}", None)
    # n + T' - K = s m
    return 2 * h, m


def no_other(rep, ctx, ax, T, name):
    """T is minimal: no T' = T - s j with j >= 1 is even, at least the built-in padding."""
    t = ax.built_in(ctx)
    j = size_symbol(f"j_{name}", 1)
    if ctx.decide(zero(j - 1)):
        Tp = T - ax.s
    else:
        Tp = T - ax.s * j
    h = size_symbol(f"half_{name}", None)
    # assume T' = 2 h >= t; contradiction
    saved = list(ctx.facts)
    goal = sz(t - 1 - Tp)
    if ctx.prove(goal if not isinstance(goal, bool) else goal):
        rep.add(name, "proved", "normal form")
        return
    q, r = divmod(Tp, 2) if isinstance(Tp, SInt) else (Tp // 2, Tp % 2)
    O.prove_formula(name, poly.disj(goal, zero(r - 1)) if not isinstance(goal, bool) else (goal or zero(r - 1)), rep)


def none_possible(rep, ctx, ax, name):
    """Whether no padding exists: for a rejected axis."""
    t = ax.built_in(ctx)
    # every T' = t + e' with n + t + e' - K divisible by s; the smallest is T0 = t + (-(n + t - K)) mod s
    r = (-(ax.n + t - ax.K)) % ax.s
    return t + r


def padding_task(option, ndim=1, strides=("even",), fmt="channels_last", allow=False, dilated=False, transpose=False, group=False):
    """call, build and compute_output_shape of the class, all sizes symbolic."""
    rep = O.Report(f"padding({option},{ndim}D,{'/'.join(map(str, strides))},{fmt},allow={allow},dilated={dilated},transpose={transpose})")
    rep.functions |= {
        "EquivariantPadding." + f for f in
        ("__init__", "build", "call", "compute_output_shape", "required_padding", "compute_equivariant_padding",
         "compute_built_in_padding", "compute_extra_padding", "split_padding", "format_padding_option")
    }

    def fn(ctx):
        K.reset()
        up = option.upper()
        axs = [Axis(ctx, i, up, strides[i], dilated, transpose) for i in range(ndim)]
        cls = contracts.padding_class()
        if cls is None:
            raise poly.Unsupported("no EquivariantPadding")
        B, C = size_symbol("B"), size_symbol("C")
        n = tuple(a.n for a in axs)
        shape = (B,) + n + (C,) if fmt == "channels_last" else (B, C) + n
        lo = 1 if fmt == "channels_last" else 2
        kw = dict(
            kernel_size=tuple(a.k for a in axs), dimensions=ndim, strides=tuple(a.s for a in axs), padding=option, data_format=fmt
        )
        if dilated:
            kw["dilation_rate"] = tuple(a.d for a in axs)
        if allow:
            kw["allow_non_equivariance"] = True
        if transpose:
            kw["transpose"] = True
        layer = cls(**kw)
        x = T.variable("x", shape)
        accepted = True
        try:
            layer.build(shape)
        except ValueError:
            accepted = False
        if up in ("SAME", "VALID") and allow:
            rep.cover("allowed")
            rep.add("accepted", "proved" if accepted else "refuted", "path", "rejected although allowed", O.some_model(ctx))
            O.prove_tensors("unchanged", layer(x), x, rep)
            return
        if not accepted:
            rep.cover("rejected")
            # some axis has no padding (equiv), or its built-in padding is not aligned
            fs = []
            for i, a in enumerate(axs):
                t = a.built_in(ctx)
                if up in ("SAME", "VALID"):
                    r = (a.n + t - a.K) % a.s
                    q = t % 2
                    fs.append(poly.disj(poly.neg(zero(r)) if isinstance(zero(r), poly.SBool) else not zero(r), zero(q - 1)))
                else:
                    # even strides with an odd smallest total: all others, multiples of the stride away, are odd too
                    q = none_possible(rep, ctx, a, "x") % 2
                    fs.append(poly.conj(zero(q - 1), zero(a.s % 2)))
            O.prove_formula("rejects only the impossible", poly.disj(*fs), rep)
            return
        rep.cover("accepted")
        y = layer.call(x)
        out = layer.compute_output_shape((None,) + shape[1:])
        rep.add("unknown batch size", "proved" if out[0] is None else "refuted", "path", f"{out}", O.some_model(ctx))
        O.prove_dims("computed shape", tuple(out[1:]), y.shape[1:], rep)
        if len(y.shape) != len(shape):
            O.prove_dims("rank", y.shape, shape, rep)
            return
        pads = [(0, 0)] * len(shape)
        for i, a in enumerate(axs):
            e = ctx.nf(y.shape[lo + i] - a.n)
            t = ctx.nf(a.built_in(ctx))
            pi = t % 2
            half, rest = divmod(ctx.nf(e + pi), 2)
            Tt = ctx.nf(t + e)
            O.prove_formula(f"axis {i}: can be split evenly", zero(rest), rep)
            O.prove_formula(f"axis {i}: not less than the built-in padding", sz(e), rep)
            m, r = divmod(ctx.nf(a.n + Tt - a.K), a.s) if isinstance(a.s, SInt) or a.s != 1 else (0, 0)
            O.prove_formula(f"axis {i}: last window ends at the end", zero(r), rep)
            if up in ("SAME", "VALID"):
                O.prove_formula(f"axis {i}: nothing added", zero(e), rep)
            else:
                no_other(rep, ctx, a, Tt, f"axis {i}: minimal")
            lo_p, hi_p = ctx.nf(half), ctx.nf(half - pi)
            pads[lo + i] = (hi_p, lo_p) if transpose else (lo_p, hi_p)
        O.prove_tensors("zeros around the spatial axes", y, T.pad(x, pads), rep)
        again = layer(x)
        O.prove_tensors("called as a layer", again, y, rep)

    O.run_paths(rep, fn, limit=3000)
    return rep


BAD = [None, 1, 2.5, b"same", ("same",), ["valid"], True, {}, "", "full", "causal", "same_", "equiv", "valid equiv", "validequiv", "same_equiv_",
       " same", "valid_equivalent", "VALID_EQUIVALENT", "reflect", object()]


class AnyString(str):
    """Some string of which only what the path says is known: its comparisons fork."""

    def __new__(cls, ctx, what, unequal=()):
        self = str.__new__(cls, "<any other string>")
        self.ctx, self.what, self.unequal = ctx, what, frozenset(unequal)
        self.known = {}
        return self

    def ask(self, key):
        if key not in self.known:
            b = size_symbol(f"{self.what}.{key}", 0)
            self.ctx.assume(ge0(1 - b))
            self.known[key] = self.ctx.decide(eq0(b - 1))
        return self.known[key]

    def __eq__(self, other):
        if other is self:
            return True
        if isinstance(other, AnyString):
            raise poly.Unsupported("comparison of unknown strings")
        if not isinstance(other, str):
            return NotImplemented
        if other in self.unequal:
            return False
        return self.ask(("==", other))

    def __ne__(self, other):
        v = self.__eq__(other)
        return v if v is NotImplemented else not v

    def __hash__(self):
        raise poly.Unsupported("hash of an unknown string")

    def upper(self):
        return AnyString(self.ctx, self.what + ".upper", {"SAME", "VALID", "SAME_EQUIV", "VALID_EQUIV"})

    def lower(self):
        return AnyString(self.ctx, self.what + ".lower", {"same", "valid", "same_equiv", "valid_equiv"})

    casefold = lower

    def endswith(self, *a):
        return self.ask(("endswith", a))

    def startswith(self, *a):
        return self.ask(("startswith", a))

    def __contains__(self, x):
        return self.ask(("in", x))

    def __bool__(self):
        return not self.ask(("==", ""))

    def __getitem__(self, i):
        return AnyString(self.ctx, f"{self.what}[{i}]")

    def __repr__(self):
        return "<any other string>"

    def _no(self, *a, **k):
        raise poly.Unsupported("operation on an unknown string")

    __len__ = __iter__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __mul__ = _no
    strip = lstrip = rstrip = replace = removesuffix = removeprefix = split = rsplit = partition = rpartition = find = index = _no
    capitalize = title = swapcase = encode = isupper = islower = count = join = translate = _no


def unknown_string(ctx):
    """Any string that is, in capitals, none of the four options."""
    low = {"same", "valid", "same_equiv", "valid_equiv"}
    return AnyString(ctx, "padding", low | {x.upper() for x in low})


def types_task():
    """Unknown options are a TypeError."""
    from .t_layers import rejected_with_type_error

    rep = O.Report("padding options")
    rep.functions |= {"EquivariantPadding.format_padding_option"}

    def fn(ctx):
        K.reset()
        cls = contracts.padding_class()
        if cls is None:
            raise poly.Unsupported("no EquivariantPadding")
        for bad in BAD + [unknown_string(ctx)]:
            for kw in (dict(kernel_size=3, dimensions=2), dict(kernel_size=(2, 3), dimensions=2, allow_non_equivariance=True), dict(kernel_size=3, dimensions=1, transpose=True)):
                rejected_with_type_error(rep, f"{bad!r}", lambda: cls(padding=bad, **kw), bad)
        rep.cover("checked")

    O.run_paths(rep, fn)
    return rep

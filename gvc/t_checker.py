"""check_equivariance (C20) on an arbitrary layer: an uninterpreted function of each batch entry."""

import itertools
import sys

from . import groupdata as G, keras_stub as K, oblig as O, poly, tensor as T, terms
from .poly import SInt, binder, size_symbol
from .t_groups import acted_on_group_general, ints, registry


class AnyLayer:
    """Takes (batch, *shape_in) to (batch, *shape_out), each batch entry by the same arbitrary function."""

    def __init__(self, name, shape_in, shape_out, rep, group=None):
        self.name, self.shape_in, self.shape_out, self.rep = name, tuple(shape_in), tuple(shape_out), rep
        if group is not None:
            self.group_transforms = type("GT", (), {"group": group})()

    def __call__(self, x):
        x = T.tensor(x)
        if len(x.shape) != len(self.shape_in) + 1 or not all(poly.prove(f) if not isinstance(f, bool) else f for f in (
                O._eq(a, b) for a, b in zip(x.shape[1:], self.shape_in))):
            raise ValueError(f"unexpected shape {x.shape}")
        # a function of all entries of the batch entry: of one generic entry per index on the concrete axes, the
        # formal slots keeping them apart
        bs = [binder(f"in{i}", n) if isinstance(n, SInt) else None for i, n in enumerate(self.shape_in)]
        concrete = list(itertools.product(*(range(n) if b is None else (b,) for b, n in zip(bs, self.shape_in))))
        bound = [next(iter(poly.atoms_of(b))) for b in bs if b is not None]

        def fn(idx):
            body = terms.const(0)
            for i, at in enumerate(concrete):
                body = body + terms.to_rp(terms.read("slot", (i,))) * terms.to_rp(x.at((idx[0],) + at))
            return terms.lam(self.name, idx[1:], bound, body)

        return T.STensor((x.shape[0],) + self.shape_out, fn, x.dtype)


def orders(g, sub):
    return list(range(g.order)) if not sub else ints(g.subgroup[sub])


def checker_task(name, acting="", domain="", target="", spatial=None, group_axis=None, group_arg=True, wrong=False):
    """domain/target None: on the grid only. wrong: signals that need not have the stated order."""
    rep = O.Report(f"checker({name}, acting={acting!r}, domain={domain!r}, target={target!r}, axes={spatial}, {group_axis}, wrong={wrong})")
    rep.cfg = dict(kind="checker", group=name, acting=acting, domain=domain, target=target, spatial=spatial, group_axis=group_axis,
                   group_arg=group_arg, wrong=wrong)
    rep.functions |= {"check_equivariance", "_check_shape", "_act_on_batched_transform"}
    d = G.DIMS[name]
    axes = tuple(spatial) if spatial else tuple(range(1, d + 1))
    ga = group_axis if group_axis is not None else d + 1

    def shape_of(prefix, on):
        """A generic shape of rank d + 3 (d + 2 on the grid) with the group axis at ga."""
        rank = d + 2 + (on is not None)
        tied = G.tied_sizes(name, lambda a: size_symbol(f"{prefix}{a}"), d)
        shape = [None] * rank
        for a, n in zip(axes, tied):
            shape[a] = n
        if on is not None:
            shape[ga] = len(orders(registry()[name], on))
        for i in range(rank):
            if shape[i] is None:
                shape[i] = size_symbol(f"{prefix}w{i}") if i else size_symbol("B")
        return shape

    def fn(ctx):
        K.reset()
        g = registry()[name]
        act, dom = orders(g, acting), None if domain is None else orders(g, domain)
        tgt = None if target is None else orders(g, target)
        si, so = shape_of("n", domain), shape_of("m", target)
        wi = wo = None
        if wrong and domain is not None:
            wi = si[ga] = size_symbol("order_in")
        if wrong and target is not None:
            wo = so[ga] = size_symbol("order_out")
        x = T.variable("x", si)
        layer = AnyLayer("L", si[1:], so[1:], rep, group=None if group_arg else g)
        kw = dict(acting_group=acting, domain_group=domain, target_group=target, spatial_axes=axes)
        if domain is not None or target is not None:
            kw["group_axis"] = ga
        if group_arg:
            kw["group"] = g
        try:
            got = sys.modules["groco.utils"].check_equivariance(layer, x, **kw)
        except AssertionError:
            bad = []
            if wi is not None:
                bad.append(poly.neg(poly.eq0(wi - len(dom))))
            if wo is not None:
                bad.append(poly.neg(poly.eq0(wo - len(tgt))))
            rep.cover("raised")
            O.prove_formula("raises only for the wrong order", poly.disj(*bad) if bad else False, rep)
            return
        rep.cover("checked")
        if wi is not None:
            O.prove_formula("signal's order is checked", poly.eq0(wi - len(dom)), rep)
        if wo is not None:
            O.prove_formula("output's order is checked", poly.eq0(wo - len(tgt)), rep)
        if wrong:
            return

        def acted(t, e, on):
            if on is None:
                return G.acted(t, G.ELEMENTS[name][e], axes)
            return acted_on_group_general(t, name, e, axes, ga, on)

        y = layer(x)
        diffs = [layer(acted(x, e, dom)) - acted(y, e, tgt) for e in act]
        want = T.max(T.absolute(T.stack(diffs, 0)))
        O.prove_tensors("the worst violation", got, want, rep)

    return O.run_paths(rep, fn)


def configurations(thorough):
    """(name, acting, domain, target) of interest."""
    out = []
    for name, subs in G.SUBGROUPS.items():
        opts = [None, ""] + [s for s in subs if s != name]
        for a in [""] + [s for s in subs if s != name]:
            for dd in opts:
                for t in opts:
                    out.append((name, a, dd, t))
    return out

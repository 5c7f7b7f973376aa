"""The groups as the verified code defines them, and the spec of acting with an element.

`maps(group)` reads every element's transformation of the grid off the group's own action, run on
a symbolic signal of any size; that it is a rotation or reflection, the documented one, and that
the elements compose as the tables say is what the tasks of C01-C03 prove.
"""

from . import poly, tensor as T
from .elements import (DIMS, ELEMENTS, ORDER, SUBGROUPS, TIED, compose, documented, generators, identity, tables,
                       tied_sizes)
from .poly import SInt, binder, pkey, size_symbol

class NotAMap(Exception):
    pass


def read_map(idx, pos, sizes):
    """The (perm, flips) of an index expression, or raise."""
    perm, flips = [], []
    for a, e in enumerate(idx):
        for b, (v, n) in enumerate(zip(pos, sizes)):
            if pkey(e - v) == 0:
                perm.append(b)
                flips.append(0)
                break
            if pkey(e - (n - 1 - v)) == 0:
                perm.append(b)
                flips.append(1)
                break
        else:
            raise NotAMap(f"{idx}")
    return tuple(perm), tuple(flips)


_maps = {}


def maps(group):
    """(perm, flips) of every element of the group, from its own action."""
    if group.name in _maps and _maps[group.name][0] is group:
        return _maps[group.name][1]
    d = DIMS[group.name]
    saved, poly.CTX = poly.CTX, poly.Ctx([])
    try:
        sizes = tied_sizes(group.name, lambda a: size_symbol(f"probe{a}", 3))
        x = T.variable("probe", sizes)
        y = group.action(x, spatial_axes=tuple(range(d)), new_group_axis=d, domain_group=None)
        pos = [binder(f"probe_i{a}", n) for a, n in enumerate(sizes)]
        out = []
        from .terms import NODES

        for g in range(group.order):
            v = y.at(tuple(pos) + (g,))
            (m, c), = v.t.items()
            n = NODES[m[0]]
            if c != 1 or len(m) != 1 or n[0] != "read":
                raise NotAMap(str(v))
            out.append(read_map(n[2], pos, sizes))
    finally:
        poly.CTX = saved
    _maps[group.name] = (group, out)
    return out


def reset():
    _maps.clear()


def acted(x, m, axes):
    """The spec of acting with the spatial map m on tensor x along axes: out[pos] = x[s(pos)]."""
    perm, flips = m
    shape = list(x.shape)
    for a, b in enumerate(perm):
        shape[axes[b]] = x.shape[axes[a]]

    def fn(idx):
        src = list(idx)
        for a in range(len(perm)):
            v = idx[axes[perm[a]]]
            src[axes[a]] = x.shape[axes[a]] - 1 - v if flips[a] else v
        return x.at(tuple(src))

    return T.STensor(shape, fn, x.dtype)


def acted_on_group(x, group, g, axes, group_axis, domain):
    """Spec of acting with element g (index in group) on a signal on the subgroup `domain` (indices),
    g being an element of the domain: out[pos, h] = x[g^-1 pos, g^-1 h]."""
    comp, inv = tables(group)
    m = ELEMENTS[group][g]
    moved = acted(x, m, axes)
    where = {e: i for i, e in enumerate(domain)}

    def fn(idx):
        h = domain[idx[group_axis]]
        src = list(idx)
        src[group_axis] = where[comp[inv[g]][h]]
        return moved.at(tuple(src))

    return T.STensor(moved.shape, fn, x.dtype)



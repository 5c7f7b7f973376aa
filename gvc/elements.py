"""The documented groups as data: transformations, tables, names. Free of the verifier, so that the
replay harness can use it next to the real library."""

import json
import os

import numpy as np

DIMS = {"P1": 2, "P2": 2, "PMw": 2, "PMh": 2, "P2MM": 2, "P4": 2, "P4M": 2, "Oh": 3, "O": 3, "D4h": 3, "D4": 3}
# axes that some element of the group permutes
TIED = {"P4M": (0, 1), "P4": (0, 1), "Oh": (0, 1, 2), "O": (0, 1, 2), "D4h": (0, 1), "D4": (0, 1)}
ORDER = {"P1": 1, "P2": 2, "PMw": 2, "PMh": 2, "P2MM": 4, "P4": 4, "P4M": 8, "Oh": 48, "O": 24, "D4h": 16, "D4": 8}


def documented(name):
    """The documented symmetries, as a set of (permutation, flips): out[pos] = in[pos'] with
    pos'_{a} = pos_{perm[a]}, reversed where flips[a]."""
    import itertools

    d = DIMS[name]
    out = set()
    for perm in itertools.permutations(range(d)):
        for flips in itertools.product((0, 1), repeat=d):
            m = np.zeros((d, d), int)
            for a in range(d):
                m[a, perm[a]] = -1 if flips[a] else 1
            det = round(np.linalg.det(m))
            ident = perm == tuple(range(d))
            keep = {
                "P1": ident and flips == (0, 0),
                "P2": ident and flips in ((0, 0), (1, 1)),
                "PMh": ident and flips in ((0, 0), (1, 0)),
                "PMw": ident and flips in ((0, 0), (0, 1)),
                "P2MM": ident,
                "P4": det == 1,
                "P4M": True,
                "Oh": True,
                "O": det == 1,
                "D4h": d == 3 and perm[2] == 2,
                "D4": d == 3 and perm[2] == 2 and det == 1,
            }[name]
            if keep:
                out.add((perm, flips))
    return out


def tied_sizes(name, make, dims=None):
    """One size per spatial axis, equal where the group permutes the axes. make(i) -> size."""
    d = dims or DIMS[name]
    tied = TIED.get(name, ())
    out = []
    for a in range(d):
        out.append(out[tied[0]] if a in tied[1:] else make(a))
    return tuple(out)


def compose(p, q):
    """(p q): the map of acting first with q, then with p: (p (q x))[pos] = (q x)[p pos]."""
    # (px)[pos] = x[s_p(pos)]; (p(qx))[pos] = (qx)[s_p(pos)] = x[s_q(s_p(pos))]
    perm, fl = [], []
    for a in range(len(p[0])):
        b = q[0][a]  # s_q(u)_a = u_b (flipped)
        perm.append(p[0][b])
        fl.append(q[1][a] ^ p[1][b])
    return (tuple(perm), tuple(fl))


def identity(d):
    return (tuple(range(d)), (0,) * d)


with open(os.path.join(os.path.dirname(__file__), "elements.json")) as _f:
    ELEMENTS = {n: [(tuple(p), tuple(f)) for p, f in v] for n, v in json.load(_f).items()}
_tables = {}


def tables(name):
    """Composition and inverses of the documented transformations: comp[a][b] = a b."""
    if name not in _tables:
        ms = ELEMENTS[name]
        where = {m: i for i, m in enumerate(ms)}
        comp = [[where[compose(a, b)] for b in ms] for a in ms]
        inv = [row.index(0) for row in comp]
        _tables[name] = comp, inv
    return _tables[name]


def generators(group, elements):
    """A small generating set of the subgroup with these elements."""
    comp, _ = tables(group)
    gens, have = [], {0}
    for e in elements:
        if e in have:
            continue
        gens.append(e)
        todo = list(have | {e})
        have |= {e}
        changed = True
        while changed:
            changed = False
            for a in list(have):
                for b in gens:
                    c = comp[a][b]
                    if c not in have:
                        have.add(c)
                        changed = True
    # drop generators that are not needed
    for e in list(gens):
        rest = [g for g in gens if g != e]
        have = {0}
        changed = True
        while changed:
            changed = False
            for a in list(have):
                for b in rest:
                    c = comp[a][b]
                    if c not in have:
                        have.add(c)
                        changed = True
        if set(elements) <= have:
            gens = rest
    return gens

SUBGROUPS = {
    "P1": ["P1"], "P2": ["P2", "P1"], "PMw": ["PMw", "P1"], "PMh": ["PMh", "P1"], "P2MM": ["P2MM", "PMh", "PMw", "P1"],
    "P4": ["P4", "P2", "P1"], "P4M": ["P4M", "P4", "P2MM", "PMw", "PMh", "P2", "P1"], "Oh": ["Oh", "O", "D4h", "D4"],
    "O": ["O", "D4"], "D4h": ["D4h", "D4"], "D4": ["D4"],
}


def built_in_total(option, n, K, s):
    """What Keras's 'same' adds in total."""
    return max((-(-n // s) - 1) * s + K - n, 0) if option.startswith("same") else 0


def axis_padding(option, n, K, s, allow, transpose=False):
    """(before, after) that should be added explicitly; None: to be rejected."""
    option = option.lower()
    if allow and option in ("same", "valid"):
        return (0, 0)
    t = built_in_total(option, n, K, s)
    for T in range(t, t + 2 * s + 1):
        if T % 2 == 0 and (n + T - K) % s == 0:
            break
    else:
        return None
    if option in ("same", "valid"):
        return (0, 0) if T == t else None
    e = T - t
    p = ((e + 1) // 2, e // 2)
    return p[::-1] if transpose else p

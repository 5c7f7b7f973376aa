"""Groups: tables (C01, C02), actions (C03, C04), upsampling (C05)."""

import itertools
import random
import sys

from . import groupdata as G, keras_stub as K, oblig as O, poly, tensor as T, terms
from .poly import SInt, Unsupported, size_symbol


def registry():
    return sys.modules["groco.groups"].group_dict


def ints(x):
    """A concrete table as nested lists."""
    t = T.tensor(x)
    if len(t.shape) == 0:
        return int(t.at(()) if not isinstance(x, int) else x)
    return _nested(t, ())


def _nested(t, idx):
    n = t.shape[len(idx)]
    if isinstance(n, SInt):
        raise Unsupported("table of symbolic size")
    if len(idx) + 1 == len(t.shape):
        return [_concrete(t.at(idx + (i,))) for i in range(n)]
    return [_nested(t, idx + (i,)) for i in range(n)]


def _concrete(v):
    if isinstance(v, terms.RP):
        if not v.t:
            return 0
        (m, c), = v.t.items()
        if m == () and c.denominator == 1 if hasattr(c, "denominator") else m == ():
            return int(c)
        raise Unsupported(f"table entry {v}")
    if isinstance(v, SInt):
        raise Unsupported(f"table entry {v}")
    return int(v)


def check(rep, name, ok, detail=""):
    rep.add(name, "proved" if ok else "refuted", "evaluation", detail, {"sizes": {}, "where": name})
    return ok


def axioms(rep, name, comp, inv, order):
    n = order
    if not check(rep, f"{name}: shape of the composition table", len(comp) == n and all(len(r) == n for r in comp)):
        return
    if not check(rep, f"{name}: closed", all(0 <= c < n for r in comp for c in r)):
        return
    check(rep, f"{name}: identity", all(comp[0][a] == a == comp[a][0] for a in range(n)))
    check(rep, f"{name}: one inverse each", len(inv) == n and all(0 <= i < n for i in inv))
    check(rep, f"{name}: inverses", all(comp[inv[a]][a] == 0 == comp[a][inv[a]] for a in range(n)))
    bad = None
    for a in range(n):
        ra = comp[a]
        for b in range(n):
            rb, rab = comp[b], comp[ra[b]]
            if any(rab[c] != ra[rb[c]] for c in range(n)):
                bad = (a, b)
                break
        if bad:
            break
    check(rep, f"{name}: associative", bad is None, f"{bad}")


def data(g):
    return ints(g.composition), ints(g.inverses), {k: ints(v) for k, v in g.subgroup.items()}, {k: ints(v) for k, v in g.cosets.items()}


def induced_matches(rep, name, child, parent):
    comp, inv, sub, cos = data(child)
    pc, pi, ps, pco = data(parent)
    els = ps[child.name]
    where = {e: i for i, e in enumerate(els)}
    check(rep, f"{name}: order", child.order == len(els))
    check(rep, f"{name}: composition is the parent's", comp == [[where.get(pc[a][b]) for b in els] for a in els])
    check(rep, f"{name}: inverses are the parent's", inv == [where.get(pi[a]) for a in els])
    contained = {k: v for k, v in ps.items() if set(v) <= set(els)}
    check(rep, f"{name}: subgroups are the parent's", sub == {k: [where[e] for e in v] for k, v in contained.items()}, f"{sub}")
    # the representatives: the parent's that lie in this group
    check(rep, f"{name}: cosets are the parent's", cos == {k: [where[e] for e in pco[k] if e in where] for k in contained}, f"{cos}")


def restrict(parent, name):
    cls = type(parent)
    return cls(name=name, order=len(parent.subgroup[name]), parent=parent)


def chains(group, depth):
    """(path of names) of all chains of restrictions."""
    out = []
    for s in group.subgroup:
        out.append((s,))
    return out


def axioms_task(name, depth=3):
    rep = O.Report(f"axioms({name})")
    rep.functions |= {"Group.__init__", "Group._compute_composition", "Group._compute_inverses", "Group._compute_subgroup",
                      "Group._compute_cosets", "Group._external_to_internal_indices"}

    def fn(ctx):
        g = registry()[name]
        check(rep, f"{name}: order", g.order == G.ORDER[name])
        comp, inv, sub, cos = data(g)
        axioms(rep, name, comp, inv, g.order)
        if g.parent is not None:
            induced_matches(rep, f"{name} from {g.parent.name}", g, g.parent)
        done = set()

        def go(parent, path):
            for s in list(parent.subgroup):
                if len(path) > 1 and s == path[-1]:
                    continue
                p = path + (s,)
                child = restrict(parent, s)
                label = ">".join(p)
                rep.cover("induced")
                induced_matches(rep, label, child, parent)
                c, i, _, _ = data(child)
                if (len(path), s) not in done or len(path) == 1:
                    axioms(rep, label, c, i, child.order)
                done.add((len(path), s))
                if len(p) <= depth:
                    go(child, p)

        go(g, (name,))

    return O.run_paths(rep, fn)


def subgroups_task(name):
    rep = O.Report(f"subgroups({name})")
    rep.functions |= {"Group._compute_subgroup", "Group._compute_cosets"}

    def fn(ctx):
        groups = registry()
        objs = [(name, groups[name])] + [
            (f"{name}>{s}", restrict(groups[name], s)) for s in groups[name].subgroup
        ]
        for label, g in objs:
            comp, inv, sub, cos = data(g)
            check(rep, f"{label}: is its own subgroup", g.name in sub and sub.get(g.name) == list(range(g.order)))
            check(rep, f"{label}: same names", list(sub) == list(cos) or set(sub) == set(cos))
            for s, els in sub.items():
                at = f"{label}/{s}"
                rep.cover("subgroup")
                if not check(rep, f"{at}: elements", len(set(els)) == len(els) and all(0 <= e < g.order for e in els)):
                    continue
                check(rep, f"{at}: identity", 0 in els and els[0] == 0)
                check(rep, f"{at}: closed", all(comp[a][b] in els for a in els for b in els) and all(inv[a] in els for a in els))
                ok = s in groups and groups[s].order == len(els)
                check(rep, f"{at}: names a provided group of this order", ok)
                if ok:
                    own = ints(groups[s].composition)
                    check(
                        rep, f"{at}: composes like {s}",
                        all(comp[els[i]][els[j]] == els[own[i][j]] for i in range(len(els)) for j in range(len(els))),
                    )
                reps = cos.get(s, [])
                check(rep, f"{at}: representatives include the identity", 0 in reps)
                products = sorted(comp[h][r] for h in els for r in reps)
                check(rep, f"{at}: representatives are a transversal", products == list(range(g.order)), f"{reps}")

    return O.run_paths(rep, fn)


# ---------------------------------------------------------------- actions

def placements(d, thorough, rng, extra=None):
    """(rank, spatial axes, new axis) triples."""
    out = []
    for rank in range(d, d + 4):
        for axes in itertools.permutations(range(rank), d):
            for new in range(rank + 1):
                out.append((rank, axes, new))
    if thorough:
        return out
    keep = [(d, tuple(range(d)), d), (d + 2, tuple(range(1, d + 1)), 0), (d + 2, tuple(range(2, d + 2)), d + 2), (d + 1, tuple(range(d, 0, -1)), 1)]
    return keep + rng.sample(out, extra if extra is not None else 10)


def signal_with(rank, axes, name, extra_axis=None, extra_size=None):
    sizes = G.tied_sizes(name, lambda a: size_symbol(f"n{a}"))
    shape = [None] * rank
    for a, n in zip(axes, sizes):
        shape[a] = n
    if extra_axis is not None:
        shape[extra_axis] = extra_size
    for i in range(rank):
        if shape[i] is None:
            shape[i] = size_symbol(f"w{i}")
    return T.variable("x", shape)


def at_axis(t, axis, i):
    """The slice of t at index i of an axis."""
    shape = t.shape[:axis] + t.shape[axis + 1:]
    return T.STensor(shape, lambda idx: t.at(tuple(idx[:axis]) + (i,) + tuple(idx[axis:])), t.dtype)


def grid_task(name, seed=1, thorough=False):
    """C03: acting on a signal on the grid."""
    rep = O.Report(f"action on the grid({name})")
    rep.functions |= {"Group.action", "Group._action_on_grid", "Group._compute_action", f"{name}'s action"}
    rng = random.Random(f"{seed}{name}")
    d = G.DIMS[name]
    todo = placements(d, thorough and G.ORDER[name] <= 8, rng, (60 if thorough else 10) if G.ORDER[name] <= 8 else (40 if thorough else 4))
    for rank, axes, new in todo:
        def fn(ctx):
            g = registry()[name]
            x = signal_with(rank, axes, name)
            for sub in dict.fromkeys(["", name] + list(g.subgroup)):
                els = list(range(g.order)) if sub in ("", name) else ints(g.subgroup[sub])
                kw = {} if sub == "" else {"acting_group": sub}
                y = g.action(x, spatial_axes=axes, new_group_axis=new, domain_group=None, **kw)
                at = f"{sub or 'default'} rank {rank} axes {axes} new {new}"
                if not O.prove_formula(f"{at}: rank", len(y.shape) == rank + 1, rep):
                    return
                if not O.prove_formula(f"{at}: group axis", y.shape[new] == len(els), rep):
                    return
                for i, e in enumerate(els):
                    want = G.acted(x, G.ELEMENTS[name][e], axes)
                    if not O.prove_tensors(f"{at}: element {e}", at_axis(y, new, i), want, rep):
                        rep.failed[-1] = rep.failed[-1][:3] + (dict(rep.failed[-1][3] or {"sizes": {}}, placement=[rank, list(axes), new, sub]),)
                        return
                rep.cover("acted")
            # a group induced by restriction acts as its parent's elements do
            for sub in g.subgroup:
                els = ints(g.subgroup[sub])
                y = restrict(g, sub).action(x, spatial_axes=axes, new_group_axis=new, domain_group=None)
                at = f"induced {sub} rank {rank} axes {axes} new {new}"
                want = T.stack([G.acted(x, G.ELEMENTS[name][e], axes) for e in els], new)
                if not O.prove_tensors(at, y, want, rep):
                    rep.failed[-1] = rep.failed[-1][:3] + (dict(rep.failed[-1][3] or {"sizes": {}}, placement=[rank, list(axes), new, sub]),)
                    return

        O.run_paths(rep, fn)
        if len(rep.failed) > 3:
            break
    return rep


def documented_task():
    """The elements, as rotations and reflections: the documented ones, composing as the tables say."""
    rep = O.Report("documented symmetries")

    def fn(ctx):
        for name, g in registry().items():
            ms = G.ELEMENTS[name]
            check(rep, f"{name}: exactly the documented symmetries", set(ms) == G.documented(name) and len(set(ms)) == len(ms) == g.order)
            comp = ints(g.composition)
            own, inv = G.tables(name)
            check(rep, f"{name}: compose as the table says", comp == own)
            check(rep, f"{name}: inverses as the table says", ints(g.inverses) == inv)
            check(rep, f"{name}: element 0 is the identity", ms[0] == G.identity(G.DIMS[name]))
            for s in g.subgroup:
                els = ints(g.subgroup[s])
                sd = G.DIMS.get(s)
                if sd == G.DIMS[name]:
                    check(rep, f"{name}/{s}: transforms as {s}", [ms[e] for e in els] == G.ELEMENTS[s])

    return O.run_paths(rep, fn)


def group_placements(d, thorough, rng, count):
    out = []
    for rank in range(d + 1, d + 4):
        for axes in itertools.permutations(range(rank), d + 1):
            for new in range(rank + 1):
                out.append((rank, axes[:d], axes[d], new))
    keep = [(d + 1, tuple(range(d)), d, d), (d + 3, tuple(range(1, d + 1)), d + 1, 0), (d + 3, tuple(range(2, d + 2)), d + 2, 1),
            (d + 2, tuple(range(2, d + 2)), 0, d + 2)]
    rest = rng.sample(out, min(count, len(out)))
    return keep + rest


def acted_on_group_general(x, name, g, axes, group_axis, domain):
    """out[pos, h] = x[g^-1 pos, g^-1 h] for h in the domain, zero where g^-1 h is not."""
    comp, inv = G.tables(name)
    moved = G.acted(x, G.ELEMENTS[name][g], axes)
    where = {e: i for i, e in enumerate(domain)}

    def fn(idx):
        src = where.get(comp[inv[g]][domain[idx[group_axis]]])
        if src is None:
            return terms.const(0)
        j = list(idx)
        j[group_axis] = src
        return moved.at(tuple(j))

    return T.STensor(moved.shape, fn, x.dtype)


def group_task(name, acting, domain, seed=1, thorough=False):
    """C04: acting on a signal on the group."""
    rep = O.Report(f"action on the group({name}, acting {acting or 'default'}, domain {domain or 'default'})")
    rep.functions |= {"Group.action", "Group._action_on_group", "Group._action_on_grid", "Group._composition_flat_indices", "Group.upsample",
                      "merge_axes", "split_axes"}
    rng = random.Random(f"{seed}{name}{acting}{domain}")
    d = G.DIMS[name]
    big = G.ORDER[name] > 8
    for rank, axes, ga, new in group_placements(d, thorough, rng, (2 if big else 25) if thorough else (0 if big else 3)):
        def fn(ctx):
            g = registry()[name]
            act = list(range(g.order)) if not acting else ints(g.subgroup[acting])
            dom = list(range(g.order)) if not domain else ints(g.subgroup[domain])
            x = signal_with(rank, axes, name, ga, len(dom))
            y = g.action(x, spatial_axes=axes, group_axis=ga, new_group_axis=new, acting_group=acting, domain_group=domain)
            at = f"rank {rank} axes {axes} group {ga} new {new}"
            if not O.prove_formula(f"{at}: rank", len(y.shape) == rank + 1, rep):
                return
            if not O.prove_formula(f"{at}: new axis", y.shape[new] == len(act), rep):
                return
            els = act if not big or thorough else rng.sample(act, min(8, len(act)))
            for i, e in enumerate(act):
                if e not in els:
                    continue
                want = acted_on_group_general(x, name, e, axes, ga, dom)
                if not O.prove_tensors(f"{at}: element {e}", at_axis(y, new, i), want, rep):
                    rep.failed[-1] = rep.failed[-1][:3] + (dict(rep.failed[-1][3] or {"sizes": {}}, placement=[rank, list(axes), ga, new]),)
                    return
            rep.cover("acted")

        O.run_paths(rep, fn)
        if len(rep.failed) > 3:
            break
    return rep


def upsample_task(name, thorough=False):
    """C05: zero extension from every subgroup, any rank and group axis."""
    rep = O.Report(f"upsample({name})")
    rep.functions |= {"Group.upsample"}
    for sub in G.SUBGROUPS[name]:
        for rank in range(1, 7 if thorough else 5):
            for ga in range(rank):
                for dtype in (("float32", "int32") if rank < 3 else ("float32",)):
                    def fn(ctx):
                        g = registry()[name]
                        els = ints(g.subgroup[sub])
                        shape = tuple(len(els) if a == ga else size_symbol(f"w{a}") for a in range(rank))
                        x = T.variable("x", shape, dtype)
                        y = g.upsample(x, ga, sub)
                        at = f"{sub} rank {rank} axis {ga} {dtype}"
                        where = {e: i for i, e in enumerate(els)}

                        def want(idx):
                            i = where.get(idx[ga])
                            return 0 if i is None else x.at(tuple(idx[:ga]) + (i,) + tuple(idx[ga + 1:]))

                        spec = T.STensor(shape[:ga] + (g.order,) + shape[ga + 1:], want, dtype)
                        if not O.prove_tensors(at, y, spec, rep):
                            rep.failed[-1] = rep.failed[-1][:3] + (dict(rep.failed[-1][3] or {"sizes": {}}, placement=[sub, rank, ga, dtype]),)
                            return
                        O.prove_formula(f"{at}: dtype", str(y.dtype) == dtype, rep)
                        back = T.STensor(shape, lambda idx: y.at(tuple(idx[:ga]) + (els[idx[ga]],) + tuple(idx[ga + 1:])), dtype)
                        O.prove_tensors(f"{at}: taken back", back, x, rep)
                        rep.cover("upsampled")

                    O.run_paths(rep, fn)
        if len(rep.failed) > 3:
            break
    return rep

"""Axis utilities (C06)."""

import itertools
import sys

from . import keras_stub as K, oblig as O, poly, tensor as T
from .poly import SInt, size_symbol


def U():
    return sys.modules["groco.utils"]


def place(rep, **where):
    n, s, d, m = rep.failed[-1]
    rep.failed[-1] = (n, s, d, dict(m or {"sizes": {}}, **where))


def fresh(rank, none_at=None):
    return tuple(size_symbol(f"w{i}") for i in range(rank))


def guarded(rep, what, fn, **where):
    """Run fn on all paths; a failure is placed."""
    n = len(rep.failed)
    O.run_paths(rep, fn)
    if len(rep.failed) > n:
        place(rep, what=what, **where)
    return len(rep.failed) == n


def merge_task(rank):
    rep = O.Report(f"merge and move axes, rank {rank}")
    rep.functions |= {"merge_axes", "merge_shapes", "move_axis_to_left_of", "format_batch_dim"}
    for m, t in itertools.permutations(range(rank), 2):
        # negative readings: both axes counted from the end, where that is how the layers use them, is the same pair
        for dm, dt in ((0, 0), (rank, rank)):
            def fn(ctx):
                shape = fresh(rank)
                x = T.variable("x", shape)
                moved, target = m - dm, t - dt
                rest = [a for a in range(rank) if a != m]
                at = rest.index(t)
                order = rest[:at] + [m] + rest[at:]

                def perm(idx):
                    src = [None] * rank
                    for o, a in enumerate(order):
                        src[a] = idx[o]
                    return x.at(tuple(src))

                spec = T.STensor([shape[a] for a in order], perm)
                y = U().move_axis_to_left_of(x, moved_axis=moved, target_axis=target)
                O.prove_tensors(f"move {moved} left of {target}", y, spec, rep)

            def fn2(ctx):
                shape = fresh(rank)
                x = T.variable("x", shape)
                moved, target = m - dm, t - dt
                rest = [a for a in range(rank) if a != m]
                at = rest.index(t)
                want_shape = [shape[a] * shape[m] if a == t else shape[a] for a in rest]
                y = U().merge_axes(x, merged_axis=moved, target_axis=target)
                if not O.prove_dims(f"merge {moved} into {target}", y.shape, want_shape, rep):
                    return
                # entry (i, j) of (moved, target) at i * size + j
                ids = [poly.binder(f"i{a}", shape[a]) for a in range(rank)]
                out = [ids[a] if a != t else ids[m] * shape[t] + ids[t] for a in rest]
                O.prove_value(f"merge {moved} into {target}: entries", y.at(tuple(out)), x.at(tuple(ids)), rep)
                # onto: every output index is such a pair, so that this is all of the output
                s = U().merge_shapes(list(shape), merged_axis=moved, target_axis=target)
                O.prove_dims(f"merged shape {moved} {target}", tuple(s), tuple(want_shape), rep)
                if 0 not in (m, t):
                    s = U().merge_shapes((None,) + shape[1:], merged_axis=moved, target_axis=target)
                    rep.add("unknown batch size", "proved" if s[0] is None else "refuted", "path", f"{s}", O.some_model(ctx))
                    O.prove_dims(f"merged shape {moved} {target}, unknown batch", tuple(s[1:]), tuple(want_shape[1:]), rep)

            if not guarded(rep, "move", fn, axes=[m - dm, t - dt], rank=rank):
                break
            if not guarded(rep, "merge", fn2, axes=[m - dm, t - dt], rank=rank):
                break
        if len(rep.failed) > 3:
            break
    return rep


def split_task(rank):
    rep = O.Report(f"split axes, rank {rank}")
    rep.functions |= {"split_axes", "split_shapes", "format_batch_dim", "merge_axes"}
    for a in range(rank):
        for da in (0, rank):
            for f in ("symbolic", 1, 3):
                def fn(ctx):
                    left = size_symbol("f") if f == "symbolic" else f
                    right = size_symbol("r")
                    w = fresh(rank)
                    shape = w[:a] + (left * right,) + w[a + 1:]
                    x = T.variable("x", shape)
                    y = U().split_axes(x, left_size=left, right_axis=a - da)
                    want = w[:a] + (left, right) + w[a + 1:]
                    if not O.prove_dims(f"split {a - da} by {f}", y.shape, want, rep):
                        return
                    spec = T.STensor(want, lambda idx: x.at(tuple(idx[:a]) + (idx[a] * right + idx[a + 1],) + tuple(idx[a + 2:])))
                    O.prove_tensors(f"split {a - da} by {f}: entries", y, spec, rep)
                    back = U().merge_axes(y, merged_axis=a, target_axis=a + 1)
                    O.prove_tensors(f"split {a - da} by {f} and merged", back, x, rep)
                    s = U().split_shapes(list(shape), left, a - da)
                    O.prove_dims(f"split shape {a - da} by {f}", tuple(s), want, rep)
                    if a != 0:
                        s = U().split_shapes((None,) + shape[1:], left, a - da)
                        rep.add("unknown batch size", "proved" if s[0] is None else "refuted", "path", f"{s}", O.some_model(ctx))
                        O.prove_dims(f"split shape {a - da}, unknown batch", tuple(s[1:]), want[1:], rep)

                if not guarded(rep, "split", fn, axes=[a - da], rank=rank, factor=f):
                    break
    # merging and then splitting adjacent axes is the identity too
    for a in range(rank - 1):
        def fn(ctx):
            w = fresh(rank)
            x = T.variable("x", w)
            y = U().split_axes(U().merge_axes(x, merged_axis=a, target_axis=a + 1), left_size=w[a], right_axis=a)
            O.prove_tensors(f"merged {a} and split", y, x, rep)

        guarded(rep, "merge-split", fn, axes=[a], rank=rank)
    return rep


def index_task(rank):
    rep = O.Report(f"index tensor, rank {rank}")
    rep.functions |= {"get_index_tensor"}

    def fn(ctx):
        w = fresh(rank)
        x = T.variable("x", w)
        i = U().get_index_tensor(x)
        O.prove_dims("shape of the index tensor", i.shape, w, rep)
        O.prove_tensors("gathered", T.take(T.reshape(x, (-1,)), i, axis=0), x, rep)

    guarded(rep, "index", fn, rank=rank)
    return rep


def batch_task():
    """-1 for an unknown size, everything else as it is."""
    rep = O.Report("format_batch_dim")
    rep.functions |= {"format_batch_dim"}

    def fn(ctx):
        a, b = size_symbol("a"), size_symbol("b")
        for shape, want in (([None, a, b], [-1, a, b]), ([a, None], [a, -1]), ([a, b, 3], [a, b, 3]), ([], []), ([None], [-1])):
            got = U().format_batch_dim(list(shape))
            O.prove_dims(f"{shape}", tuple(got), tuple(want), rep)

    guarded(rep, "batch", fn)
    return rep

"""Compares the verifier with the real Keras and the real library, on concrete inputs.

Every case is a function of an `ops` module, a numpy and a source of sizes and tensors. It is run twice:
by the verifier, on tensors of symbolic shape, once per path, giving terms that are then evaluated,
both as built and in normal form, at concrete sizes and indices; and by the real Keras on arrays of
those sizes with the same entries. Exactly one path must admit each choice of sizes, what it rejects
the real operation must reject, and shapes and entries must be the same.

Run: python3-vt -m gvc.conformance [--layers N] [--only text]
"""

import argparse
import itertools
import os
import pickle
import random
import subprocess
import sys
import tempfile
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GVC_REPO", "/repo")


def datum(base, idx):
    """The entry of an input tensor: a small integer, the same on both sides."""
    return zlib.crc32(repr((base.split("/")[-1], tuple(int(i) for i in idx))).encode()) % 23 - 11


def array(np, base, shape, dtype="float32"):
    a = np.zeros(shape, dtype)
    for i in itertools.product(*map(range, shape)):
        a[i] = datum(base, i)
    return a


# ---------------------------------------------------------------- the operations

def CASES():
    """name -> (sizes with their lower bounds, function of (o, np, x, sizes))"""
    C = {}

    def case(name, sizes, fn):
        C[name] = (sizes, fn)

    nm, nmk = {"n": 1, "m": 1}, {"n": 1, "m": 1, "k": 1}
    X = lambda x, *s, **k: x("x", s, **k)  # noqa: E731

    case("reshape merge", nmk, lambda o, np, x, n, m, k: o.reshape(X(x, n, m, k), (n * m, k)))
    case("reshape merge back", nmk, lambda o, np, x, n, m, k: o.reshape(X(x, n, m, k), (n, m * k)))
    case("reshape split", nmk, lambda o, np, x, n, m, k: o.reshape(X(x, n * m, k), (n, m, k)))
    case("reshape -1", nmk, lambda o, np, x, n, m, k: o.reshape(X(x, n, m, k), (n, -1)))
    case("reshape -1 first", nmk, lambda o, np, x, n, m, k: o.reshape(X(x, n, m, k), (-1, k)))
    case("reshape all", nmk, lambda o, np, x, n, m, k: o.reshape(X(x, n, m, k), (-1,)))
    case("reshape mixed", nmk, lambda o, np, x, n, m, k: o.reshape(X(x, n * m, k), (n, m * k)))
    case("reshape constant group", nm, lambda o, np, x, n, m: o.reshape(X(x, n, 4, m), (n, 4 * m)))
    case("reshape constant split", nm, lambda o, np, x, n, m: o.reshape(X(x, n, 4 * m), (n, 4, m)))
    case("reshape constant split slow", nm, lambda o, np, x, n, m: o.reshape(X(x, n, 4 * m), (n, m, 4)))
    case("transpose", nmk, lambda o, np, x, n, m, k: o.transpose(X(x, n, m, k), (2, 0, 1)))
    case("transpose default", nmk, lambda o, np, x, n, m, k: o.transpose(X(x, n, m, k)))
    case("moveaxis", nmk, lambda o, np, x, n, m, k: o.moveaxis(X(x, n, m, k), 0, -1))
    case("moveaxis list", nmk, lambda o, np, x, n, m, k: o.moveaxis(X(x, n, m, k, 2), [0, 2], [3, 1]))
    case("swapaxes", nmk, lambda o, np, x, n, m, k: o.swapaxes(X(x, n, m, k), 0, -1))
    case("flip axis", nm, lambda o, np, x, n, m: o.flip(X(x, n, m), 1))
    case("flip axes", nm, lambda o, np, x, n, m: o.flip(X(x, n, m), (0, 1)))
    case("flip all", nm, lambda o, np, x, n, m: o.flip(X(x, n, m)))
    case("roll", nm, lambda o, np, x, n, m: o.roll(X(x, n, m), 1, axis=0))
    case("roll negative", nm, lambda o, np, x, n, m: o.roll(X(x, n, m), -2, axis=1))
    case("broadcast_to", nm, lambda o, np, x, n, m: o.broadcast_to(X(x, 1, m), (n, m)))
    case("expand and add", nm, lambda o, np, x, n, m: o.expand_dims(x("x", (n,)), 1) + o.expand_dims(x("y", (m,)), 0))
    case("squeeze", nm, lambda o, np, x, n, m: o.squeeze(X(x, n, 1, m), 1))
    case("squeeze rejected", {"n": 2}, lambda o, np, x, n: o.squeeze(X(x, n, 3), 1))
    case("where", nm, lambda o, np, x, n, m: o.where(x("x", (n, m)) > 0, x("y", (n, m)), x("z", (m,))))
    case("maximum", nm, lambda o, np, x, n, m: o.maximum(x("x", (n, m)), x("y", (n, 1))))
    case("minimum", nm, lambda o, np, x, n, m: o.minimum(x("x", (n, m)), 2))
    case("arithmetic", nm, lambda o, np, x, n, m: 2 * x("x", (n, m)) - x("y", (m,)) * x("z", (n, 1)) / 4 + 1)
    case("absolute", nm, lambda o, np, x, n, m: o.absolute(-X(x, n, m)) + o.abs(X(x, n, m)))
    case("square", nm, lambda o, np, x, n, m: o.square(X(x, n, m)))
    case("relu", nm, lambda o, np, x, n, m: o.relu(X(x, n, m)))
    case("concatenate", nmk, lambda o, np, x, n, m, k: o.concatenate([x("x", (n, m)), x("y", (n, k)), x("z", (n, 1))], axis=-1))
    case("concatenate slow axis", nmk, lambda o, np, x, n, m, k: o.concatenate([x("x", (n, m)), x("y", (k, m))], axis=0))
    case("concatenate rejected", nm, lambda o, np, x, n, m: o.concatenate([x("x", (n, m)), x("y", (n, m + 1))], axis=0))
    case("stack", nm, lambda o, np, x, n, m: o.stack([x("x", (n, m)), x("y", (n, m))], axis=1))
    case("stack last", nm, lambda o, np, x, n, m: o.stack([x("x", (n, m)), x("y", (n, m)), x("x", (n, m))], axis=-1))
    case("split equal", nm, lambda o, np, x, n, m: o.stack(o.split(X(x, 2 * n, m), 2, axis=0), axis=0))
    case("split last", nm, lambda o, np, x, n, m: o.split(X(x, n, 3 * m), 3, axis=-1)[2])
    case("split at", {"n": 1, "m": 3}, lambda o, np, x, n, m: o.concatenate(list(reversed(o.split(X(x, n, m), [1, 2], axis=1))), axis=1))
    case("unstack", nm, lambda o, np, x, n, m: o.stack(o.unstack(X(x, n, 3, m), axis=1)[::-1], axis=1) if hasattr(o, "unstack") else None)
    case("repeat", nm, lambda o, np, x, n, m: o.repeat(X(x, n, m), 3, axis=1))
    case("repeat slow", nm, lambda o, np, x, n, m: o.repeat(X(x, n, m), 2, axis=0))
    case("tile", nm, lambda o, np, x, n, m: o.tile(X(x, n, m), (2, 1)))
    case("tile both", nm, lambda o, np, x, n, m: o.tile(X(x, n, m), (2, 3)))
    case("take", nm, lambda o, np, x, n, m: o.take(X(x, n, 4, m), np.array([2, 0, 3, 1]), axis=1))
    case("take repeated", nm, lambda o, np, x, n, m: o.take(X(x, n, 4, m), np.array([[1, 1], [-1, 0]]), axis=1))
    case("take negative axis", nm, lambda o, np, x, n, m: o.take(X(x, n, m, 3), np.array([2, 2, 0]), axis=-1))
    case("take one", nm, lambda o, np, x, n, m: o.take(X(x, n, 4, m), 2, axis=1))
    case("take flat", {"n": 3, "m": 2}, lambda o, np, x, n, m: o.take(X(x, n, m), np.array([0, 5, 2])))
    case("take by position", nm, lambda o, np, x, n, m: o.take(X(x, n, m), o.flip(o.arange(n), 0), axis=0))
    case("take flattened index tensor", nmk, lambda o, np, x, n, m, k: o.take(o.reshape(X(x, n, m, k), (-1,)), o.transpose(o.reshape(o.arange(n * m * k), (n, m, k)), (2, 0, 1)), axis=0))
    case("take_along_axis", nm, lambda o, np, x, n, m: o.take_along_axis(X(x, n, 3, m), np.array([2, 0, 1]).reshape(1, 3, 1), axis=1))
    case("arange", nm, lambda o, np, x, n, m: o.arange(n * m))
    case("arange start", nm, lambda o, np, x, n, m: o.arange(n, n + m))
    case("arange step", nm, lambda o, np, x, n, m: o.arange(0, n + m, 2))
    case("zeros and ones", nm, lambda o, np, x, n, m: o.zeros((n, m)) + 3 * o.ones((m,)))
    case("zeros_like", nm, lambda o, np, x, n, m: o.zeros_like(X(x, n, m)) + o.ones_like(X(x, n, m)))
    case("full", nm, lambda o, np, x, n, m: o.full((n, m), 5))
    case("eye", {}, lambda o, np, x: o.eye(3))
    case("pad", nm, lambda o, np, x, n, m: o.pad(X(x, n, m), [[1, 2], [0, 3]]))
    case("pad tuple", nm, lambda o, np, x, n, m: o.pad(X(x, n, m), ((n, m), (m, 0))))
    case("pad value", nm, lambda o, np, x, n, m: o.pad(X(x, n, m), [[1, 0], [1, 1]], constant_values=4))
    case("pad reflect", {"n": 3, "m": 3}, lambda o, np, x, n, m: o.pad(X(x, n, m), [[1, 2], [0, 1]], mode="reflect"))
    case("pad symmetric", {"n": 2, "m": 2}, lambda o, np, x, n, m: o.pad(X(x, n, m), [[1, 2], [0, 1]], mode="symmetric"))
    case("pad edge", nm, lambda o, np, x, n, m: o.pad(X(x, n, m), [[1, 2], [0, 1]], mode="edge") if hasattr(o, "zeros") else None)
    case("slice", {"n": 3, "m": 3}, lambda o, np, x, n, m: X(x, n, m)[1:, :-1])
    case("slice step", nm, lambda o, np, x, n, m: X(x, n, m)[::2, ::-1])
    case("slice step from", {"n": 2, "m": 1}, lambda o, np, x, n, m: X(x, n, m)[1::3])
    case("slice negative step", nm, lambda o, np, x, n, m: X(x, n, m)[::-2])
    case("slice beyond", nm, lambda o, np, x, n, m: X(x, n, m)[:3, 2:5])
    case("index", nm, lambda o, np, x, n, m: X(x, n, m, 3)[0, ..., -1])
    case("newaxis", nm, lambda o, np, x, n, m: X(x, n, m)[:, None, ..., None])
    case("index array", nm, lambda o, np, x, n, m: X(x, n, 4, m)[:, np.array([3, 1, 0])])
    case("slice op", {"n": 3, "m": 3}, lambda o, np, x, n, m: o.slice(X(x, n, m), (1, 0), (2, m)))
    for op in ("sum", "mean", "max", "min"):
        case(f"{op} axis", nm, lambda o, np, x, n, m, op=op: getattr(o, op)(X(x, n, m), axis=1))
        case(f"{op} axes", nmk, lambda o, np, x, n, m, k, op=op: getattr(o, op)(X(x, n, m, k), axis=(0, -1)))
        case(f"{op} kept", nmk, lambda o, np, x, n, m, k, op=op: getattr(o, op)(X(x, n, m, k), axis=(1, 2), keepdims=True))
        case(f"{op} all", nm, lambda o, np, x, n, m, op=op: getattr(o, op)(X(x, n, m)))
        case(f"{op} constant axis", nm, lambda o, np, x, n, m, op=op: getattr(o, op)(X(x, n, 3, m), axis=1))
    case("sum of sum", nm, lambda o, np, x, n, m: o.sum(o.sum(X(x, n, m), axis=0), axis=0))
    case("mean of shifted", nm, lambda o, np, x, n, m: o.mean(X(x, n, m) * 2 + 3, axis=1))
    case("max of padded", nm, lambda o, np, x, n, m: o.max(o.pad(X(x, n, m), [[0, 1], [2, 0]]), axis=1))
    case("sum of padded", nm, lambda o, np, x, n, m: o.sum(o.pad(X(x, n, m), [[0, 1], [2, 0]]), axis=1))
    case("sum of flipped and reshaped", nm, lambda o, np, x, n, m: o.sum(o.reshape(o.flip(X(x, n, m), 1), (n, m)), axis=0))
    case("any and all", nm, lambda o, np, x, n, m: o.cast(o.any(X(x, n, m) > 9, axis=1), "float32") + 2 * o.cast(o.all(X(x, n, m) < 9, axis=1), "float32"))
    case("einsum matmul", nmk, lambda o, np, x, n, m, k: o.einsum("nm,mk->nk", x("x", (n, m)), x("y", (m, k))))
    case("einsum batched", nmk, lambda o, np, x, n, m, k: o.einsum("anm,mgk->angk", x("x", (2, n, m)), x("y", (m, 2, k))))
    case("einsum permutation", nmk, lambda o, np, x, n, m, k: o.einsum("gh,nhm->ngm", np.eye(3)[[2, 0, 1]], x("x", (n, 3, m))))
    case("matmul", nmk, lambda o, np, x, n, m, k: o.matmul(x("x", (n, m)), x("y", (m, k))))
    case("cast bool", nm, lambda o, np, x, n, m: o.cast(o.cast(X(x, n, m) > 0, "int32"), "float32"))
    case("floor division", nm, lambda o, np, x, n, m: (o.arange(n * m) // m) * 100 + o.arange(n * m) % m)
    case("divmod negative", nm, lambda o, np, x, n, m: (o.arange(n) - 4) // 3 * 10 + (o.arange(n) - 4) % 3)

    def sizes(rank, **lb):
        return {"B": 1, "C": 1, "F": 1, **{f"n{i}": 1 for i in range(rank)}, **{f"k{i}": 1 for i in range(rank)}, **lb}

    def conv(o, x, B, C, F, n, k, first=False, groups=1, **kw):
        X = x("x", (B, C) + n if first else (B,) + n + (C,))
        return o.conv(X, x("k", k + (C, F)), data_format="channels_first" if first else "channels_last", **kw)

    for first in (False, True):
        for padding in ("valid", "same"):
            tag = f"{padding} {'first' if first else 'last'}"
            case(f"conv 2 {tag}", sizes(2), lambda o, np, x, B, C, F, n0, n1, k0, k1, first=first, padding=padding:
                 conv(o, x, B, C, F, (n0, n1), (k0, k1), first, padding=padding))
            case(f"conv 2 strided {tag}", sizes(2, s=1), lambda o, np, x, B, C, F, n0, n1, k0, k1, s, first=first, padding=padding:
                 conv(o, x, B, C, F, (n0, n1), (k0, k1), first, padding=padding, strides=(s, 1)))
            case(f"conv 2 dilated {tag}", sizes(2, d=1), lambda o, np, x, B, C, F, n0, n1, k0, k1, d, first=first, padding=padding:
                 conv(o, x, B, C, F, (n0, n1), (k0, k1), first, padding=padding, dilation_rate=(1, d)))
            case(f"tconv 2 strided {tag}", sizes(2, s=1), lambda o, np, x, B, C, F, n0, n1, k0, k1, s, first=first, padding=padding:
                 o.conv_transpose(x("x", (B, C, n0, n1) if first else (B, n0, n1, C)), x("k", (k0, k1, F, C)), strides=(s, 1), padding=padding,
                                  data_format="channels_first" if first else "channels_last"))
            for pool in ("max", "average"):
                case(f"{pool} pool 2 {tag}", {k: v for k, v in sizes(2, s=1).items() if k != "F"},
                     lambda o, np, x, B, C, n0, n1, k0, k1, s, first=first, padding=padding, pool=pool:
                     getattr(o, f"{pool}_pool")(x("x", (B, C, n0, n1) if first else (B, n0, n1, C)), (k0, k1), strides=(s, 2), padding=padding,
                                                data_format="channels_first" if first else "channels_last"))
    case("conv 3", sizes(3), lambda o, np, x, B, C, F, n0, n1, n2, k0, k1, k2: conv(o, x, B, C, F, (n0, n1, n2), (k0, k1, k2), padding="same"))
    case("max pool 1", {"B": 1, "C": 1, "n": 1, "k": 1}, lambda o, np, x, B, C, n, k: o.max_pool(x("x", (B, n, C)), (k,), strides=(k,), padding="valid", data_format="channels_last"))
    return C


# ---------------------------------------------------------------- the verifier's side

def generic(t):
    """All generic indices of a tensor: a binder per symbolic axis, every index of a constant one."""
    from . import poly

    axes = []
    for a, n in enumerate(t.shape):
        if isinstance(n, poly.SInt):
            b = poly.binder(f"i{a}", n)
            axes.append([(b, next(iter(b.t))[0])])
        else:
            axes.append([(i, None) for i in range(n)])
    return itertools.product(*axes)


def symbolic(fn, envs, idx_cap, rng, reject):
    """For every env: the paths admitting it, each with the shape and, per index, the values."""
    import numpy as np

    from . import poly, tensor as T, terms

    poly.reset()
    terms.reset()
    seen = [{"rejected": [], "shape": [], "dtype": None, "at": {}, "wanted": None} for _ in envs]
    pending = [[]]
    while pending:
        ctx = poly.Ctx(pending.pop())
        poly.CTX = ctx
        try:
            why = None
            try:
                t = T.tensor(fn(ctx))
                sizes_only = list(ctx.pathlog)
                vals = []
                for gi in generic(t):
                    v = t.at(tuple(i for i, _ in gi))
                    w = terms.normalize(v) if isinstance(v, terms.RP) else ctx.nf(v) if isinstance(v, poly.SInt) else v
                    vals.append((gi, v, w))
            except poly.PathAbort:
                continue
            except reject as e:
                why, sizes_only = f"{type(e).__name__}: {e}", list(ctx.pathlog)
            for s, env in zip(seen, envs):
                e = {a.id: env[a.name] for a in poly.ATOMS if a.kind == "size" and a.name in env}

                def holds(facts, e):
                    try:
                        return all(poly.evf(f, dict(e)) == v for f, v in facts)
                    except KeyError:
                        return False

                if not holds(sizes_only, e):
                    continue
                if why:
                    s["rejected"].append(why)
                    continue
                shape = tuple(int(poly.ev(n, dict(e))) for n in t.shape)
                if shape not in s["shape"]:
                    s["shape"].append(shape)
                s["dtype"] = str(t.dtype)
                if s["wanted"] is None:
                    s["wanted"] = list(itertools.product(*map(range, shape)))
                    if len(s["wanted"]) > idx_cap:
                        s["wanted"] = rng.sample(s["wanted"], idx_cap)
                for idx in s["wanted"]:
                    for gi, v, w in vals:
                        if any(b is None and c != i for (c, b), i in zip(gi, idx)):
                            continue
                        ei = {**e, **{b: i for (_, b), i in zip(gi, idx) if b is not None}}
                        if not holds(ctx.pathlog, ei):
                            continue
                        s["at"].setdefault(idx, []).append([number(x, ei) for x in (v, w)])
        finally:
            poly.CTX = None
            pending.extend(ctx.new)
    return seen


def number(w, e):
    from . import poly, terms

    if isinstance(w, poly.SInt):
        return int(poly.ev(w, dict(e)))
    if isinstance(w, poly.SBool):
        return int(poly.evf(w, dict(e)))
    if isinstance(w, terms.RP):
        return float(terms.evr(w, dict(e), datum))
    return float(w)


def small_sizes(sizes, rng, count):
    out = []
    for _ in range(count):
        e = {k: lb + rng.choice((0, 0, 1, 1, 2, 3)) for k, lb in sizes.items()}
        if e not in out:
            out.append(e)
    return out


def verifier_ops(only, rng):
    import numpy as np

    from . import poly, tensor as T

    out = {}
    for name, (sizes, fn) in CASES().items():
        if only and only not in name:
            continue
        envs = small_sizes(sizes, rng, 6)

        def run(ctx, fn=fn, sizes=sizes):
            import sys
            z = {k: poly.size_symbol(k, lb) for k, lb in sizes.items()}
            return fn(sys.modules["keras.ops"], np, lambda b, s, dtype="float32": T.variable(b, s, dtype), **z)

        try:
            out[name] = (envs, symbolic(run, envs, 60, rng, (ValueError, TypeError)))
        except poly.Unsupported as e:
            out[name] = (envs, f"unsupported: {e}")
    return out


def layer_cases(rng, count):
    from . import plans

    pool = []
    for pid in ("C08", "C11", "C13"):
        for mod, func, kw in plans.unique_tasks(plans.tasks(pid, True, 1)):
            if mod == "t_layers" and func in ("computes", "global_pooling") and not kw.get("history_"):
                kw = dict(kw)
                if func == "global_pooling":
                    kw["kind"] = "gpool"
                kw.setdefault("act", None)
                if kw["act"] == "act":
                    kw["act"] = "relu"
                pool.append(kw)
    rng.shuffle(pool)
    # small groups first: they exercise the same operations
    from . import groupdata as G

    pool.sort(key=lambda c: G.ORDER[c.get("group", "P4")] * c.get("ndim", 2) ** 2 > 40)
    return pool[:count]


def verifier_layers(count, rng):
    from . import keras_stub as K, oblig as O, poly, sym

    out = []
    for cfg in layer_cases(rng, count):
        cfg = sym.full(cfg)
        names = {"B": 1, "C": 1, "F": 1}
        d = cfg["ndim"]
        case = None

        def run(ctx, cfg=cfg):
            K.reset()
            z = sym.Sizes(cfg)
            layer = sym.make(cfg, z)
            return layer(sym.signal(cfg, z))

        # concrete sizes, tied as the group requires
        poly.reset()
        poly.CTX = poly.Ctx([])
        z = sym.Sizes(cfg)
        free = {a.name: a.lb for a in poly.ATOMS if a.kind == "size"}
        envs = small_sizes(free, rng, 3)
        full = []
        for env in envs:
            e = {a.id: env[a.name] for a in poly.ATOMS if a.kind == "size"}
            full.append({**{k: [int(poly.ev(v, dict(e))) for v in getattr(z, k)] for k in ("n", "k", "s", "d")},
                         **{k: int(poly.ev(getattr(z, k), dict(e))) for k in "BCF"}})
        poly.CTX = None
        try:
            seen = symbolic(run, envs, 12, rng, (ValueError, O.Reject))
        except poly.Unsupported as e:
            seen = f"unsupported: {e}"
        out.append((dict(cfg), full, seen))
    return out


# ---------------------------------------------------------------- the real side

def real(path):
    sys.path.insert(0, HERE)
    import battery

    battery.load()
    import numpy as np

    ops, keras = battery.ops, battery.keras
    with open(path, "rb") as f:
        todo_ops, todo_layers = pickle.load(f)
    cases = CASES()
    n = bad = unsupported = entries = 0

    def compare(what, seen, run):
        nonlocal n, bad, entries
        n += 1
        try:
            r = ops.convert_to_numpy(run())
        except Exception as e:
            if not seen["rejected"] or seen["at"]:
                bad += 1
                print(f"BAD {what}: the real one raises {type(e).__name__}: {str(e)[:200]}")
            return
        if seen["rejected"]:
            bad += 1
            return print(f"BAD {what}: the verifier rejects: {seen['rejected'][0][:200]}")
        if seen["shape"] != [tuple(r.shape)]:
            bad += 1
            return print(f"BAD {what}: shape {seen['shape']}, really {r.shape}")
        for idx in seen["wanted"]:
            if len(seen["at"].get(idx, ())) != 1:
                bad += 1
                return print(f"BAD {what} at {idx}: {len(seen['at'].get(idx, ()))} paths")
            for v, how in zip(seen["at"][idx][0], ("as built", "normalised")):
                entries += 1
                if abs(float(v) - float(r[idx])) > 1e-2 + 1e-4 * abs(float(v)):
                    bad += 1
                    return print(f"BAD {what} at {idx} ({how}): {v}, really {r[idx]}")
        a, b = np.dtype(seen["dtype"]).kind, r.dtype.kind
        if a != b and {a, b} != {"i", "u"}:
            bad += 1
            print(f"BAD {what}: dtype {seen['dtype']}, really {r.dtype}")

    for name, (envs, seen) in todo_ops.items():
        if isinstance(seen, str):
            unsupported += 1
            print(f"{name}: {seen}")
            continue
        for env, s in zip(envs, seen):
            compare(f"{name} {env}", s, lambda: cases[name][1](ops, np, lambda b, sh, dtype="float32": ops.convert_to_tensor(array(np, b, sh, dtype)), **env))
    for cfg, envs, seen in todo_layers:
        if isinstance(seen, str):
            unsupported += 1
            print(f"{cfg}: {seen}")
            continue
        for env, s in zip(envs, seen):
            c = battery.full(dict(cfg, sizes=env))

            def run():
                z = battery.Z(c)
                layer = battery.make(c, z)
                x = array(np, "x", battery.signal_shape(c, z))
                layer(x)
                for w in layer.weights:
                    w.assign(array(np, battery_base(w), tuple(w.shape)))
                return layer(x)

            compare(f"{ {k: v for k, v in cfg.items() if battery.DEFAULTS.get(k) != v} } {env}", s, run)
    print(f"{n} comparisons with {entries} entries, {bad} bad, {unsupported} not modelled")
    return 1 if bad else 0


def battery_base(w):
    return w.path.split("/")[-1]


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--real")
    p.add_argument("--layers", type=int, default=60)
    p.add_argument("--only")
    p.add_argument("--seed", type=int, default=1)
    a = p.parse_args()
    if a.real:
        sys.exit(real(a.real))
    sys.path.insert(0, os.path.dirname(HERE))
    sys.setrecursionlimit(20000)
    from gvc import keras_stub as K

    K.load_groco()
    rng = random.Random(a.seed)
    todo = (verifier_ops(a.only, rng), verifier_layers(a.layers, rng))
    d = tempfile.mkdtemp(prefix="gvc_conf_")
    path = os.path.join(d, "cases.pkl")
    try:
        with open(path, "wb") as f:
            pickle.dump(todo, f)
        env = dict(os.environ, GVC_REPO=REPO, GVC_KERAS_HOME=os.path.join(d, "keras"), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([os.environ.get("GVC_PYTHON", "/opt/venv/bin/python"), os.path.abspath(__file__), "--real", path], env=env, cwd=d)
    finally:
        import shutil

        shutil.rmtree(d, ignore_errors=True)
    sys.exit(r.returncode)


if __name__ == "__main__":
    main()

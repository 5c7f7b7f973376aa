"""What is verified for each property: the verifier's tasks, and the concrete cases of the replay harness."""

import itertools
import json
import os
import random

from .elements import DIMS, ELEMENTS, ORDER, SUBGROUPS, TIED, axis_padding, tied_sizes

G2 = [g for g in ORDER if DIMS[g] == 2]
G3 = [g for g in ORDER if DIMS[g] == 3]
PAIRS = [(g, h) for g in ORDER for h in SUBGROUPS[g]]
EQUIV = ("valid_equiv", "same_equiv")
OPTIONS = EQUIV + ("valid", "same")
FMTS = ("channels_last", "channels_first")
BIG = ("Oh",)


def cfg(group, subgroup=None, **kw):
    out = dict(group=group, ndim=kw.pop("ndim", DIMS[group]), **kw)
    if subgroup is not None and subgroup != group:
        out["subgroup"] = subgroup
    return out


def L(func, **kw):
    return ("t_layers", func, kw)


def pick(rng, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else rng.sample(xs, n)


# ---------------------------------------------------------------- the padding contract

def padding(option, ndim, strides, **kw):
    return ("t_padding", "padding_task", dict(option=option, ndim=ndim, strides=tuple(strides), **kw))


def padding_premises(thorough, transposed=False):
    """That EquivariantPadding satisfies the contract the layers' obligations are proved against."""
    out = []
    kinds = ("one", "even", "odd")
    for o in OPTIONS:
        for s in kinds:
            out.append(padding(o, 1, (s,)))
            out.append(padding(o, 1, (s,), dilated=True, fmt="channels_first"))
        for s in itertools.product(("one", "odd"), repeat=2) if not thorough else itertools.product(kinds, repeat=2):
            out.append(padding(o, 2, s))
        out.append(padding(o, 2, (2, 3)))
        out.append(padding(o, 2, ("odd", "one"), fmt="channels_first"))
        out.append(padding(o, 3, ("one",) * 3))
        out.append(padding(o, 3, (2, 1, 1), fmt="channels_first"))
        if thorough:
            out.append(padding(o, 3, ("odd", "one", "even")))
            out.append(padding(o, 3, (1, 3, 2), fmt="channels_first"))
    for o in ("valid", "same"):
        out.append(padding(o, 1, ("even",), allow=True))
        out.append(padding(o, 2, ("odd", "even"), allow=True, fmt="channels_first"))
    if transposed:
        for o in OPTIONS:
            out.append(padding(o, 1, ("one",), transpose=True))
        for o in ("valid_equiv", "valid"):
            out.append(padding(o, 1, ("odd",), transpose=True))
            out.append(padding(o, 1, ("even",), transpose=True))
            out.append(padding(o, 2, (2, 3), transpose=True, fmt="channels_first"))
    return out


def premises(thorough=False, transposed=False):
    """The part of the padding contract every layer task relies on, cheaply."""
    out = []
    for o in OPTIONS:
        for s in ("one", "even", "odd"):
            out.append(padding(o, 1, (s,), dilated=(s == "odd"), fmt=FMTS[s == "even"]))
        out.append(padding(o, 2, ("odd", "one")))
        if transposed:
            out.append(padding(o, 1, ("one",), transpose=True))
            if "valid" in o:
                out.append(padding(o, 1, ("odd",), transpose=True))
                out.append(padding(o, 1, ("even",), transpose=True))
    out.append(padding("valid", 1, ("odd",), allow=True))
    return out


# ---------------------------------------------------------------- layers

def conv_configs(thorough, rng):
    """Convolutions of all groups, subgroups and settings; (config, weight)."""
    out = []
    for (g, h), lifting in itertools.product(PAIRS, (True, False)):
        big = g in BIG and not lifting
        for p in EQUIV:
            if not big:
                out.append(cfg(g, h, kind="conv", lifting=lifting, padding=p, strides="sym"))
            elif p == "same_equiv" and (h == g or thorough):
                out.append(cfg(g, h, kind="conv", lifting=lifting, padding=p))
        if big and h != g:
            out.append(cfg(g, h, kind="conv", lifting=lifting, padding="valid_equiv"))
    for g, lifting in itertools.product(ORDER, (True, False)):
        if g in ("Oh", "O") and not lifting and not thorough:
            continue
        base = dict(kind="conv", lifting=lifting)
        heavy = g in ("Oh", "O") and not lifting
        more = [
            dict(padding="valid", strides="sym"), dict(padding="same", strides="sym"), dict(padding="valid_equiv", dilation="sym"),
            dict(padding="same_equiv", dilation="sym", fmt="channels_first"), dict(padding="same_equiv", strides="sym", fmt="channels_first"),
            dict(padding="valid_equiv", strides="sym", fmt="channels_first", bias=False), dict(padding="same_equiv", act=None),
        ]
        if thorough:
            more += [dict(padding=p, dilation="sym", fmt=f) for p in OPTIONS for f in FMTS]
            more += [dict(padding=p, strides="sym", fmt="channels_first", bias=b) for p in OPTIONS for b in (True, False)]
        for m in more if not heavy else more[2:4]:
            out.append(cfg(g, None, **base, **m))
    for g, h in [p for p in PAIRS if p[0] != p[1]]:
        if g in ("Oh", "O") and not thorough:
            continue
        out.append(cfg(g, h, kind="conv", padding="same_equiv", strides="sym", fmt="channels_first"))
        if thorough and g not in BIG:
            out.append(cfg(g, h, kind="conv", lifting=True, padding="valid_equiv", dilation="sym", fmt="channels_first"))
    # plane groups acting on volumes are not supported; 1D has no convolution
    return lights(unique(out), thorough, only3=True)


def tconv_configs(thorough, rng):
    out = []
    for (g, h), lifting in itertools.product(PAIRS, (True, False)):
        heavy = g in ("Oh",) and not lifting
        ps = ("valid_equiv", "same_equiv") if not heavy or thorough else ("same_equiv",)
        for p in ps:
            if heavy and h == "Oh" and not thorough:
                continue
            out.append(cfg(g, h, kind="tconv", lifting=lifting, padding=p))
        if not heavy:
            out.append(cfg(g, h, kind="tconv", lifting=lifting, padding="valid", strides="sym", k_ge_s=True))
    for g, lifting in itertools.product(ORDER, (True, False)):
        if g in ("Oh", "O") and not lifting and not thorough:
            continue
        more = [
            dict(padding="same", fmt="channels_first"), dict(padding="valid_equiv", strides="sym", k_ge_s=True, bias=False),
            dict(padding="valid_equiv", strides="sym", k_ge_s=True, fmt="channels_first"),
            dict(padding="valid", fmt="channels_first", act=None), dict(padding="valid", strides="kernel"),
        ]
        if thorough:
            more += [dict(padding=p, fmt=f, bias=b) for p in OPTIONS for f in FMTS for b in (True, False)]
        for m in more:
            out.append(cfg(g, None, kind="tconv", lifting=lifting, **m))
    for g, h in [p for p in PAIRS if p[0] != p[1]]:
        if g in ("Oh", "O") and not thorough:
            continue
        out.append(cfg(g, h, kind="tconv", padding="same_equiv", fmt="channels_first"))
    return unique(out)


def pool_configs(thorough, rng, ndims=(2, 3)):
    out = []
    for (g, h), pool in itertools.product(PAIRS, ("max", "average")):
        if DIMS[g] not in ndims:
            continue
        big = ORDER[g] > 16
        out.append(cfg(g, h, kind="pool", pool=pool, padding="valid_equiv", strides=None))
        if not big or thorough:
            out.append(cfg(g, h, kind="pool", pool=pool, padding="valid_equiv", strides="sym"))
            out.append(cfg(g, h, kind="pool", pool=pool, padding="same_equiv", strides="sym", fmt="channels_first"))
            out.append(cfg(g, h, kind="pool", pool=pool, padding="valid", strides="sym", fmt="channels_first"))
        out.append(cfg(g, h, kind="pool", pool=pool, padding="same", strides=None if big else "sym"))
        out.append(cfg(g, h, kind="pool", pool=pool, padding="same_equiv", strides=1 if big else None))
    return unique(out)


def unique(xs):
    seen, out = set(), []
    for x in xs:
        k = repr(sorted(x.items(), key=lambda kv: kv[0]))
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def light(c, rng=None):
    """The configuration with a symbolic stride along one class of interchanged axes only: one for each class,
    or one of them. (Each axis is treated by its own case distinctions: their product is left to the thorough tier.)"""
    d, g = c["ndim"], c["group"]
    if c.get("strides") != "sym" or not c["padding"].startswith("same") or d == 1:
        return [c]
    tied = TIED.get(g, ())[:d]
    classes = ([tuple(tied)] if tied else []) + [(a,) for a in range(d) if a not in tied]
    if len(classes) == 1:
        return [c]
    out = [dict(c, strides=tuple("sym" if a in cl else 1 for a in range(d))) for cl in classes]
    return out if rng is None else [rng.choice(out)]


def lights(cs, thorough, rng=None, only3=False):
    return list(cs) if thorough else unique([x for c in cs for x in (light(c, rng) if c["ndim"] == 3 or not only3 else [c])])


def small(c):
    return ORDER[c["group"]] <= 8


def tasks(pid, thorough=False, seed=1):
    rng = random.Random(f"{pid}{seed}")
    out = []
    if pid == "C01":
        out = [("t_groups", "axioms_task", dict(name=g)) for g in ORDER]
    elif pid == "C02":
        out = [("t_groups", "subgroups_task", dict(name=g)) for g in ORDER]
    elif pid == "C03":
        out = [("t_groups", "documented_task", {})]
        out += [("t_groups", "grid_task", dict(name=g, seed=seed, thorough=thorough)) for g in ORDER]
    elif pid == "C04":
        for g in ORDER:
            subs = [""] + [s for s in SUBGROUPS[g] if s != g]
            for a, d in itertools.product(subs, repeat=2):
                out.append(("t_groups", "group_task", dict(name=g, acting=a, domain=d, seed=seed, thorough=thorough)))
            out.append(("t_groups", "group_task", dict(name=g, acting=g, domain=g, seed=seed)))
    elif pid == "C05":
        out = [("t_groups", "upsample_task", dict(name=g, thorough=thorough)) for g in ORDER]
    elif pid == "C06":
        n = 9 if thorough else 8
        out = [("t_utils", "merge_task", dict(rank=r)) for r in range(2, n)]
        out += [("t_utils", f, dict(rank=r)) for r in range(1, n) for f in ("split_task", "index_task")]
        out.append(("t_utils", "batch_task", {}))
    elif pid == "C07":
        convs = conv_configs(thorough, rng)
        tconvs = tconv_configs(thorough, rng)
        stride1 = unique([{k: v for k, v in c.items() if k not in ("strides", "dilation", "k_ge_s")} | dict(padding="same_equiv") for c in convs + tconvs])
        out = [L("computes", **c) for c in stride1]
        out += [L("own_weights", **c) for c in stride1]
        out += premises(thorough, True)
    elif pid == "C08":
        cs = conv_configs(thorough, rng) + tconv_configs(thorough, rng)
        out = [L("computes", **c) for c in cs]
        out += [L("computes", history_=True, **c) for c in lights(pick(rng, [c for c in cs if small(c)], 30), thorough, rng)]
        out += [L("computes", **dict(c, allow=True)) for c in lights([c for c in cs if c["padding"] in ("same", "valid") and small(c)], thorough, rng)]
        out += premises(thorough, True)
    elif pid == "C09":
        cs = conv_configs(thorough, rng)
        out = [L("equivariance", **c) for c in cs]
        hs = [c for c in cs if small(c)]
        out += [L("equivariance", history_=True, **c) for c in (hs if thorough else lights(pick(rng, hs, 40), False, rng))]
        out += premises(thorough)
    elif pid == "C10":
        cs = tconv_configs(thorough, rng)
        out = [L("equivariance", **c) for c in cs]
        hs = [c for c in cs if small(c)]
        out += [L("equivariance", history_=True, **c) for c in (hs if thorough else lights(pick(rng, hs, 20), False, rng))]
        out += premises(thorough, True)
    elif pid == "C11":
        cs = pool_configs(thorough, rng)
        out = [L("computes", **c) for c in cs]
        for g, pool in itertools.product(G2, ("max", "average")):
            for h in SUBGROUPS[g]:
                out.append(L("computes", **cfg(g, h, ndim=1, kind="pool", pool=pool, padding="valid_equiv", strides="sym")))
            for p, f, s in itertools.product(OPTIONS, FMTS, ("sym", None)):
                out.append(L("computes", **cfg(g, None, ndim=1, kind="pool", pool=pool, padding=p, fmt=f, strides=s)))
        out += [L("computes", **dict(c, allow=True)) for c in lights([c for c in cs if c["padding"] in ("same", "valid") and small(c)], thorough, rng)]
        out += premises(thorough)
    elif pid == "C12":
        cs = pool_configs(thorough, rng)
        out = [L("equivariance", **c) for c in cs]
        hs = [c for c in cs if small(c)]
        out += [L("equivariance", history_=True, **c) for c in (hs if thorough else lights(pick(rng, hs, 40), False, rng))]
        out += premises(thorough)
    elif pid == "C13":
        for g, pool, f, kd in itertools.product(ORDER, ("max", "average"), FMTS, (False, True)):
            out.append(L("global_pooling", **cfg(g, None, pool=pool, fmt=f, keepdims=kd)))
            if DIMS[g] == 2:
                out.append(L("global_pooling", **cfg(g, None, ndim=1, pool=pool, fmt=f, keepdims=kd)))
    elif pid == "C14":
        out = padding_premises(thorough)
        out += wired(thorough, EQUIV)
    elif pid == "C15":
        out = [t for t in padding_premises(thorough)]
        out += wired(thorough, ("valid", "same"))
        out += [("t_padding", "types_task", {}), ("t_layers", "bad_options", {})]
    elif pid == "C16":
        cs = conv_configs(thorough, rng) + tconv_configs(thorough, rng)
        out = [L("output_shape", **c) for c in cs]
        hs = [c for c in cs if small(c)]
        out += [L("output_shape", other=True, **c) for c in (hs if thorough else lights(pick(rng, hs, 60), False, rng))]
        out += [L("output_shape", **dict(c, allow=True)) for c in lights([c for c in cs if c["padding"] in ("same", "valid") and small(c)], thorough, rng)]
        out += premises(thorough, True)
    elif pid == "C17":
        cs = conv_configs(False, rng) + tconv_configs(False, rng) + pool_configs(False, rng)
        cs = [c for c in cs if small(c)]
        keep = one_per(cs, ("kind", "ndim", "pool", "padding", "fmt", "bias", "lifting"), rng)
        out = [L("leaves_unchanged", **c) for c in (cs if thorough else keep)]
        out += [L("leaves_unchanged", **cfg(g, None, ndim=1, kind="pool", pool=p, padding="valid_equiv", strides="sym")) for g in ("P4", "P2MM") for p in ("max", "average")]
        out += [L("leaves_unchanged", **cfg(g, None, ndim=d, kind="gpool", pool=p)) for g, d in (("P4", 2), ("P4", 1), ("D4", 3)) for p in ("max", "average")]
    elif pid == "C18":
        cs = conv_configs(False, rng) + tconv_configs(False, rng) + pool_configs(False, rng)
        cs = unique([{k: v for k, v in c.items() if k != "fmt"} for c in cs if c["group"] not in BIG or c.get("lifting")])
        keep = [c for c in cs if not small(c) or thorough] + one_per([c for c in cs if small(c)], ("kind", "group", "pool", "padding", "lifting"), rng)
        out = [L("formats", **c) for c in unique(keep if not thorough else cs)]
        out += [L("formats", default=True, **c) for c in one_per([c for c in cs if small(c)], ("kind", "ndim", "pool", "padding", "lifting"), rng)]
        for g, pool in itertools.product(G2, ("max", "average")):
            for p in OPTIONS:
                out.append(L("formats", default=g == "P4", **cfg(g, None, ndim=1, kind="pool", pool=pool, padding=p, strides="sym")))
        for g, pool, kd in itertools.product(("P4M", "P2MM", "D4", "O"), ("max", "average"), (False, True)):
            for d in (1, 2) if DIMS[g] == 2 else (3,):
                out.append(L("formats", default=True, **cfg(g, None, ndim=d, kind="gpool", pool=pool, keepdims=kd)))
        out += premises(thorough, True)
    elif pid == "C19":
        cs = conv_configs(False, rng) + tconv_configs(False, rng) + pool_configs(False, rng)
        cs = [c for c in cs if c["group"] not in BIG]
        keep = one_per(cs, ("kind", "group", "padding", "lifting", "fmt"), rng)
        for i, c in enumerate(cs if thorough else keep):
            out.append(L("rebuilt", as_object=i % 2 == 0, **c))
        for i, c in enumerate(one_per([c for c in cs if small(c)], ("kind", "ndim", "pool", "padding"), rng)):
            out.append(L("rebuilt", as_object=i % 2 == 1, **dict(c, name="some_name", allow=True)))
        for c, extra in extras(cs, rng):
            out.append(L("rebuilt", **dict(c, extra=extra)))
        for g, pool in itertools.product(("P4", "PMh"), ("max", "average")):
            for p in OPTIONS:
                out.append(L("rebuilt", **cfg(g, None, ndim=1, kind="pool", pool=pool, padding=p, strides="sym")))
        for pool, d, kd, f in itertools.product(("max", "average"), (1, 2, 3), (False, True), FMTS):
            out.append(L("rebuilt", **cfg("P4" if d < 3 else "D4", None, ndim=d, kind="gpool", pool=pool, keepdims=kd, fmt=f, name="pooling")))
        out += premises(thorough, True)
    elif pid == "C20":
        from . import t_checker

        cs = [c for c in t_checker_configurations()]
        keep = cs if thorough else [c for c in cs if ORDER[c[0]] <= 4] + pick(rng, [c for c in cs if 4 < ORDER[c[0]] <= 16], 60) + pick(rng, [c for c in cs if ORDER[c[0]] > 16], 8)
        for g, a, d, t in keep:
            out.append(("t_checker", "checker_task", dict(name=g, acting=a, domain=d, target=t)))
        for g, a, d, t in pick(rng, [c for c in cs if ORDER[c[0]] <= 8], 40):
            k = DIMS[g]
            ax, ga = rng.choice([(tuple(range(k, 0, -1)), k + 1), (tuple(range(2, k + 2)), 1), (tuple(range(1, k + 1)), k + 1)] + ([tuple_first(k)] if d is not None and t is not None else []))
            out.append(("t_checker", "checker_task", dict(name=g, acting=a, domain=d, target=t, spatial=ax, group_axis=ga, group_arg=False)))
        for g, a, d, t in [c for c in cs if ORDER[c[0]] <= 8 and (c[2] is not None or c[3] is not None)] if thorough else pick(
                rng, [c for c in cs if ORDER[c[0]] <= 8 and (c[2] is not None or c[3] is not None)], 30):
            out.append(("t_checker", "checker_task", dict(name=g, acting=a, domain=d, target=t, wrong=True)))
    elif pid == "C21":
        out = [("t_layers", "registries_task", {})]
        for (g, h), lifting in itertools.product(PAIRS, (True, False)):
            if g in BIG and not lifting and not thorough:
                continue
            out.append(L("named_group", **cfg(g, h, kind="conv", lifting=lifting, padding="same_equiv")))
            if g not in BIG:
                out.append(L("named_group", **cfg(g, h, kind="tconv", lifting=lifting, padding="valid_equiv")))
        for (g, h), pool in itertools.product(PAIRS, ("max", "average")):
            out.append(L("named_group", **cfg(g, h, kind="pool", pool=pool, strides=None)))
            if DIMS[g] == 2:
                out.append(L("named_group", **cfg(g, h, ndim=1, kind="pool", pool=pool, strides=None)))
    elif pid == "C22":
        cs = conv_configs(False, rng) + tconv_configs(False, rng) + pool_configs(False, rng)
        cs = [c for c in cs if c["group"] not in BIG or c.get("lifting")]
        keep = [c for c in cs if not small(c)] + one_per([c for c in cs if small(c)], ("kind", "group", "padding", "lifting", "fmt", "pool"), rng)
        out = [L("batch", unknown=i % 3 != 0, **c) for i, c in enumerate(cs if thorough else keep)]
        for g, pool in itertools.product(("P4", "PMh", "P4M"), ("max", "average")):
            for p, f in itertools.product(OPTIONS, FMTS):
                out.append(L("batch", **cfg(g, None, ndim=1, kind="pool", pool=pool, padding=p, fmt=f, strides="sym")))
        for g, pool, kd, f in itertools.product(("P4M", "P2MM", "D4"), ("max", "average"), (False, True), FMTS):
            for d in (1, 2) if DIMS[g] == 2 else (3,):
                out.append(L("batch", **cfg(g, None, ndim=d, kind="gpool", pool=pool, keepdims=kd, fmt=f)))
        out += padding_premises(False, True)
    return out


def tuple_first(k):
    return tuple(range(3, 3 + k)) if k == 2 else tuple(range(2, 2 + k)), 1


def t_checker_configurations():
    out = []
    for name, subs in SUBGROUPS.items():
        opts = [None, ""] + [s for s in subs if s != name]
        for a in [""] + [s for s in subs if s != name]:
            for d in opts:
                for t in opts:
                    out.append((name, a, d, t))
    return out


def one_per(cs, keys, rng):
    """One configuration for every combination of these settings."""
    by = {}
    for c in cs:
        by.setdefault(tuple(c.get(k) for k in keys), []).append(c)
    return [rng.choice(v) for _, v in sorted(by.items(), key=lambda kv: str(kv[0]))]


def extras(cs, rng):
    """Further Keras settings."""
    out = []
    for kind in ("conv", "tconv"):
        for e in (
            dict(kernel_initializer="he_normal", bias_initializer="ones"), dict(kernel_regularizer="l2"), dict(bias_regularizer="l1"),
            dict(activity_regularizer="l2"), dict(kernel_constraint="non_neg", bias_constraint="max_norm"),
            dict(trainable=False), dict(dtype="float16"),
        ):
            c = rng.choice([c for c in cs if c["kind"] == kind and small(c)])
            out.append((c, tuple(e.items())))
    return out


def wired(thorough, options):
    """The layers accept and pad as their padding does."""
    out = []
    for g, p, f in itertools.product(("P4", "PMh", "P2MM", "D4"), options, FMTS):
        for kind, extra in (("conv", dict(strides="sym")), ("conv", dict(dilation="sym")), ("conv", dict(lifting=True, strides="sym")),
                            ("pool", dict(strides="sym")), ("pool", dict(strides=None, pool="average"))):
            for allow in (False, True):
                out.append(L("wiring", **cfg(g, None, kind=kind, padding=p, fmt=f, allow=allow, **extra)))
                if not allow or p in ("same", "valid"):
                    out.append(L("computes", **cfg(g, None, kind=kind, padding=p, fmt=f, allow=allow, **extra)))
                if kind == "pool" and DIMS[g] == 2:
                    out.append(L("wiring", **cfg(g, None, ndim=1, kind=kind, padding=p, fmt=f, allow=allow, **extra)))
                    out.append(L("computes", **cfg(g, None, ndim=1, kind=kind, padding=p, fmt=f, allow=allow, **extra)))
    return unique_tasks(out)


def quick_tasks(pid, ts):
    """Without the tasks that take a minute or more each: those are proved in the thorough tier."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "heavy.json")) as f:
        heavy = set(json.load(f).get(pid, ()))
    return [t for t in ts if repr((t[0], t[1], sorted(t[2].items()))) not in heavy]


def unique_tasks(ts):
    seen, out = set(), []
    for t in ts:
        k = repr((t[0], t[1], sorted(t[2].items(), key=lambda kv: kv[0])))
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out


# ---------------------------------------------------------------- concrete cases

def draw_sizes(c, rng, top=None):
    """Sizes the layer is likely to accept."""
    g, d = c["group"], c.get("ndim", DIMS[c["group"]])
    heavy = ORDER[g] > 8
    kind = c.get("kind", "conv")
    for _ in range(60):
        n = tied(g, d, lambda: rng.randint(2, 5 if heavy else 9))
        n2 = tied(g, d, lambda: rng.randint(2, 5 if heavy else 9))
        k = tied(g, d, lambda: rng.randint(1, 3 if heavy else 5))
        s = tied(g, d, lambda: rng.randint(1, 3))
        dl = tied(g, d, lambda: rng.randint(1, 3 if not heavy else 2))
        if c.get("strides") == "sym" and c.get("dilation") == "sym":
            s, dl = rng.choice(((s, (1,) * d), ((1,) * d, dl)))
        z = dict(n=list(n), n2=list(n2), k=list(k), s=list(s), d=list(dl), B=rng.randint(1, 3), C=rng.randint(1, 2 if heavy else 3),
                 F=rng.randint(1, 2 if heavy else 3))
        if kind == "gpool" or acceptable(c, z):
            break
    return z


def acceptable(c, z, sizes="n"):
    d = c.get("ndim", DIMS[c["group"]])
    if c.get("kind") == "tconv":
        return True
    s = c.get("strides", 1)
    if isinstance(s, (list, tuple)):
        s = [z["s"][i] if x == "sym" else x for i, x in enumerate(s)]
    else:
        s = {"sym": z["s"], None: z["k"] if c.get("kind") == "pool" else [1] * d, "kernel": z["k"]}.get(s, [s] * d)
    dl = z["d"] if c.get("dilation") == "sym" else [1] * d
    for n, k, st, e in zip(z[sizes], z["k"], s, dl):
        K = (k - 1) * e + 1
        p = axis_padding(c.get("padding", "valid_equiv"), n, K, st, c.get("allow", False))
        if p is None:
            return False
        if c.get("padding", "valid_equiv").startswith("valid") and n + sum(p) < K:
            return False
    return True


def tied(g, d, make):
    return tied_sizes(g, lambda a: make(), d)


def case_of(func, kw, rng):
    """A concrete case of a layer task."""
    c = {k: v for k, v in kw.items() if k not in ("contract", "elements")}
    c["extra"] = dict(c["extra"]) if c.get("extra") else ()
    if not c["extra"]:
        c.pop("extra")
    full = dict(kind="gpool") if func == "global_pooling" else {}
    z = draw_sizes({**full, **c}, rng)
    return dict(c, task=func, sizes=z, seed=rng.randint(0, 10 ** 6))


def padding_cases(rng, count):
    out = []
    for _ in range(count):
        d = rng.choice((1, 1, 2, 3))
        p = rng.choice(OPTIONS)
        tr = rng.random() < 0.15
        k = [rng.randint(1, 6) for _ in range(d)]
        s = [rng.choice((1, 1, 2, 3, 4, 5)) for _ in range(d)]
        if tr:
            s = [1] * d if p.startswith("same") else [min(a, b) for a, b in zip(s, k)]
        out.append(dict(
            task="padding", dimensions=d, padding=p, n=[rng.randint(1, 13) for _ in range(d)], k=k, s=s,
            d=[rng.choice((1, 1, 2, 3)) if not tr else 1 for _ in range(d)], fmt=rng.choice(FMTS), allow=rng.random() < 0.25, transpose=tr,
            scalar=rng.random() < 0.3, seed=rng.randint(0, 10 ** 6),
        ))
    return out


BAD = ["", "full", "causal", "same_", "equiv", "valid equiv", "validequiv", "same_equiv_", " same", "valid_equivalent", "reflect", 1, 2.5, True, None,
       {"kind": "bytes"}, {"kind": "tuple"}, {"kind": "list"}, {"kind": "dict"}, {"kind": "object"}]


def bad_cases():
    out = []
    for i, b in enumerate(BAD):
        for kind, d, pool in (("conv", 2, "max"), ("conv", 3, "max"), ("pool", 1, "max"), ("pool", 2, "average"), ("pool", 3, "max")):
            if (i + d) % 3 == 0 or kind == "conv" and d == 2:
                c = cfg("P4" if d < 3 else "D4", None, kind=kind, ndim=d, pool=pool, strides=1 if kind == "conv" else None)
                out.append(dict(c, task="bad_option", bad=b if b is not None else {"kind": "none"}, sizes=dict(n=[4] * d, k=[2] * d, s=[1] * d, d=[1] * d, B=1, C=1, F=1)))
    return out


def cases(pid, thorough=False, seed=1, count=None):
    """The concrete cases run on every check (and more of them where the verifier gave no answer)."""
    rng = random.Random(f"cases {pid} {seed}")
    out = []
    if pid == "C01":
        for g in ORDER:
            out.append(dict(task="tables", group=g))
            for s in SUBGROUPS[g]:
                out.append(dict(task="tables", group=g, restrict=[s]))
                out += [dict(task="tables", group=g, restrict=[s, t]) for t in SUBGROUPS.get(s, []) if t in SUBGROUPS[g]]
        return out
    if pid == "C02":
        return [dict(task="subgroups", group=g) for g in ORDER]
    if pid == "C03":
        out = [dict(task="documented", group=g) for g in ORDER]
        for g in ORDER:
            d = DIMS[g]
            layouts = [(r, ax, nw) for r in range(d, d + 4) for ax in itertools.permutations(range(r), d) for nw in range(r + 1)]
            for r, ax, nw in pick(rng, layouts, count or (200 if thorough else 25)):
                n = list(tied_sizes(g, lambda a: rng.randint(1, 5), d))
                sub = rng.choice([""] + SUBGROUPS[g])
                out.append(dict(task="grid", group=g, rank=r, axes=list(ax), new=nw, sub=sub, n=n, induced=True, seed=rng.randint(0, 999)))
        return out
    if pid == "C04":
        for g in ORDER:
            d = DIMS[g]
            layouts = [(r, ax, nw) for r in range(d + 1, d + 4) for ax in itertools.permutations(range(r), d + 1) for nw in range(r + 1)]
            layouts = pick(rng, layouts, 4000)
            subs = [""] + [s for s in SUBGROUPS[g] if s != g]
            for a, b in itertools.product(subs, repeat=2):
                for r, ax, nw in pick(rng, layouts, count or (20 if thorough else 3 if ORDER[g] > 8 else 4)):
                    n = list(tied_sizes(g, lambda x: rng.randint(1, 4), d))
                    out.append(dict(task="group", group=g, rank=r, axes=list(ax[:d]), group_axis=ax[d], new=nw, acting=a, domain=b, n=n, seed=rng.randint(0, 999)))
        return out
    if pid == "C05":
        for g, s in PAIRS:
            for r in range(1, 6):
                for ga in range(r) if thorough or r < 4 else pick(rng, range(r), 2):
                    out.append(dict(task="upsample", group=g, sub=s, rank=r, group_axis=ga, dtype=rng.choice(("float32", "int32", "float16"))))
        return out
    if pid == "C06":
        for r in range(1, 6 if not thorough else 7):
            pairs = list(itertools.permutations(range(r), 2))
            shape = [rng.randint(1, 4) for _ in range(r)]
            for m, t in pairs:
                for off in (0, r):
                    out.append(dict(task="utils", what="move", axes=[m - off, t - off], shape=shape))
                    out.append(dict(task="utils", what="merge", axes=[m - off, t - off], shape=shape))
            for a in range(r):
                left, right = rng.randint(1, 4), rng.randint(1, 4)
                sh = list(shape)
                sh[a] = left * right
                out.append(dict(task="utils", what="split", axis=a - rng.choice((0, r)), left=left, shape=sh))
            out.append(dict(task="utils", what="index", shape=shape))
        return pick(rng, out, 150) if not thorough else out
    if pid in ("C14", "C15"):
        out = padding_cases(rng, count or (4000 if thorough else 500))
        if pid == "C15":
            out += bad_cases()
    if pid == "C20":
        cs = t_checker_configurations()
        for i, (g, a, d, t) in enumerate(pick(rng, [c for c in cs if ORDER[c[0]] <= 16], count or 90) + pick(rng, [c for c in cs if ORDER[c[0]] > 16], 6)):
            k = DIMS[g]
            c = dict(task="checker", group=g, acting=a, domain=d, target=t, B=rng.randint(1, 3), seed=rng.randint(0, 999))
            if i % 3 == 1:
                c.update(spatial=list(range(2, k + 2)), group_axis=1) if i % 2 else c.update(spatial=list(range(k, 0, -1)), group_axis=k + 1)
            if i % 4 == 3 and ORDER[g] > 1:
                if d is not None and i % 8 == 3:
                    c["wrong_in"] = 1
                elif t is not None:
                    c["wrong_out"] = rng.choice((1, -1)) if ORDER[g] > 1 and len(str(t)) == 0 else 1
            if i % 5 == 2:
                c["group_arg"] = False
            if i % 7 == 0 and d == t:
                c["equivariant"] = True
            out.append(c)
        return out
    if pid == "C21":
        out.append(dict(task="registries"))
    ts = [t for t in tasks(pid, thorough, seed) if t[0] == "t_layers" and t[1] not in ("registries_task", "bad_options")]
    rng.shuffle(ts)
    n = count or (400 if thorough else 64)
    if pid in ("C14", "C15"):
        n = n // 2
    # every kind of task, then whichever
    ts = one_per_task(ts)
    for m, f, kw in ts[:n]:
        out.append(case_of(f, kw, rng))
    return out


def one_per_task(ts):
    """Ordered such that every combination of the main settings comes first."""
    seen, first, rest = set(), [], []
    for t in ts:
        kw = t[2]
        k = (t[1], kw.get("kind"), kw.get("ndim"), kw.get("padding"), kw.get("fmt"), kw.get("lifting"), kw.get("pool"))
        (rest if k in seen else first).append(t)
        seen.add(k)
    return first + rest


def model_cases(task, model, rng):
    """The counterexample of a failed obligation as concrete cases: itself, and nearby sizes."""
    mod, func, kw = task
    out = []
    conc = (model or {}).get("concrete")
    if mod == "t_layers" and func not in ("registries_task", "bad_options"):
        base = {k: v for k, v in kw.items() if k not in ("contract", "elements")}
        if base.get("extra"):
            base["extra"] = dict(base["extra"])
        if conc:
            z = {k: list(v) if isinstance(v, (list, tuple)) else v for k, v in conc.items()}
            out.append(dict(base, task=func, sizes=z, seed=1))
            out.append(dict(base, task=func, sizes=dict(z, B=max(z["B"], 2), C=max(z["C"], 2), F=max(z["F"], 2)), seed=2))
            for delta in (1, 2):
                out.append(dict(base, task=func, sizes=dict(z, n=[v + delta for v in z["n"]]), seed=3))
        for _ in range(6):
            out.append(case_of(func, kw, rng))
    elif mod == "t_padding" and func == "padding_task":
        sz = (model or {}).get("padding")
        opts = dict(task="padding", dimensions=kw["ndim"], padding=kw["option"], fmt=kw.get("fmt", "channels_last"), allow=kw.get("allow", False),
                    transpose=kw.get("transpose", False))
        if sz:
            out.append(dict(opts, **sz))
        for _ in range(60):
            d = kw["ndim"]
            s = [1 if t == "one" else rng.choice((2, 4, 6)) if t == "even" else rng.choice((3, 5)) if t == "odd" else t for t in kw["strides"]]
            k = [rng.randint(1, 7) for _ in range(d)]
            if opts["transpose"]:
                k = [max(a, b) for a, b in zip(k, s)]
            out.append(dict(opts, n=[rng.randint(1, 14) for _ in range(d)], k=k, s=s, d=[rng.randint(1, 3) if kw.get("dilated") else 1 for _ in range(d)]))
    elif mod == "t_padding" or func == "bad_options":
        out = bad_cases()
        b = (model or {}).get("bad_value")
        if b is not None:
            for c in out[:5]:
                out.append(dict(c, bad=b))
    elif func == "registries_task":
        out = [dict(task="registries")]
    elif func == "grid_task":
        pl = (model or {}).get("placement")
        if pl:
            for seed in range(3):
                out.append(dict(task="grid", group=kw["name"], rank=pl[0], axes=list(pl[1]), new=pl[2], sub=pl[3], induced=True, seed=seed,
                                n=list(tied_sizes(kw["name"], lambda a: rng.randint(2, 5)))))
    elif func == "group_task":
        pl = (model or {}).get("placement")
        if pl:
            for seed in range(3):
                out.append(dict(task="group", group=kw["name"], rank=pl[0], axes=list(pl[1]), group_axis=pl[2], new=pl[3], acting=kw["acting"],
                                domain=kw["domain"], seed=seed, n=list(tied_sizes(kw["name"], lambda a: rng.randint(2, 5)))))
    elif func == "upsample_task":
        pl = (model or {}).get("placement")
        if pl:
            out.append(dict(task="upsample", group=kw["name"], sub=pl[0], rank=pl[1], group_axis=pl[2], dtype=pl[3]))
    elif func in ("merge_task", "split_task", "index_task"):
        m = model or {}
        r = kw["rank"]
        for _ in range(3):
            sh = [rng.randint(1, 4) for _ in range(r)]
            if func == "merge_task":
                for what in ("move", "merge"):
                    out.append(dict(task="utils", what=what, axes=m.get("axes", [0, 1]), shape=sh))
            elif func == "split_task":
                for a in range(r):
                    left, right = rng.randint(1, 4), rng.randint(1, 4)
                    s2 = list(sh)
                    s2[a] = left * right
                    out.append(dict(task="utils", what="split", axis=a, left=left, shape=s2))
                    out.append(dict(task="utils", what="split", axis=a - r, left=left, shape=s2))
            else:
                out.append(dict(task="utils", what="index", shape=sh))
    elif func == "checker_task":
        base = dict(task="checker", group=kw["name"], acting=kw.get("acting", ""), domain=kw.get("domain", ""), target=kw.get("target", ""),
                    spatial=kw.get("spatial"), group_axis=kw.get("group_axis"), group_arg=kw.get("group_arg", True))
        for B in (1, 2, 3):
            if kw.get("wrong"):
                for w in ("wrong_in", "wrong_out"):
                    if base["domain" if w == "wrong_in" else "target"] is not None:
                        out += [dict(base, B=B, **{w: v}) for v in (1, 2, 5)]
                        if ORDER[kw["name"]] > 2:
                            out += [dict(base, B=B, **{w: -1})]
            else:
                out += [dict(base, B=B, seed=s) for s in (1, 2)]
                if base["domain"] == base["target"]:
                    out.append(dict(base, B=B, equivariant=True))
    elif func == "axioms_task":
        out = [c for c in cases("C01") if c["group"] == kw["name"]]
    elif func == "subgroups_task":
        out = [dict(task="subgroups", group=kw["name"])]
    elif func == "documented_task":
        out = [dict(task="documented", group=g) for g in ORDER]
    return out

"""Obligations: generated per path of the code under verification, then discharged or refuted.

Status of an obligation: 'proved' (with the back end), 'refuted' (with a concrete model on which the
two sides differ) or 'undecided'.
"""

import itertools
import random
import time
import traceback

from . import poly, terms, tensor as T
from .poly import ATOMS, SBool, SInt, Unsupported, binder, eq0, pkey
from .terms import to_rp


class Refuted(Exception):
    def __init__(self, what, model):
        super().__init__(what)
        self.what, self.model = what, model


class Report:
    """What was generated and decided in one task."""

    def __init__(self, name):
        self.name = name
        self.proved = 0
        self.by = {}
        self.failed = []  # (obligation, status, detail, model)
        self.paths = 0
        self.rejected = 0
        self.covers = {}
        self.notes = []
        self.functions = set()
        self.time = 0.0
        self.error = None

    def add(self, name, status, by="", detail="", model=None):
        if status == "proved":
            self.proved += 1
            self.by[by] = self.by.get(by, 0) + 1
        else:
            self.failed.append((name, status, detail, model))

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def as_dict(self):
        return {
            "task": self.name, "proved": self.proved, "by": self.by, "failed": self.failed, "paths": self.paths,
            "rejected": self.rejected, "covers": self.covers, "notes": self.notes, "time": self.time,
            "error": self.error, "functions": sorted(self.functions),
        }


REP = None  # the report of the running task


def models(ctx, count=6, atoms=()):
    """Small concrete models of the path."""
    out = list(ctx.samples()[:count])
    if not out:
        env = poly.z3_model(ctx)
        if env is not None:
            out = [env]
    return [dict(e) for e in out]


def free_sizes(ctx, env):
    return {ATOMS[a].name: v for a, v in env.items() if ATOMS[a].kind == "size"}


def complete(ctx, env, ids):
    """Give every base atom a value."""
    for a in poly.base_atoms(ids):
        ctx._value(env, a)
    return env


def small(ctx, env, shape, limit=200000):
    n = 1
    for s in shape:
        n *= ctx.evp(s, env)
    return n <= limit


def prove_formula(name, f, rep=None):
    """Discharge a formula over the integers on the current path."""
    rep = rep or REP
    ctx = poly.CTX
    before = (poly.STATS["z3_misses"] + poly.STATS["z3_hits"])
    if isinstance(f, bool):
        v = f
    elif ctx.prove(f):
        v = True
    else:
        v = None
    if v:
        rep.add(name, "proved", "z3" if (poly.STATS["z3_misses"] + poly.STATS["z3_hits"]) > before else "normal form")
        return True
    if v is None:
        f2 = ctx.nff(f)
        for env in itertools.chain(models(ctx, 30), (poly.z3_model(ctx, [poly.neg(f2)]) for _ in (1,))):
            if env is None:
                continue
            try:
                if not ctx.evf(f2, env):
                    rep.add(name, "refuted", "", f"{f2} fails", model(ctx, env))
                    return False
            except KeyError:
                continue
        rep.add(name, "undecided", "", f"{f2} not proved")
        return False
    envs = models(ctx, 1)
    rep.add(name, "refuted" if envs else "undecided", "", "false on this path", model(ctx, envs[0]) if envs else None)
    return False


def model(ctx, env):
    out = {"sizes": free_sizes(ctx, env), "path": [f"{f} is {v}" for f, v in ctx.pathlog][:12]}
    z = getattr(ctx, "sizes", None)
    if z is not None:
        full = NumEnv(ctx, env)

        def val(p):
            return ctx.evp(p, full) if isinstance(p, SInt) else p

        try:
            conc = {k: [val(v) for v in getattr(z, k)] for k in ("n", "k", "s", "d")}
            conc.update({k: val(getattr(z, k)) for k in "BCF"})
            if hasattr(z, "n2"):
                conc["n2"] = [val(v) for v in z.n2]
            out["concrete"] = conc
        except (KeyError, poly.PathAbort):
            pass
    return out


def prove_dims(name, a, b, rep=None):
    rep = rep or REP
    if len(a) != len(b):
        envs = models(poly.CTX, 1)
        rep.add(name, "refuted" if envs else "undecided", "", f"rank {len(a)} instead of {len(b)}", model(poly.CTX, envs[0]) if envs else None)
        return False
    return all([prove_formula(f"{name}[{i}]", _eq(x, y), rep) for i, (x, y) in enumerate(zip(a, b))])


def _eq(x, y):
    if x is None or y is None:
        return x is None and y is None
    d = x - y
    return eq0(d) if isinstance(d, SInt) else bool(d == 0)


def prove_value(name, a, b, rep=None, dims=()):
    """Discharge equality of two entries (reals or integers)."""
    rep = rep or REP
    ctx = poly.CTX
    before = (poly.STATS["z3_misses"] + poly.STATS["z3_hits"])
    try:
        if terms.equal(to_rp(a), to_rp(b)):
            rep.add(name, "proved", "z3" if (poly.STATS["z3_misses"] + poly.STATS["z3_hits"]) > before else "normal form")
            return True
    except Unsupported as e:
        rep.notes.append(f"{name}: {e}")
    m = refute_value(ctx, to_rp(a), to_rp(b))
    if m is not None:
        rep.add(name, "refuted", "", "the two sides differ", m)
    else:
        rep.add(name, "undecided", "", f"{terms.show(terms.to_rp(a))[:300]}  =?=  {terms.show(terms.to_rp(b))[:300]}")
    return False


def refute_value(ctx, a, b, tries=12):
    deadline = time.time() + 10
    an, bn = a, b
    ids = terms.rp_atoms(an) | terms.rp_atoms(bn)
    envs = models(ctx, 30)[:tries * 2]
    for env, cap in [(e, 12) for e in envs] + [(e, 100) for e in envs]:
        for _ in range(3):
            if time.time() > deadline:
                return None
            e = {k: v for k, v in env.items() if ATOMS[k].kind == "size"}
            try:
                for i in sorted(ids):
                    ctx._value(e, i)
                if max([v for k, v in e.items() if ATOMS[k].kind == "size"], default=0) > cap:
                    continue
                data = terms.random_data(0, {})
                full = NumEnv(ctx, e)
                va = terms.evr(an, full, data)
                vb = terms.evr(bn, full, data)
            except (KeyError, poly.PathAbort, terms.Undefined, ZeroDivisionError):
                continue
            if va != vb:
                m = model(ctx, {k: v for k, v in e.items()})
                m["index"] = {ATOMS[k].name: v for k, v in e.items() if ATOMS[k].kind == "binder"}
                m["values"] = [str(va), str(vb)]
                return m
    return None


class NumEnv(dict):
    """Atoms eliminated on the path are computed when needed."""

    def __init__(self, ctx, env):
        super().__init__(env)
        self.ctx = ctx

    def get(self, a, default=None):
        v = dict.get(self, a)
        if v is None:
            at = ATOMS[a]
            if at.kind == "binder":
                return default
            if at.kind != "size":
                return None
            v = self.ctx.evp(self.ctx.sub[a], self) if a in self.ctx.sub else self.ctx._draw(at, self)
            self[a] = v
        return v


def indices(shape, tag="i"):
    """Generic indices: a binder per symbolic axis, every index of a concrete one."""
    axes = []
    for d, n in enumerate(shape):
        if isinstance(n, SInt):
            axes.append([binder(f"{tag}{d}", n)])
        else:
            axes.append(list(range(n)))
    return itertools.product(*axes)


def prove_tensors(name, a, b, rep=None):
    """Discharge a == b: shapes, and every entry."""
    rep = rep or REP
    a, b = T.tensor(a), T.tensor(b)
    if not prove_dims(f"{name}.shape", a.shape, b.shape, rep):
        return False
    ctx = poly.CTX
    shape = tuple(ctx.nf(s) if isinstance(s, SInt) else s for s in a.shape)
    if not guard_nonempty(shape):
        pass
    ok = True
    for idx in indices(shape):
        try:
            x, y = a.at(idx), b.at(idx)
        except Unsupported as e:
            rep.add(f"{name}{show_idx(idx)}", "undecided", "", f"{e}")
            return False
        if not prove_value(f"{name}{show_idx(idx)}", x, y, rep):
            ok = False
            if len(rep.failed) > 4:
                return False
    return ok


def guard_nonempty(shape):
    return True


def show_idx(idx):
    return "[" + ",".join(poly.show(i) for i in idx) + "]"


def run_paths(rep, fn, limit=400, budget=None):
    """Run fn(ctx) on every path; Unsupported makes the task undecided."""
    global REP
    saved, REP = REP, rep
    t0 = time.time()
    try:
        pending = [[]]
        while pending:
            if rep.paths + rep.rejected > limit:
                rep.add("paths", "undecided", "", f"more than {limit} paths")
                break
            if budget and time.time() - t0 > budget:
                rep.add("budget", "undecided", "", f"more than {budget} s; {len(pending)} paths left")
                break
            ctx = poly.Ctx(pending.pop())
            old, poly.CTX = poly.CTX, ctx
            try:
                poly_path(rep, ctx, fn)
            finally:
                poly.CTX = old
                pending.extend(ctx.new)
    finally:
        REP = saved
        rep.time += time.time() - t0
    return rep


class Reject(Exception):
    """The path is outside of the property's precondition."""


def poly_path(rep, ctx, fn):
    try:
        fn(ctx)
        rep.paths += 1
    except poly.PathAbort:
        return
    except Reject:
        rep.rejected += 1
    except Unsupported as e:
        rep.paths += 1
        rep.add("supported", "undecided", "", f"{e}")
    except RecursionError as e:
        rep.paths += 1
        rep.add("supported", "undecided", "", "recursion limit")
    except Exception as e:
        rep.paths += 1
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/groco/" in f.filename or "keras" in f.filename.split("/")[-1]]
        envs = models(ctx, 1)
        feasible = poly.feasible(ctx)
        if not feasible:
            return
        rep.add(
            "no exception", "raised", f"{type(e).__name__}: {e} at {where[-1].filename if where else tb[-1].filename}:{(where[-1] if where else tb[-1]).lineno}",
            f"{type(e).__name__}: {e} at {(where or tb)[-1].filename}:{(where or tb)[-1].lineno}", model(ctx, envs[0]) if envs else None,
        )


def some_model(ctx):
    envs = models(ctx, 1)
    return model(ctx, envs[0]) if envs else {"sizes": {}, "path": [f"{f} is {v}" for f, v in ctx.pathlog]}

"""Real-valued terms: polynomials over interned atoms, their normal form, and their evaluation.

Floating-point values are treated as real numbers. Atoms are
  ('read', base, idx)                   an entry of an uninterpreted tensor
  ('iv', formula)                       Iverson bracket, 1 where the formula holds, else 0
  ('agg', op, binders, guard, body)     sum / max / min of body over the binders where guard holds
  ('nmax' | 'nmin', terms)              maximum / minimum of finitely many terms
  ('app', name, args)                   an uninterpreted function (activation, abs, 1/x, ...)
  ('size', atom id)                     an integer atom as a real
  ('inv', atom key)                     reciprocal of a positive integer polynomial
  ('lam', name, idx, binders, body)     a function of a whole tensor, at an output index
"""

import itertools
import math
from fractions import Fraction

from . import poly
from .poly import ATOMS, SBool, SInt, Unsupported, conj, ev, evf, ge0, map_f, neg, pkey, prove, subst, subst_f

NODES = []
_intern = {}


def reset():
    NODES.clear()
    _intern.clear()
    _submemo.clear()
    _atommemo.clear()


def node(kind, *args, key):
    k = (kind,) + key
    i = _intern.get(k)
    if i is None:
        i = len(NODES)
        _intern[k] = i
        NODES.append((kind,) + args)
    return i


class RP:
    """A polynomial over real atoms."""

    __slots__ = ("t", "_key")

    def __init__(self, t):
        self.t = t
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __add__(self, o):
        o = to_rp(o)
        if o is NotImplemented:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            c = t.get(m, 0) + c
            if c:
                t[m] = c
            else:
                del t[m]
        return RP(t)

    __radd__ = __add__

    def __neg__(self):
        return RP({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        o = to_rp(o)
        return o if o is NotImplemented else self + (-o)

    def __rsub__(self, o):
        return to_rp(o) - self

    def __mul__(self, o):
        o = to_rp(o)
        if o is NotImplemented:
            return o
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono(m1 + m2) if m1 and m2 else (m1 or m2)
                c = t.get(m, 0) + c1 * c2
                if c:
                    t[m] = c
                else:
                    del t[m]
        return RP(t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * recip(o)

    def __rtruediv__(self, o):
        return to_rp(o) * recip(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        raise Unsupported("comparison of tensor values in control flow")

    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__

    def __bool__(self):
        raise Unsupported("control flow depends on tensor values")

    def __float__(self):
        raise Unsupported("tensor value converted to float")

    def __repr__(self):
        return show(self)


def mono(m):
    m = sorted(m)
    out = []
    for a in m:
        # brackets are idempotent
        if out and out[-1] == a and NODES[a][0] == "iv":
            continue
        out.append(a)
    return tuple(out)


def const(c):
    c = Fraction(c) if isinstance(c, float) else c
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    return RP({(): c} if c else {})


def atom(i):
    return RP({(i,): 1})


def to_rp(x):
    if isinstance(x, RP):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return app("const" + str(x))
        return const(x)
    if isinstance(x, SInt):
        return RP({tuple(sorted(atom_size(a) for a in m)): c for m, c in x.t.items()})
    if isinstance(x, SBool):
        return iv(x)
    if type(x).__module__ == "numpy" and getattr(x, "shape", None) == ():
        return to_rp(x.item())
    return NotImplemented


def atom_size(a):
    return node("size", a, key=(a,))


def read(base, idx):
    return atom(node("read", base, tuple(idx), key=(base, tuple(map(pkey, idx)))))


def app(name, *args):
    args = tuple(map(to_rp, args))
    return atom(node("app", name, args, key=(name,) + tuple(a.key for a in args)))


def lam(name, idx, binders, body):
    return atom(
        node("lam", name, tuple(idx), tuple(binders), body, key=(name, tuple(map(pkey, idx)), tuple(binders), body.key))
    )


def iv(f):
    if isinstance(f, bool):
        return const(int(f))
    if poly.CTX is not None:
        v = poly.CTX.try_decide(f)
        if v is not None:
            return const(int(v))
    return iv_raw(f)


def iv_raw(f):
    if isinstance(f, bool):
        return const(int(f))
    if f.kind == "and":
        out = const(1)
        for x in f.a:
            out = out * iv_raw(x)
        return out
    if f.kind == "or":
        out = const(1)
        for x in f.a:
            out = out * (const(1) - iv_raw(x))
        return const(1) - out
    if f.kind == "not":
        return const(1) - iv_raw(f.a)
    return atom(node("iv", f, key=(f.key,)))


def ite(c, a, b):
    """a() where c holds, b() elsewhere; a and b are thunks, only evaluated where needed."""
    if isinstance(c, SBool):
        v = poly.CTX.try_decide(c) if poly.CTX is not None else None
        c = c if v is None else v
    if not isinstance(c, SBool):
        return a() if c else b()
    ctx = poly.CTX
    with guarded(c):
        x = a()
    with guarded(neg(c)):
        y = b()
    if isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)) and not isinstance(x, bool):
        if pkey(x) == pkey(y):
            return x
        if not isinstance(x, SInt) and not isinstance(y, SInt):
            return y + (x - y) * iv(c) if not (x == 0 and y == 0) else 0
        raise Unsupported("an index depends on an undetermined condition")
    x, y = to_rp(x), to_rp(y)
    if not y.t:
        return iv(c) * x
    b1 = iv(c)
    return b1 * x + (const(1) - b1) * y


class guarded:
    """Conditions under which a value is being computed."""

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        ctx = poly.CTX
        if ctx is not None and isinstance(self.f, SBool):
            ctx.guards.append(self.f)

    def __exit__(self, *a):
        ctx = poly.CTX
        if ctx is not None and isinstance(self.f, SBool):
            ctx.guards.pop()


def recip(x):
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return const(Fraction(1) / x)
    if isinstance(x, float):
        return const(1 / Fraction(x))
    if isinstance(x, SInt):
        return inv(x)
    x = to_rp(x)
    if len(x.t) == 1 and () in x.t:
        return const(Fraction(1) / x.t[()])
    if all(NODES[a][0] == "size" for m in x.t for a in m):
        return inv(poly.mk({tuple(sorted(NODES[a][1] for a in m)): c for m, c in x.t.items()}))
    return app("recip", x)


def inv(p):
    if not isinstance(p, SInt):
        return const(Fraction(1) / p)
    g = math.gcd(*p.t.values())
    common = None
    for m in p.t:
        if common is None:
            common = list(m)
        else:
            mm = list(m)
            nc = []
            for a in common:
                if a in mm:
                    mm.remove(a)
                    nc.append(a)
            common = nc
    t = {}
    for m, c in p.t.items():
        mm = list(m)
        for a in common:
            mm.remove(a)
        t[tuple(mm)] = c // g
    rest = poly.mk(t)
    out = const(Fraction(1, g))
    for a in common:
        out = out * atom(node("inv", SInt({(a,): 1}), key=(SInt({(a,): 1}).key,)))
    if isinstance(rest, SInt):
        out = out * atom(node("inv", rest, key=(rest.key,)))
    elif rest != 1:
        out = out * const(Fraction(1, rest))
    return out


def agg(op, binders, guard, body):
    """Aggregate body over binder atoms (ids), where guard (list of formulas) holds."""
    body = to_rp(body)
    if any(g is False for g in guard):
        return const(0) if op == "sum" else app("empty" + op)
    guard = [g for g in guard if g is not True]
    guard = tuple(sorted({g.key: g for g in guard}.items(), key=lambda kv: repr(kv[0])))
    gk = tuple(k for k, _ in guard)
    gs = tuple(g for _, g in guard)
    return atom(node("agg", op, tuple(binders), gs, body, key=(op, tuple(binders), gk, body.key)))


def extremum(op, terms):
    """op: 'nmax' or 'nmin'."""
    out = {}
    for x in terms:
        x = to_rp(x)
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and NODES[m[0]][0] == op:
                for y in NODES[m[0]][1]:
                    out[y.key] = y
                continue
        out[x.key] = x
    if len(out) == 1:
        return next(iter(out.values()))
    # conditions common to all: max([p] a, [p] b) = [p] max(a, b)
    common = None
    for x in out.values():
        for m in x.t:
            ivs = {a for a in m if NODES[a][0] == "iv"}
            common = ivs if common is None else common & ivs
            if not common:
                break
    if common:
        rest = extremum(op, [RP({tuple(a for a in m if a not in common): c for m, c in x.t.items()}) for x in out.values()])
        for a in common:
            rest = rest * atom(a)
        return rest
    items = sorted(out.items())
    return atom(node(op, tuple(v for _, v in items), key=tuple(k for k, _ in items)))


# ---------------------------------------------------------------- traversal

def map_rp(x, fatom):
    """Replace every atom by fatom(id) (an RP)."""
    out = RP({})
    for m, c in x.t.items():
        t = const(c)
        plain = []
        for a in m:
            r = fatom(a)
            if len(r.t) == 1:
                (mm, cc), = r.t.items()
                if cc == 1:
                    plain.extend(mm)
                    continue
            t = t * r
        if plain:
            t = RP({mono(tuple(plain)): 1}) * t
        out = out + t
    return out


_submemo = {}


def sub_rp(x, mapping, mkey=None):
    """Substitute integer atoms in a term."""
    if mkey is None:
        mkey = tuple(sorted((k, pkey(v)) for k, v in mapping.items()))
    return map_rp(x, lambda a: sub_atom(a, mapping, mkey))


def sub_atom(a, mapping, mkey):
    # per path: a quotient may simplify by the path's facts
    memo = _submemo if poly.CTX is None else poly.CTX.submemo
    k = (a, mkey)
    r = memo.get(k)
    if r is None:
        r = memo[k] = _sub_atom(a, mapping, mkey)
    return r


def _sub_atom(a, mapping, mkey):
    n = NODES[a]
    kind = n[0]
    if kind == "read":
        return read(n[1], [subst(i, mapping) for i in n[2]])
    if kind == "iv":
        return iv_raw(subst_f(n[1], mapping))
    if kind == "agg":
        return agg(n[1], n[2], [g for g in (subst_f(g, mapping) for g in n[3]) if g is not True], sub_rp(n[4], mapping, mkey))
    if kind in ("nmax", "nmin"):
        return extremum(kind, [sub_rp(y, mapping, mkey) for y in n[1]])
    if kind == "app":
        return app(n[1], *[sub_rp(y, mapping, mkey) for y in n[2]])
    if kind == "lam":
        return lam(n[1], [subst(i, mapping) for i in n[2]], n[3], sub_rp(n[4], mapping, mkey))
    if kind == "size":
        return to_rp(subst(SInt({(n[1],): 1}), mapping))
    if kind == "inv":
        return inv(subst(n[1], mapping))
    raise AssertionError(kind)


_atommemo = {}


def int_atoms(a):
    """Integer atoms occurring free in a real atom."""
    n = NODES[a]
    kind = n[0]
    if kind == "read":
        return set().union(*(poly.atoms_of(i) for i in n[2])) if n[2] else set()
    if kind == "iv":
        return poly.f_atoms(n[1])
    if kind == "agg":
        out = rp_atoms(n[4]).union(*(poly.f_atoms(g) for g in n[3])) if n[3] else rp_atoms(n[4])
        out = set(out)
        for b in n[2]:
            out |= poly.atoms_of(ATOMS[b].size)
        return out - set(n[2])
    if kind in ("nmax", "nmin"):
        return set().union(*(rp_atoms(y) for y in n[1]))
    if kind == "app":
        return set().union(*(rp_atoms(y) for y in n[2])) if n[2] else set()
    if kind == "lam":
        return (set().union(*(poly.atoms_of(i) for i in n[2])) | rp_atoms(n[4])) - set(n[3])
    if kind == "size":
        return {n[1]}
    if kind == "inv":
        return poly.atoms_of(n[1])
    raise AssertionError(kind)


def rp_atoms(x):
    out = set()
    for m in x.t:
        for a in m:
            out |= int_atoms(a)
    return out


def show(x, depth=0):
    if not x.t:
        return "0"
    out = []
    for m, c in sorted(x.t.items())[:6]:
        fs = [show_atom(a, depth) for a in m]
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append("*".join(fs))
    if len(x.t) > 6:
        out.append(f"... ({len(x.t)} terms)")
    return " + ".join(out)


def show_atom(a, depth=0):
    n = NODES[a]
    kind = n[0]
    if depth > 5:
        return "..."
    if kind == "read":
        return f"{n[1]}[{', '.join(map(poly.show, n[2]))}]"
    if kind == "iv":
        return f"[{n[1]}]"
    if kind == "agg":
        b = ", ".join(f"{ATOMS[i].name}<{poly.show(ATOMS[i].size)}" for i in n[2])
        g = f" | {' and '.join(map(str, n[3]))}" if n[3] else ""
        return f"{n[1]}({b}{g})({show(n[4], depth + 1)})"
    if kind in ("nmax", "nmin"):
        return f"{kind[1:]}({', '.join(show(y, depth + 1) for y in n[1][:4])}{', ...' if len(n[1]) > 4 else ''})"
    if kind == "app":
        return f"{n[1]}({', '.join(show(y, depth + 1) for y in n[2])})"
    if kind == "lam":
        return f"{n[1]}<{', '.join(map(poly.show, n[2]))}>({show(n[4], depth + 1)})"
    if kind == "size":
        return ATOMS[n[1]].name
    return f"1/({poly.show(n[1])})"


# ---------------------------------------------------------------- normal form

def normalize(x, depth=0):
    """Canonical form modulo the path's facts: binders renamed, flipped and ordered canonically."""
    ctx = poly.CTX
    return map_rp(to_rp(x), lambda a: norm_atom(a, depth, ctx))


def norm_atom(a, depth, ctx):
    k = (a, depth, ctx.version)
    r = ctx.normmemo.get(k)
    if r is None:
        r = _norm_atom(a, depth, ctx)
        ctx.normmemo[k] = r
    return r


def _norm_atom(a, depth, ctx):
    n = NODES[a]
    kind = n[0]
    if kind == "read":
        return read(n[1], [ctx.nf(i) for i in n[2]])
    if kind == "iv":
        f = ctx.nff(n[1])
        v = ctx.try_decide(f)
        return iv_raw(f) if v is None else const(int(v))
    if kind == "app":
        args = [normalize(y, depth) for y in n[2]]
        if n[1] == "abs" and args[0].t:
            lead = min(args[0].t)
            if args[0].t[lead] < 0:
                args = [-args[0]]
        return app(n[1], *args)
    if kind in ("nmax", "nmin"):
        return extremum(kind, [normalize(y, depth) for y in n[1]])
    if kind == "size":
        return to_rp(ctx.nf(SInt({(n[1],): 1})))
    if kind == "inv":
        return inv(ctx.nf(n[1]))
    if kind == "lam":
        cb = []
        mapping = {}
        for i, b in enumerate(n[3]):
            v = poly.binder(f"l{depth}.{i}", ctx.nf(ATOMS[b].size))
            mapping[b] = v
            cb.append(next(iter(v.t))[0])
        return lam(n[1], [ctx.nf(i) for i in n[2]], cb, normalize(sub_rp(n[4], mapping), depth + 1))
    if kind == "agg":
        op, binders, guard, body = n[1:]
        return norm_agg(op, binders, list(guard), body, depth, ctx)
    raise AssertionError(kind)


def norm_agg(op, binders, guard, body, depth, ctx):
    body = normalize(body, depth + 1)
    guard = [ctx.nff(g) for g in guard]
    if any(g is False for g in guard):
        return const(0) if op == "sum" else app("empty" + op)
    guard = [g for g in guard if g is not True]
    if op == "sum":
        out = RP({})
        for m, c in body.t.items():
            out = out + const(c) * norm_sum(binders, guard, m, depth, ctx)
        return out
    # max / min
    if len(body.t) == 1:
        (m, c), = body.t.items()
        if c == 1 and len(m) == 1:
            nn = NODES[m[0]]
            if nn[0] == "n" + op and nn[1]:
                return extremum("n" + op, [norm_agg(op, binders, guard, y, depth, ctx) for y in nn[1]])
            if nn[0] == "agg" and nn[1] == op:
                inner = {b: poly.binder(f"m{depth}.{j}", ATOMS[b].size) for j, b in enumerate(nn[2])}
                ib = [next(iter(v.t))[0] for v in inner.values()]
                return norm_agg(
                    op, tuple(binders) + tuple(ib), guard + [subst_f(g, inner) for g in nn[3]],
                    sub_rp(nn[4], inner), depth, ctx,
                )
    return finish_agg(op, binders, guard, body, depth, ctx)


def norm_sum(binders, guard, m, depth, ctx):
    guard = list(guard)
    factors = []
    nested = None
    for a in m:
        n = NODES[a]
        if n[0] == "iv":
            guard.append(n[1])
        else:
            if n[0] == "agg" and n[1] == "sum" and nested is None:
                nested = a
            factors.append(a)
    if nested is not None and int_atoms(nested) & set(binders):
        nn = NODES[nested]
        inner = {b: poly.binder(f"m{depth}.{j}", ATOMS[b].size) for j, b in enumerate(nn[2])}
        ib = [next(iter(v.t))[0] for v in inner.values()]
        rest = list(factors)
        rest.remove(nested)
        b2 = RP({mono(tuple(rest)): 1}) * sub_rp(nn[4], inner)
        return norm_agg("sum", tuple(binders) + tuple(ib), guard + [subst_f(g, inner) for g in nn[3]], b2, depth, ctx)
    bs = set(binders)
    outer = [a for a in factors if not (int_atoms(a) & bs)]
    body = [a for a in factors if a not in outer]
    og = [g for g in guard if not (poly.f_atoms(g) & bs)]
    guard = [g for g in guard if poly.f_atoms(g) & bs]
    out = RP({mono(tuple(outer)): 1})
    for g in og:
        out = out * iv(g)
    return out * finish_agg("sum", binders, guard, RP({mono(tuple(body)): 1}), depth, ctx)


def _reads(x, out):
    """All reads in a term, in an order that does not depend on interning."""
    for m in x.t:
        for a in m:
            n = NODES[a]
            if n[0] == "read":
                out.append((n[1], n[2]))
            elif n[0] == "agg":
                _reads(n[4], out)
            elif n[0] in ("nmax", "nmin"):
                for y in n[1]:
                    _reads(y, out)
            elif n[0] == "app":
                for y in n[2]:
                    _reads(y, out)
            elif n[0] == "lam":
                out.append(("~" + n[1], n[2]))
                _reads(n[4], out)


def _lead_coef(p, a):
    """Sign and monomial of the coefficient of atom a in p."""
    best = None
    for m, c in p.t.items():
        if a in m:
            mm = list(m)
            mm.remove(a)
            k = (len(mm), tuple(mm))
            if best is None or k < best[0]:
                best = (k, c)
    return best


def finish_agg(op, binders, guard, body, depth, ctx):
    guard = simplify_guard(guard, binders, ctx)
    if guard is False:
        return const(0) if op == "sum" else app("empty" + op)
    used = set(rp_atoms(body))
    for g in guard:
        used |= poly.f_atoms(g)
    factor = const(1)
    live = []
    for b in binders:
        if b in used:
            live.append(b)
        elif op == "sum":
            factor = factor * to_rp(ctx.nf(ATOMS[b].size))
        elif not prove(ge0(ATOMS[b].size - 1) if isinstance(ATOMS[b].size, SInt) else ATOMS[b].size >= 1):
            live.append(b)  # the range may be empty
    if not live:
        if guard and op == "sum":
            for g in guard:
                factor = factor * iv(g)
        elif guard:
            return agg(op, (), guard, body)
        return factor * body
    # canonical order and orientation, from the reads
    reads = []
    _reads(body, reads)
    live_set = set(live)
    reads = [(b, i) for b, i in reads if any(poly.atoms_of(p) & live_set for p in i)]
    reads.sort(key=lambda r: (r[0], len(r[1])))
    order, flips = [], {}
    for base, idx in reads:
        for p in idx:
            if not isinstance(p, SInt):
                continue
            here = [(_lead_coef(p, a), a) for a in poly.atoms_of(p) & live_set if any(a in m for m in p.t)]
            here.sort(key=lambda x: (x[0][0], abs(x[0][1])))
            for (k, c), a in here:
                if a not in order:
                    order.append(a)
                    if c < 0:
                        flips[a] = ATOMS[a].size - 1 - SInt({(a,): 1})
    rest = [a for a in live if a not in order]
    if rest:
        for g in guard:
            for p in _guard_polys(g):
                here = [(_lead_coef(p, a), a) for a in poly.atoms_of(p) & set(rest) if any(a in m for m in p.t)]
                here.sort(key=lambda x: (x[0][0], abs(x[0][1])))
                for (k, c), a in here:
                    if a not in order:
                        order.append(a)
        order += [a for a in rest if a not in order]
    mapping = {}
    cb = []
    for i, a in enumerate(order):
        v = poly.binder(f"b{depth}.{i}", ctx.nf(ATOMS[a].size))
        cb.append(next(iter(v.t))[0])
        mapping[a] = v if a not in flips else ATOMS[a].size - 1 - v
    # two steps, so that canonical names may coincide with old ones
    tmp = {a: poly.binder(f"t{depth}.{i}", ctx.nf(ATOMS[a].size)) for i, a in enumerate(order)}
    back = {next(iter(tmp[a].t))[0]: mapping[a] for a in order}
    body = nf_rp(sub_rp(sub_rp(body, tmp), back), ctx)
    guard = [ctx.nff(subst_f(subst_f(g, tmp), back)) for g in guard]
    guard = simplify_guard(guard, cb, ctx)
    return factor * agg(op, cb, guard, body)


def _guard_polys(g):
    if isinstance(g, bool):
        return []
    if g.kind in ("ge", "eq"):
        return [g.a]
    if g.kind == "not":
        return _guard_polys(g.a)
    return [p for x in g.a for p in _guard_polys(x)]


def nf_rp(x, ctx):
    """Apply the path's equations to all indices, without reorganising binders."""
    return map_rp(x, lambda a: nf_atom(a, ctx))


def nf_atom(a, ctx):
    n = NODES[a]
    if n[0] == "read":
        return read(n[1], [ctx.nf(i) for i in n[2]])
    if n[0] == "iv":
        f = ctx.nff(n[1])
        v = ctx.try_decide(f)
        return iv_raw(f) if v is None else const(int(v))
    if n[0] == "app":
        return app(n[1], *[nf_rp(y, ctx) for y in n[2]])
    if n[0] in ("nmax", "nmin"):
        return extremum(n[0], [nf_rp(y, ctx) for y in n[1]])
    if n[0] == "agg":
        return agg(n[1], n[2], simplify_guard([ctx.nff(g) for g in n[3]], n[2], ctx) or [], nf_rp(n[4], ctx))
    if n[0] == "lam":
        return lam(n[1], [ctx.nf(i) for i in n[2]], n[3], nf_rp(n[4], ctx))
    return atom(a)


def simplify_guard(guard, binders, ctx):
    """Drop conjuncts that always hold or follow from another; False if contradictory."""
    out = {}
    for g in guard:
        for c in (g.a if isinstance(g, SBool) and g.kind == "and" else (g,)):
            v = ctx.try_decide(c)
            if v is False:
                return False
            if v is None:
                c = ctx.nff(c)
                out[c.key] = c
    items = list(out.values())
    if len(items) > 1:
        keep = []
        for i, b in enumerate(items):
            redundant = False
            if b.kind == "ge":
                for j, a in enumerate(items):
                    if i != j and a.kind == "ge" and poly.atoms_of(a.a) & poly.atoms_of(b.a):
                        k = (a.key, b.key, j > i, ctx.version, tuple(g.key for g in ctx.guards))
                        redundant = ctx.redundant.get(k)
                        if redundant is None:
                            redundant = False
                            d = b.a - a.a
                            if not isinstance(d, SInt):
                                if d > 0:
                                    redundant = True
                            elif ctx.prove(ge0(d)) and not (j > i and ctx.prove(ge0(-d))):
                                redundant = True
                            ctx.redundant[k] = redundant
                    if redundant:
                        break
            if not redundant:
                keep.append(b)
        items = keep
    return items


# ---------------------------------------------------------------- equality

def equal(x, y):
    """True if x == y is proved, else None."""
    x, y = to_rp(x), to_rp(y)
    if x.key == y.key:
        return True
    d = normalize(x) - normalize(y)
    d = cancel_sizes(d)
    if not d.t:
        return True
    d = drop_redundant_brackets(d)
    if not d.t:
        return True
    return True if unify_rp_zero(d) else None


def cancel_sizes(d):
    """n * (1/n) = 1."""
    out = RP({})
    changed = False
    for m, c in d.t.items():
        mm = list(m)
        for a in list(m):
            n = NODES[a]
            if n[0] == "inv" and len(n[1].t) == 1:
                (k, cc), = n[1].t.items()
                if len(k) == 1 and cc == 1:
                    s = atom_size(k[0])
                    if s in mm and a in mm:
                        mm.remove(s)
                        mm.remove(a)
                        changed = True
        out = out + RP({tuple(mm): c})
    return out if changed else d


def drop_redundant_brackets(d):
    ctx = poly.CTX
    out = RP({})
    for m, c in d.t.items():
        ivs = [NODES[a][1] for a in m if NODES[a][0] == "iv"]
        rest = tuple(a for a in m if NODES[a][0] != "iv")
        if len(ivs) > 1:
            g = simplify_guard(ivs, (), ctx)
            if g is False:
                continue
            t = RP({rest: c})
            for f in g:
                t = t * iv_raw(f)
            out = out + t
        else:
            out = out + RP({m: c})
    return out


def unify_rp_zero(d):
    """Cancel monomials pairwise by provable equality of their parts."""
    pos = [(m, c) for m, c in d.t.items() if c > 0]
    negs = [(m, -c) for m, c in d.t.items() if c < 0]
    if len(pos) != len(negs) or len(pos) > 200:
        return False
    for m, c in pos:
        for i, (m2, c2) in enumerate(negs):
            if c == c2 and unify_mono(m, m2):
                negs.pop(i)
                break
        else:
            return False
    return True


def unify_mono(m1, m2):
    if len(m1) != len(m2):
        return False
    m2 = list(m2)
    for a in m1:
        if a in m2:
            m2.remove(a)
            continue
        for b in m2:
            if unify_atom(a, b):
                m2.remove(b)
                break
        else:
            return False
    return True


def unify_rp(x, y):
    if x.key == y.key:
        return True
    return unify_rp_zero(x - y)


def unify_atom(a, b):
    p, q = NODES[a], NODES[b]
    if p[0] != q[0]:
        return False
    if p[0] == "read":
        return p[1] == q[1] and len(p[2]) == len(q[2]) and all(prove(poly.eq0(i - j)) if isinstance(i - j, SInt) else i == j for i, j in zip(p[2], q[2]))
    if p[0] == "iv":
        return equiv(p[1], q[1])
    if p[0] == "app":
        return p[1] == q[1] and len(p[2]) == len(q[2]) and all(unify_rp(x, y) for x, y in zip(p[2], q[2]))
    if p[0] == "agg":
        if p[1] != q[1] or len(p[2]) != len(q[2]):
            return False
        if p[2] == q[2] and guards_equiv(p[3], q[3]) and unify_rp(p[4], q[4]):
            return True
        return unify_binders(p, q)
    if p[0] == "lam":
        return (
            p[1] == q[1] and p[3] == q[3] and len(p[2]) == len(q[2])
            and all(prove(poly.eq0(i - j)) if isinstance(i - j, SInt) else i == j for i, j in zip(p[2], q[2]))
            and unify_rp(p[4], q[4])
        )
    if p[0] in ("nmax", "nmin"):
        ys = list(q[1])
        if len(ys) != len(p[1]):
            return False
        for x in p[1]:
            for i, y in enumerate(ys):
                if unify_rp(x, y):
                    ys.pop(i)
                    break
            else:
                return False
        return True
    return False


def unify_binders(p, q):
    """Try the other orders and orientations of the binders."""
    n = len(p[2])
    if n > 3:
        return False
    sizes = [ATOMS[b].size for b in p[2]]
    for perm in itertools.permutations(range(n)):
        qs = [ATOMS[q[2][j]].size for j in perm]
        if not all(prove_eq(a, b) for a, b in zip(sizes, qs)):
            continue
        for flip in itertools.product((False, True), repeat=n):
            if perm == tuple(range(n)) and not any(flip):
                continue
            mapping = {}
            for i, j in enumerate(perm):
                v = SInt({(p[2][i],): 1})
                mapping[q[2][j]] = sizes[i] - 1 - v if flip[i] else v
            g2 = [g for g in (subst_f(g, mapping) for g in q[3]) if g is not True]
            if any(g is False for g in g2) or not guards_equiv(p[3], g2):
                continue
            ctx = poly.CTX
            if unify_rp(p[4], nf_rp(sub_rp(q[4], mapping), ctx)):
                return True
    return False


def prove_eq(a, b):
    d = a - b
    return prove(poly.eq0(d)) if isinstance(d, SInt) else d == 0


def equiv(f, g):
    if isinstance(f, bool) or isinstance(g, bool):
        return f is g
    if f.key == g.key:
        return True
    if f.kind == g.kind == "ge" or f.kind == g.kind == "eq":
        d = f.a - g.a
        if not isinstance(d, SInt):
            return d == 0
        if prove(poly.eq0(d)):
            return True
    ctx = poly.CTX
    return bool(ctx.prove(poly.disj(neg(f), g)) and ctx.prove(poly.disj(neg(g), f)))


def guards_equiv(gs, hs):
    if [g.key for g in gs] == [h.key for h in hs]:
        return True
    a, b = conj(*gs), conj(*hs)
    ctx = poly.CTX
    return all(ctx.prove(poly.disj(*[neg(x) for x in gs], h)) for h in hs) and all(
        ctx.prove(poly.disj(*[neg(x) for x in hs], g)) for g in gs
    )


# ---------------------------------------------------------------- numeric evaluation

class Undefined(Exception):
    pass


def _h(*xs):
    # deterministic small pseudo-random rationals
    h = 1469598103934665603
    for x in repr(xs).encode():
        h = ((h ^ x) * 1099511628211) % (1 << 64)
    h ^= h >> 29
    return (h % 2001) - 1000


def evr(x, env, data):
    tot = 0
    for m, c in x.t.items():
        v = c
        for a in m:
            if NODES[a][0] == "iv":
                if not evf(NODES[a][1], env):
                    v = 0
                    break
        if v:
            for a in m:
                if NODES[a][0] != "iv":
                    v = v * eva(a, env, data)
        tot = tot + v
    return tot


def eva(a, env, data):
    n = NODES[a]
    kind = n[0]
    if kind == "read":
        return data(n[1], tuple(ev(i, env) for i in n[2]))
    if kind == "app":
        args = [evr(y, env, data) for y in n[2]]
        return apply_fn(n[1], args)
    if kind == "nmax":
        return max(evr(y, env, data) for y in n[1])
    if kind == "nmin":
        return min(evr(y, env, data) for y in n[1])
    if kind == "size":
        return ev(SInt({(n[1],): 1}), env)
    if kind == "inv":
        return Fraction(1, ev(n[1], env))
    if kind == "iv":
        return int(evf(n[1], env))
    if kind == "agg":
        op, binders, guard, body = n[1:]
        vals = []
        for e in assignments(binders, env):
            if all(evf(g, e) for g in guard):
                vals.append(evr(body, e, data))
        if op == "sum":
            return sum(vals)
        if not vals:
            return Fraction(-10**9) if op == "max" else Fraction(10**9)
        return max(vals) if op == "max" else min(vals)
    if kind == "lam":
        vals = []
        for e in assignments(n[3], env):
            vals.append(evr(n[4], e, data))
        return _h(n[1], tuple(ev(i, env) for i in n[2]), tuple(map(str, vals)))
    raise AssertionError(kind)


def assignments(binders, env):
    if not binders:
        yield dict((k, v) for k, v in env.items() if ATOMS[k].kind != "quot" or True)
        return
    b, rest = binders[0], binders[1:]
    for i in range(ev(ATOMS[b].size, env)):
        e = {k: v for k, v in env.items() if ATOMS[k].kind != "quot"}
        e[b] = i
        yield from assignments(rest, e)


def apply_fn(name, args):
    if name == "abs":
        return abs(args[0])
    if name == "relu":
        return max(args[0], 0)
    if name == "recip":
        return Fraction(1) / args[0] if args[0] else Fraction(0)
    if name.startswith("const"):
        f = float(name[5:])
        return Fraction(10**9) if f > 0 else Fraction(-10**9)
    if name.startswith("empty"):
        return Fraction(-10**9) if name.endswith("max") else Fraction(10**9)
    return _h(name, tuple(map(str, args)))


def random_data(seed, shapes):
    """Random entries for the uninterpreted tensors; reads out of range are an error."""

    def data(base, idx):
        shape = shapes.get(base)
        if shape is not None:
            if len(shape) != len(idx) or any(not 0 <= i < s for i, s in zip(idx, shape)):
                raise Undefined(f"read of {base}{list(idx)} outside of its shape {list(shape)}")
        return _h(seed, base, idx)

    return data

"""Symbolic integers: multivariate polynomials with exact floor division, path conditions and
the obligations' arithmetic.

An integer is a Python int or an SInt, a polynomial over atoms. Atoms are
 - sizes:     free symbols with a constant lower bound (input sizes, kernel sizes, strides, ...),
 - binders:   index variables ranging over 0 <= v < size,
 - quotients: floor(a / b) of two polynomials with b > 0, defined by 0 <= a - q b <= b - 1.

Deciding a formula tries, in this order: polynomial normal form, the extremal-corner argument for
binders, z3 on the formula with monomials abstracted to integers (sound: it forgets facts), and
z3 on the nonlinear formula itself.
"""

import builtins
import itertools
import math
import random
import time
from fractions import Fraction

import z3

int_ = builtins.int


class Unsupported(Exception):
    """The code does something the verifier has no contract for: undecided, never a violation."""


class PathAbort(BaseException):
    """The current path is infeasible."""


# ---------------------------------------------------------------- atoms

class Atom:
    __slots__ = ("id", "name", "kind", "lb", "size", "defn", "deps")

    def __init__(self, name, kind, lb=None, size=None, defn=None):
        self.id = len(ATOMS)
        self.name, self.kind, self.lb, self.size, self.defn = name, kind, lb, size, defn
        self.deps = frozenset()  # the binders a quotient depends on
        if defn is not None:
            ids = atoms_of(defn[0]) | atoms_of(defn[1])
            self.deps = frozenset(a for a in ids if ATOMS[a].kind == "binder")
        ATOMS.append(self)


ATOMS = []
_named = {}
_quotients = {}


def reset():
    global CTX
    ATOMS.clear()
    _named.clear()
    _quotients.clear()
    _nonneg_memo.clear()
    _fas.clear()
    _part_samples.clear()
    _queries.clear()
    CTX = None


def size_symbol(name, lb=1):
    """A free size, at least lb. The same name always gives the same symbol."""
    key = ("size", name, lb)
    if key not in _named:
        _named[key] = Atom(name, "size", lb=lb)
    return SInt({(_named[key].id,): 1})


def binder(name, size):
    """An index variable 0 <= v < size."""
    key = ("binder", name, pkey(size))
    if key not in _named:
        _named[key] = Atom(name, "binder", lb=0, size=size)
    return SInt({(_named[key].id,): 1})


# ---------------------------------------------------------------- polynomials

class SInt:
    __slots__ = ("t", "_key", "_hash")

    def __init__(self, terms):
        self.t = terms
        self._key = None
        self._hash = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    # arithmetic
    def __add__(self, o):
        o = as_terms(o)
        return NotImplemented if o is None else mk(add_terms(self.t, o))

    __radd__ = __add__

    def __neg__(self):
        return SInt({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = as_terms(o)
        return NotImplemented if o is None else mk(add_terms(self.t, o, -1))

    def __rsub__(self, o):
        o = as_terms(o)
        return NotImplemented if o is None else mk(add_terms(o, self.t, -1))

    def __mul__(self, o):
        o = as_terms(o)
        return NotImplemented if o is None else mk(mul_terms(self.t, o))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return NotImplemented if as_terms(o) is None else sdivmod(self, o)[0]

    def __rfloordiv__(self, o):
        return NotImplemented if as_terms(o) is None else sdivmod(o, self)[0]

    def __mod__(self, o):
        return NotImplemented if as_terms(o) is None else sdivmod(self, o)[1]

    def __rmod__(self, o):
        return NotImplemented if as_terms(o) is None else sdivmod(o, self)[1]

    def __divmod__(self, o):
        return sdivmod(self, o)

    def __rdivmod__(self, o):
        return sdivmod(o, self)

    def __truediv__(self, o):
        return NotImplemented if as_terms(o) is None else SFrac(self, o)

    def __rtruediv__(self, o):
        return NotImplemented if as_terms(o) is None else SFrac(o, self)

    def __pow__(self, n):
        out = 1
        for _ in range(n):
            out = out * self
        return out

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __round__ = __floor__

    # comparisons
    def __eq__(self, o):
        if o is None or as_terms(o) is None:
            return False
        return eq0(self - o)

    def __ne__(self, o):
        if o is None or as_terms(o) is None:
            return True
        return neg(eq0(self - o))

    def __ge__(self, o):
        return ge0(self - o) if as_terms(o) is not None else NotImplemented

    def __le__(self, o):
        return ge0(o - self) if as_terms(o) is not None else NotImplemented

    def __gt__(self, o):
        return ge0(self - o - 1) if as_terms(o) is not None else NotImplemented

    def __lt__(self, o):
        return ge0(o - self - 1) if as_terms(o) is not None else NotImplemented

    def __bool__(self):
        return bool(neg(eq0(self)))

    def __hash__(self):
        # equality may hold by the path condition only, so hash by value is impossible:
        # a constant hash keeps dict and set lookups correct (they compare with ==)
        return 7

    def __index__(self):
        raise Unsupported("symbolic integer used where a concrete one is needed")

    def __int__(self):
        raise Unsupported("symbolic integer converted to a machine integer")

    def __float__(self):
        raise Unsupported("symbolic integer converted to float")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def __repr__(self):
        return show(self)

    __str__ = __repr__

    def __format__(self, spec):
        return show(self)


class SFrac:
    """num / den, only to be rounded again."""

    def __init__(self, num, den):
        self.num, self.den = num, den

    def __floor__(self):
        return sdivmod(self.num, self.den)[0]

    def __ceil__(self):
        return -sdivmod(-self.num, self.den)[0]

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def __add__(self, o):
        return SFrac(self.num + o * self.den, self.den)

    __radd__ = __add__

    def __sub__(self, o):
        return SFrac(self.num - o * self.den, self.den)

    def __rsub__(self, o):
        return SFrac(o * self.den - self.num, self.den)

    def __neg__(self):
        return SFrac(-self.num, self.den)

    def __float__(self):
        raise Unsupported("symbolic fraction converted to float")

    def __int__(self):
        raise Unsupported("symbolic fraction converted to int")


def as_terms(o):
    if isinstance(o, SInt):
        return o.t
    if isinstance(o, (bool, int_)) or type(o).__module__ == "numpy" and hasattr(o, "dtype") and getattr(o, "shape", None) == () and o.dtype.kind in "iub":
        o = int_(o)
        return {(): o} if o else {}
    if isinstance(o, float) and o.is_integer():
        return {(): int_(o)} if o else {}
    return None


def mk(terms):
    if not terms:
        return 0
    if len(terms) == 1 and () in terms:
        return terms[()]
    return SInt(terms)


def is_int(x):
    return isinstance(x, (int_, SInt)) and not isinstance(x, bool)


def add_terms(a, b, f=1):
    if len(b) > len(a) and f == 1:
        a, b = b, a
    out = dict(a)
    for m, c in b.items():
        c = out.get(m, 0) + f * c
        if c:
            out[m] = c
        else:
            del out[m]
    return out


def mul_terms(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            c = out.get(m, 0) + c1 * c2
            if c:
                out[m] = c
            else:
                del out[m]
    return out


def pkey(p):
    return p.key if isinstance(p, SInt) else p


def show(p):
    if not isinstance(p, SInt):
        return str(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (-len(x[0]), x[0])):
        names = "*".join(ATOMS[a].name for a in m)
        sign = "-" if c < 0 else "+"
        c = abs(c)
        body = names if c == 1 and m else (str(c) + ("*" + names if m else ""))
        out.append(f"{sign} {body}")
    s = " ".join(out)
    return s[2:] if s.startswith("+ ") else s


def atoms_of(p):
    """The atoms of p, including the binders its quotients depend on."""
    if not isinstance(p, SInt):
        return set()
    out = {a for m in p.t for a in m}
    for a in list(out):
        if ATOMS[a].deps:
            out |= ATOMS[a].deps
    return out


def subst(p, mapping):
    """Replace atoms (ids) by integers, simultaneously. A quotient follows its binders."""
    if not isinstance(p, SInt):
        return p
    for m in p.t:
        for a in m:
            if a not in mapping and ATOMS[a].deps and any(b in mapping for b in ATOMS[a].deps):
                r, b = ATOMS[a].defn
                mapping = dict(mapping)
                mapping[a] = sdivmod(subst(r, mapping), subst(b, mapping))[0]
    if not any(a in mapping for m in p.t for a in m):
        return p
    out = {}
    for m, c in p.t.items():
        if any(a in mapping for a in m):
            term = {tuple(a for a in m if a not in mapping): c}
            for a in m:
                if a in mapping:
                    term = mul_terms(term, as_terms(mapping[a]))
            out = add_terms(out, term)
        else:
            out = add_terms(out, {m: c})
    return mk(out)


def depends(p, a):
    """Whether a quotient in p depends on binder a."""
    return any(a in ATOMS[x].deps for m in p.t for x in m)


# ---------------------------------------------------------------- formulas

class SBool:
    """kind: 'ge' (p >= 0), 'eq' (p == 0), 'not', 'and', 'or'."""

    __slots__ = ("kind", "a", "_key")

    def __init__(self, kind, a):
        self.kind, self.a, self._key = kind, a, None

    @property
    def key(self):
        if self._key is None:
            if self.kind in ("ge", "eq"):
                self._key = (self.kind, pkey(self.a))
            elif self.kind == "not":
                self._key = ("not", self.a.key)
            else:
                self._key = (self.kind, tuple(sorted((x.key for x in self.a), key=repr)))
        return self._key

    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o):
        return conj(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return disj(self, o)

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __xor__(self, o):
        return disj(conj(self, neg(o)), conj(neg(self), o))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return disj(conj(self, o), conj(neg(self), neg(o)))
        if isinstance(o, (int_, SInt)):
            return eq0(self + 0 - o)
        return False

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return 11

    # a truth value used as a number
    def __add__(self, o):
        return (1 if bool(self) else 0) + o

    __radd__ = __add__

    def __mul__(self, o):
        return o if bool(self) else 0 * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return (1 if bool(self) else 0) - o

    def __rsub__(self, o):
        return o - (1 if bool(self) else 0)

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __repr__(self):
        if self.kind == "ge":
            return f"{show(self.a)} >= 0"
        if self.kind == "eq":
            return f"{show(self.a)} == 0"
        if self.kind == "not":
            return f"not ({self.a})"
        return "(" + f" {self.kind} ".join(map(repr, self.a)) + ")"


def ge0(p):
    if not isinstance(p, SInt):
        return p >= 0
    g = math.gcd(*(c for m, c in p.t.items() if m))
    if g > 1:
        c0 = p.t.get((), 0)
        t = {m: c // g for m, c in p.t.items() if m}
        c0 = c0 // g  # floor is exact for integer inequalities
        if c0:
            t[()] = c0
        p = SInt(t)
    s = syntactic_sign(p)
    if s is not None:
        return s
    return SBool("ge", p)


def eq0(p):
    if not isinstance(p, SInt):
        return p == 0
    g = math.gcd(*(c for m, c in p.t.items() if m))
    c0 = p.t.get((), 0)
    if c0 % g:
        return False
    lead = min(m for m in p.t if m)
    if p.t[lead] < 0:
        g = -g
    if g != 1:
        p = SInt({m: c // g for m, c in p.t.items()})
    if nonneg(p - 1) or nonneg(-p - 1):
        return False
    return SBool("eq", p)


def syntactic_sign(p):
    if nonneg(p):
        return True
    if nonneg(-p - 1):
        return False
    return None


def neg(f):
    if isinstance(f, bool):
        return not f
    if f.kind == "ge":
        return ge0(-f.a - 1)
    if f.kind == "eq":
        return SBool("not", f)
    if f.kind == "not":
        return f.a
    return disj(*map(neg, f.a)) if f.kind == "and" else conj(*map(neg, f.a))


def conj(*fs):
    out = {}
    for f in fs:
        if isinstance(f, bool) or type(f).__name__ in ("bool_", "bool"):
            if not f:
                return False
        elif f.kind == "and":
            out.update((x.key, x) for x in f.a)
        else:
            out[f.key] = f
    if not out:
        return True
    return next(iter(out.values())) if len(out) == 1 else SBool("and", tuple(out.values()))


def disj(*fs):
    out = {}
    for f in fs:
        if isinstance(f, bool) or type(f).__name__ in ("bool_", "bool"):
            if f:
                return True
        elif f.kind == "or":
            out.update((x.key, x) for x in f.a)
        else:
            out[f.key] = f
    if not out:
        return False
    return next(iter(out.values())) if len(out) == 1 else SBool("or", tuple(out.values()))


def subst_f(f, mapping):
    if isinstance(f, bool):
        return f
    if f.kind == "ge":
        return ge0(subst(f.a, mapping))
    if f.kind == "eq":
        return eq0(subst(f.a, mapping))
    if f.kind == "not":
        return neg(subst_f(f.a, mapping))
    return (conj if f.kind == "and" else disj)(*(subst_f(x, mapping) for x in f.a))


def map_f(f, fn):
    """Apply fn to every polynomial of a formula."""
    if isinstance(f, bool):
        return f
    if f.kind == "ge":
        return ge0(fn(f.a))
    if f.kind == "eq":
        return eq0(fn(f.a))
    if f.kind == "not":
        return neg(map_f(f.a, fn))
    return (conj if f.kind == "and" else disj)(*(map_f(x, fn) for x in f.a))


def f_atoms(f):
    if isinstance(f, bool):
        return set()
    if f.kind in ("ge", "eq"):
        return atoms_of(f.a)
    if f.kind == "not":
        return f_atoms(f.a)
    return set().union(*(f_atoms(x) for x in f.a))


# ---------------------------------------------------------------- syntactic nonnegativity

_nonneg_memo = {}


def nonneg(p, depth=0):
    """Sound and fast: p >= 0 for all values of the atoms within their own bounds."""
    if not isinstance(p, SInt):
        return p >= 0
    if len(p.t) > 24:
        return False
    ts = p.t
    if all(c >= 0 for c in ts.values()):
        if all(ATOMS[a].lb is not None and ATOMS[a].lb >= 0 for m in ts for a in m):
            return True
    key = p.key
    lbs = CTX.lbs if CTX is not None else _NO
    memo = CTX.nnmemo if lbs else _nonneg_memo
    r = memo.get(key)
    if r is not None:
        return r
    r = _nonneg(p, depth, lbs)
    if depth == 0 or r:
        memo[key] = r
    return r


_NO = {}


def _nonneg(p, depth, lbs):
    # binders: linear in each, so the minimum is at a corner
    if depth < 8:
        for m, c in p.t.items():
            for a in m:
                at = ATOMS[a]
                if at.kind == "binder":
                    if any(mm.count(a) > 1 for mm in p.t) or depends(p, a):
                        return False
                    low = subst(p, {a: 0})
                    coef_nonneg = all(cc >= 0 for mm, cc in p.t.items() if a in mm) and all(
                        lbs.get(x, ATOMS[x].lb) is not None and lbs.get(x, ATOMS[x].lb) >= 0
                        for mm in p.t if a in mm for x in mm
                    )
                    if coef_nonneg:
                        return nonneg(low, depth + 1)
                    high = subst(p, {a: at.size - 1})
                    return nonneg(low, depth + 1) and nonneg(high, depth + 1)
    # sizes: shift by the lower bound, then all coefficients must be nonnegative
    shift = {}
    for m in p.t:
        for a in m:
            at = ATOMS[a]
            lb = lbs.get(a, at.lb)
            if lb is None:
                return False
            if lb and at.kind != "binder":
                shift[a] = SInt({(a,): 1, (): lb})
    q = subst(p, shift) if shift else p
    if not isinstance(q, SInt):
        return q >= 0
    return all(c >= 0 for c in q.t.values())


# ---------------------------------------------------------------- division

def sdivmod(a, b):
    """Floor division; b must be positive."""
    if not isinstance(a, SInt) and not isinstance(b, SInt):
        return divmod(int_(a), int_(b))
    if CTX is not None:
        a, b = CTX.nf(a), CTX.nf(b)
        if not isinstance(a, SInt) and not isinstance(b, SInt):
            return divmod(int_(a), int_(b))
    if not isinstance(b, SInt) and b == 1:
        return a, 0
    if not isinstance(a, SInt) and a == 0:
        return 0, 0
    key = (pkey(a), pkey(b), CTX.version if CTX else 0)
    memo = CTX.divmemo if CTX else {}
    if key in memo:
        return memo[key]
    if isinstance(b, SInt):
        positive = prove(ge0(b - 1))
    elif b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    else:
        positive = b > 0
    if not positive:
        if isinstance(b, SInt) and bool(eq0(b)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if bool(ge0(b - 1)):
            return sdivmod(a, b)
        q, r = sdivmod(-a, -b)
        return q, -r
    out = _divmod_pos(a, b)
    memo[key] = out
    return out


def _in_range(r, b):
    return prove(ge0(r)) and prove(ge0(b - 1 - r))


def poly_div(a, b):
    """Polynomial long division by the leading monomial of b: a = q b + r, q as large as possible."""
    bt = as_terms(b)
    lead = max(bt, key=lambda m: (len(m), m))
    lc = bt[lead]
    q = {}
    rest = dict(as_terms(a))
    for _ in range(40):
        hit = None
        for m, c in rest.items():
            if len(m) >= len(lead):
                mm = list(m)
                try:
                    for x in lead:
                        mm.remove(x)
                except ValueError:
                    continue
                k = c // lc
                if k and (len(bt) == 1 or c % lc == 0):
                    hit = (tuple(mm), k)
                    break
        if hit is None:
            break
        term = {hit[0]: hit[1]}
        q = add_terms(q, term)
        rest = add_terms(rest, mul_terms(term, bt), -1)
    return mk(q), mk(rest)


def _divmod_pos(a, b):
    q, r = poly_div(a, b)
    for _ in range(2):
        if not isinstance(r, SInt) and r == 0:
            return q, 0
        # r as is, or off by one or two multiples
        for k in (0, -1, 1):
            if _in_range(r - k * b, b):
                return q + k, r - k * b
        # use quotients by the same divisor that are already known
        for qa in (list(CTX.quots) if CTX else ()):
            if pkey(ATOMS[qa].defn[1]) != pkey(b) and pkey(CTX.nf(ATOMS[qa].defn[1])) != pkey(b):
                continue
            qv = SInt({(qa,): 1})
            qn = CTX.nf(qv) if CTX else qv
            for sgn in (1, -1, 2, -2):
                r2 = CTX.nf(r - sgn * qn * b) if CTX else r - sgn * qn * b
                if isinstance(r2, SInt) and len(r2.t) > len(as_terms(r)) + 3:
                    continue
                if not isinstance(r2, SInt) and r2 == 0:
                    return q + sgn * qn, 0
                for k in (0, -1, 1, -2, 2):
                    if _in_range(r2 - k * b, b):
                        return q + sgn * qn + k, r2 - k * b
        break
    # a new quotient of the rest
    key = (pkey(r), pkey(b))
    if key not in _quotients:
        at = Atom(f"q{len(_quotients)}", "quot", defn=(r, b))
        _quotients[key] = at.id
        if nonneg(r if isinstance(r, SInt) else r):
            at.lb = 0
    qv = SInt({(_quotients[key],): 1})
    rem = r - qv * b
    if CTX is not None:
        CTX.note_quotient(_quotients[key])
        # a small constant divisor: split on the remainder, unless inside a tensor's element
        if not isinstance(b, SInt) and b <= 4 and CTX.may_fork:
            for val in range(b):
                if val == b - 1 or bool(eq0(rem - val)):
                    if val == b - 1:
                        CTX.assume(eq0(rem - val))
                    return q + CTX.nf(qv), val
    return q + qv, rem


# ---------------------------------------------------------------- contexts

CTX = None
STATS = {"z3_hits": 0, "z3_misses": 0, "z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_disagree": 0, "cvc5_unknown": 0, "syntactic": 0}


class Ctx:
    """One path: its decisions and what follows from them."""

    def __init__(self, trace):
        self.trace = list(trace)  # decisions to replay
        self.pos = 0
        self.new = []  # alternatives found on this path
        self.facts = []  # formulas, normalised
        self.sub = {}  # atom id -> polynomial, from equations
        self.version = 0
        self.divmemo = {}
        self.memo = {}
        self.quots = []
        self.may_fork = True
        self.pathlog = []
        self._nfmemo = {}
        self.guards = []  # conditions under which a tensor element is being computed
        self.normmemo = {}
        self.submemo = {}
        self.lbs = {}  # lower bounds of atoms on this path
        self.nnmemo = {}
        self.tdmemo = {}
        self.redundant = {}
        self._samples = None
        self._rng = random.Random(len(self.trace))

    # ---- facts
    def note_quotient(self, qid):
        if qid not in self.quots:
            self.quots.append(qid)
            r, b = ATOMS[qid].defn
            q = SInt({(qid,): 1})
            self._add(ge0(self.nf(r - q * b)))
            self._add(ge0(self.nf(b - 1 - r + q * b)))

    def _add(self, f):
        f = self.nff(f)
        if f is True:
            return
        if f is False:
            raise PathAbort()
        if f.kind == "and":
            for x in f.a:
                self._add(x)
            return
        self.version += 1
        self.memo = {k: v for k, v in self.memo.items() if v is True}
        if self._samples is not None:
            self._samples = [e for e in self._samples if self._holds(f, e)]
            if len(self._samples) < 8:
                self._samples = None
        if f.kind == "eq" and self._eliminate(f.a):
            return
        if f.kind == "ge":
            ms = [m for m in f.a.t if m]
            if len(ms) == 1 and len(ms[0]) == 1 and f.a.t[ms[0]] == 1 and ATOMS[ms[0][0]].kind != "binder":
                a, lb = ms[0][0], -f.a.t.get((), 0)
                old = self.lbs.get(a, ATOMS[a].lb)
                if old is None or lb > old:
                    self.lbs[a] = lb
                    self.nnmemo.clear()
                return
            if len(ms) == 1 and len(ms[0]) == 1 and f.a.t[ms[0]] < 0 and ATOMS[ms[0][0]].kind != "binder":
                a = ms[0][0]
                if f.a.t.get((), 0) // -f.a.t[ms[0]] == self.lbs.get(a, ATOMS[a].lb):
                    return self._add(eq0(SInt({(a,): 1}) - self.lbs.get(a, ATOMS[a].lb)))
        self.facts.append(f)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathAbort()
        self._add(f)

    def define(self, p, rhs):
        """Assume p == rhs, replacing the atom p by rhs where possible."""
        p, rhs = self.nf(p), self.nf(rhs)
        if isinstance(p, SInt) and len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and ATOMS[m[0]].kind != "binder" and m[0] not in atoms_of(rhs):
                self._eliminate(p - rhs, m[0])
                self.version += 1
                self.memo = {k: v for k, v in self.memo.items() if v is True}
                self._samples = None
                return
        d = p - rhs
        self.assume(eq0(d) if isinstance(d, SInt) else d == 0)

    def _eliminate(self, p, prefer=None):
        """Use the equation p == 0 to eliminate an atom."""
        # divide out common positive factors
        common = None
        for m in p.t:
            common = set(m) if common is None else common & set(m)
        for a in sorted(common or ()) if prefer is None else ():
            if ATOMS[a].lb is not None and ATOMS[a].lb >= 1:
                t = {}
                for m, c in p.t.items():
                    mm = list(m)
                    mm.remove(a)
                    t[tuple(mm)] = c
                q = mk(t)
                self._add(eq0(q))
                return True
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and abs(c) == 1:
                a = m[0]
                if ATOMS[a].kind == "binder":
                    continue
                if any(a in mm for mm in p.t if mm != m):
                    continue
                if prefer is not None and a != prefer:
                    continue
                # kernel sizes are kept: a kernel's flat index is a product of them
                rank = ({"quot": 1, "size": 0}[ATOMS[a].kind], not ATOMS[a].name.startswith("k"), a)
                if best is None or rank > best[0]:
                    best = (rank, a, c)
        if best is None:
            return False
        _, a, c = best
        rhs = subst(p, {a: 0})
        rhs = -rhs if c == 1 else rhs
        at = ATOMS[a]
        lb = self.lbs.pop(a, at.lb)
        self.nnmemo.clear()
        self.sub = {k: subst(v, {a: rhs}) for k, v in self.sub.items()}
        self.sub[a] = rhs
        self._nfmemo.clear()
        old, self.facts = self.facts, []
        if lb is not None:
            self._add(ge0(rhs - lb))
        for f in old:
            self._add(f)
        return True

    def nf(self, p):
        """Normal form modulo the path's equations."""
        if not self.sub or not isinstance(p, SInt):
            return p
        k = p.key
        r = self._nfmemo.get(k)
        if r is None:
            r = p
            for _ in range(20):
                n = subst(r, self.sub)
                if n is r:
                    break
                r = n
                if not isinstance(r, SInt):
                    break
            self._nfmemo[k] = r
        return r

    def nff(self, f):
        return map_f(f, self.nf) if self.sub else f

    # ---- samples: small models of the path, to see quickly that something does not hold
    def _value(self, env, a):
        v = env.get(a)
        if v is None:
            at = ATOMS[a]
            if at.kind == "quot":
                d = self.evp(at.defn[1], env)
                if d <= 0:
                    raise PathAbort()
                v = self.evp(at.defn[0], env) // d
            elif at.kind == "binder":
                n = self.evp(at.size, env)
                if n <= 0:
                    raise KeyError(a)
                x = self._rng.random()
                v = 0 if x < 0.25 else n - 1 if x < 0.5 else self._rng.randrange(n)
            else:
                v = env[a] = self._draw(at, env)
            env[a] = v
        return v

    def _draw(self, at, env):
        top = self._rng.choice((1, 2, 4, 7))
        lb = self.lbs.get(at.id, at.lb)
        lb = lb if lb is not None else -3
        return lb + self._rng.randrange(top)

    def evp(self, p, env):
        if not isinstance(p, SInt):
            return p
        tot = 0
        for m, c in p.t.items():
            for a in m:
                v = env.get(a)
                c *= self._value(env, a) if v is None else v
            tot += c
        return tot

    def evf(self, f, env):
        if isinstance(f, bool):
            return f
        if f.kind == "ge":
            return self.evp(f.a, env) >= 0
        if f.kind == "eq":
            return self.evp(f.a, env) == 0
        if f.kind == "not":
            return not self.evf(f.a, env)
        if f.kind == "and":
            return all(self.evf(x, env) for x in f.a)
        return any(self.evf(x, env) for x in f.a)

    def _holds(self, f, env):
        try:
            return self.evf(f, env)
        except KeyError:
            return False

    def samples(self):
        if self._samples is None:
            self._samples = self._sample()
        return self._samples

    def _sample(self):
        """Models of the path's facts, put together from models of their independent parts."""
        fs = [eq0(SInt({(a,): 1}) - v) for a, v in self.sub.items()]
        fs = [f for f in fs if not isinstance(f, bool)] + list(self.facts)
        fs += [f for f in (ge0(SInt({(a,): 1}) - v) for a, v in list(self.lbs.items())) if not isinstance(f, bool)]
        parts = []  # [atoms, formulas]
        for f in fs:
            ats = set(base_atoms(f_atoms_sizes(f))) | f_atoms(f)
            same = [p for p in parts if not p[0].isdisjoint(ats)]
            new = [ats, [f]]
            for p in same:
                new[0] |= p[0]
                new[1] = p[1] + new[1]
                parts.remove(p)
            parts.append(new)
        out = [{} for _ in range(30)]
        for ats, part in parts:
            envs = self._sample_part(ats, part)
            if not envs:
                return []
            for i in range(len(out)):
                out[i].update(envs[i % len(envs)] if i < len(envs) else self._rng.choice(envs))
        if max((len(part) for _, part in parts), default=0) and len(parts) == 1:
            return out[: len(envs)]
        return out

    def _sample_part(self, ats, part):
        key = (frozenset(f.key for f in part), tuple(sorted((a, self.lbs.get(a)) for a in ats)))
        if key in _part_samples:
            return _part_samples[key]
        direct = [
            (a, v) for a, v in self.sub.items()
            if a in ats and ATOMS[a].kind == "size" and a not in base_atoms(atoms_of(v))
        ]
        out = []

        def good(env):
            try:
                return all(self.evf(f, env) for f in part) and all(ATOMS[a].lb is None or v >= ATOMS[a].lb for a, v in env.items())
            except (KeyError, PathAbort):
                return False

        for tries in range(1500):
            if len(out) >= 30 or (tries > 300 and not out) or (tries > 600 and len(out) >= 3):
                break
            env = {}
            try:
                if tries % 4:
                    for a, v in direct:
                        if a not in env:
                            env[a] = self.evp(v, env)
            except (KeyError, PathAbort):
                continue
            if good(env):
                out.append(env)
        if not out:
            env = self._solve(part)
            if env is not None:
                start = dict(env)
                if good(env):
                    out.append(env)
                    free = [a for a in start if a not in dict(direct)]
                    for tries in range(300):
                        if len(out) >= 12:
                            break
                        env = {a: start[a] for a in free}
                        for a in self._rng.sample(free, min(len(free), 1 + tries % 3)):
                            env[a] += self._rng.randint(-1, 2)
                        try:
                            for a, v in direct:
                                env[a] = self.evp(v, env)
                        except (KeyError, PathAbort):
                            continue
                        if good(env):
                            out.append(env)
        if len(_part_samples) > 20000:
            _part_samples.clear()
        _part_samples[key] = out
        return out

    def _solve(self, part):
        monos = set()
        s = z3.Solver()
        s.set("rlimit", 3000000)
        for f in part:
            s.add(to_z3(f, monos, _zpoly_nl))
        s.add(*_bounds(monos, self, _zpoly_nl))
        for m in list(monos):
            if len(m) == 1 and ATOMS[m[0]].lb is not None:
                s.add(_zvar(f"m{m[0]}") >= ATOMS[m[0]].lb)
        STATS["z3_calls"] += 1
        if s.check() != z3.sat:
            return None
        mod = s.model()
        return {m[0]: mod.eval(_zvar(f"m{m[0]}"), model_completion=True).as_long() for m in monos if len(m) == 1 and ATOMS[m[0]].kind == "size"}

    def sampled(self, f):
        """The truth values of f on the samples where the guards hold."""
        out = set()
        for env in self.samples():
            try:
                if self.guards and not all(self.evf(g, env) for g in self.guards):
                    continue
                out.add(self.evf(f, env))
            except KeyError:
                continue
            if len(out) == 2:
                break
        return out

    # ---- deciding
    def decide(self, f):
        if isinstance(f, bool):
            return f
        v = self.try_decide(f)
        if v is not None:
            return v
        if not self.may_fork and any(ATOMS[a].kind == "binder" for a in f_atoms(self.nff(f))):
            raise Unsupported(f"undetermined condition on tensor indices: {f}")
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
        else:
            v = True
            self.new.append(self.trace[: self.pos] + [False])
            self.trace.append(True)
        self.pos += 1
        self.pathlog.append((f, v))
        self._add(f if v else neg(f))
        return v

    def try_decide(self, f):
        """True / False if the path determines the formula, else None."""
        f = self.nff(f)
        if isinstance(f, bool):
            return f
        k = (f.key, self.version, tuple(g.key for g in self.guards))
        if k in self.tdmemo:
            return self.tdmemo[k]
        seen = self.sampled(f)
        v = None
        if len(seen) == 2:
            pass
        elif False not in seen and self.prove(f):
            v = True
        elif True not in seen and self.prove(neg(f)):
            v = False
        self.tdmemo[k] = v
        return v

    def prove(self, f):
        f = self.nff(f)
        if isinstance(f, bool):
            return f
        k = f.key
        if k in self.memo and (self.memo[k] or not self.guards):
            return self.memo[k]
        if False in self.sampled(f):
            return False
        if k not in self.memo:
            r = self.memo[k] = self._prove(f)
            if r or not self.guards:
                return r
        # what is known where the element is being computed
        k = (k, tuple(g.key for g in self.guards))
        if k not in self.memo:
            saved = self.facts, self.guards, self.memo
            self.facts = self.facts + [g for g in map(self.nff, self.guards) if not isinstance(g, bool)]
            self.guards, self.memo = [], {}
            try:
                r = self._prove(f)
            finally:
                self.facts, self.guards, self.memo = saved
            self.memo[k] = r
        return self.memo[k]

    def _prove(self, f):
        if f.kind == "and":
            return all(self.prove(x) for x in f.a)
        if f.kind == "ge":
            if nonneg(f.a):
                STATS["syntactic"] += 1
                return True
            return self._prove_ge(f.a)
        if f.kind == "or":
            if any(self.prove(x) for x in f.a):
                return True
        return self._z3(f)

    def _prove_ge(self, p, depth=0):
        # corners of the binders, then the path's facts decide about the sizes
        if depth < 6:
            for m in p.t:
                for a in m:
                    at = ATOMS[a]
                    if at.kind == "binder" and all(mm.count(a) <= 1 for mm in p.t) and not depends(p, a):
                        lo = self.nf(subst(p, {a: 0}))
                        hi = self.nf(subst(p, {a: at.size - 1}))
                        return all(
                            (x >= 0) if not isinstance(x, SInt) else (nonneg(x) or self._prove_ge(x, depth + 1))
                            for x in (lo, hi)
                        ) or (depth == 0 and any(a in f_atoms(g) for g in self.facts) and self._z3(SBool("ge", p)))
        if any(nonneg(q) for q in self._unsubstituted(p)):
            return True
        return self._z3(SBool("ge", p))

    def _unsubstituted(self, p):
        """p in terms of an eliminated size instead of one of those it was replaced by (they are equal)."""
        if not any(len(m) > 1 for m in p.t):
            return
        here = atoms_of(p)
        for a, rhs in self.sub.items():
            if not isinstance(rhs, SInt) or ATOMS[a].kind != "size":
                continue
            for m, c in rhs.t.items():
                if len(m) == 1 and abs(c) == 1 and m[0] in here and ATOMS[m[0]].kind == "size" and not any(m[0] in mm for mm in rhs.t if mm != m):
                    # a = rest + c b, so b = c (a - rest)
                    b = m[0]
                    rest = SInt({(a,): 1}) - subst(rhs, {b: 0})
                    q = subst(p, {b: rest if c == 1 else -rest})
                    if isinstance(q, SInt) and len(q.t) < len(p.t):
                        yield q
                    elif not isinstance(q, SInt):
                        yield q

    def _z3(self, f, timeout=1500):
        if not self.facts and not any(ATOMS[a].kind != "size" for a in f_atoms(f)) and f.kind == "ge" and max(len(m) for m in f.a.t) <= 1:
            # only lower bounds: linear, decided by the shift argument already
            if len(f.a.t) <= 24 and all(ATOMS[a].lb is not None for a in f_atoms(f)):
                return False
        return z3_entails(self.facts, f, self, timeout)


def prove(f):
    if isinstance(f, bool):
        return f
    if CTX is None:
        return f.kind == "ge" and nonneg(f.a)
    return CTX.prove(f)


_z3vars = {}


def _zvar(name):
    v = _z3vars.get(name)
    if v is None:
        v = _z3vars[name] = z3.Int(name)
    return v


def _zpoly_lin(p, monos):
    if not isinstance(p, SInt):
        return z3.IntVal(p)
    parts = []
    for m, c in p.t.items():
        if not m:
            parts.append(z3.IntVal(c))
        else:
            monos.add(m)
            v = _zvar("m" + "_".join(map(str, m)))
            parts.append(v if c == 1 else c * v)
    return z3.Sum(parts) if len(parts) > 1 else parts[0]


def _zpoly_nl(p, monos):
    if not isinstance(p, SInt):
        return z3.IntVal(p)
    parts = []
    for m, c in p.t.items():
        x = z3.IntVal(c)
        for a in m:
            monos.add((a,))
            x = x * _zvar(f"m{a}")
        parts.append(x)
    return z3.Sum(parts) if len(parts) > 1 else parts[0]


def to_z3(f, monos, zp):
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if f.kind == "ge":
        return zp(f.a, monos) >= 0
    if f.kind == "eq":
        return zp(f.a, monos) == 0
    if f.kind == "not":
        return z3.Not(to_z3(f.a, monos, zp))
    return (z3.And if f.kind == "and" else z3.Or)(*(to_z3(x, monos, zp) for x in f.a))


def _bounds(monos, ctx, zp):
    """Bounds of the atoms, and product lemmas for the nonlinear monomials."""
    out = []
    todo = list(monos)
    seen = set(monos)
    while todo:
        m = todo.pop()
        new = set()
        if len(m) == 1:
            at = ATOMS[m[0]]
            v = SInt({m: 1})
            lb = ctx.lbs.get(m[0], at.lb)
            if lb is not None and m[0] not in ctx.sub:
                out.append(zp(v, new) >= lb)
            if at.kind == "binder":
                out.append(zp(at.size - 1 - v, new) >= 0)
        elif zp is _zpoly_lin:
            lbs = [ctx.lbs.get(a, ATOMS[a].lb) if a not in ctx.sub else None for a in m]
            if all(x is not None and x >= 0 for x in lbs):
                out.append(_zvar("m" + "_".join(map(str, m))) >= 0)
                for i, a in enumerate(m):
                    rest = m[:i] + m[i + 1:]
                    # (a - lb) * rest >= 0
                    v = SInt({m: 1}) - lbs[i] * SInt({rest: 1}) if lbs[i] else None
                    if v is not None and isinstance(v, SInt):
                        out.append(zp(v, new) >= 0)
                    if ATOMS[a].kind == "binder":
                        v = (ATOMS[a].size - 1) * SInt({rest: 1}) - SInt({m: 1})
                        if isinstance(v, SInt):
                            out.append(zp(v, new) >= 0)
            elif len(m) == 2:
                # sign lemmas from provable signs of the factors
                for i in (0, 1):
                    a, b = m[i], m[1 - i]
                    if lbs[1 - i] is not None and lbs[1 - i] >= 1:
                        x, p = _zvar(f"m{a}"), _zvar("m" + "_".join(map(str, m)))
                        new.add((a,))
                        new.add((b,))
                        out.append(z3.Implies(x >= 0, p >= x))
                        out.append(z3.Implies(x <= 0, p <= x))
                        out.append(z3.Implies(x >= 1, p >= _zvar(f"m{b}")))
                        out.append(z3.Implies(x <= -1, p <= -_zvar(f"m{b}")))
        for x in new:
            if x not in seen:
                seen.add(x)
                todo.append(x)
    monos |= seen
    return out


def _connected(facts, f):
    """The facts that share atoms with f, directly or through others (leaving facts out is sound)."""
    reach = f_atoms_sizes(f)
    if not reach:
        return list(facts)
    rest = [(x, f_atoms_sizes(x)) for x in facts]
    used = [False] * len(rest)
    again = True
    while again:
        again = False
        for i, (x, at) in enumerate(rest):
            if not used[i] and not reach.isdisjoint(at):
                used[i] = True
                if not at <= reach:
                    reach |= at
                    again = True
    return [x for (x, _), u in zip(rest, used) if u]


_fas = {}


def f_atoms_sizes(f):
    """The atoms of a formula, including those of the sizes of its binders."""
    if isinstance(f, bool):
        return set()
    k = f.key
    r = _fas.get(k)
    if r is None:
        todo = list(f_atoms(f))
        r = set()
        while todo:
            a = todo.pop()
            if a not in r:
                r.add(a)
                if ATOMS[a].kind == "binder" and isinstance(ATOMS[a].size, SInt):
                    todo += atoms_of(ATOMS[a].size)
        if len(_fas) > 200000:
            _fas.clear()
        _fas[k] = frozenset(r)
    return set(r)


def _canonical(facts, f, ctx):
    """The query up to the names of its atoms."""
    names = {}
    order = []

    def name(a):
        n = names.get(a)
        if n is None:
            n = names[a] = len(names)
            order.append(a)
        return n

    def poly(p):
        if not isinstance(p, SInt):
            return p
        ms = sorted(p.t.items(), key=lambda mc: (len(mc[0]), mc[1], tuple(names.get(a, 10**6) for a in mc[0]), mc[0]))
        return tuple(sorted((tuple(sorted(name(a) for a in m)), c) for m, c in ms))

    def form(g):
        if isinstance(g, bool):
            return g
        if g.kind in ("ge", "eq"):
            return (g.kind, poly(g.a))
        if g.kind == "not":
            return ("not", form(g.a))
        return (g.kind, tuple(form(x) for x in g.a))

    key = [form(f)] + [form(g) for g in facts]
    i = 0
    about = []
    while i < len(order):
        at = ATOMS[order[i]]
        about.append((ctx.lbs.get(order[i], at.lb), order[i] in ctx.sub, at.kind == "binder" and poly(at.size)))
        i += 1
    return (tuple(key), tuple(about), ctx.use_nl)


_queries = {}
_part_samples = {}


def z3_entails(facts, f, ctx, timeout=1500):
    """Whether z3 shows that the facts imply f."""
    if f is not False:
        facts = _connected(facts, f)
    key = _canonical(facts, f, ctx)
    r = _queries.get(key)
    if r is None:
        STATS["z3_misses"] += 1
        r = _z3_entails(facts, f, ctx, timeout)
        if len(_queries) > 100000:
            _queries.clear()
        _queries[key] = r
    else:
        STATS["z3_hits"] += 1
    return r


def _z3_entails(facts, f, ctx, timeout):
    t0 = time.time()
    try:
        for mode, zp in (("lin", _zpoly_lin), ("nl", _zpoly_nl)):
            if mode == "nl" and not ctx.use_nl:
                break
            monos = set()
            s = z3.Solver()
            # z3's own measure of work, about two million a second, for the same answer on a busy machine
            s.set("rlimit", 2500 * timeout)
            s.set("timeout", 20 * timeout)
            goal = to_z3(neg(f), monos, zp)
            zf = [to_z3(x, monos, zp) for x in facts]
            b = _bounds(monos, ctx, zp)
            s.add(goal, *zf, *b)
            STATS["z3_calls"] += 1
            r = s.check()
            if r == z3.unsat:
                if CROSS is not None:
                    CROSS(s)
                return True
            if mode == "lin" and r == z3.sat and all(len(m) == 1 for m in monos):
                return False
        return False
    finally:
        STATS["z3_time"] += time.time() - t0


Ctx.use_nl = True
CROSS = None  # second solver, in the thorough tier


def feasible(ctx, timeout=1000):
    """False only if the path's facts are contradictory."""
    if not ctx.facts:
        return True
    return not z3_entails(ctx.facts, False, ctx, timeout)


def z3_model(ctx, extra=(), timeout=2000):
    """Values of the free sizes satisfying the path's facts, or None."""
    eqs = [eq0(SInt({(a,): 1}) - v) for a, v in ctx.sub.items()]
    fs = [f for f in eqs + list(ctx.facts) + list(extra) if not isinstance(f, bool)]
    if any(f is False for f in extra):
        return None
    monos = set()
    s = z3.Solver()
    s.set("rlimit", 2500 * timeout)
    s.set("timeout", 20 * timeout)
    for f in fs:
        s.add(to_z3(f, monos, _zpoly_nl))
    s.add(*_bounds(monos, ctx, _zpoly_nl))
    for m in list(monos):
        if len(m) == 1 and ATOMS[m[0]].lb is not None:
            s.add(_zvar(f"m{m[0]}") >= ATOMS[m[0]].lb)
    STATS["z3_calls"] += 1
    if s.check() != z3.sat:
        return None
    mod = s.model()
    env = {}
    for m in monos:
        if len(m) == 1 and ATOMS[m[0]].kind != "quot":
            v = mod.eval(_zvar(f"m{m[0]}"), model_completion=True)
            env[m[0]] = v.as_long()
    try:
        ok = all(ctx.evf(f, env) for f in fs)
    except (KeyError, PathAbort):
        return None
    return env if ok else None


def explore(fn, limit=4000):
    """Run fn once per path. Yields (ctx, result)."""
    global CTX
    pending = [[]]
    count = 0
    while pending:
        trace = pending.pop()
        ctx = Ctx(trace)
        saved, CTX = CTX, ctx
        try:
            try:
                res = fn(ctx)
            except PathAbort:
                res = None
            else:
                yield ctx, res
        finally:
            CTX = saved
            pending.extend(ctx.new)
        count += 1
        if count > limit:
            raise Unsupported(f"more than {limit} paths")


# ---------------------------------------------------------------- numeric evaluation

def ev(p, env):
    """Value of a polynomial; env maps atom ids to ints, quotients are computed."""
    if not isinstance(p, SInt):
        return p
    tot = 0
    for m, c in p.t.items():
        for a in m:
            v = env.get(a)
            if v is None:
                at = ATOMS[a]
                if at.kind != "quot":
                    raise KeyError(at.name)
                v = ev(at.defn[0], env) // ev(at.defn[1], env)
                env[a] = v
            c *= v
        tot += c
    return tot


def evf(f, env):
    if isinstance(f, bool):
        return f
    if f.kind == "ge":
        return ev(f.a, env) >= 0
    if f.kind == "eq":
        return ev(f.a, env) == 0
    if f.kind == "not":
        return not evf(f.a, env)
    if f.kind == "and":
        return all(evf(x, env) for x in f.a)
    return any(evf(x, env) for x in f.a)


def base_atoms(ids):
    """The free sizes that determine the given atoms."""
    out, todo, seen = set(), list(ids), set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        at = ATOMS[a]
        if at.kind == "quot":
            todo += atoms_of(at.defn[0]) | atoms_of(at.defn[1])
        elif at.kind == "size":
            out.add(a)
        elif at.size is not None:
            todo += atoms_of(at.size)
    return out

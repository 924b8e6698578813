"""Terms of the verifier.

E  numeric terms (integers, reals, complex numbers) kept as Laurent
   polynomials with rational coefficients over hash-consed atoms
B  formulas over them

Every rewriting done on construction is an identity of the mathematical
numbers under the conditions listed in NORMALISER (DESIGN.md lists them as
part of the trusted base).
"""
from fractions import Fraction
import itertools
import math

NORMALISER = [
    "numbers are mathematical reals / complex numbers (no rounding)",
    "x/y is x*y^-1 with y != 0; sqrt(x)^2 = x",
    "sums and the transforms (FFT and inverse, roll, convolution with a fixed "
    "kernel, filters) are linear in their operand",
    "exp(i a) exp(i b) = exp(i (a+b)) for the phases of fourier_shift",
]


class Unsupported(BaseException):
    """The construct is outside of what the verifier handles."""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "args", "sort", "uid", "_vars", "_conj", "_bd")
    _tab = {}
    _n = itertools.count()

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk_atom(kind, args, sort):
    k = (kind, args, sort)
    a = Atom._tab.get(k)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort = kind, args, sort
        a.uid = next(Atom._n)
        a._vars = a._conj = a._bd = None
        Atom._tab[k] = a
    return a


def reset():
    """Forget all terms (between properties)."""
    Atom._tab.clear()
    B._tab.clear()
    global I_ATOM, TRUE, FALSE
    I_ATOM = mk_atom("I", (), "cplx")
    TRUE = B.mk("true")
    FALSE = B.mk("false")


# ---------------------------------------------------------------- numbers
class E:
    __slots__ = ("terms", "_h", "_vars", "_bd", "_conj")

    def __init__(self, terms):
        self.terms = terms  # dict mono -> Fraction, no zero coefficients
        self._h = None
        self._vars = self._bd = self._conj = None

    # equality is structural equality of the normal forms
    def key(self):
        if self._h is None:
            self._h = frozenset(self.terms.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, E) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    def const(self):
        """The rational value of a constant, else None."""
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if m == ():
                return c
        return None

    def single(self):
        """The atom, when the term is just one atom."""
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def is_int(self):
        return all(c.denominator == 1 and all(
            a.sort == "int" and e > 0 for a, e in m)
            for m, c in self.terms.items())

    def is_int_valued(self):
        return self.is_int()

    def is_real(self):
        for m in self.terms:
            for a, e in m:
                if a.sort == "cplx":
                    return False
        return True

    def __add__(self, o):
        o = lift(o)
        if not o.terms:
            return self
        if not self.terms:
            return o
        t = dict(self.terms)
        for m, c in o.terms.items():
            v = t.get(m, 0) + c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v
        return E(t)

    __radd__ = __add__

    def __neg__(self):
        return E({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        if not self.terms or not o.terms:
            return ZERO
        c = o.const()
        if c is not None:
            return self if c == 1 else E({m: v * c for m, v in
                                          self.terms.items()})
        c = self.const()
        if c is not None:
            return o if c == 1 else E({m: v * c for m, v in o.terms.items()})
        if len(self.terms) * len(o.terms) > 4000:
            raise Unsupported("term too large")
        out = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                for m, c in mono_mul(m1, m2).items():
                    v = out.get(m, 0) + c * c1 * c2
                    if v == 0:
                        out.pop(m, None)
                    else:
                        out[m] = v
        return E(out)

    __rmul__ = __mul__

    def inv(self):
        c = self.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError
            return E({(): 1 / c})
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            r = E({(): 1 / c})
            for a, e in m:
                r = r * pow_atom(a, -e)
            return r
        # canonical: leading coefficient one
        lead = min(self.terms, key=mono_key)
        lc = self.terms[lead]
        n = self * E({(): 1 / lc})
        a = mk_atom("inv", (n,), "real" if n.is_real() else "cplx")
        return E({((a, 1),): 1 / lc})

    def __truediv__(self, o):
        o = lift(o)
        if o == self and self.const() is None:
            return ONE
        return self * o.inv()

    def __rtruediv__(self, o):
        return lift(o) / self

    def __pow__(self, n):
        if isinstance(n, E):
            n = n.const()
            if n is None:
                raise Unsupported("symbolic exponent")
        n = Fraction(n)
        if n == Fraction(1, 2):
            return sqrt(self)
        if n.denominator != 1:
            raise Unsupported(f"power {n}")
        n = int(n)
        r = ONE
        b = self if n >= 0 else self.inv()
        for _ in range(abs(n)):
            r = r * b
        return r

    def vars(self):
        if self._vars is None:
            s = set()
            for m in self.terms:
                for a, _ in m:
                    s |= atom_vars(a)
            self._vars = frozenset(s)
        return self._vars


def mono_key(m):
    return tuple((a.uid, e) for a, e in m)


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return E({(): Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported(f"number {x}")
        return E({(): Fraction(x)}) if x else ZERO
    if isinstance(x, complex):
        return lift(x.real) + lift(x.imag) * IMAG()
    import numpy as _np

    if isinstance(x, _np.generic):
        return lift(x.item())
    raise Unsupported(f"not a number: {type(x).__name__}")


ZERO = E({})
ONE = E({(): Fraction(1)})


def IMAG():
    return E({((I_ATOM, 1),): Fraction(1)})


def pow_atom(a, e):
    """a**e as a term in normal form."""
    if e == 0:
        return ONE
    k = a.kind
    if k == "I":
        e %= 4
        return [ONE, E({((a, 1),): Fraction(1)}), E({(): Fraction(-1)}),
                E({((a, 1),): Fraction(-1)})][e]
    if k == "sqrt":
        q, r = divmod(e, 2)
        x = a.args[0]
        base = ONE if r == 0 else E({((a, 1),): Fraction(1)})
        if q > 0:
            return base * x ** q
        if q < 0:
            return base * x.inv() ** (-q)
        return base
    if k == "inv":
        if e < 0:
            return a.args[0] ** (-e)
        return E({((a, e),): Fraction(1)})
    if k == "phase":
        kk, l, n, m, dx, dy = a.args
        return phase(kk, l, n, m, dx * e, dy * e)
    if k == "ite" and e > 1:
        c, x, y = a.args
        return ite(c, x ** e, y ** e)
    return E({((a, e),): Fraction(1)})


_mm = {}


def mono_mul(m1, m2):
    """Product of two monomials: dict mono -> coefficient."""
    if not m1:
        return {m2: 1}
    if not m2:
        return {m1: 1}
    key = (m1, m2)
    if key in _mm:
        return _mm[key]
    d = dict(m1)
    special = False
    ph = [a for a, _ in m1 if a.kind == "phase"]
    for a, e in m2:
        if a in d:
            d[a] += e
            special = True
        else:
            d[a] = e
            if a.kind == "phase" and ph:
                special = True
    if not special:
        out = {tuple(sorted(d.items(), key=lambda t: t[0].uid)): 1}
    else:
        phs = {}
        rest = ONE
        plain = {}
        for a, e in d.items():
            if e == 0:
                continue
            if a.kind == "phase":
                kk, l, n, m, dx, dy = a.args
                o = phs.get((kk, l, n, m), (ZERO, ZERO))
                phs[kk, l, n, m] = (o[0] + dx * e, o[1] + dy * e)
            elif a.kind in ("I", "sqrt") and e not in (1,):
                rest = rest * pow_atom(a, e)
            elif a.kind == "inv" and e < 0:
                rest = rest * pow_atom(a, e)
            elif a.kind == "ite" and e > 1:
                rest = rest * pow_atom(a, e)
            else:
                plain[a] = e
        r = E({tuple(sorted(plain.items(), key=lambda t: t[0].uid)):
               Fraction(1)})
        for (kk, l, n, m), (dx, dy) in phs.items():
            r = mul_plain(r, phase(kk, l, n, m, dx, dy))
        out = (r * rest if rest != ONE else r).terms
    if len(_mm) > 200000:
        _mm.clear()
    _mm[key] = out
    return out


def mul_plain(r, p):
    """r times a single fresh atom (or constant) without renormalising."""
    (m, c), = r.terms.items()
    (m2, c2), = p.terms.items()
    d = dict(m)
    d.update(dict(m2))
    return E({tuple(sorted(d.items(), key=lambda t: t[0].uid)): c * c2})


def var(name, sort="int"):
    return E({((mk_atom("var", (name,), sort), 1),): Fraction(1)})


_fresh = [0]


def fresh(name, sort="int"):
    _fresh[0] += 1
    return var(f"{name}!{_fresh[0]}", sort)


AT_ZERO = set()     # function symbols that are 0 at 0 by contract


def app(name, args, sort="real"):
    if name in AT_ZERO and lift(args[0]).const() == 0:
        return ZERO
    return E({((mk_atom("app", (name,) + tuple(args), sort), 1),):
              Fraction(1)})


def atom_e(a):
    return E({((a, 1),): Fraction(1)})


def phase(k, l, n, m, dx, dy):
    """exp(-2 pi i (dx k/n + dy l/m)) for frequencies k, l of an n x m frame."""
    if dx.const() == 0 and dy.const() == 0:
        return ONE
    return atom_e(mk_atom("phase", (k, l, n, m, dx, dy), "cplx"))


def sqrt(x):
    c = x.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return lift(Fraction(n, d))
    # pull the rational content out, so that sqrt(4 x) = 2 sqrt(x)
    return atom_e(mk_atom("sqrt", (x,), "real" if x.is_real() else "cplx"))


# the row of a position in a flattened array that is read by row and column
FLOORS = {}


def fn(name, *args):
    """Known real functions: floor, round, abs, min, max."""
    cs = [a.const() for a in args]
    if all(c is not None for c in cs):
        if name == "floor":
            return lift(math.floor(cs[0]))
        if name == "trunc":
            return lift(int(cs[0]))
        if name == "round":
            return lift(round(cs[0]))
        if name == "abs":
            return lift(abs(cs[0]))
        if name == "min":
            return lift(min(cs))
        if name == "max":
            return lift(max(cs))
    if name in ("floor", "round", "trunc"):
        if args[0].is_int():
            return args[0]
        if name == "floor" and args[0] in FLOORS:
            return FLOORS[args[0]]
        c = root_value(args[0])
        if c is not None:
            return lift(math.floor(c) if name == "floor" else round(c)
                        if name == "round" else int(c))
        return atom_e(mk_atom("fn", (name,) + args, "int"))
    if name in ("min", "max"):
        if args[0] == args[1]:
            return args[0]
        args = tuple(sorted(args, key=lambda x: sorted(
            (mono_key(m), c) for m, c in x.terms.items())))
        s = "int" if all(a.is_int() for a in args) else "real"
        return atom_e(mk_atom("fn", (name,) + args, s))
    if name == "abs" and not args[0].is_real() and \
            args[0] != conj(args[0]):
        return sqrt(args[0] * conj(args[0]))
    if name == "abs":
        r = abs_factors(args[0])
        if r is not None:
            return r
    s = "int" if name == "abs" and args[0].is_int() else "real"
    return atom_e(mk_atom("fn", (name,) + args, s))


def root_value(x):
    """The value of a rational combination of roots of rational numbers, when
    it is not near to a multiple of one half."""
    import decimal

    for m in x.terms:
        for a, e in m:
            if a.kind != "sqrt" or a.args[0].const() is None or \
                    a.args[0].const() < 0 or e < 0:
                return None
    with decimal.localcontext() as ctx:
        ctx.prec = 60
        v = decimal.Decimal(0)
        for m, c in x.terms.items():
            t = decimal.Decimal(c.numerator) / c.denominator
            for a, e in m:
                k = a.args[0].const()
                t *= (decimal.Decimal(k.numerator) / k.denominator
                      ).sqrt() ** int(e)
            v += t
        if abs(v) > 10 ** 20 or abs(2 * v - (2 * v).to_integral_value()) < \
                decimal.Decimal(10) ** -20:
            return None
        return Fraction(v)


def abs_factors(x):
    """|c m r| = |c| |m| |r| for a common factor m of the terms of x."""
    ms = list(x.terms)
    com = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        com = {a: min(e, d[a], key=abs) for a, e in com.items()
               if a in d and (d[a] > 0) == (e > 0)}
    com = {a: e for a, e in com.items() if a.sort != "cplx"}
    if len(ms) == 1:
        c = x.terms[ms[0]]
        if abs(c) == 1 and len(com) <= 1 and c > 0 and len(ms[0]) <= 1 and \
                all(e == 1 for e in com.values()):
            return None
    elif not com and x.terms[min(x.terms, key=mono_key)] == 1:
        return None
    out = ONE
    for a, e in com.items():
        t = atom_e(a)
        t = t if a.kind == "sqrt" else fn("abs", t)
        out = out * (t ** e if e > 0 else t.inv() ** (-e))
    rest = E({tuple((a, e - com.get(a, 0)) for a, e in m
                    if e != com.get(a, 0)): c for m, c in x.terms.items()})
    c = rest.const()
    if c is not None:
        return out * abs(c)
    c = rest.terms[min(rest.terms, key=mono_key)]
    out, rest = out * abs(c), rest * (1 / c)
    return out * atom_e(mk_atom("fn", ("abs", rest), "int" if rest.is_int()
                                else "real"))


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x == y:
        return x
    if c.kind == "not":
        return ite(c.args[0], y, x)
    # a product outside of the indicator of where it counts
    if not x.terms and len(y.terms) == 1 and y != ONE:
        return y * ite(c, ZERO, ONE)
    if not y.terms and len(x.terms) == 1 and x != ONE:
        return x * ite(c, ONE, ZERO)
    s = ("int" if x.is_int() and y.is_int() else
         "real" if x.is_real() and y.is_real() else "cplx")
    return atom_e(mk_atom("ite", (c, x, y), s))


def conj(x):
    if x._conj is None:
        x._conj = _conj(x)
    return x._conj


def _conj(x):
    if x.is_real():
        return x
    out = ZERO
    for m, c in x.terms.items():
        t = lift(c)
        for a, e in m:
            t = t * (conj_atom(a) ** e if e > 0 else
                     conj_atom(a).inv() ** (-e))
        out = out + t
    return out


def conj_atom(a):
    if a._conj is None:
        a._conj = _conj_atom(a)
    return a._conj


def _conj_atom(a):
    if a.sort != "cplx":
        return atom_e(a)
    if a.kind == "I":
        return -IMAG()
    if a.kind == "conj":
        return atom_e(a.args[0])
    if a.kind == "phase":
        k, l, n, m, dx, dy = a.args
        return phase(k, l, n, m, -dx, -dy)
    if a.kind == "inv":
        return conj(a.args[0]).inv()
    if a.kind == "sqrt":
        pass
    if a.kind == "ite":
        c, x, y = a.args
        return ite(c, conj(x), conj(y))
    if a.kind == "sum":
        lo, hi, v, b = a.args
        return mk_sum(lo, hi, v, conj(b))
    return atom_e(mk_atom("conj", (a,), "cplx"))


def re(x):
    return (x + conj(x)) * Fraction(1, 2)


def im(x):
    return (x - conj(x)) * Fraction(1, 2) * (-IMAG())


# ---------------------------------------------------------------- binders
# A bound variable is named #h, h above the names of all binders inside of its
# scope (and, whatever the order of construction, none of the names free in
# the scope).
def height(x):
    """Largest name of a binder inside of x."""
    if isinstance(x, E):
        if x._bd is None:
            x._bd = max((height(a) for m in x.terms for a, _ in m), default=0)
        return x._bd
    if isinstance(x, (Atom, B)):
        if x._bd is None:
            r = 0
            if x.kind in ("sum", "bex"):
                r = int(x.args[2].single().args[0][1:])
            elif x.kind == "op":
                r = max((int(v.single().args[0][1:]) for v in x.args[2]),
                        default=0)
            if x.kind not in ("var", "true", "false"):
                r = max([r] + [height(y) for y in flat(x.args)])
            x._bd = r
        return x._bd
    return 0


def bound_names(h, own, *scope):
    """The first of len(own) consecutive names for the binder variables own
    over the scope."""
    used = set()
    for x in scope:
        for a in x.vars():
            n = a.args[0]
            if n[0] == "#" and a not in own:
                used.add(int(n[1:]))
    k = len(own)
    while any(h + i in used for i in range(k)):
        h += 1
    return h


def flat(args):
    for a in args:
        if isinstance(a, tuple):
            yield from flat(a)
        elif isinstance(a, (E, B, Atom)):
            yield a


def atom_vars(a):
    """Free variables (atoms of kind var, bound names included)."""
    if a._vars is None:
        if a.kind == "var":
            a._vars = frozenset([a])
        elif a.kind == "sum":
            lo, hi, v, b = a.args
            a._vars = lo.vars() | hi.vars() | (b.vars() - v.vars())
        elif a.kind == "op":
            name, params, bv, body, idx = a.args
            s = set(body.vars())
            for v in bv:
                s -= v.vars()
            for p in flat(params):
                s |= p.vars() if isinstance(p, (E, B)) else atom_vars(p)
            for p in idx:
                s |= p.vars()
            a._vars = frozenset(s)
        else:
            s = set()
            for x in flat(a.args):
                s |= x.vars() if isinstance(x, (E, B)) else atom_vars(x)
            a._vars = frozenset(s)
    return a._vars


def depends(x, v):
    """Does x mention one of the variables v (a set of atoms)?"""
    return bool(x.vars() & v)


def mk_sum(lo, hi, v, body):
    """Sum of body over v in [lo, hi); v is a variable term."""
    va = v.single()
    if (hi - lo).const() == 0 or body == ZERO:
        return ZERO
    out = ZERO
    groups = {}
    for m, c in body.terms.items():
        dep = tuple((a, e) for a, e in m if va in atom_vars(a))
        ind = tuple((a, e) for a, e in m if va not in atom_vars(a))
        groups.setdefault(dep, ZERO)
        groups[dep] = groups[dep] + E({ind: c})
    t, groups = telescope(lo, hi, v, groups)
    out = out + t
    for dep, co in groups.items():
        if dep == ():
            out = out + co * (hi - lo)  # callers assure lo <= hi
            continue
        b = E({dep: Fraction(1)})
        one = selected(lo, hi, v, dep)
        if one is not None:
            out = out + co * one
            continue
        n = (hi - lo).const()
        if n is not None and abs(n) <= 8 and n == int(n):
            for i in range(abs(int(n))):
                out = out + (co * subst(b, {va: lo + i}) if n > 0
                             else -co * subst(b, {va: hi + i}))
            continue
        pf = prefix_form(lo, hi, v, b)
        if pf is not None:
            p, q, bb = pf
            out = out + co * (mk_sum(ZERO, q, v, bb) - mk_sum(ZERO, p, v, bb))
            continue
        k = hi.terms.get((), 0)
        if lo == ZERO and k and abs(k) <= 8 and k == int(k):
            h0 = hi - lift(k)
            out = out + co * (mk_sum(ZERO, h0, v, b) + mk_sum(
                ZERO, lift(k), v, subst(b, {va: v + h0})))
            continue
        bv = var(f"#{bound_names(1 + height(b), [va], b)}")
        out = out + co * atom_e(mk_atom(
            "sum", (lo, hi, bv, rename(b, va, bv)),
            "real" if b.is_real() else "cplx"))
    return out


def selected(lo, hi, v, dep):
    """A sum of [v == t] rest(v): one summand, when t is within the limits."""
    va = v.single()
    for a, e in dep:
        if a.kind != "ite" or e != 1 or a.args[2] != ZERO:
            continue
        c = a.args[0]
        parts = c.args if c.kind == "and" else (c,)
        for x in parts:
            t = solve_eq(x, va)
            if t is None or not t.is_int():
                continue
            rest = a.args[1] * E({tuple(f for f in dep if f[0] is not a):
                                  Fraction(1)})
            r = subst(ite(AND(*[y for y in parts if y is not x]), rest, ZERO),
                      {va: t})
            return ite(AND(LE(lo, t), LT(t, hi)), r, ite(
                AND(LE(hi, t), LT(t, lo)), -r, ZERO))
    return None


def prefix_form(lo, hi, v, b):
    """A sum over [lo, hi) of a body that speaks of v + s only, as the
    difference of two sums from zero (a sum over [a, b) is F(b) - F(a) for a
    prefix sum F, whatever the order of a and b)."""
    cands = []
    for mm, cc in hi.terms.items():
        if cc < 0:
            cands.append(E({mm: -cc}))
    if lo != ZERO:
        cands.append(ZERO)
    for s in cands:
        a, z = lo + s, hi + s
        if s == ZERO:
            bb = b
        else:
            bb = subst(b, {v.single(): v - s})
            if not bb.vars() <= b.vars() - s.vars() | {v.single()} or \
                    any(x in flat_atoms(bb) for x in app_atoms(s)):
                continue
        return a, z, bb
    return None


def app_atoms(e):
    return [a for m in e.terms for a, _ in m]


def flat_atoms(x):
    """All atoms of a term, at any depth."""
    out = set()
    todo = [x]
    seen = set()
    while todo:
        y = todo.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, E):
            for m in y.terms:
                for a, _ in m:
                    out.add(a)
                    todo.append(a)
        elif isinstance(y, (tuple, list)):
            todo += list(y)
        elif hasattr(y, "args"):
            todo += list(y.args)
    return out


def telescope(lo, hi, v, groups):
    """Pairs co T(k+1) - co T(k) among the terms of a sum over k."""
    va = v.single()
    out = ZERO
    groups = dict(groups)
    for dep in list(groups):
        if dep == () or dep not in groups or not any(
                a.kind == "sum" for a, _ in dep):
            continue
        t = E({dep: Fraction(1)})
        nxt = subst(t, {va: v + 1})
        if len(nxt.terms) != 1:
            continue
        (d2, c2), = nxt.terms.items()
        if d2 != dep and d2 in groups and groups[d2] * c2 == -groups[dep] \
                and c2 == 1:
            co = groups[d2]
            out = out + co * (subst(t, {va: hi}) - subst(t, {va: lo}))
            del groups[dep], groups[d2]
    return out, groups


LINEAR = {"fft", "ifft", "roll", "convolve", "sumall", "lin"}


def mk_op(name, params, bv, body, idx, sort="cplx", linear=None):
    """Value at idx of the transform `name` of the array body(bv).

    bv: variable terms of the operand's indices; params: constants of the
    transform (shapes, normalisation, shifts)."""
    vs = frozenset(v.single() for v in bv)
    linear = name in LINEAR if linear is None else linear
    if linear and isinstance(body, E):
        if body == ZERO:
            return ZERO
        out = ZERO
        groups = {}
        for m, c in body.terms.items():
            dep = tuple((a, e) for a, e in m if atom_vars(a) & vs)
            ind = tuple((a, e) for a, e in m if not atom_vars(a) & vs)
            groups.setdefault(dep, ZERO)
            groups[dep] = groups[dep] + E({ind: c})
        for dep, co in groups.items():
            b = E({dep: Fraction(1)})
            out = out + co * _op(name, params, bv, b, idx, sort)
        return out
    return _op(name, params, bv, body, idx, sort)


def _op(name, params, bv, body, idx, sort):
    vs = [v.single() for v in bv]
    d = bound_names(1 + height(body), vs, body)
    nb = [var(f"#{d + k}") for k in range(len(bv))]
    if vs != [n.single() for n in nb]:
        body = subst(body, dict(zip(vs, nb)))
    return atom_e(mk_atom("op", (name, tuple(params), tuple(nb), body,
                                 tuple(idx)), sort))


def rename(x, va, nv):
    return x if va is nv.single() else subst(x, {va: nv})


def subst(x, mp, memo=None):
    """Replace variables (atoms -> terms). Bound names never clash, they are
    numbered by depth and only ever replaced by their own binder."""
    if not mp:
        return x
    memo = {} if memo is None else memo
    keys = frozenset(mp)
    # the incoming terms bind nothing: names of binders stay apart from them
    # when they are below the names that come in free
    low = min((int(a.args[0][1:]) for t in mp.values() for a in t.vars()
               if a.args[0][0] == "#"), default=1 << 30)
    if any(height(t) for t in mp.values()):
        low = 0
    memo["low"] = low
    return _subst(x, mp, keys, memo)


def open_binder(vs, keys, low):
    """May a substitution pass these binders without renaming them?"""
    return all(v.single() not in keys and int(v.single().args[0][1:]) < low
               for v in vs)


def _subst(x, mp, keys, memo):
    if isinstance(x, tuple):
        return tuple(_subst(y, mp, keys, memo) for y in x)
    if isinstance(x, E):
        if not (x.vars() & keys):
            return x
        if x in memo:
            return memo[x]
        out = ZERO
        for m, c in x.terms.items():
            t = lift(c)
            for a, e in m:
                if atom_vars(a) & keys:
                    r = _subst(a, mp, keys, memo)
                    t = t * (r ** e if e > 0 else r.inv() ** (-e))
                else:
                    t = t * E({((a, e),): Fraction(1)})
            out = out + t
        memo[x] = out
        return out
    if isinstance(x, B):
        if not (x.vars() & keys):
            return x
        if x in memo:
            return memo[x]
        if x.kind == "bex":
            lo, hi, v, b = x.args
            if open_binder([v], keys, memo["low"]):
                r = BEX(_subst(lo, mp, keys, memo), _subst(
                    hi, mp, keys, memo), v, _subst(b, mp, keys, memo))
                memo[x] = r
                return r
            t = fresh("bv")
            b2 = subst(subst(b, {v.single(): t}), mp)
            r = BEX(_subst(lo, mp, keys, memo), _subst(hi, mp, keys, memo),
                    t, b2)
            memo[x] = r
            return r
        r = B.rebuild(x.kind, tuple(
            _subst(y, mp, keys, memo) if isinstance(y, (E, B, Atom, tuple))
            else y for y in x.args))
        memo[x] = r
        return r
    if isinstance(x, Atom):
        if x in mp:
            return mp[x]
        if not (atom_vars(x) & keys):
            return atom_e(x)
        k = x.kind
        if k == "var":
            return atom_e(x)
        if k == "sum":
            lo, hi, v, b = x.args
            lo2, hi2 = _subst(lo, mp, keys, memo), _subst(hi, mp, keys, memo)
            if open_binder([v], keys, memo["low"]):
                return mk_sum(lo2, hi2, v, _subst(b, mp, keys, memo))
            t = fresh("bv")
            b2 = subst(subst(b, {v.single(): t}), mp)
            return mk_sum(lo2, hi2, t, b2)
        if k == "op":
            name, params, bv, body, idx = x.args
            if open_binder(bv, keys, memo["low"]):
                if body.vars() & keys:
                    return mk_op(name, _subst(params, mp, keys, memo), bv,
                                 _subst(body, mp, keys, memo),
                                 tuple(_subst(i, mp, keys, memo)
                                       for i in idx), x.sort)
                # the operand stays as it is
                return atom_e(mk_atom("op", (
                    name, tuple(_subst(params, mp, keys, memo)), bv, body,
                    tuple(_subst(i, mp, keys, memo) for i in idx)), x.sort))
            ts = [fresh("bv") for _ in bv]
            b2 = subst(body, {v.single(): t for v, t in zip(bv, ts)})
            b2 = subst(b2, mp)
            return mk_op(name, _subst(params, mp, keys, memo), ts, b2,
                         tuple(_subst(i, mp, keys, memo) for i in idx),
                         x.sort)
        args = tuple(_subst(y, mp, keys, memo)
                     if isinstance(y, (E, B, Atom, tuple)) else y
                     for y in x.args)
        if k == "inv":
            if args[0] == ZERO:
                # in a case that is excluded: one over zero has no value
                return app("one_over_zero", (), x.sort)
            return args[0].inv()
        if k == "sqrt":
            return sqrt(args[0])
        if k == "ite":
            return ite(*args)
        if k == "conj":
            return conj(args[0])
        if k == "phase":
            return phase(*args)
        if k == "fn":
            return fn(*args)
        if k == "app":
            return app(args[0], args[1:], x.sort)
        if k == "I":
            return IMAG()
        raise Unsupported(k)
    return x


# ---------------------------------------------------------------- formulas
class B:
    __slots__ = ("kind", "args", "uid", "_vars", "_bd")
    _tab = {}
    _n = itertools.count()

    @staticmethod
    def mk(kind, *args):
        k = (kind,) + args
        b = B._tab.get(k)
        if b is None:
            b = object.__new__(B)
            b.kind, b.args = kind, args
            b.uid = next(B._n)
            b._vars = b._bd = None
            B._tab[k] = b
        return b

    @staticmethod
    def rebuild(kind, args):
        if kind == "and":
            return AND(*args)
        if kind == "or":
            return OR(*args)
        if kind == "not":
            return NOT(args[0])
        if kind == "le":
            return LE(args[0], ZERO)
        if kind == "lt":
            return LT(args[0], ZERO)
        if kind == "eq":
            return EQ(args[0], ZERO)
        if kind == "bex":
            lo, hi, v, b = args
            return BEX(lo, hi, v, b)
        return B.mk(kind, *args)

    def vars(self):
        if self._vars is None:
            s = set()
            if self.kind == "bex":
                lo, hi, v, b = self.args
                s = (set(b.vars()) - set(v.vars())) | lo.vars() | hi.vars()
            else:
                for x in flat(self.args):
                    s |= x.vars() if isinstance(x, (E, B)) else atom_vars(x)
            self._vars = frozenset(s)
        return self._vars

    def __repr__(self):
        return show_b(self)


I_ATOM = mk_atom("I", (), "cplx")
TRUE = B.mk("true")
FALSE = B.mk("false")


def AND(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args if x.kind == "and" else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if NOT(y) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B.mk("and", *sorted(out, key=lambda b: b.uid))


def OR(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.args if x.kind == "or" else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if NOT(y) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B.mk("or", *sorted(out, key=lambda b: b.uid))


def NOT(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.kind == "not":
        return x.args[0]
    if x.kind == "le":
        return LT(ZERO, x.args[0])
    if x.kind == "lt":
        return LE(ZERO, x.args[0])
    return B.mk("not", x)


def IMP(a, b):
    return OR(NOT(a), b)


def _norm_cmp(d, sym):
    """Scale so that the leading coefficient is 1 (or -1 for inequalities)."""
    lead = min(d.terms, key=mono_key)
    c = d.terms[lead]
    if sym:
        return d * (1 / c)
    return d * (1 / abs(c))


def LE(a, b):
    d = lift(a) - lift(b)
    c = d.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if d.is_int():
        # a <= b and a < b+1 are one atom
        pass
    return B.mk("le", _norm_cmp(d, False))


def LT(a, b):
    d = lift(a) - lift(b)
    c = d.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if d.is_int():
        return LE(d + 1, ZERO)
    return B.mk("lt", _norm_cmp(d, False))


def EQ(a, b):
    d = lift(a) - lift(b)
    c = d.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    return B.mk("eq", _norm_cmp(d, True))


def BAPP(name, *args):
    return B.mk("app", name, *args)


def BEX(lo, hi, v, body):
    """Some v with lo <= v < hi satisfies body."""
    if body is FALSE or (hi - lo).const() is not None and \
            (hi - lo).const() <= 0:
        return FALSE
    c = (hi - lo).const()
    if c == 1:
        return subst(body, {v.single(): lo})
    if body.kind == "or":
        return OR(*[BEX(lo, hi, v, x) for x in body.args])
    va = v.single()
    if va not in body.vars():
        return AND(body, LT(lo, hi))
    # parts that do not depend on the variable move out
    if body.kind == "and":
        ind = [x for x in body.args if va not in x.vars()]
        if ind:
            return AND(*ind, BEX(lo, hi, v, AND(
                *[x for x in body.args if va in x.vars()])))
        # v == t selects one value
        for x in body.args:
            t = solve_eq(x, va)
            if t is not None:
                rest = AND(*[y for y in body.args if y is not x])
                return AND(LE(lo, t), LT(t, hi), subst(rest, {va: t}))
    else:
        t = solve_eq(body, va)
        if t is not None:
            return AND(LE(lo, t), LT(t, hi))
    nb = var(f"#{bound_names(1 + height(body), [va], body)}")
    return B.mk("bex", lo, hi, nb, rename(body, va, nb))


def BALL(lo, hi, v, body):
    return NOT(BEX(lo, hi, v, NOT(body)))


def solve_eq(b, va):
    """t when the formula is an integer equation v == t, else None."""
    if b.kind != "eq" or not b.args[0].is_int_valued():
        return None
    e = b.args[0]
    co = e.terms.get(((va, 1),))
    if co not in (1, -1):
        return None
    t = (e - atom_e(va) * co) * (-1 / co)
    return None if va in t.vars() or not t.is_int_valued() else t


def IFF(a, b):
    if a is b:
        return TRUE
    return AND(IMP(a, b), IMP(b, a))


def BITE(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    return OR(AND(c, x), AND(NOT(c), y))


# ---------------------------------------------------------------- printing
def show(x, depth=3):
    if not x.terms:
        return "0"
    out = []
    for m, c in list(x.terms.items())[:8]:
        s = "*".join(show_atom(a, depth) + (f"^{e}" if e != 1 else "")
                     for a, e in m)
        out.append(str(c) if not s else s if c == 1 else f"{c}*{s}")
    if len(x.terms) > 8:
        out.append("...")
    return " + ".join(out)


def show_atom(a, depth=3):
    if a.kind == "var":
        return a.args[0]
    if a.kind == "I":
        return "i"
    if depth <= 0:
        return f"<{a.kind}>"
    if a.kind == "app":
        return f"{a.args[0]}({', '.join(_sh(y, depth - 1) for y in a.args[1:])})"
    if a.kind == "op":
        n, p, bv, b, idx = a.args
        return (f"{n}[{_sh(b, depth - 1)}]"
                f"({', '.join(_sh(i, depth - 1) for i in idx)})")
    if a.kind == "fn":
        return f"{a.args[0]}({', '.join(_sh(y, depth - 1) for y in a.args[1:])})"
    return f"{a.kind}({', '.join(_sh(y, depth - 1) for y in a.args)})"


def _sh(y, depth):
    if isinstance(y, E):
        return show(y, depth)
    if isinstance(y, B):
        return show_b(y, depth)
    if isinstance(y, Atom):
        return show_atom(y, depth)
    return str(y)


def show_b(b, depth=3):
    if b.kind in ("true", "false"):
        return b.kind
    if depth <= 0:
        return f"<{b.kind}>"
    if b.kind in ("le", "lt", "eq"):
        return f"({_sh(b.args[0], depth)} {dict(le='<=', lt='<', eq='==')[b.kind]} 0)"
    if b.kind == "app":
        return f"{b.args[0]}({', '.join(_sh(y, depth - 1) for y in b.args[1:])})"
    return f"{b.kind}({', '.join(_sh(y, depth - 1) for y in b.args)})"

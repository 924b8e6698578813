"""Discharging formulas: normal forms for equations, z3 for the rest."""
import itertools
import os
import subprocess
import tempfile
import time

import z3

from .expr import (AND, B, BEX, E, EQ, FALSE, IMAG, LE, LT, NOT, ONE, OR,  # noqa
                   TRUE, ZERO, Atom, Unsupported, atom_e, atom_vars, conj,
                   flat, fresh, lift, mk_op, mono_key, subst)

STATS = {"z3_queries": 0, "z3_s": 0.0, "normal_form": 0, "z3": 0,
         "cvc5_agree": 0, "cvc5_unknown": 0, "cvc5_disagree": 0}
CROSS = False          # re-check the z3 proofs with cvc5


class Tr:
    """Translation to z3, with the defining axioms of what is mentioned."""

    def __init__(self, weak=False):
        self.num, self.form, self.ax, self.pair = {}, {}, {}, {}
        self.funs = {}
        self.weak = weak       # rounding by its bounds only


    def fun(self, name, argsorts, sort):
        k = (name, tuple(str(s) for s in argsorts), str(sort))
        if k not in self.funs:
            self.funs[k] = z3.Function(f"{name}", *argsorts, sort) \
                if argsorts else z3.Const(f"{name}", sort)
        return self.funs[k]

    # real (or integer) valued terms
    def e(self, x):
        """(z3 real or int term, frozenset of axioms)"""
        if x in self.num:
            return self.num[x]
        r, ax = self.pairs(x)
        out = (r[0], ax)
        self.num[x] = out
        return out

    def pairs(self, x):
        if x in self.pair:
            return self.pair[x]
        isint = x.is_int()
        zero = z3.IntVal(0) if isint else z3.RealVal(0)
        R, I, ax = [], [], set()
        for m, c in x.terms.items():
            mr, mi = None, None
            if isint:
                mr = z3.IntVal(int(c)) if c != 1 or not m else None
            else:
                mr = z3.Q(c.numerator, c.denominator) if c != 1 or not m \
                    else None
            for a, ex in m:
                (ar, ai), aax = self.atom(a)
                ax |= aax
                if not isint and ar.is_int():
                    ar = z3.ToReal(ar)
                for _ in range(abs(ex)):
                    br, bi = ar, ai
                    if ex < 0:
                        if bi is None:
                            inv = self.fun("inv", [z3.RealSort()],
                                           z3.RealSort())(br)
                            ax = ax | {(br != 0, inv * br == 1)}
                            br = inv
                        else:
                            k = (a, "inv")
                            bs = self.bound(a)
                            (ir, _), _ = self.mkfun(f"ir{a.uid}", bs, "real",
                                                    ())
                            (ii, _), _ = self.mkfun(f"ii{a.uid}", bs, "real",
                                                    ())
                            ax = ax | {(z3.Or(br != 0, bi != 0), z3.And(
                                ir * br - ii * bi == 1,
                                ir * bi + ii * br == 0))}
                            br, bi = ir, ii
                    if mr is None and mi is None:
                        mr, mi = br, bi
                    elif mi is None and bi is None:
                        mr = mr * br
                    elif mi is None:
                        mr, mi = mr * br, mr * bi
                    elif bi is None:
                        mr, mi = mr * br, mi * br
                    else:
                        mr, mi = mr * br - mi * bi, mr * bi + mi * br
            R.append(mr)
            if mi is not None:
                I.append(mi)
        r = zero if not R else R[0] if len(R) == 1 else z3.Sum(R)
        i = None if not I else I[0] if len(I) == 1 else z3.Sum(I)
        self.pair[x] = ((r, i), frozenset(ax))
        return self.pair[x]

    def args(self, xs):
        zs, ax = [], set()
        for x in xs:
            if isinstance(x, E):
                (r, i), a = self.pairs(x)
                ax |= a
                zs.append(r)
                if i is not None:
                    zs.append(i)
            elif isinstance(x, B):
                z, a = self.b(x)
                ax |= a
                zs.append(z)
        return zs, ax

    def atom(self, a):
        if a in self.ax:
            return self.ax[a]
        r = self._atom(a)
        self.ax[a] = r
        return r

    def mkfun(self, name, zs, sort, ax):
        ss = [z.sort() for z in zs]
        if sort == "cplx":
            f = self.fun(name + ".re", ss, z3.RealSort())
            g = self.fun(name + ".im", ss, z3.RealSort())
            return ((f(*zs), g(*zs)) if zs else (f, g)), frozenset(ax)
        s = z3.IntSort() if sort == "int" else z3.RealSort()
        f = self.fun(name, ss, s)
        return ((f(*zs) if zs else f), None), frozenset(ax)

    def bound(self, a, own=()):
        """The variables of enclosing binders that a (an atom; a tuple of
        terms, with the binders own) mentions, as z3 terms: a symbol
        introduced for it is a function of them."""
        if isinstance(a, tuple):
            vs = set()
            for y in flat(a):
                vs |= y.vars() if isinstance(y, (E, B)) else atom_vars(y) \
                    if isinstance(y, Atom) else set()
            own = {x.single() if isinstance(x, E) else x for x in own}
            vs -= own
        else:
            vs = atom_vars(a)
        out = sorted((v for v in vs if v.args[0][0] == "#"),
                     key=lambda v: v.args[0])
        return [self.atom(v)[0][0] for v in out]

    def _atom(self, a):
        k = a.kind
        if k == "I":
            return (z3.RealVal(0), z3.RealVal(1)), frozenset()
        if k == "var":
            return self.mkfun("v_" + a.args[0], [], a.sort, ())
        if k == "app":
            names = [y for y in a.args[1:] if not isinstance(y, (E, B))]
            zs, ax = self.args(a.args[1:])
            return self.mkfun("f_" + a.args[0] + "".join(
                f"_{n}" for n in names), zs, a.sort, ax)
        if k == "conj":
            (r, i), ax = self.atom(a.args[0])
            return (r, -i if i is not None else None), ax
        if k == "ite":
            c, x, y = a.args
            zc, ca = self.b(c)
            (xr, xi), xa = self.pairs(x)
            (yr, yi), ya = self.pairs(y)
            if xr.is_int() != yr.is_int():
                xr = z3.ToReal(xr) if xr.is_int() else xr
                yr = z3.ToReal(yr) if yr.is_int() else yr
            im = None
            if xi is not None or yi is not None:
                im = z3.If(zc, xi if xi is not None else z3.RealVal(0),
                           yi if yi is not None else z3.RealVal(0))
            return (z3.If(zc, xr, yr), im), ca | xa | ya
        if k == "fn":
            name = a.args[0]
            zs, ax = self.args(a.args[1:])
            ax = set(ax)
            x = zs[0]
            if name == "abs":
                return (z3.If(x >= 0, x, -x), None), frozenset(ax)
            if name in ("min", "max"):
                y = zs[1]
                if x.is_int() != y.is_int():
                    x = z3.ToReal(x) if x.is_int() else x
                    y = z3.ToReal(y) if y.is_int() else y
                c = x <= y if name == "min" else x >= y
                return (z3.If(c, x, y), None), frozenset(ax)
            if name == "floor" and self.weak:
                (r, _), _ = self.mkfun(f"floor{a.uid}", self.bound(a), "int",
                                       ())
                ax.add((z3.BoolVal(True), z3.And(
                    z3.ToReal(r) <= x, x < z3.ToReal(r) + 1)))
                return (r, None), frozenset(ax)
            if name == "floor":
                return (z3.ToInt(x), None), frozenset(ax)
            if name == "trunc":
                return (z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)), None), \
                    frozenset(ax)
            if name == "round":
                (r, _), _ = self.mkfun(f"round{a.uid}", self.bound(a), "int",
                                       ())
                d = x - z3.ToReal(r)
                if self.weak:
                    ax.add((z3.BoolVal(True), z3.And(2 * d <= 1, 2 * d >= -1)))
                    return (r, None), frozenset(ax)
                ax.add((z3.BoolVal(True), z3.And(
                    2 * d <= 1, 2 * d >= -1,
                    z3.Implies(z3.Or(2 * d == 1, 2 * d == -1), r % 2 == 0))))
                return (r, None), frozenset(ax)
            raise Unsupported(f"z3: {name}")
        if k == "sqrt":
            (r, i), ax = self.pairs(a.args[0])
            (sr, si), _ = self.mkfun(f"sqrt{a.uid}", self.bound(a), a.sort,
                                      ())
            ax = set(ax)
            if i is None and a.sort == "real":
                if r.is_int():
                    r = z3.ToReal(r)
                ax.add((r >= 0, z3.And(sr >= 0, sr * sr == r)))
            else:
                ii = i if i is not None else z3.RealVal(0)
                ax.add((z3.BoolVal(True), z3.And(
                    sr * sr - si * si == r, 2 * sr * si == ii, sr >= 0)))
            return (sr, si), frozenset(ax)
        if k == "inv":
            (r, i), ax = self.pairs(a.args[0])
            ax = set(ax)
            (sr, si), _ = self.mkfun(f"inv{a.uid}", self.bound(a), a.sort,
                                      ())
            if i is None:
                if r.is_int():
                    r = z3.ToReal(r)
                ax.add((r != 0, sr * r == 1))
                return (sr, None), frozenset(ax)
            ax.add((z3.Or(r != 0, i != 0), z3.And(
                sr * r - si * i == 1, sr * i + si * r == 0)))
            return (sr, si), frozenset(ax)
        if k == "sum":
            lo, hi, v, b = a.args
            zs, ax = self.args((lo, hi))
            n = mk_id(("sum", v, b))
            return self.mkfun(f"sum{n}", zs + self.bound((b,), (v,)), a.sort,
                              ax)
        if k == "op":
            name, params, bv, body, idx = a.args
            zs, ax = self.args(idx)
            n = mk_id((name, params, bv, body))
            r = self.mkfun(f"{name}{n}", zs + self.bound(
                (params, body), bv), a.sort, ax)
            if name == "last":
                self.ax[a] = r
                (hi,), = params
                me, j = atom_e(a), fresh("bv")
                c = NOT(EQ(body, ZERO))
                v = bv[0].single()
                z, az = self.b(OR(
                    NOT(BEX(ZERO, hi, j, subst(c, {v: j}))),
                    AND(LE(ZERO, me), LT(me, hi), subst(c, {v: me}),
                        NOT(BEX(me + 1, hi, j, subst(c, {v: j}))))))
                r = (r[0], r[1] | az | {(z3.BoolVal(True), z)})
            return r
        if k == "phase":
            zs, ax = self.args(a.args)
            return self.mkfun("phase", zs, "cplx", ax)
        raise Unsupported(f"z3: {k}")

    def b(self, f):
        if f in self.form:
            return self.form[f]
        r = self._b(f)
        self.form[f] = r
        return r

    def _b(self, f):
        k = f.kind
        if k == "true":
            return z3.BoolVal(True), frozenset()
        if k == "false":
            return z3.BoolVal(False), frozenset()
        if k in ("and", "or"):
            zs, ax = [], set()
            for x in f.args:
                z, a = self.b(x)
                zs.append(z)
                ax |= a
            return (z3.And if k == "and" else z3.Or)(*zs), frozenset(ax)
        if k == "not":
            z, a = self.b(f.args[0])
            return z3.Not(z), a
        if k in ("le", "lt", "eq"):
            (r, i), ax = self.pairs(f.args[0])
            if k == "le":
                return r <= 0, ax
            if k == "lt":
                return r < 0, ax
            return (r == 0 if i is None else z3.And(r == 0, i == 0)), ax
        if k == "app":
            zs, ax = self.args(f.args[1:])
            names = [y for y in f.args[1:] if not isinstance(y, (E, B))]
            g = self.fun("p_" + f.args[0] + "".join(f"_{n}" for n in names),
                         [z.sort() for z in zs], z3.BoolSort())
            return (g(*zs) if zs else g), frozenset(ax)
        if k == "bex":
            lo, hi, v, b = f.args
            # a bound variable of its own, so that the axioms of the terms
            # below can be put inside of the quantifier
            (vz, _), _ = self.atom(v.single())
            zl, al = self.e(lo)
            zh, ah = self.e(hi)
            zb, ab = self.b(b)
            inner, outer = set(), set(al | ah)
            for g, x in ab:
                (inner if mentions(g, vz) or mentions(x, vz)
                 else outer).add((g, x))
            body = z3.And(zl <= vz, vz < zh, zb,
                          *[z3.Implies(g, x) for g, x in inner])
            return z3.Exists([vz], body), frozenset(outer)
        raise Unsupported(f"z3: {k}")


_ids = {}


def mk_id(k):
    return _ids.setdefault(k, len(_ids))


def mentions(t, v):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if x.eq(v):
            return True
        todo += x.children()
    return False


TR = Tr()


def reset():
    global TR
    TR = Tr()
    _ids.clear()
    _cache.clear()


_cache = {}


SLOW = int(os.environ.get("PV_SLOW", "1"))


def solve(pc, extra, timeout=4000):
    """'unsat' / 'sat' / 'unknown' of pc and extra (formulas)."""
    key = (frozenset(pc), frozenset(extra))
    if key in _cache and (_cache[key][0] != "unknown"
                          or _cache[key][2] >= timeout):
        return _cache[key][:2]
    t = time.time()
    s = z3.Solver()
    s.set("timeout", timeout * SLOW)
    axs = set()
    for f in itertools.chain(pc, extra):
        z, a = TR.b(f)
        s.add(z)
        axs |= a
    for g, x in axs:
        s.add(z3.Implies(g, x))
    try:
        r = str(s.check())
    except z3.Z3Exception as e:
        r = "unknown"
    m = None
    if r == "sat":
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    STATS["z3_queries"] += 1
    STATS["z3_s"] += time.time() - t
    if r == "unknown" and any(rounded(f) for f in key[0] | key[1]):
        w = weak_solve(key[0] | key[1])
        if w is not None:
            r, s = "unsat", w
    _cache[key] = (r, (s, m), timeout)
    return r, (s, m)


_rounded = {}


def rounded(f):
    """Does a formula speak of rounded numbers?"""
    if f not in _rounded:
        from .expr import flat_atoms
        _rounded[f] = any(a.kind == "fn" and a.args[0] in ("round", "floor")
                          for a in flat_atoms(f))
    return _rounded[f]


def weak_solve(fs, timeout=2500):
    """A solver that shows the formulas inconsistent, with the bounds of
    rounding only and definitions without their guards where these hold."""
    t = time.time()
    tr = Tr(True)
    s = z3.Solver()
    s.set("timeout", timeout * SLOW)
    lin = z3.Solver()
    lin.set("timeout", 300 * SLOW)
    axs = set()
    for f in fs:
        z, a = tr.b(f)
        s.add(z)
        if not rounded(f):
            lin.add(z)
        axs |= a
    for g, x in axs:
        if not z3.is_true(g):
            lin.push()
            lin.add(z3.Not(g))
            r = str(lin.check())
            lin.pop()
            s.add(x if r == "unsat" else z3.Implies(g, x))
        else:
            s.add(x)
    r = str(s.check())
    STATS["z3_queries"] += 1
    STATS["z3_s"] += time.time() - t
    return s if r == "unsat" else None


def cvc5_check(s):
    """cvc5's answer on the query of a z3 solver."""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
        f.write("(set-logic ALL)\n" + s.to_smt2())
        f.flush()
        try:
            r = subprocess.run(["cvc5", "--tlimit=20000", f.name],
                               capture_output=True, text=True, timeout=40)
            return r.stdout.strip().split("\n")[0]
        except (OSError, subprocess.TimeoutExpired):
            return "unknown"


def entails(pc, f, timeout=1500):
    if f is TRUE or f in pc:
        return True
    if f is FALSE and not pc:
        return False
    return solve(pc, [NOT(f)], timeout)[0] == "unsat"


# ------------------------------------------------- rewriting under a path
def rewrite(x, fb, memo=None):
    """Rebuild x, replacing the formulas for which fb gives another one.
    Formulas below binders are visited too (fb must not use their names)."""
    memo = {} if memo is None else memo
    if isinstance(x, tuple):
        return tuple(rewrite(y, fb, memo) for y in x)
    if x in memo:
        return memo[x]
    if isinstance(x, E):
        out = ZERO
        for m, c in x.terms.items():
            t = lift(c)
            for a, e in m:
                r = rewrite(a, fb, memo)
                t = t * (r ** e if e > 0 else r.inv() ** (-e))
            out = out + t
    elif isinstance(x, B):
        out = fb(x)
        if out is None:
            if x.kind in ("true", "false"):
                out = x
            elif x.kind == "bex":
                lo, hi, v, b = x.args
                t = fresh("bv")
                out = BEX(rewrite(lo, fb, memo), rewrite(hi, fb, memo), t,
                          rewrite(subst(b, {v.single(): t}), fb, {}))
            else:
                out = B.rebuild(x.kind, tuple(
                    rewrite(y, fb, memo) if isinstance(
                        y, (E, B, Atom, tuple)) else y for y in x.args))
    elif isinstance(x, Atom):
        out = rewrite_atom(x, fb, memo)
    else:
        out = x
    memo[x] = out
    return out


def rewrite_atom(x, fb, memo):
    from . import expr as X

    k = x.kind
    if k in ("var", "I"):
        return atom_e(x)
    if k == "sum":
        lo, hi, v, b = x.args
        t = fresh("bv")
        return X.mk_sum(rewrite(lo, fb, memo), rewrite(hi, fb, memo), t,
                        rewrite(subst(b, {v.single(): t}), fb, {}))
    if k == "op":
        name, params, bv, body, idx = x.args
        if hasattr(fb, "op"):
            r = fb.op(x)
            if r is not None:
                return r
        ts = [fresh("bv") for _ in bv]
        b2 = rewrite(subst(body, {v.single(): t for v, t in zip(bv, ts)}),
                     fb, {})
        return mk_op(name, rewrite(params, fb, memo), ts, b2,
                     rewrite(idx, fb, memo), x.sort)
    args = tuple(rewrite(y, fb, memo) if isinstance(y, (E, B, Atom, tuple))
                 else y for y in x.args)
    return {"inv": lambda: args[0].inv(), "sqrt": lambda: X.sqrt(args[0]),
            "ite": lambda: X.ite(*args), "conj": lambda: conj(args[0]),
            "phase": lambda: X.phase(*args), "fn": lambda: X.fn(*args),
            "app": lambda: X.app(args[0], args[1:], x.sort)}[k]()


def conditions(x, out=None, seen=None):
    """The conditions of the if-terms occurring outside of binders."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        for y in x:
            conditions(y, out, seen)
        return out
    if x in seen:
        return out
    seen.add(x)
    if isinstance(x, E):
        for m in x.terms:
            for a, _ in m:
                conditions(a, out, seen)
    elif isinstance(x, Atom):
        if x.kind == "ite":
            c = x.args[0]
            if c not in out:
                out.append(c)
            conditions(x.args[1], out, seen)
            conditions(x.args[2], out, seen)
        elif x.kind == "op":
            conditions(x.args[1], out, seen)
            conditions(x.args[4], out, seen)
        elif x.kind == "sum":
            conditions(x.args[0], out, seen)
            conditions(x.args[1], out, seen)
        elif x.kind not in ("var", "I"):
            for y in flat(x.args):
                conditions(y, out, seen)
    elif isinstance(x, B) and x.kind in ("le", "lt", "eq", "app", "not",
                                         "and", "or"):
        for y in flat(x.args):
            conditions(y, out, seen)
    return out


def literal(c):
    """An atomic formula inside of a condition (to split on)."""
    while c.kind in ("and", "or", "not"):
        c = c.args[0]
    return c


def orient(pc):
    """Substitutions var -> term from the equations among the facts."""
    mp = {}
    for f in pc:
        if f.kind != "eq":
            continue
        e = f.args[0]
        if mp:
            e = subst(e, mp)
        best = None
        for m, c in e.terms.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
                a = m[0][0]
                t = (e - atom_e(a) * c) * (-1 / c)
                if a in t.vars():
                    continue
                if a.sort == "int" and not t.is_int():
                    continue
                if a.sort == "real" and not t.is_real():
                    continue
                if best is None or a.uid > best[0].uid:
                    best = (a, t)
        if best:
            a, t = best
            mp = {k: subst(v, {a: t}) for k, v in mp.items()}
            mp[a] = t
    return mp


def clear(d):
    """Multiply the denominators out."""
    for _ in range(40):
        big = {}
        for m in d.terms:
            for a, e in m:
                if a.kind == "inv":
                    big[a] = max(big.get(a, 0), e)
                elif e < 0:
                    big[a] = max(big.get(a, 0), -e)
        if not big:
            return d
        a, e = next(iter(big.items()))
        f = (a.args[0] ** e) if a.kind == "inv" else atom_e(a) ** e
        out = ZERO
        for m, c in d.terms.items():
            k = dict(m).get(a, 0)
            rest = E({tuple(t for t in m if t[0] is not a): c})
            if a.kind == "inv":
                out = out + rest * (a.args[0] ** (e - k))
            else:
                out = out + rest * atom_e(a) ** (e + k) if e + k else \
                    out + rest
        d = out
    return d


def ops_of(x, out=None, seen=None):
    out = {} if out is None else out
    seen = set() if seen is None else seen
    for m in x.terms:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            if a.kind in ("op", "sum"):
                out[a] = 1
            elif a.kind in ("inv", "sqrt", "conj", "fn", "app", "ite"):
                for y in flat(a.args):
                    if isinstance(y, E):
                        ops_of(y, out, seen)
                    elif isinstance(y, Atom):
                        ops_of(atom_e(y), out, seen)
    return out


def replace_atom(x, mp):
    """Replace whole atoms (outside of binders)."""
    def go(y):
        if isinstance(y, E):
            o = ZERO
            for m, c in y.terms.items():
                t = lift(c)
                for a, e in m:
                    r = goa(a)
                    t = t * (r ** e if e > 0 else r.inv() ** (-e))
                o = o + t
            return o
        return y

    def goa(a):
        if a in mp:
            return mp[a]
        if a.kind in ("inv", "sqrt", "conj", "fn", "app", "ite"):
            from . import expr as X
            args = tuple(go(y) if isinstance(y, E) else
                         goa(y) if isinstance(y, Atom) else y
                         for y in a.args)
            k = a.kind
            return {"inv": lambda: args[0].inv(),
                    "sqrt": lambda: X.sqrt(args[0]),
                    "ite": lambda: X.ite(*args),
                    "conj": lambda: conj(args[0]),
                    "fn": lambda: X.fn(*args),
                    "app": lambda: X.app(args[0], args[1:], a.sort)}[k]()
        return atom_e(a)
    return go(x)


class Budget(Exception):
    pass


class Prover:
    def __init__(self, timeout=6000, seconds=60):
        self.timeout = timeout
        self.end = time.time() + seconds * SLOW
        self.by = set()
        self.detail = ""

    def prove(self, pc, goal, depth=0):
        """'proved', 'refuted' or 'unknown'."""
        if time.time() > self.end:
            self.detail = "time limit"
            return "unknown"
        if goal is TRUE or goal in pc:
            self.by.add("normal form")
            return "proved"
        k = goal.kind
        if k == "and":
            res = "proved"
            for g in goal.args:
                r = self.prove(pc, g, depth)
                if r == "refuted":
                    return r
                if r == "unknown":
                    res = r
            return res
        if k == "not" and goal.args[0].kind == "bex":
            lo, hi, v, b = goal.args[0].args
            t = fresh("i")
            return self.prove(pc + [LE(lo, t), LT(t, hi)],
                              NOT(subst(b, {v.single(): t})), depth)
        if k == "or" and depth < 12:
            eqs = [g for g in goal.args
                   if g.kind in ("eq",) or g.kind == "and" or
                   (g.kind == "not" and g.args[0].kind == "bex")]
            if eqs:
                pick = eqs[-1]
                rest = [NOT(g) for g in goal.args if g is not pick]
                if solve(pc, rest, 1500)[0] == "unsat":
                    self.by.add("z3")
                    return "proved"
                r = self.prove(pc + rest, pick, depth + 1)
                if r == "proved" or pick.kind == "eq":
                    return r
        if k == "eq":
            return self.prove_eq(pc, goal.args[0], depth)
        return self.smt(pc, goal)

    def smt(self, pc, goal):
        r, (s, m) = solve(pc, [NOT(goal)], self.timeout)
        if r == "unsat":
            self.by.add("z3")
            if CROSS:
                c = cvc5_check(s)
                if c == "unsat":
                    STATS["cvc5_agree"] += 1
                    self.by.add("cvc5")
                elif c == "sat":
                    STATS["cvc5_disagree"] += 1
                    self.detail = "cvc5 disagrees"
                    return "unknown"
                else:
                    STATS["cvc5_unknown"] += 1
            return "proved"
        if r == "sat":
            self.detail = f"not entailed: {goal!r}\nmodel: {str(m)[:1500]}"
            return "refuted"
        self.detail = f"solver gave up on {goal!r}"
        return "unknown"

    def prove_eq(self, pc, d, depth=0):
        if time.time() > self.end:
            self.detail = "time limit"
            return "unknown"
        mp = orient(pc)
        if mp:
            d = subst(d, mp)
        # the branch conditions the path decides
        for _ in range(60):
            if not d.terms:
                break
            todo = conditions(d)
            hit = None
            for c in todo:
                a = literal(c)
                for lit in ((c, a) if a is not c else (c,)):
                    if entails(pc, lit):
                        hit = (lit, TRUE)
                    elif entails(pc, NOT(lit)):
                        hit = (lit, FALSE)
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                break
            d = assume(d, *hit)
        if not d.terms or not clear(d).terms:
            self.by.add("normal form")
            return "proved"
        todo = conditions(d)
        if todo and depth < 14:
            lit = literal(todo[0])
            for val, extra in ((TRUE, lit), (FALSE, NOT(lit))):
                if solve(pc, [extra], 1500)[0] == "unsat":
                    continue
                r = self.prove_eq(pc + [extra], assume(d, lit, val),
                                  depth + 1)
                if r != "proved":
                    return r
            return "proved"
        # transforms of operands that are equal though written differently
        d2 = self.unify(pc, clear(d), depth)
        if d2 is not None:
            if not d2.terms:
                self.by.add("normal form")
                return "proved"
            d = d2
        r = self.smt(pc, EQ(d, ZERO))
        if r == "refuted" and mp:
            # the facts, too, with the equations used
            more = [g for g in (subst(f, mp) for f in pc)
                    if g is not TRUE and g not in pc]
            if more:
                r = self.smt(pc + more, EQ(d, ZERO))
        return r

    def unify(self, pc, d, depth):
        if depth > 20:
            return None
        ops = list(ops_of(d))
        done = None
        for i, a in enumerate(ops):
            for b in ops[i + 1:]:
                if self.same_op(pc, a, b, depth):
                    d = clear(replace_atom(d, {b: atom_e(a)}))
                    done = d
                    if not d.terms:
                        return d
        return done

    def same_op(self, pc, a, b, depth):
        if a.kind != b.kind:
            return False
        if a.kind == "sum":
            lo, hi, v, x = a.args
            l2, h2, v2, y = b.args
            if not (self.eq(pc, lo, l2) and self.eq(pc, hi, h2)):
                return False
            t = fresh("i")
            return self.sub(pc + [LE(lo, t), LT(t, hi)],
                            subst(x, {v.single(): t}),
                            subst(y, {v2.single(): t}), depth)
        n, p, bv, x, idx = a.args
        n2, p2, bv2, y, idx2 = b.args
        if n != n2 or len(bv) != len(bv2) or len(idx) != len(idx2) or \
                len(p) != len(p2):
            return False
        for u, w in list(zip(idx, idx2)) + list(zip(flat(p), flat(p2))):
            if isinstance(u, E) and isinstance(w, E):
                if not self.eq(pc, u, w):
                    return False
            elif u is not w and u != w:
                return False
        if [q for q in p if not isinstance(q, (E, tuple))] != \
                [q for q in p2 if not isinstance(q, (E, tuple))]:
            return False
        ts = [fresh("i") for _ in bv]
        extra = []
        shp = next((q for q in p if isinstance(q, tuple)
                    and len(q) == len(bv)), None)
        for t, w in zip(ts, shp or ()):
            extra += [LE(ZERO, t), LT(t, w)]
        x = subst(x, {v.single(): t for v, t in zip(bv, ts)})
        y = subst(y, {v.single(): t for v, t in zip(bv2, ts)})
        return self.sub(pc + extra, x, y, depth)

    def sub(self, pc, x, y, depth):
        by, det = set(self.by), self.detail
        if isinstance(x, E) and isinstance(y, E):
            r = self.prove_eq(pc, x - y, depth + 3)
        elif isinstance(x, B) and isinstance(y, B):
            r = self.prove(pc, AND(OR(NOT(x), y), OR(NOT(y), x)), depth + 3)
        else:
            return False
        if r != "proved":
            self.by, self.detail = by, det
        return r == "proved"

    def eq(self, pc, x, y):
        return x == y or entails(pc, EQ(x, y))


def assume(x, lit, val):
    """x with the formula `lit` (and its negation) replaced by val."""
    neg = NOT(lit)

    def fb(f):
        if f is lit:
            return val
        if f is neg:
            return NOT(val)
        return None
    return rewrite(x, fb)

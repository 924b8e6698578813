"""Contracts of numpy structured arrays (catalogues) and of the nearest
neighbour search."""
from . import core
from .arrays import SArr, SMa, asarray, bidx, boolean, is_scalar, num
from .core import (AND, BALL, C, EQ, LE, LT, NOT, ONE, SNum, Unsupported, ZERO,
                   app, bool_of, fresh, ite, lift, mk, mk_op, num_e)
from .shims import LIBS, raise_, s_len, uses


class Names:
    def __init__(self, names):
        self.names = names


class Row:
    """One record of a catalogue."""

    def __init__(self, cat, i):
        self.cat, self.i = cat, i

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise Unsupported("field by number")
        return self.cat[k][mk(self.i, "i")]

    def __setitem__(self, k, v):
        self.cat[k][mk(self.i, "i")] = v

    def _pv_subst(self, mp):
        return Row(self.cat, core.subst(self.i, mp))

    def _pv_terms(self):
        return [self.i]


class Cat:
    """A structured array: columns of the same length."""

    def __init__(self, n, cols):
        self.n, self.cols = n, dict(cols)

    def _pv_len(self):
        return mk(self.n, "i")

    @property
    def shape(self):
        return (mk(self.n, "i"),)

    @property
    def size(self):
        return mk(self.n, "i")

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        return Names(tuple(self.cols))

    def _pv_array(self):
        raise Unsupported("array of records")

    def __iter__(self):
        raise Unsupported("native iteration over records")

    def _pv_elems(self):
        from .seqs import ArrSeq

        s = ArrSeq(self)
        s.length = lambda: self.n
        return s

    def copy(self):
        return Cat(self.n, {k: v.copy() for k, v in self.cols.items()})

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise_(ValueError(f"no field of name {k}"))
            return self.cols[k]
        if isinstance(k, SArr):
            if k.dtype_ == "b":
                raise Unsupported("selection of records")
            return Cat(k.shape_e[0], {c: v[k] for c, v in self.cols.items()})
        if is_scalar(k):
            from .arrays import norm_int

            return Row(self, norm_int(num_e(k), self.n))
        if isinstance(k, slice):
            cols = {c: v[k] for c, v in self.cols.items()}
            n = next(iter(cols.values())).shape_e[0]
            return Cat(n, cols)
        raise Unsupported("index of a catalogue")

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("assignment of records")
        if k not in self.cols:
            raise_(ValueError(f"no field of name {k}"))
        self.cols[k][:] = v

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"catalogue.{n}")


class Dist:
    """Distances, infinite where there is no neighbour."""

    def __init__(self, d, found):
        self.d, self.found = d, found
        self.shape_e = d.shape_e

    def _pv_len(self):
        return mk(self.shape_e[0], "i")

    @property
    def shape(self):
        return tuple(mk(s, "i") for s in self.shape_e)

    def _bool(self, f):
        return SArr.of(self.shape_e, f, "b")

    def _cmp(self, o, op):
        g, fd = self.d.getter(), self.found
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            if o < 0:
                v = op in ("gt", "ge", "ne")
                return self._bool(lambda i: core.TRUE if v else core.FALSE)
            return self._bool({
                "eq": lambda i: NOT(fd(i)), "ne": fd, "lt": fd,
                "ge": lambda i: NOT(fd(i)), "le": lambda i: core.TRUE,
                "gt": lambda i: core.FALSE}[op])
        if not is_scalar(o):
            raise Unsupported("comparison of distances")
        x = num_e(o)
        return self._bool({
            "eq": lambda i: AND(fd(i), EQ(g(i), x)),
            "ne": lambda i: NOT(AND(fd(i), EQ(g(i), x))),
            "lt": lambda i: AND(fd(i), LT(g(i), x)),
            "le": lambda i: AND(fd(i), LE(g(i), x)),
            "gt": lambda i: NOT(AND(fd(i), LE(g(i), x))),
            "ge": lambda i: NOT(AND(fd(i), LT(g(i), x)))}[op])

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    __hash__ = None

    def __getitem__(self, k):
        if is_scalar(k):
            from .arrays import norm_int

            i = (norm_int(num_e(k), self.shape_e[0]),)
            if C.decide(self.found(i)):
                return SNum(self.d.at(i), "f")
            return float("inf")
        if isinstance(k, SArr) and k.dtype_ != "b":
            w = self._bool(self.found)[k]
            return Dist(self.d[k], lambda i: boolean(w.at(i)))
        raise Unsupported("index of distances")

    def _pv_elems(self):
        from .seqs import ArrSeq

        s = ArrSeq(self)
        s.length = lambda: self.shape_e[0]
        return s

    def _pv_array(self):
        raise Unsupported("values of distances that may be infinite")

    def __iter__(self):
        raise Unsupported("native iteration over distances")

    def _pv_isfinite(self):
        return self._bool(self.found)

    def _pv_isinf(self):
        return self._bool(lambda i: NOT(self.found(i)))

    def _pv_subst(self, mp):
        from .seqs import at_subst, vsubst

        f = self.found
        return Dist(vsubst(self.d, mp), lambda i: at_subst(f, i, mp))

    def _pv_terms(self):
        t = tuple(fresh("y") for _ in self.shape_e)
        return [self.d.at(t), self.found(t)] + list(self.shape_e)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"distances.{n}")


def content(a):
    v = [fresh("c") for _ in a.shape_e]
    return mk_op("points", (tuple(a.shape_e),), v, num(a.at(tuple(v))), (),
                 "real", linear=False)


def dist2(a, i, b, j):
    """Squared distance of two points of the plane (or of D dimensions)."""
    D = a.shape_e[1]
    c = D.const()
    if c is None or c > 4:
        u = fresh("u")
        x = a.at((i, u)) - b.at((j, u))
        return core.mk_sum(ZERO, D, u, x * x)
    out = ZERO
    for k in range(int(c)):
        x = a.at((i, lift(k))) - b.at((j, lift(k)))
        out = out + x * x
    return out


QUERIES = []      # (points, points of the tree, bound) of every search


def instances(mine, other, depth=2):
    """What every search made ensures for the points mine = (number, indices)
    and other, following the results up to a depth."""
    sides = [(mine[0], list(mine[1])), (other[0], list(other[1]))]
    todo = [(s, i) for s in (0, 1) for i in sides[s][1]]
    seen = []
    for _ in range(depth):
        new = []
        for s, i in todo:
            for q in QUERIES:
                a, b, r = q
                if a.shape_e[0] != sides[s][0] or \
                        b.shape_e[0] != sides[1 - s][0]:
                    continue
                x = app("nearest", (content(a), content(b), i), "int")
                seen.append((q, i, 1 - s))
                if not any(x == y for y in sides[1 - s][1]):
                    sides[1 - s][1].append(x)
                    new.append((1 - s, x))
        todo = new
    out = []
    for (a, b, r), i, t in seen:
        out += nearest(a, b, r, i, sides[t][1])[2]
    return out


class KDTree:
    """scipy.spatial.cKDTree: query(X)[i] is the nearest point of the tree to
    X[i] if that is nearer than the bound, else inf and the number of points
    of the tree"""

    def __init__(self, data, **k):
        uses("scipy.spatial.cKDTree", KDTree.__doc__)
        self.b = asarray(data).copy()
        if len(self.b.shape_e) != 2 or self.b.ngetter():
            raise Unsupported("points of a tree")

    def query(self, x, k=1, distance_upper_bound=float("inf"), workers=1,
              **kw):
        if kw or not (isinstance(k, int) and k == 1):
            raise Unsupported("query arguments")
        a, b = asarray(x).copy(), self.b
        if len(a.shape_e) != 2 or a.ngetter():
            raise Unsupported("points of a query")
        n, m = a.shape_e[0], b.shape_e[0]
        ka, kb = content(a), content(b)

        def nn(i):
            return app("nearest", (ka, kb, i), "int")
        r = distance_upper_bound
        kr = "inf" if isinstance(r, float) and r == float("inf") else num_e(r)

        def found(i):
            return core.BAPP("found", ka, kb, kr, i[0])
        QUERIES.append((a, b, None if kr == "inf" else kr))
        i = fresh("i")
        C.assume(BALL(ZERO, n, i, core.OR(NOT(found((i,))), AND(
            LE(ZERO, nn(i)), LT(nn(i), m)))))
        sq = LIBS["numpy"].sqrt
        d = SArr.of((n,), lambda i: num_e(sq(SNum(dist2(
            a, i[0], b, nn(i[0])), "f"))), "f")
        return (Dist(d, found), SArr.of((n,), lambda i: ite(
            found(i), nn(i[0]), m), "i"))


def nearest(a, b, r, i, js):
    """What the search for a[i] in b within r ensures (r None: no bound):
    index, found, and the formulas, for the given indices js of b."""
    ka, kb = content(a), content(b)
    m = b.shape_e[0]
    x = app("nearest", (ka, kb, i), "int")
    f = core.BAPP("found", ka, kb, "inf" if r is None else r, i)
    near = core.TRUE if r is None else AND(
        LT(ZERO, r), LT(dist2(a, i, b, x), r * r))
    out = [core.OR(LE(m, ZERO), AND(LE(ZERO, x), LT(x, m))),
           core.IFF(f, AND(LT(ZERO, m), near))]
    for j in js:
        out.append(core.OR(LT(j, ZERO), LE(m, j), LE(
            dist2(a, i, b, x), dist2(a, i, b, j))))
    return x, f, out


LIBS["scipy.spatial"].cKDTree = KDTree
LIBS["scipy.spatial"].KDTree = KDTree

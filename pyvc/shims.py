"""Contracts of the libraries the repository calls (all of them assumed).

Every function here states what numpy / scipy / sep / astropy / joblib return
for symbolic arguments; an argument or function that is not covered stops the
proof (Unsupported), it is never guessed.
"""
import builtins
import contextlib
import itertools
import math as _math
import pathlib

from . import core
from .arrays import (DTag, Ix, MaybeMask, NoMask, SArr, SMa, SSel, SWhere,  # noqa
                     asarray, assign, binop, boolean, broadcast, cast, dim,
                     dtype_of, elementwise, full, getter_of, is_scalar,
                     ma_binop, num, opaque, over, reduce_opaque, reduce_sum,
                     reduce_bool, where, zeros, _NoMask)
from .core import (AND, B, BALL, BAPP, BEX, BITE, C, E, EQ, FALSE, IFF, LE,  # noqa
                   LT, NOT, ONE, OR, Poison, SBool, SNum, TRUE, Unsupported,
                   ZERO, app, bool_of, cast_num, conj, fn, form, fresh, ite,
                   join, kind_of, lift, mk, mk_op, mk_sum, num_e, power,
                   raise_, re, sqrt, subst, var)
from .expr import phase
from .seqs import (ArrSeq, Native, PList, Rev, SEnum, SRange, SZip, as_seq,
                   vite)

TRUSTED = {}          # name -> contract text, of the shims that were used


def uses(nm, text):
    TRUSTED[nm] = text


class Shim:
    """A library namespace; an unknown member is a value nobody may use."""

    def __init__(self, nm, **members):
        self.__dict__["_nm"] = nm
        self.__dict__.update(members)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Poison(f"{self._nm}.{n} has no contract")


class Marker:
    """A type of a library, for isinstance."""

    def __init__(self, nm, test, make=None):
        self._nm, self._test, self._make = nm, test, make
        self.__name__ = nm

    def __call__(self, *a, **k):
        if self._make is None:
            raise Unsupported(f"{self._nm}(...) has no contract")
        return self._make(*a, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self._nm}.{n}")


class DT(Marker):
    def __init__(self, nm, tag, test):
        super().__init__(nm, test, lambda x=0: cast_any(x, tag))
        self.pv_dtype = tag


def cast_any(x, tag):
    if isinstance(x, (SArr, SMa)):
        return x.astype(tag)
    return cast_num(x, tag)


def is_arr(x):
    return isinstance(x, (SArr, SMa))


def is_list(x):
    return isinstance(x, (list, tuple, PList))


# ------------------------------------------------------------------ builtins
_isinstance = builtins.isinstance


def s_isinstance(x, t):
    if _isinstance(t, tuple):
        return any(s_isinstance(x, u) for u in t)
    if _isinstance(t, PList):
        raise Unsupported("isinstance with a list")
    if _isinstance(t, Marker):
        return t._test(x)
    if t is BT["list"] or t is list:
        return _isinstance(x, (list, PList))
    if t is BT["tuple"]:
        return _isinstance(x, tuple)
    if t is BT["int"]:
        return _isinstance(x, (int, bool, SBool)) or \
            _isinstance(x, SNum) and x.t == "i"
    if t is BT["float"]:
        return _isinstance(x, float) or _isinstance(x, SNum) and \
            x.t in ("f",)
    if t is BT["bool"]:
        return _isinstance(x, (bool, SBool))
    if t is BT["str"]:
        return _isinstance(x, str) or getattr(x, "_pv_str", False) is True
    if t is BT["dict"]:
        return _isinstance(x, dict)
    if t is complex:
        return _isinstance(x, complex) or _isinstance(x, SNum) and x.t == "c"
    if _isinstance(x, Poison):
        x()
    if not _isinstance(t, type):
        raise Unsupported(f"isinstance with {t!r}")
    k = getattr(x, "_pv_class", None)
    if k is not None:
        return k == t or issubclass(k, t)
    return _isinstance(x, t)


def s_len(x):
    if _isinstance(x, SArr) or _isinstance(x, SMa):
        if not x.shape_e:
            raise_(TypeError("len() of unsized object"))
        return mk(x.shape_e[0], "i")
    if getattr(type(x), "_pv_seq", False) and hasattr(x, "length"):
        if _isinstance(x, (SZip, SEnum)):
            raise_(TypeError("object has no len()"))
        return mk(x.length(), "i")
    if hasattr(x, "_pv_len"):
        return x._pv_len()
    return len(x)


def s_range(*a):
    if all(_isinstance(x, int) for x in a):
        return range(*a)
    for x in a:
        if kind_of(x) != "i":
            raise_(TypeError("object cannot be interpreted as an integer"))
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(*a)
    st = num_e(a[2]).const()
    if st is None:
        raise Unsupported("range step")
    return SRange(a[0], a[1], int(st))


def symbolic_iter(x):
    return _isinstance(x, (SArr, SMa)) or getattr(type(x), "_pv_seq", False) \
        or hasattr(x, "_pv_elems")


def s_zip(*a, strict=False):
    if any(symbolic_iter(x) for x in a):
        return SZip(*a)
    return list(zip(*a))


def s_enumerate(x, start=0):
    if symbolic_iter(x):
        return SEnum(x, start)
    return list(enumerate(x, start))


def s_reversed(x):
    if symbolic_iter(x):
        return Rev(as_seq(x))
    return list(reversed(x))


def s_list(x=()):
    if _isinstance(x, PList):
        return x.copy()
    if symbolic_iter(x):
        s = as_seq(x)
        n = s.length()
        if n.const() is not None:
            return PList([s.elem(lift(k)) for k in range(int(n.const()))])
        return PList(n=n, get=s.elem)
    return PList(list(x))


def s_tuple(x=()):
    if symbolic_iter(x):
        s = as_seq(x)
        n = s.length().const()
        if n is None:
            raise Unsupported("tuple of symbolic length")
        return tuple(s.elem(lift(k)) for k in range(int(n)))
    return tuple(x)


class IntT(type):
    pass


def s_int(x=0, *a):
    if a:
        return int(x, *a)
    if _isinstance(x, (SNum, SBool)):
        return cast_num(x, "i")
    if _isinstance(x, SArr):
        if x.size_e.const() == 1:
            return cast_num(SNum(num(x.at(tuple(ZERO for _ in x.shape_e)))),
                            "i")
        raise Unsupported("int of an array")
    return int(x)


def s_float(x=0.0):
    if _isinstance(x, (SNum, SBool)):
        return SNum(num_e(x), "f")
    if _isinstance(x, SArr):
        if x.size_e.const() == 1:
            return SNum(num(x.at(tuple(ZERO for _ in x.shape_e))), "f")
        raise Unsupported("float of an array")
    return float(x)


def s_bool(x=False):
    if _isinstance(x, (SNum, SBool)):
        return bool_of(form(x))
    return bool(x)


def s_abs(x):
    return abs(x)


def s_round(x, n=None):
    if _isinstance(x, SNum):
        return x.__round__(n)
    if _isinstance(x, SArr):
        return np_round(x)
    return round(x) if n is None else round(x, n)


def s_minmax(nm):
    nat = {"min": min, "max": max}[nm]

    def f(*a, key=None, default=None):
        if key is not None:
            raise Unsupported("min/max key")
        if len(a) == 1:
            s = as_seq(a[0])
            n = s.length().const()
            if n is None and getattr(s, "guard", None) is not None:
                if s.tail or default is not None:
                    raise Unsupported("max of an extended list")
                return s.bound(nm)
            if n is None:
                return np_minmax(nm)(s_list(a[0]))
            a = [s.elem(lift(k)) for k in range(int(n))]
            if not a:
                raise_(ValueError("empty sequence"))
        r = a[0]
        for x in a[1:]:
            if all(_isinstance(y, (int, float)) for y in (r, x)):
                r = nat(r, x)
            else:
                r = mk(fn(nm, num_e(r), num_e(x)),
                       join(kind_of(r), kind_of(x)))
        return r
    return f


def s_sum(x, start=0):
    if _isinstance(x, SArr):
        if len(x.shape_e) == 1:
            return reduce_sum(x) + start
        raise Unsupported("sum of an array")
    s = as_seq(x)
    n = s.length()
    if n.const() is None or getattr(s, "guard", None):
        j = fresh("b")
        v = s.get(j) if getattr(s, "guard", None) else s.elem(j)
        if not _isinstance(v, (SNum, int, float, SBool, bool)):
            raise Unsupported("sum of objects")
        t = kind_of(v)
        e = num_e(v)
        if getattr(s, "guard", None):
            e = ite(s.guard(j), e, ZERO)
            n = s.n
        return mk(mk_sum(ZERO, n, j, e), "i" if t == "b" else t) + start
    r = start
    for k in range(int(n.const())):
        r = r + s.elem(lift(k))
    return r


def s_anyall(nm):
    def f(x):
        s = as_seq(x)
        g = getattr(s, "guard", None)
        n = s.n if g else s.length()
        if n.const() is None:
            j = fresh("b")
            v = form(s.get(j) if g else s.elem(j))
            if nm == "all":
                v = NOT(v)
            if g:
                v = AND(g(j), v)
            r = BEX(ZERO, n, j, v)
            return bool_of(r if nm == "any" else NOT(r))
        out = []
        for k in range(int(n.const())):
            v = form(s.elem(lift(k)))
            if g:
                v = AND(g(lift(k)), v) if nm == "any" else OR(NOT(g(lift(k))),
                                                              v)
            out.append(v)
        return bool_of(OR(*out) if nm == "any" else AND(*out))
    return f


def s_sorted(x, key=None, reverse=False):
    if _isinstance(x, PList) and x.items is None or _isinstance(x, SArr):
        return SORTED(x, key, reverse)
    items = list(x)
    if any(_isinstance(i, (SNum, SArr, PList, SBool)) for i in items):
        raise Unsupported("sorted of symbolic items")
    return PList(sorted(items, key=key, reverse=bool(reverse)))


def SORTED(x, key, reverse):
    raise Unsupported("sorted of a symbolic list")


def s_type(x, *a):
    if a:
        raise Unsupported("type with three arguments")
    k = getattr(x, "_pv_class", None)
    if k is not None:
        return k
    if _isinstance(x, SNum):
        return BT["int"] if x.t == "i" else BT["float"]
    if _isinstance(x, PList):
        return BT["list"]
    if is_arr(x):
        return MASKED if _isinstance(x, SMa) else NDARRAY
    return type(x)


def s_id(x):
    """id(): the identity of a live object, distinct from those of the other
    live objects"""
    uses("id", s_id.__doc__)
    return mk(var(f"id{serial_of(x)}"), "i")


IDS = []


def serial_of(x):
    for k, y in enumerate(IDS):
        if y is x:
            return k
    IDS.append(x)
    return len(IDS) - 1


def s_hex(x):
    if _isinstance(x, SNum):
        return core.text_of(x, "x")
    return hex(x)


def s_str(x="", *a):
    if core.TEXTS is not None and _isinstance(x, SNum):
        return core.text_of(x, "")
    if _isinstance(x, (SNum, SArr, SBool, PList, SMa)):
        raise Unsupported("text of a symbolic value")
    return str(x, *a)


def s_map(f, *its):
    s = SZip(*its) if len(its) > 1 else as_seq(its[0])
    g = (lambda j: f(*s.elem(j))) if len(its) > 1 else \
        (lambda j: f(s.elem(j)))
    n = s.length()
    if n.const() is not None:
        return PList([g(lift(k)) for k in range(int(n.const()))])
    return PList(n=n, get=g)


def s_iter(x):
    if symbolic_iter(x):
        raise Unsupported("iter of a symbolic sequence")
    return iter(x)


class _Num(type):
    """int / float as callables that are also types for comparison."""


BT = dict(isinstance=s_isinstance, len=s_len, range=s_range, zip=s_zip,
          enumerate=s_enumerate, reversed=s_reversed, list=s_list,
          tuple=s_tuple, int=s_int, float=s_float, bool=s_bool, abs=s_abs,
          round=s_round, min=s_minmax("min"), max=s_minmax("max"), sum=s_sum,
          any=s_anyall("any"), all=s_anyall("all"), sorted=s_sorted,
          type=s_type, str=s_str, map=s_map, id=s_id, hex=s_hex, iter=s_iter, dict=dict,
          print=lambda *a, **k: None)

# dtype arguments may be the builtin types as seen by the rewritten code
for _f, _t in ((s_int, "i"), (s_float, "f"), (s_bool, "b")):
    _f.pv_dtype = _t


# ------------------------------------------------------------------ numpy
def elem1(name, f, dtype=None, keep=True):
    def g(x, out=None, **k):
        if k or out is not None:
            raise Unsupported(f"np.{name} arguments")
        if _isinstance(x, SMa):
            return SMa(g(x._data), x._mask)
        if _isinstance(x, PList) or is_list(x):
            x = asarray(x)
        t = dtype or (kind_of(x) if not _isinstance(x, SArr) else x.dtype_)
        if t in ("i", "b") and dtype is None:
            t = "f"
        r = elementwise(lambda v: f(num(v)), x, dtype=t)
        return r
    return g


def np_abs(x):
    if _isinstance(x, PList) or is_list(x):
        x = asarray(x)
    return abs(x)


def np_sqrt(x):
    if _isinstance(x, SMa):
        raise Unsupported("sqrt of a masked array")
    t = x.dtype_ if _isinstance(x, SArr) else kind_of(x)
    t = t if t in ("c", "f4") else "f"
    if core.ROUNDING:
        raise Unsupported("rounded sqrt")
    return elementwise(lambda v: sqrt(num(v)), x, dtype=t)


def np_sum(x, axis=None, dtype=None, keepdims=False, out=None):
    if keepdims or out is not None:
        raise Unsupported("np.sum arguments")
    if _isinstance(x, SMa):
        return x.sum(axis)
    if not _isinstance(x, SArr):
        x = asarray(x)
    if _isinstance(x, (SNum, SBool)):
        return x
    return x.sum(axis)


def shape_of(s):
    if is_list(s):
        return tuple(dim(x) for x in s)
    return (dim(s),)


def chk_shape(s):
    for d in s:
        if not d.is_int():
            raise_(TypeError("shape must be integers"))
        if d.const() is not None and d.const() < 0:
            raise_(ValueError("negative dimensions are not allowed"))
    return s


def np_zeros(shape, dtype=None, order=None):
    return zeros(chk_shape(shape_of(shape)), dtype_of(dtype))


def np_ones(shape, dtype=None):
    return full(chk_shape(shape_of(shape)), 1, dtype_of(dtype)) \
        if dtype_of(dtype) != "b" else full(shape_of(shape), True)


def np_full(shape, v, dtype=None):
    return full(chk_shape(shape_of(shape)), v,
                None if dtype is None else dtype_of(dtype))


def np_empty(shape, dtype=None):
    s = chk_shape(shape_of(shape))
    t = dtype_of(dtype)
    nm = f"empty{fresh('u').single().args[0].split('!')[1]}"
    if t == "b":
        return SArr.of(s, lambda i: BAPP(nm, *i), t)
    return SArr.of(s, lambda i: app(nm, tuple(i), {
        "c": "cplx", "i": "int"}.get(t, "real")), t)


def np_zeros_like(a, dtype=None):
    a = asarray(a)
    t = a.dtype_ if dtype is None else dtype_of(dtype)
    if _isinstance(a, SMa):
        return SMa(zeros(a.shape_e, t), a._mask)
    return zeros(a.shape_e, t)


def np_ones_like(a, dtype=None):
    a = asarray(a)
    return full(a.shape_e, 1, a.dtype_ if dtype is None else dtype_of(dtype))


def np_array(x, dtype=None, copy=True, **k):
    if _isinstance(x, SMa):
        x = x._data
    r = asarray(x)
    if not _isinstance(r, SArr):
        return r
    if dtype is not None and dtype_of(dtype) != r.dtype_:
        return cast(r, dtype_of(dtype))
    if copy and (r is x or _isinstance(x, SMa) or r.buf is getattr(
            x, "buf", None)):
        return r.copy()
    return r


def np_asarray(x, dtype=None, order=None):
    if _isinstance(x, SMa):
        x = x._data
    r = asarray(x)
    if dtype is not None and dtype_of(dtype) != r.dtype_:
        return cast(r, dtype_of(dtype))
    return r


def ufunc2(nm):
    def f(a, b, out=None, casting="same_kind", where=True, dtype=None):
        if where is not True or dtype is not None:
            raise Unsupported("ufunc arguments")
        if is_list(a):
            a = asarray(a)
        if is_list(b):
            b = asarray(b)
        if _isinstance(a, SMa) or _isinstance(b, SMa):
            if out is not None:
                raise Unsupported("masked ufunc output")
            return ma_binop(nm, a, b)
        v = binop(nm, a, b)
        if out is None:
            return v
        assign(out, v, inplace=casting != "unsafe")
        return out
    return f


def np_minmax(nm):
    def f(x, axis=None):
        if axis is not None:
            raise Unsupported("axis")
        if _isinstance(x, SMa):
            raise Unsupported("masked extreme")
        a = asarray(x)
        n = a.size_e.const()
        if n is not None and len(a.shape_e) == 1 and 0 < n <= 16:
            r = a[0]
            for k in range(1, int(n)):
                r = mk(fn(nm, num_e(r), num_e(a[k])), a.dtype_)
            return r
        return reduce_opaque(nm, a)
    return f


def np_elem_minmax(nm):
    def f(a, b):
        return elementwise(lambda x, y: fn(nm, num(x), num(y)), a, b,
                           dtype=join(getter_of(a)[3], getter_of(b)[3]))
    return f


def np_any(x, axis=None):
    if _isinstance(x, SMa):
        raise Unsupported("any of a masked array")
    if x is NoMask:
        return False
    if _isinstance(x, MaybeMask):
        x = x.arr
    if not _isinstance(x, SArr):
        x = asarray(x)
    if not _isinstance(x, SArr):
        return bool_of(form(x))
    return reduce_bool(x, axis, "any")


def np_all(x, axis=None):
    if not _isinstance(x, SArr):
        x = asarray(x)
    if not _isinstance(x, SArr):
        return bool_of(form(x))
    return reduce_bool(x, axis, "all")


def np_isnan(x):
    if _isinstance(x, SMa):
        return SMa(np_isnan(x._data), x._mask)
    if not _isinstance(x, SArr):
        if _isinstance(x, (SNum, SBool)):
            return False
        if _isinstance(x, float):
            return x != x
        x = asarray(x)
    n = x.ngetter()
    return SArr.of(x.shape_e, (lambda i: n(i)) if n else (lambda i: FALSE),
                   "b").unwrap()


def np_where(c, x=None, y=None):
    if x is None:
        if _isinstance(c, SMa):
            raise Unsupported("where of a masked array")
        c = asarray(c)
        if c.dtype_ != "b":
            c = cast(c, "b")
        return SWhere(c.copy())
    return where(c, x, y)


def np_arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("arange step")
    lo, hi = dim(lo), dim(hi)
    t = "i" if lo.is_int() and hi.is_int() else "f"
    if t == "f" and not (hi - lo).is_int():
        raise Unsupported("arange of reals")
    n = hi - lo
    if not C.known(LE(ZERO, n)):
        n = fn("max", n, ZERO)
    return SArr.of((n,), lambda i: lo + i[0],
                   t if dtype is None else dtype_of(dtype))


class _MGrid:
    def __getitem__(self, key):
        if not _isinstance(key, tuple):
            key = (key,)
        ns, lo = [], []
        for s in key:
            if s.step is not None:
                raise Unsupported("mgrid")
            a = ZERO if s.start is None else dim(s.start)
            b = dim(s.stop)
            if s.start is not None:
                if not (a.is_int() and b.is_int()):
                    raise Unsupported("mgrid of reals")
                b = b - a
                if not C.known(LE(ZERO, b)):
                    b = fn("max", b, ZERO)
            lo.append(a)
            ns.append(b)
        gs = [SArr.of(ns, lambda i, d=d: lo[d] + i[d],
                      "i" if all(n.is_int() for n in ns) else "f")
              for d in range(len(ns))]
        return PList(gs)


def np_round(x, decimals=0):
    if decimals != 0:
        raise Unsupported("round to digits")
    if _isinstance(x, SNum):
        return SNum(fn("round", x.e), x.t)
    if is_scalar(x):
        return round(x) if _isinstance(x, int) else float(round(x))
    a = asarray(x)
    return elementwise(lambda v: fn("round", num(v)), a, dtype=a.dtype_)


def np_clip(x, lo, hi):
    def f(v, a, b):
        return fn("min", fn("max", num(v), num(a)), num(b))
    return elementwise(f, x, lo, hi)


def np_dot(a, b):
    a, b = asarray(a), asarray(b)
    if len(a.shape_e) == 1 and len(b.shape_e) == 1:
        need_eq(a.shape_e[0], b.shape_e[0])
        return reduce_sum(a * b)
    if 1 <= len(a.shape_e) <= 2 and 1 <= len(b.shape_e) <= 2:
        if a.ngetter() or b.ngetter():
            raise Unsupported("matrix product with NaN")
        uses("numpy.dot", "the sums of the products of rows and columns")
        n = a.shape_e[-1]
        need_eq(n, b.shape_e[0])
        ga, gb, ra = a.getter(), b.getter(), len(a.shape_e) - 1

        def get(i):
            v = fresh("d")
            return mk_sum(ZERO, n, v, num(ga(tuple(i[:ra]) + (v,)))
                          * num(gb((v,) + tuple(i[ra:]))))
        return SArr.of(a.shape_e[:-1] + b.shape_e[1:], get,
                       join(a.dtype_, b.dtype_))
    raise Unsupported("dot of matrices")


def np_vdot(a, b):
    a, b = asarray(a), asarray(b)
    if len(a.shape_e) != len(b.shape_e):
        raise Unsupported("vdot")
    for x, y in zip(a.shape_e, b.shape_e):
        need_eq(x, y)
    return reduce_sum((a.conj() if a.dtype_ == "c" else a) * b)


def need_eq(x, y, exc=ValueError):
    if x == y:
        return
    if not C.decide(EQ(x, y)):
        raise_(exc("shapes do not match"))


def np_repeat(v, n):
    if is_scalar(v):
        return full((dim(n),), v)
    raise Unsupported("repeat of an array")


def np_ravel(a):
    if hasattr(a, "_pv_ravel"):
        return a._pv_ravel()
    return asarray(a).ravel()


def np_size(a):
    if hasattr(a, "_pv_size"):
        return a._pv_size()
    return asarray(a).size


def np_shape(a):
    return asarray(a).shape


def np_iscomplexobj(x):
    if is_arr(x):
        return x.dtype_ == "c"
    if _isinstance(x, SNum):
        return x.t == "c"
    return _isinstance(x, complex)


def np_ix(*a):
    return Ix(asarray(x) for x in a)


def np_flatnonzero(a):
    a = asarray(a)
    if a.dtype_ != "b":
        a = cast(a, "b")
    if len(a.shape_e) != 1:
        raise Unsupported("flatnonzero of a matrix")
    return FlatNZ(a)


class FlatNZ:
    """np.flatnonzero of a boolean vector: increasing positions of the true
    elements; the first and the last are the extreme ones."""
    _n = 0

    def __init__(self, a):
        uses("numpy.flatnonzero", FlatNZ.__doc__)
        self.a = a
        self.n = a.shape_e[0]
        g = a.getter()
        j = fresh("j")
        self.ends = {}
        self.some = BEX(ZERO, self.n, j, boolean(g((j,))))
        v = fresh("c")
        self.cnt = mk_sum(ZERO, self.n, v, ite(boolean(g((v,))), ONE, ZERO))

    def end(self, which):
        if which in self.ends:
            return self.ends[which]
        if not C.decide(self.some):
            raise_(IndexError("index 0 is out of bounds"))
        g = self.a.getter()
        j = fresh("b")
        e = mk_op("nz" + which, ((self.n,),), [j],
                  ite(boolean(g((j,))), ONE, ZERO), (), "int", linear=False)
        C.assume(LE(ZERO, e))
        C.assume(LT(e, self.n))
        C.assume(boolean(g((e,))))
        i = fresh("i")
        if which == "first":
            C.assume(BALL(ZERO, e, i, NOT(boolean(g((i,))))))
        else:
            C.assume(BALL(e + 1, self.n, i, NOT(boolean(g((i,))))))
        self.ends[which] = mk(e, "i")
        return self.ends[which]

    def __getitem__(self, k):
        if _isinstance(k, int) and k == 0:
            return self.end("first")
        if _isinstance(k, int) and k == -1:
            return self.end("last")
        if k == [0, -1] or _isinstance(k, PList) and k.items is not None \
                and k.items == [0, -1]:
            return asarray([self.end("first"), self.end("last")])
        raise Unsupported("index of flatnonzero")

    @property
    def size(self):
        C.assume(LE(ZERO, self.cnt))
        C.assume(IFF(LT(ZERO, self.cnt), self.some))
        return mk(self.cnt, "i")

    def _pv_len(self):
        return self.size

    def min(self):
        return self.end("first")

    def max(self):
        return self.end("last")

    @property
    def shape(self):
        return (self.size,)


def fft_core(nm, a, s, norm, axes=None):
    if _isinstance(a, SMa):
        a = a._data        # np.fft takes the data of a masked array
    a = asarray(a)
    if len(a.shape_e) != 2 or axes is not None:
        raise Unsupported("transform of another rank")
    if a.ngetter():
        i = [fresh("i") for _ in a.shape_e]
        if a.nan_at(tuple(i)) is not FALSE:
            raise Unsupported("transform of NaN")
    sh = a.shape_e
    out = sh if s is None else shape_of(s)
    uses("fft2 / fftn / ifft2 / ifftn", "the discrete Fourier transform, "
         "linear in its operand, zero padded or cropped to s, divided by "
         "sqrt(size) (norm='ortho'), the inverse by the size otherwise")
    g = a.getter()
    bv = [fresh("b") for _ in sh]
    body = num(g(tuple(bv)))
    if s is not None:
        conds = []
        for v, have, want in zip(bv, sh, out):
            if have == want or C.known(LE(want, have)):
                continue
            conds.append(LT(v, have))
        if conds:
            body = ite(AND(*conds), body, ZERO)
    n = ONE
    for d in out:
        n = n * d
    if norm == "ortho":
        f = sqrt(n).inv()
    elif norm in (None, "backward"):
        f = ONE if nm == "fft" else n.inv()
    elif norm == "forward":
        f = n.inv() if nm == "fft" else ONE
    else:
        raise_(ValueError("Invalid norm value"))

    def get(idx):
        return f * mk_op(nm, (tuple(out),), bv, body, tuple(idx), "cplx")
    return SArr.of(out, get, "c")


def fft2(a, s=None, axes=None, norm=None):
    return fft_core("fft", a, s, norm, axes)


def ifft2(a, s=None, axes=None, norm=None):
    return fft_core("ifft", a, s, norm, axes)


def fourier_shift(a, shift, n=-1, axis=-1, output=None):
    if n != -1 or axis != -1 or output is not None:
        raise Unsupported("fourier_shift arguments")
    a = asarray(a)
    if is_scalar(shift):
        sh = [num_e(shift)] * len(a.shape_e)
    else:
        s = asarray(shift) if not is_list(shift) else None
        sh = [num_e(x) for x in (shift if s is None else list(s))]
    if len(sh) != len(a.shape_e):
        raise_(RuntimeError("sequence argument must have length equal to "
                            "input rank"))
    uses("scipy.ndimage.fourier_shift", "multiplies element (k,l) of an n x m "
         "transform by exp(-2 pi i (dx k/n + dy l/m))")
    g = a.getter()
    n_, m_ = a.shape_e

    def get(idx):
        return num(g(idx)) * phase(idx[0], idx[1], n_, m_, sh[0], sh[1])
    return SArr.of(a.shape_e, get, "c")


def center_of_mass(a, labels=None, index=None):
    """sum of index times value over sum of values, per dimension"""
    if labels is not None:
        raise Unsupported("center_of_mass of labels")
    if _isinstance(a, SMa):
        a = a._data
    a = asarray(a)
    uses("scipy.ndimage.center_of_mass", center_of_mass.__doc__)
    tot = num_e(reduce_sum(a))
    out = []
    for d in range(len(a.shape_e)):
        bv = [fresh("b") for _ in a.shape_e]
        body = num(a.at(tuple(bv))) * bv[d]
        for v, s in reversed(list(zip(bv, a.shape_e))):
            body = mk_sum(ZERO, s, v, body)
        out.append(SNum(body / tot, "f"))
    return tuple(out)


def smooth(image, sigma=1, preserve_range=False, **k):
    """a function of the image and the width"""
    uses("skimage.filters.gaussian", smooth.__doc__)
    a = asarray(image)
    if k or not preserve_range or a.ngetter() or a.dtype_ == "c":
        raise Unsupported("smoothing arguments")
    return SArr.of(a.shape_e, lambda i: opaque(
        "smoothed", a, (num_e(sigma),), "real", i), "f")


def convolve_fft(array, kernel, **k):
    """a function of the image and the kernel, of the shape of the image"""
    uses("astropy.convolution.convolve_fft", convolve_fft.__doc__)
    a, w = asarray(array), asarray(kernel)
    if k or a.ngetter() or w.ngetter() or len(a.shape_e) != len(w.shape_e):
        raise Unsupported("convolve_fft arguments")
    kv = [fresh("c") for _ in w.shape_e]
    ker = mk_op("kernel", (tuple(w.shape_e),), kv, w.at(tuple(kv)), (),
                "real", linear=False)
    return SArr.of(a.shape_e, lambda i: opaque(
        "convolved", a, (tuple(w.shape_e), ker), "real", i), "f")


def ndi_convolve(input, weights, output=None, mode="reflect", cval=0.0,
                 origin=0):
    """linear in the input; an integer result for integers"""
    uses("scipy.ndimage.convolve", ndi_convolve.__doc__)
    a = input._data if _isinstance(input, SMa) else asarray(input)
    if core.CUT:
        a = core.CUT("convolve", a)
    w = asarray(weights)
    if output is not None or origin != 0 or cval != 0:
        raise Unsupported("convolve arguments")
    if len(a.shape_e) != len(w.shape_e):
        raise_(RuntimeError("filter weights array has incorrect shape"))
    n = [x.const() for x in w.shape_e]
    if a.ngetter() or w.ngetter():
        raise Unsupported("convolution of NaN")
    if a.dtype_ == "b":
        raise Unsupported("convolution of a boolean array")
    t = a.dtype_
    bv = [fresh("c") for _ in a.shape_e]
    body = a.at(tuple(bv))
    if None not in n and _math.prod(int(x) for x in n) <= 100:
        k = tuple(w.at(tuple(lift(x) for x in i))
                  for i in itertools.product(*[range(int(x)) for x in n]))
        if t == "i" and not all(x.is_int() for x in k):
            raise Unsupported("integer convolution with real weights")
        par = (str(mode), tuple(w.shape_e), k, tuple(a.shape_e))
    else:
        if t == "i":
            raise Unsupported("integer convolution with real weights")
        kv = [fresh("c") for _ in a.shape_e]
        ker = mk_op("kernel", (tuple(w.shape_e),), kv, w.at(tuple(kv)), (),
                    "real", linear=False)
        par = (str(mode), tuple(w.shape_e), ker, tuple(a.shape_e))
    s = {"i": "int", "c": "cplx"}.get(t, "real")
    return SArr.of(a.shape_e, lambda i: mk_op(
        "convolve", par, bv, body, tuple(i), s), t)


def np_roll(a, shift, axis=None):
    a = asarray(a)
    if is_scalar(shift):
        sh = [num_e(shift)]
    else:
        sh = [num_e(x) for x in shift]
    if all(x.const() == 0 for x in sh):
        return a.copy()
    if axis is None:
        tot = ZERO
        for x in sh:
            tot = tot + x
        par = (a.shape_e, "flat", tot)
    else:
        ax = (axis,) if is_scalar(axis) else tuple(axis)
        par = (a.shape_e,) + tuple(x for p in sorted(zip(ax, range(len(ax))))
                                   for x in (p[0], sh[p[1]]))
    bv, body, nan = over(a)
    if nan is not FALSE:
        raise Unsupported("roll with NaN")
    body = num(body)
    uses("numpy.roll", "a rearrangement of the elements, linear in them")
    return SArr.of(a.shape_e, lambda idx: mk_op(
        "roll", par, bv, body, tuple(idx), "real" if a.dtype_ != "c"
        else "cplx"), a.dtype_)


def np_opaque(nm, text):
    def f(a, *rest, axis=None, **k):
        if k or axis is not None:
            raise Unsupported(f"np.{nm} arguments")
        if _isinstance(a, SMa):
            raise Unsupported(f"np.{nm} of a masked array")
        uses("numpy." + nm, text)
        a = asarray(a)
        return SNum(opaque(nm, a, tuple(num_e(x) for x in rest)), "f")
    return f


def np_percentile(a, q, axis=None, **k):
    if axis is not None or k:
        raise Unsupported("percentile arguments")
    uses("numpy.percentile", "a function of the elements and of q")
    a = asarray(a)
    if is_scalar(q):
        return SNum(opaque("percentile", a, (num_e(q),)), "f")
    return asarray([SNum(opaque("percentile", a, (num_e(x),)), "f")
                    for x in list(q)])


def np_mean(a, axis=None, dtype=None):
    if _isinstance(a, SMa):
        raise Unsupported("mean of a masked array")
    a = asarray(a)
    if axis is not None:
        raise Unsupported("mean along an axis")
    s = reduce_sum(a)
    return SNum(num_e(s) / a.size_e, "f")


def np_flip(a, axis=None):
    a = asarray(a)
    if axis is None:
        sl = tuple(slice(None, None, -1) for _ in a.shape_e)
    else:
        sl = tuple(slice(None, None, -1) if d == axis % len(a.shape_e)
                   else slice(None) for d in range(len(a.shape_e)))
    return a[sl]


def np_outer(a, b):
    a, b = asarray(a), asarray(b)
    g, h = a.getter(), b.getter()
    return SArr.of(a.shape_e + b.shape_e,
                   lambda i: num(g((i[0],))) * num(h((i[1],))), "f")


def np_transpose(a, axes=None):
    if axes is not None:
        raise Unsupported("transpose axes")
    return asarray(a).T


def logical(nm):
    def f(a, b, out=None):
        if out is not None:
            raise Unsupported("logical output")
        ga, gb = getter_of(a), getter_of(b)
        o = {"and": AND, "or": OR}[nm]
        return elementwise(lambda x, y: o(boolean(x), boolean(y)), a, b,
                           dtype="b")
    return f


def logical_not(a):
    return elementwise(lambda x: NOT(boolean(x)), a, dtype="b")


def np_array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if len(a.shape_e) != len(b.shape_e):
        return False
    for x, y in zip(a.shape_e, b.shape_e):
        if not (x == y or C.decide(EQ(x, y))):
            return False
    return (a == b).all()


def np_isfinite(x):
    return np_isnan_not(x)


def np_isinf(x):
    """infinities are among the non-finite values (flagged as NaN)"""
    if hasattr(x, "_pv_isinf"):
        return x._pv_isinf()
    if type(x) is float:
        return x in (float("inf"), -float("inf"))
    a = asarray(x)
    if a.ngetter() or _isinstance(x, SMa):
        raise Unsupported("isinf of non-finite values")
    return SArr.of(a.shape_e, lambda i: FALSE, "b").unwrap()


def np_full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape_e, v, a.dtype_ if dtype is None else dtype_of(dtype))


def _plain(x, what):
    if _isinstance(x, SMa):
        raise Unsupported(f"{what} of masked arrays")
    return asarray(x)


def np_concatenate(xs, axis=0):
    xs = [_plain(x, "concatenate") for x in xs]
    if not xs:
        raise_(ValueError("need at least one array to concatenate"))
    nd = len(xs[0].shape_e)
    ax = dim(axis).const()
    if ax is None:
        raise Unsupported("concatenate axis")
    ax = int(ax) + (nd if ax < 0 else 0)
    if nd == 0 or any(len(x.shape_e) != nd for x in xs):
        raise_(ValueError("arrays of other dimensions"))
    t = xs[0].dtype
    for x in xs[1:]:
        t = join(t, x.dtype)
        for k in range(nd):
            if k != ax:
                need_eq(x.shape_e[k], xs[0].shape_e[k])
    gs, ns = [x.getter() for x in xs], [x.ngetter() for x in xs]
    offs = [ZERO]
    for x in xs:
        offs.append(offs[-1] + x.shape_e[ax])

    def at(fs, i, j):
        return fs(i[:ax] + (i[ax] - offs[j],) + i[ax + 1:])

    def get(i):
        out = at(gs[-1], i, len(xs) - 1)
        for j in range(len(xs) - 2, -1, -1):
            v = at(gs[j], i, j)
            c = LT(i[ax], offs[j + 1])
            if t == "b":
                out = BITE(c, v, out)
            else:
                out = ite(c, num(v), num(out))
        return num(out) if t != "b" else out

    nan = None
    if any(ns):
        def nan(i):
            return OR(*[AND(LE(offs[j], i[ax]), LT(i[ax], offs[j + 1]), at(
                n, i, j)) for j, n in enumerate(ns) if n])
    shp = list(xs[0].shape_e)
    shp[ax] = offs[-1]
    return SArr.of(tuple(shp), get, t, nan)


def np_stack(xs, axis=0):
    xs = list(xs.items) if type(xs).__name__ == "PList" and \
        xs.items is not None else xs
    out = asarray(xs) if not _isinstance(xs, list) else asarray(
        [_plain(x, "stack") for x in xs])
    ax = dim(axis).const()
    nd = len(out.shape_e)
    if ax is None:
        raise Unsupported("stack axis")
    ax = int(ax) + (nd if ax < 0 else 0)
    if not 0 <= ax < nd:
        raise_(ValueError("axis out of bounds"))
    if ax == 0:
        return out
    g, n = out.getter(), out.ngetter()

    def back(i):
        return (i[ax],) + tuple(i[:ax]) + tuple(i[ax + 1:])
    return SArr.of(out.shape_e[1:ax + 1] + (out.shape_e[0],) + out.shape_e[
        ax + 1:], lambda i: g(back(i)), out.dtype_, (lambda i: n(back(i)))
        if n else None)


def np_column_stack(xs):
    xs = [_plain(x, "column_stack") for x in xs]
    if all(len(x.shape_e) == 1 for x in xs):
        for x in xs[1:]:
            need_eq(x.shape_e[0], xs[0].shape_e[0])
        return np_stack(xs, 1)
    if all(len(x.shape_e) == 2 for x in xs):
        return np_concatenate(xs, 1)
    raise Unsupported("column_stack of arrays of other dimensions")


def np_vstack(xs):
    xs = [_plain(x, "vstack") for x in xs]
    if all(len(x.shape_e) == 1 for x in xs):
        return np_stack(xs, 0)
    return np_concatenate(xs, 0)


def np_hstack(xs):
    xs = [_plain(x, "hstack") for x in xs]
    return np_concatenate(xs, 0 if len(xs[0].shape_e) == 1 else 1)


def np_isnan_not(x):
    if hasattr(x, "_pv_isfinite"):
        return x._pv_isfinite()
    if type(x) is float:
        return _math.isfinite(x)
    if _isinstance(x, SMa):
        raise Unsupported("isfinite of a masked array")
    a = asarray(x)
    n = a.ngetter()
    return SArr.of(a.shape_e, (lambda i: NOT(n(i))) if n else
                   (lambda i: TRUE), "b").unwrap()


# ------------------------------------------------------------ numpy.ma
def mask_arg(m):
    """The boolean array of a mask argument, or None for nomask."""
    if m is None or m is NoMask or m is False:
        return None
    if _isinstance(m, MaybeMask):
        m = m.resolve()
        if m is NoMask:
            return None
    if _isinstance(m, SMa):
        raise Unsupported("masked mask")
    a = asarray(m)
    if a.dtype_ != "b":
        a = cast(a, "b")
    return a


def ma_array(data, mask=NoMask, dtype=None, copy=False, fill_value=None,
             keep_mask=True, shrink=True, **k):
    if k:
        raise Unsupported("masked array arguments")
    old = None
    src = data
    if _isinstance(data, SMa):
        old, data = data._mask, data._data
    data = asarray(data)
    if dtype is not None and dtype_of(dtype) != data.dtype_:
        data = cast(data, dtype_of(dtype))
    elif copy:
        data = data.copy()
    m = mask_arg(mask)
    if m is not None and m.shape_e == ():
        m = full(data.shape_e, SBool(form(m.unwrap())))
    if m is not None:
        if len(m.shape_e) != len(data.shape_e):
            raise Unsupported("mask of another rank")
        for x, y in zip(m.shape_e, data.shape_e):
            if not (x == y or C.decide(EQ(x, y))):
                raise_(_ma_error("Mask and data not compatible"))
        if copy:
            m = m.copy()
    if old is not None and keep_mask:
        m = old if m is None else (m | old)
    fv = fill_value
    if fv is None and _isinstance(src, SMa):
        fv = src._fill
    return SMa(data, m, fv)


def _ma_error(t):
    import numpy.ma as _ma

    return _ma.MaskError(t)


def ma_mask_or(m1, m2, copy=False, shrink=True):
    if _isinstance(m1, MaybeMask):
        m1 = m1.resolve()
    if _isinstance(m2, MaybeMask):
        m2 = m2.resolve()
    no1 = m1 is NoMask or m1 is False or m1 is None
    no2 = m2 is NoMask or m2 is False or m2 is None
    uses("numpy.ma.mask_or", "the union of two masks (nomask flags nothing); "
         "shrink=True gives nomask when nothing is flagged")
    if no1 and no2:
        return NoMask
    if no1:
        r = mask_arg(m2)
    elif no2:
        r = mask_arg(m1)
    elif m1 is m2:
        return m1
    else:
        r = mask_arg(m1) | mask_arg(m2)
    if copy:
        r = r.copy()
    return MaybeMask(r) if shrink else r


def ma_getmaskarray(a):
    if _isinstance(a, SMa):
        return a.mask_e()
    return zeros(asarray(a).shape_e, "b")


def ma_getmask(a):
    return a.mask if _isinstance(a, SMa) else NoMask


def ma_masked_invalid(a, copy=True):
    uses("numpy.ma.masked_invalid", "masks the non-finite elements (on top of "
         "the mask already there)")
    d = a._data if _isinstance(a, SMa) else asarray(a)
    n = d.ngetter()
    bad = SArr.of(d.shape_e, (lambda i: n(i)) if n else (lambda i: FALSE),
                  "b")
    if _isinstance(a, SMa) and a._mask is not None:
        bad = bad | a._mask
    return SMa(d.copy() if copy else d, bad)


def ma_masked_where(cond, a, copy=True):
    d = a._data if _isinstance(a, SMa) else asarray(a)
    if _isinstance(cond, SMa):
        # comparisons of masked arrays: masked elements do not match
        c = where(cond.mask_e(), False, cond._data, "b")
    else:
        c = mask_arg(cond)
    if _isinstance(a, SMa) and a._mask is not None:
        c = c | a._mask
    if _isinstance(a, SMa) and a._mask is not None and \
            not (_isinstance(a, SMaShrunk) and a._may):
        return SMa(d.copy() if copy else d, c)
    # numpy shrinks a mask that flags nothing; .mask then is nomask
    return SMaShrunk(d.copy() if copy else d, c)


class SMaShrunk(SMa):
    """Masked array whose mask is nomask when nothing is flagged."""
    _may = True

    def snap(self):
        return (self._data, self._mask, self._may)

    def restore(self, st):
        self._data, self._mask, self._may = st

    def settle(self):
        """Decide whether the mask is nomask."""
        self.touch()
        if self.mask.resolve() is NoMask:
            self._mask = None
        self._may = False

    @property
    def mask(self):
        if self._may:
            return MaybeMask(self._mask)
        return SMa.mask.fget(self)

    @mask.setter
    def mask(self, m):
        if self._may:
            self.settle()
        SMa.mask.fset(self, m)


def ma_cmp(nm):
    def f(a, v, copy=True):
        uses(f"numpy.ma.masked_{'greater' if nm == 'gt' else 'less'}",
             "masks the elements beyond the value (on top of the mask)")
        d = a._data if _isinstance(a, SMa) else asarray(a)
        c = (d > v) if nm == "gt" else (d < v)
        return ma_masked_where(c, a, copy)
    return f


def is_masked_array(x):
    return _isinstance(x, SMa)


NDARRAY = Marker("ndarray", lambda x: _isinstance(x, (SArr, SMa)))
MASKED = Marker("MaskedArray", is_masked_array, ma_array)

INT = DT("int64", "i", lambda x: False)
UINT8 = DT("uint8", "i", lambda x: False)
FLOAT64 = DT("float64", "f", lambda x: _isinstance(x, SNum) and x.t == "f")
FLOAT32 = DT("float32", "f4", lambda x: False)
COMPLEX = DT("complex128", "c", lambda x: _isinstance(x, SNum) and
             x.t == "c")
BOOL = DT("bool", "b", lambda x: _isinstance(x, SBool))


class _Finfo:
    def __init__(self, t):
        self.eps = SNum(var("EPS", "real"), "f")


def _log_like(nm):
    def f(x):
        if is_scalar(x):
            return SNum(app(nm, (num_e(x),), "real"), "f")
        if is_list(x):
            x = asarray(x)
        return elementwise(lambda v: app(nm, (num(v),), "real"), x, dtype="f")
    return f


def np_exp(x):
    return _log_like("exp")(x)


NP_MA = Shim("numpy.ma", MaskedArray=MASKED, masked_array=MASKED,
             array=ma_array, asarray=lambda a: a if _isinstance(a, SMa)
             else ma_array(a), mask_or=ma_mask_or, nomask=NoMask,
             masked_invalid=ma_masked_invalid, masked_where=ma_masked_where,
             masked_greater=ma_cmp("gt"), masked_less=ma_cmp("lt"),
             getmaskarray=ma_getmaskarray, getmask=ma_getmask,
             isMaskedArray=is_masked_array, isMA=is_masked_array,
             is_masked=lambda x: _isinstance(x, SMa) and np_any(
                 x.mask_e()))
NP_MA.core = Shim("numpy.ma.core", MaskedArray=MASKED)

NP = Shim(
    "numpy", ma=NP_MA, ndarray=NDARRAY, sqrt=np_sqrt, sum=np_sum,
    zeros=np_zeros, ones=np_ones, full=np_full, empty=np_empty,
    zeros_like=np_zeros_like, ones_like=np_ones_like, array=np_array,
    asarray=np_asarray, asanyarray=lambda x: asarray(x),
    ascontiguousarray=np_asarray, add=ufunc2("add"),
    subtract=ufunc2("sub"), multiply=ufunc2("mul"), divide=ufunc2("div"),
    true_divide=ufunc2("div"), power=ufunc2("pow"),
    abs=np_abs, absolute=np_abs, fabs=np_abs, min=np_minmax("min"),
    max=np_minmax("max"), amin=np_minmax("min"), amax=np_minmax("max"),
    minimum=np_elem_minmax("min"), maximum=np_elem_minmax("max"),
    any=np_any, all=np_all, isnan=np_isnan, isfinite=np_isfinite,
    where=np_where, arange=np_arange, mgrid=_MGrid(), round=np_round,
    rint=np_round, clip=np_clip, dot=np_dot, vdot=np_vdot, repeat=np_repeat,
    ravel=np_ravel, size=np_size, shape=np_shape, real=lambda x: x.real,
    imag=lambda x: x.imag, conj=lambda x: x.conj(),
    conjugate=lambda x: x.conj(), iscomplexobj=np_iscomplexobj, ix_=np_ix,
    flatnonzero=np_flatnonzero, roll=np_roll,
    median=np_opaque("median", "a function of the elements"),
    std=np_opaque("std", "a function of the elements"),
    percentile=np_percentile, mean=np_mean, flip=np_flip, outer=np_outer,
    transpose=np_transpose, logical_and=logical("and"),
    logical_or=logical("or"), logical_not=logical_not,
    array_equal=np_array_equal, float64=FLOAT64, float32=FLOAT32,
    float_=FLOAT64, complex128=COMPLEX, complex64=COMPLEX, int64=INT,
    int32=INT, uint8=UINT8, uint16=INT, int16=INT, bool_=BOOL, nan=float(
        "nan"), inf=float("inf"), pi=SNum(var("PI", "real"), "f"),
    finfo=_Finfo, log10=_log_like("log10"), log=_log_like("log"),
    exp=np_exp, floor=elem1("floor", lambda v: fn("floor", v)),
    integer=Marker("integer", lambda x: False),
    floating=Marker("floating", lambda x: _isinstance(x, SNum) and
                    x.t == "f"),
    number=Marker("number", lambda x: _isinstance(x, SNum)),
    generic=Marker("generic", lambda x: False), newaxis=None,
    copy=lambda a: asarray(a).copy(), errstate=None)
NP.fft = Shim("numpy.fft", fft2=fft2, ifft2=ifft2, fftn=fft2, ifftn=ifft2)
def np_cov(m, rowvar=True):
    """the covariance matrix of the variables (columns for rowvar=False), a
    function of all elements; without dimensions for a single variable"""
    uses("numpy.cov", np_cov.__doc__)
    a = asarray(m)
    if len(a.shape_e) != 2 or a.ngetter() or a.dtype_ == "c":
        raise Unsupported("cov operand")
    if rowvar is not False:
        raise Unsupported("cov of rows")
    n = a.shape_e[1]
    if C.decide(EQ(n, ONE)):
        return SArr.of((), lambda i: opaque("cov", a, (), "real", (
            ZERO, ZERO)), "f")
    return SArr.of((n, n), lambda i: opaque("cov", a, (), "real", i), "f")


def np_eigh(a):
    """eigenvalues in increasing order and the matrix whose columns are the
    eigenvectors; functions of the matrix; or LinAlgError"""
    uses("numpy.linalg.eigh", np_eigh.__doc__)
    a = asarray(a)
    if len(a.shape_e) < 2:
        raise_(NP.linalg.LinAlgError("at least two-dimensional"))
    if len(a.shape_e) != 2 or a.ngetter() or a.dtype_ == "c":
        raise Unsupported("eigh operand")
    need_eq(a.shape_e[0], a.shape_e[1])
    if C.decide(BAPP("eigh fails")):
        raise_(NP.linalg.LinAlgError("Eigenvalues did not converge"))
    n = a.shape_e[0]
    return (SArr.of((n,), lambda i: opaque("eigval", a, (), "real", i), "f"),
            SArr.of((n, n), lambda i: opaque("eigvec", a, (), "real", i),
                    "f"))


NP.cov = np_cov
NP.isinf = np_isinf
NP.full_like = np_full_like
NP.empty_like = np_zeros_like
NP.stack = np_stack
NP.column_stack = np_column_stack
NP.vstack = np_vstack
NP.hstack = np_hstack
NP.concatenate = np_concatenate
NP.square = lambda x: asarray(x) * asarray(x) if not _isinstance(
    x, (SMa, SNum)) else x * x
NP.negative = lambda x: -x
NP.reshape = lambda a, shape: asarray(a).reshape(shape)
NP.linalg = Shim("numpy.linalg", eigh=np_eigh, LinAlgError=_math and __import__(
    "numpy").linalg.LinAlgError)


class _Errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


NP.errstate = _Errstate


# ------------------------------------------------------------------- others
class SepBackground:
    """sep.Background(image): functions of the pixels (and mask) given"""

    def __init__(self, a, mask=None, **k):
        uses("sep.Background", SepBackground.__doc__)
        if _isinstance(a, SMa):
            a = a._data
        self.a = asarray(a)
        if k:
            raise Unsupported("sep.Background arguments")
        if self.a.ngetter():
            raise Unsupported("sep.Background of NaN")
        m = mask_arg(mask) if mask is not None else None
        bv = [fresh("b") for _ in self.a.shape_e]
        body = num(self.a.at(tuple(bv)))
        if m is not None:
            body = ite(boolean(m.at(tuple(bv))), var("HOLE", "real"), body)
        self.bv, self.body = bv, body

    def _s(self, nm):
        return SNum(mk_op("sep_" + nm, (self.a.shape_e,), self.bv, self.body,
                          (), "real", linear=False), "f")

    @property
    def globalrms(self):
        return self._s("globalrms")

    @property
    def globalback(self):
        return self._s("globalback")

    def _a(self, nm):
        return SArr.of(self.a.shape_e, lambda i: mk_op(
            "sep_" + nm, (self.a.shape_e,), self.bv, self.body, tuple(i),
            "real", linear=False), "f")

    def back(self, dtype=None):
        return self._a("back")

    def rms(self, dtype=None):
        return self._a("rms")

    def _pv_array(self):
        return self.back()

    def __array__(self, *a, **k):
        raise Unsupported("array of a background")


SEP = Shim("sep", Background=SepBackground,
           set_extract_pixstack=lambda n: None,
           get_extract_pixstack=lambda: 300000)


def sigma_clipped_stats(a, *r, **k):
    uses("astropy.stats.sigma_clipped_stats", "three numbers, functions of "
         "the elements")
    if _isinstance(a, SMa):
        d = asarray(a._data)
    else:
        d = asarray(a)
    return tuple(SNum(opaque("clipped" + n, d), "f")
                 for n in ("mean", "median", "std"))


class Parallel:
    """joblib.Parallel(...)(delayed(f)(args) for ...): the list of f(args), in
    order; the calls do not interfere"""

    def __init__(self, n_jobs=None, backend=None, **k):
        uses("joblib.Parallel", Parallel.__doc__)
        if n_jobs is None:
            n_jobs = 1
        if k and set(k) - {"verbose", "prefer"}:
            raise Unsupported("joblib arguments")

    def __call__(self, its):
        s = as_seq(its)
        n = s.length()
        g = getattr(s, "guard", None)
        if n.const() is not None and g is None:
            return PList([s.elem(lift(k))() for k in range(int(n.const()))])
        # element j is the value of call j (the workers' contract)
        src = its
        if g is not None:
            return PList(n=s.n, get=lambda j: s.get(j)(), guard=g)
        return PList(n=n, get=lambda j: src.elem(j)())


class Delayed:
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def __call__(self):
        return self.f(*self.a, **self.k)

    def _pv_subst(self, mp):
        from .seqs import vsubst
        return Delayed(self.f, tuple(vsubst(x, mp) for x in self.a),
                       {k: vsubst(v, mp) for k, v in self.k.items()})

    def _pv_terms(self):
        from .loops import value_terms
        return [t for x in self.a for t in value_terms(x)]


def delayed(f):
    return lambda *a, **k: Delayed(f, a, k)


class Opt:
    """Record of a minimisation."""


class OptResult:
    def __init__(self, x, rec):
        self.x = x
        self.success = SBool(BAPP(f"success{rec.n}"))
        self.cost = SNum(fresh("cost", "real"), "f")
        self.fun = self.cost
        self.status = SNum(fresh("status"), "i")
        self.message = ""
        self.nfev = SNum(fresh("nfev"), "i")

    def __getattr__(self, n):
        raise Unsupported(f"result attribute {n}")


OPTS = []
ON_OPT = []         # called with the record of every minimisation


def minimised(r):
    OPTS.append(r)
    for f in ON_OPT:
        f(r)


def bnd(b, k):
    if is_scalar(b):
        return num_e(b)
    return num_e(list(b)[k])


def least_squares(fun, x0, jac="2-point", bounds=None, method="trf", **k):
    uses("scipy.optimize.least_squares", "x within the bounds, of the length "
         "of x0; success is undetermined; raises ValueError when x0 is out "
         "of the bounds")
    if set(k) - {"xtol", "ftol", "gtol", "max_nfev", "loss", "verbose",
                 "x_scale", "diff_step"}:
        raise Unsupported("least_squares arguments")
    r = Opt()
    r.n = len(OPTS)
    r.kind, r.fun, r.bounds = "least_squares", fun, bounds
    r.x0 = [num_e(x0)] if is_scalar(x0) else [num_e(x) for x in list(x0)]
    if bounds is None:
        raise Unsupported("least_squares without bounds")
    lo, hi = list(bounds)
    r.lo = [bnd(lo, i) for i in range(len(r.x0))]
    r.hi = [bnd(hi, i) for i in range(len(r.x0))]
    r.dims = len(r.x0)
    for a, b, x in zip(r.lo, r.hi, r.x0):
        if not C.decide(AND(LE(a, x), LE(x, b))):
            raise_(ValueError("`x0` is infeasible"))
    xs = []
    for a, b in zip(r.lo, r.hi):
        v = fresh("opt", "real")
        C.assume(LE(a, v))
        C.assume(LE(v, b))
        xs.append(v)
    r.x = xs
    minimised(r)
    return OptResult(asarray([SNum(v, "f") for v in xs]), r)


def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None,
                    **k):
    uses("scipy.optimize.minimize_scalar", "x within the bounds; success is "
         "undetermined")
    if args or set(k) - {"options", "tol"} or bounds is None or \
            (method is not None and method.lower() != "bounded"):
        raise Unsupported("minimize_scalar arguments")
    r = Opt()
    r.n = len(OPTS)
    r.kind, r.fun, r.bounds = "minimize_scalar", fun, bounds
    lo, hi = list(bounds)
    r.lo, r.hi, r.x0, r.dims = [num_e(lo)], [num_e(hi)], None, 1
    v = fresh("opt", "real")
    C.assume(LE(r.lo[0], v))
    C.assume(LE(v, r.hi[0]))
    r.x = [v]
    minimised(r)
    return OptResult(SNum(v, "f"), r)


class _Log:
    def __getattr__(self, n):
        return lambda *a, **k: None


def _pyfftw():
    raise_(ImportError("No module named 'pyfftw'"))


class _Field:
    def __init__(self, default=None, has=False, factory=None):
        self.default, self.has, self.factory = default, has, factory


def attrs_field(**k):
    if set(k) - {"default", "factory", "repr", "eq", "init", "kw_only",
                 "validator", "hash", "order", "metadata"}:
        raise Unsupported("attrs.field arguments")
    if k.get("init", True) is not True:
        raise Unsupported("attrs.field(init=False)")
    return _Field(k.get("default"), "default" in k, k.get("factory"))


def attrs_class(cls=None, **k):
    """attrs.frozen / attrs.define: a class with the annotated fields"""
    def deco(c):
        uses("attrs", attrs_class.__doc__)
        names = list(c.__dict__.get("__annotations__", {}))
        fields = []
        for n in names:
            f = c.__dict__.get(n)
            if not _isinstance(f, _Field):
                f = _Field(f, n in c.__dict__)
            elif n in c.__dict__:
                delattr(c, n)
            fields.append((n, f))

        def __init__(self, *a, **kw):
            if len(a) > len(fields):
                raise_(TypeError("too many arguments"))
            for i, (n, f) in enumerate(fields):
                if i < len(a):
                    v = a[i]
                elif n in kw:
                    v = kw.pop(n)
                elif f.has:
                    v = f.default
                elif f.factory is not None:
                    v = f.factory()
                else:
                    raise_(TypeError(f"missing argument {n}"))
                self.__dict__[n] = v
            if kw:
                raise_(TypeError(f"unexpected arguments {sorted(kw)}"))
            if hasattr(self, "__attrs_post_init__"):
                self.__attrs_post_init__()
        c.__init__ = __init__
        return c
    return deco if cls is None else deco(cls)


def _functools_wraps(f, *a, **k):
    return lambda g: g


def fs(nm):
    """os.remove, os.unlink, os.path.exists, Path.unlink: remove or look up the
    named file; removing a missing file is a FileNotFoundError"""
    def f(*a, **k):
        uses("os files", fs.__doc__)
        return getattr(FS, nm)(*a, **k)
    return f


class NoFS:
    def __getattr__(self, n):
        raise Unsupported(f"file system: {n}")


FS = NoFS()             # the modelled files (C18)


class SPath(pathlib.PurePosixPath):
    def unlink(self, missing_ok=False):
        if not (missing_ok and not FS.exists(self)):
            FS.remove(self)

    def exists(self):
        return FS.exists(self)

    is_file = exists


OS = Shim("os", getpid=lambda: mk(var("pid"), "i")
          if core.TEXTS is not None else 4242, remove=fs("remove"),
          unlink=fs("remove"), sep="/", fspath=str,
          path=Shim("os.path", exists=fs("exists"), isfile=fs("exists"),
                    join=lambda *a: str(pathlib.PurePosixPath(*a)),
                    basename=lambda p: pathlib.PurePosixPath(p).name,
                    dirname=lambda p: str(pathlib.PurePosixPath(p).parent)))


def NPDB(*a, **k):
    raise Unsupported("NumPyDB")


ATTRS = Shim("attrs", frozen=attrs_class, define=attrs_class,
             mutable=attrs_class, field=attrs_field)

LIBS = {
    "numpy": NP, "numpy.ma": NP_MA,
    "numpy.lib.recfunctions": Shim("numpy.lib.recfunctions"),
    "numpy.random": Shim("numpy.random"),
    "scipy": Shim("scipy"), "scipy.optimize": Shim(
        "scipy.optimize", least_squares=least_squares,
        minimize_scalar=minimize_scalar),
    "scipy.ndimage": Shim("scipy.ndimage", convolve=ndi_convolve, fourier_shift=fourier_shift,
                          center_of_mass=center_of_mass),
    "skimage": Shim("skimage"), "skimage.filters": Shim(
        "skimage.filters", gaussian=smooth),
    "scipy.sparse": Shim("scipy.sparse"),
    "scipy.spatial": Shim("scipy.spatial"),
    "scipy.signal": Shim("scipy.signal"), "scipy.stats": Shim("scipy.stats"),
    "sep": SEP, "astroalign": Shim("astroalign"),
    "astropy": Shim("astropy"),
    "astropy.stats": Shim("astropy.stats",
                          sigma_clipped_stats=sigma_clipped_stats),
    "astropy.io": Shim("astropy.io"), "astropy.modeling":
    Shim("astropy.modeling"), "astropy.convolution":
    Shim("astropy.convolution", convolve_fft=convolve_fft),
    "astropy.nddata.utils":
    Shim("astropy.nddata.utils"), "astropy.nddata": Shim("astropy.nddata"),
    "astropy.io.fits": Shim("astropy.io.fits"),
    "astropy.time": Shim("astropy.time"),
    "astroscrappy": Shim("astroscrappy"),
    "joblib": Shim("joblib", Parallel=Parallel, delayed=delayed),
    "logging": Shim("logging", getLogger=lambda *a: _Log()),
    "warnings": Shim("warnings", warn=lambda *a, **k: None),
    "time": Shim("time", time=lambda: SNum(fresh("t", "real"), "f")),
    "os": OS, "os.path": OS.path,
    "pathlib": Shim("pathlib", Path=SPath, PurePath=pathlib.PurePosixPath),
    "tempfile": Shim("tempfile", mkdtemp=lambda suffix="", prefix="tmp",
                     dir=None: f"{dir or '/pv-tmp'}/{prefix}1{suffix}",
                     gettempdir=lambda: "/pv-tmp"), "attrs": ATTRS, "attr": ATTRS,
    "contextlib": contextlib, "tinynpydb": Shim(
        "tinynpydb", NumPyDB=lambda *a, **k: NPDB(*a, **k)),
    "matplotlib": Shim("matplotlib"),
    "matplotlib.pyplot": Shim("matplotlib.pyplot"),
    "functools": Shim("functools", wraps=_functools_wraps), "itertools": Shim("itertools"),
    "collections": Shim("collections"), "math": Shim(
        "math", pi=SNum(var("PI", "real"), "f"),
        sqrt=lambda x: np_sqrt(x), floor=lambda x: s_int(np_floor(x)),
        ceil=lambda x: -s_int(np_floor(-x)), inf=float("inf"),
        nan=float("nan")),
    "copy": Shim("copy"), "sys": Shim("sys"), "re": Shim("re"),
    "typing": Shim("typing"), "shutil": Shim("shutil", rmtree=fs("rmtree")), "uuid": Shim("uuid"),
    "operator": Shim("operator"),
}
LIBS["scipy"].optimize = LIBS["scipy.optimize"]
LIBS["scipy"].ndimage = LIBS["scipy.ndimage"]
LIBS["scipy"].sparse = LIBS["scipy.sparse"]
LIBS["scipy"].signal = LIBS["scipy.signal"]
LIBS["scipy"].stats = LIBS["scipy.stats"]
LIBS["skimage"].filters = LIBS["skimage.filters"]
LIBS["numpy"].random = LIBS["numpy.random"]
LIBS["astropy.io"].fits = LIBS["astropy.io.fits"]
LIBS["matplotlib"].pyplot = LIBS["matplotlib.pyplot"]


def np_floor(x):
    if is_scalar(x):
        return SNum(fn("floor", num_e(x)), "f")
    return NP.floor(x)


class Poly:
    """astropy.modeling.models.Polynomial2D, before a fit"""

    def __init__(self, degree=None, **k):
        if k or not _isinstance(degree, int):
            raise Unsupported("polynomial arguments")
        self.degree = degree


class FittedPoly:
    """The polynomial fitted to values at positions: a function of all of
    them and of two coordinates."""

    def __init__(self, degree, x, y, z):
        self.degree, self.x, self.y, self.z = degree, x, y, z

    def at(self, u, v):
        ks = []
        for a in (self.x, self.y):
            kv = [fresh("c") for _ in a.shape_e]
            ks.append(mk_op("positions", (tuple(a.shape_e),), kv, num(a.at(
                tuple(kv))), (), "real", linear=False))
        return opaque("fit", self.z, (f"{self.degree}",) + tuple(ks), "real",
                      (u, v))

    def __call__(self, x, y):
        if is_scalar(x) and is_scalar(y):
            return SNum(self.at(num_e(x), num_e(y)), "f")
        return elementwise(lambda u, v: self.at(num(u), num(v)), asarray(x),
                           asarray(y), dtype="f")

    def _pv_subst(self, mp):
        return FittedPoly(self.degree, *[_vsubst(a, mp) for a in (
            self.x, self.y, self.z)])

    def _pv_terms(self):
        out = []
        for a in (self.x, self.y, self.z):
            out += list(a.shape_e) + [num(a.at(tuple(
                fresh("y") for _ in a.shape_e)))]
        return out


def _vsubst(v, mp):
    from .seqs import vsubst

    return vsubst(v, mp)


class PolyFitter:
    """astropy.modeling.fitting.LinearLSQFitter"""

    def __init__(self, **k):
        if k:
            raise Unsupported("fitter arguments")

    def __call__(self, model, x, y, z, **k):
        uses("astropy.modeling.fitting.LinearLSQFitter",
             "the fitted polynomial is a function of the degree, the "
             "positions and the values")
        if k or not _isinstance(model, Poly):
            raise Unsupported("fit arguments")
        return FittedPoly(model.degree, *[asarray(a).copy() for a in (
            x, y, z)])


LIBS["astropy.modeling"].models = LIBS["astropy.modeling.models"] = Shim(
    "astropy.modeling.models", Polynomial2D=Poly)
LIBS["astropy.modeling"].fitting = LIBS["astropy.modeling.fitting"] = Shim(
    "astropy.modeling.fitting", LinearLSQFitter=PolyFitter)


class Kernel:
    """astropy.convolution.Box2DKernel and Gaussian2DKernel: positive weights
    around a centre"""

    def __init__(self, *a, **k):
        self.args = a, k


def detect_cosmics(indat, inmask=None, **k):
    """flags and a cleaned image of the shape of the image: any flags"""
    uses("astroscrappy.detect_cosmics", detect_cosmics.__doc__)
    a = asarray(indat)
    if len(a.shape_e) != 2:
        raise Unsupported("cosmic rays of no image")
    nm = f"cosmic{fresh('q').single().args[0].split('!')[1]}"
    COSMICS.append(SArr.of(a.shape_e, lambda i: BAPP(nm, *i), "b"))
    return (SArr.of(a.shape_e, lambda i: BAPP(nm, *i), "b"),
            SArr.of(a.shape_e, lambda i: app(nm + "_clean", tuple(i),
                                             "real"), "f"))


INTERPOLATED = []
COSMICS = []


def interpolate_replace_nans(array, kernel, fill_value=None, convolve=None,
                             **k):
    """a copy; NaN pixels hold a value interpolated from the pixels that are
    not NaN, or are still NaN"""
    uses("astropy.convolution.interpolate_replace_nans",
         interpolate_replace_nans.__doc__)
    if k or not _isinstance(kernel, Kernel):
        raise Unsupported("interpolation arguments")
    if _isinstance(array, SMa):
        raise Unsupported("interpolation of a masked array")
    a = asarray(array).copy()
    n = a.ngetter() or (lambda i: FALSE)
    for f in INTERPOLATED:
        f(a)
    e = lambda i: opaque("interpolate", a, (), "real", i)   # noqa: E731
    for f in LEMMAS.get("interpolated", ()):
        f(a, e)
    return SArr.of(
        a.shape_e, lambda i: core.ite(n(i), e(i), num(a.at(i))), a.dtype_,
        lambda i: AND(n(i), EQ(opaque("notyet", a, (), "int", i), ONE)))


LEMMAS = {}
LIBS["astropy.convolution"].Box2DKernel = Kernel
LIBS["astropy.convolution"].Gaussian2DKernel = Kernel
LIBS["astropy.convolution"].interpolate_replace_nans = \
    interpolate_replace_nans
LIBS["astroscrappy"].detect_cosmics = detect_cosmics


def importer(nm, fromlist=()):
    if nm.split(".")[0] == "pyfftw":
        _pyfftw()
    if nm in LIBS:
        if fromlist or "." not in nm:
            return LIBS[nm]
        return LIBS[nm.split(".")[0]]
    return Shim(nm)

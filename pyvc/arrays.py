"""Symbolic numpy arrays: a shape and the element at every index."""
from .expr import (AND, B, BALL, BAPP, BEX, BITE, E, EQ, FALSE, FLOORS, IFF,  # noqa
                   LE, LT,
                   NOT, ONE, OR, TRUE, ZERO, Unsupported, app, conj, fn,
                   fresh, im, IMAG, ite, lift, mk_op, mk_sum, re, sqrt,
                   subst, var)


def dtype_of(t):
    if t is None:
        return "f"
    if isinstance(t, str):
        s = t.lstrip("<>=|")
        if s in "b i f4 f c o".split():
            return {"b": "b"}.get(s, s)
        if s in ("f8", "float64", "float", "d"):
            return "f"
        if s in ("float32",):
            return "f4"
        if s.startswith(("int", "uint", "i", "u")):
            return "i"
        if s in ("bool", "?"):
            return "b"
        if s.startswith(("complex", "c")):
            return "c"
        raise Unsupported(f"dtype {t}")
    if t is float:
        return "f"
    if t is int:
        return "i"
    if t is bool:
        return "b"
    if t is complex:
        return "c"
    if t is object:
        return "o"
    if getattr(t, "pv_dtype", None):
        return t.pv_dtype
    import numpy as _np

    try:
        d = _np.dtype(t)
    except TypeError:
        raise Unsupported(f"dtype {t!r}")
    return {"f": "f4" if d.itemsize == 4 else "f", "i": "i", "u": "i",
            "b": "b", "c": "c"}.get(d.kind, "o")


class DType:
    """What .dtype gives."""

    def __init__(self, tag):
        self.pv_dtype = tag
        self.kind = {"f4": "f"}.get(tag, tag)

    def __eq__(self, o):
        try:
            return dtype_of(o) == self.pv_dtype
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.pv_dtype)

    @property
    def type(self):
        return self

    @property
    def names(self):
        return None


def memo(f):
    cache = {}

    def g(idx):
        r = cache.get(idx)
        if r is None:
            r = cache[idx] = f(idx)
        return r
    return g


from .core import (C, Cell, RANK, SBool, SNum, bool_of, cmp, form, join,  # noqa: E402
                   kind_of, mk, num_e, raise_, MISSING)
from . import core  # noqa: E402


def num(v):
    return ite(v, ONE, ZERO) if isinstance(v, B) else v


def boolean(v):
    return v if isinstance(v, B) else NOT(EQ(v, ZERO))


class Buffer(Cell):
    frozen = False      # an element of a symbolic list, built on demand

    def __init__(self, shape, fn, nan=None):
        super().__init__()
        self.shape = tuple(shape)
        self.fn = memo(fn)
        self.nan = memo(nan) if nan else None

    def snap(self):
        return (self.fn, self.nan)

    def restore(self, st):
        self.fn, self.nan = st

    def set(self, fn, nan):
        if self.frozen:
            raise Unsupported("writing into an element of a symbolic list")
        self.touch()
        self.fn = memo(fn)
        self.nan = memo(nan) if nan else None


def dim(x):
    """The term of a length."""
    if isinstance(x, E):
        return x
    return num_e(x)


def is_scalar(x):
    import numpy as _np

    return isinstance(x, (SNum, SBool, int, float, complex, bool, _np.generic,
                          E, B))


def getter_of(x):
    """(function idx -> element, nan function or None, shape, dtype)"""
    if isinstance(x, SMa):
        raise Unsupported("masked array in a plain operation")
    if isinstance(x, SArr):
        return x.getter(), x.ngetter(), x.shape_e, x.dtype
    if isinstance(x, (E, B)):
        return (lambda idx: x), None, (), ("b" if isinstance(x, B) else
                                           kind_of(x))
    if is_scalar(x):
        if isinstance(x, float) and x != x:
            return (lambda idx: ZERO), (lambda idx: TRUE), (), "f"
        t = kind_of(x)
        if t == "b":
            v = form(x)
        else:
            v = num_e(x)
        return (lambda idx: v), None, (), t
    if isinstance(x, (list, tuple)) or type(x).__name__ == "PList":
        return getter_of(asarray(x))
    if hasattr(x, "_pv_array"):
        return getter_of(x._pv_array())
    import numpy as _np

    if isinstance(x, _np.ndarray):
        return getter_of(from_numpy(x))
    raise Unsupported(f"operand {type(x).__name__}")


def from_numpy(a):
    import numpy as _np

    t = dtype_of(a.dtype)
    if a.ndim == 0:
        v = a.item()
        return SArr.of((), lambda idx: lift(v), t)
    if a.size > 4096:
        raise Unsupported("large concrete array")
    items = {}
    nans = {}
    for k in _np.ndindex(*a.shape):
        v = a[k].item()
        if t == "b":
            items[k] = TRUE if v else FALSE
        elif v != v:
            nans[k] = 1
            items[k] = ZERO
        else:
            items[k] = lift(v)

    def get(idx):
        cs = [i.const() for i in idx]
        if None not in cs:
            return items[tuple(int(c) for c in cs)]
        vals = list(items.values())
        if all(v is vals[0] or v == vals[0] for v in vals):
            return vals[0]
        out = None
        for k, v in items.items():
            c = AND(*[EQ(i, lift(n)) for i, n in zip(idx, k)])
            if out is None:
                out = v
            else:
                out = BITE(c, v, out) if isinstance(v, B) else ite(c, v, out)
        return out

    nan = None
    if nans:
        def nan(idx):
            return OR(*[AND(*[EQ(i, lift(n)) for i, n in zip(idx, k)])
                        for k in nans])
    return SArr.of(tuple(lift(n) for n in a.shape), get, t, nan)


def asarray(x):
    if isinstance(x, (SArr, SMa)):
        return x
    if is_scalar(x):
        g, n, _, t = getter_of(x)
        return SArr.of((), g, t, n)
    if hasattr(x, "_pv_array"):
        return x._pv_array()
    import numpy as _np

    if isinstance(x, _np.ndarray):
        return from_numpy(x)
    if type(x).__name__ == "PList" and x.items is None:
        return x.to_array()
    items = list(x.items) if type(x).__name__ == "PList" else list(x)
    if not items:
        return SArr.of((ZERO,), lambda idx: ZERO, "f")
    parts = [asarray(y) for y in items]
    shp = parts[0].shape_e
    for p in parts[1:]:
        if len(p.shape_e) != len(shp):
            raise_(ValueError("inhomogeneous shape"))
        for a, b in zip(p.shape_e, shp):
            if not (a == b or C.known(EQ(a, b))):
                raise Unsupported("stack of different shapes")
    t = parts[0].dtype
    for p in parts[1:]:
        t = join(t, p.dtype)
    gs = [p.getter() for p in parts]
    ns = [p.ngetter() for p in parts]
    cast = num if t != "b" else (lambda v: v)

    def get(idx):
        c = idx[0].const()
        if c is not None:
            return cast(gs[int(c)](idx[1:]))
        out = cast(gs[-1](idx[1:]))
        for k in range(len(gs) - 2, -1, -1):
            v = cast(gs[k](idx[1:]))
            cnd = EQ(idx[0], lift(k))
            out = BITE(cnd, v, out) if isinstance(v, B) else ite(cnd, v, out)
        return out

    nan = None
    if any(ns):
        def nan(idx):
            return OR(*[AND(EQ(idx[0], lift(k)), n(idx[1:]))
                        for k, n in enumerate(ns) if n])
    return SArr.of((lift(len(gs)),) + shp, get, t, nan)


def broadcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        best = None
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if best is None or best.const() == 1:
                best = x
            elif x.const() == 1 or x == best:
                continue
            elif not C.decide(EQ(x, best)):
                raise_(ValueError(
                    "operands could not be broadcast together"))
        out.append(best)
    return tuple(out)


def bidx(shape, idx):
    """Index into an operand of a broadcast operation."""
    k = len(idx) - len(shape)
    return tuple(ZERO if s.const() == 1 else i
                 for s, i in zip(shape, idx[k:]))


def elementwise(f, *args, dtype=None, nanf=None):
    """f over the elements of the operands (scalars allowed)."""
    gs = [getter_of(a) for a in args]
    shape = broadcast([g[2] for g in gs])

    def get(idx):
        return f(*[g(bidx(s, idx)) for g, _, s, _ in gs])

    nan = None
    ns = [(n, s) for _, n, s, _ in gs if n]
    if nanf is None and ns:
        def nan(idx):
            return OR(*[n(bidx(s, idx)) for n, s in ns])
    r = SArr.of(shape, get, dtype, nan)
    return r.unwrap()


class SArr:
    __class__ = property(lambda self: type("ndarray", (), {}))
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, buf, shape, spec=None, dtype="f", part=None):
        self.buf = buf
        self.shape_e = tuple(shape)
        # spec: per base dimension ('i', term) or ('s', offset, step, dim)
        self.spec = spec
        self.dtype_ = dtype
        self.part = part

    @staticmethod
    def of(shape, get, dtype="f", nan=None):
        shape = tuple(dim(s) for s in shape)
        return SArr(Buffer(shape, get, nan), shape, None, dtype or "f")

    # -- access
    @property
    def dtype(self):
        return DTag(self.dtype_)

    def base_idx(self, idx):
        if self.spec is None:
            return idx
        return tuple(s[1] if s[0] == "i" else s[1] + idx[s[3]] * s[2]
                     for s in self.spec)

    def getter(self):
        f, part, spec = self.buf.fn, self.part, self.spec
        if spec is None and part is None:
            return f
        bi = self.base_idx

        def g(idx):
            v = f(bi(idx))
            if part == "re":
                return re(num(v))
            if part == "im":
                return im(num(v))
            return v
        return g

    def ngetter(self):
        n = self.buf.nan
        if n is None:
            return None
        if self.spec is None:
            return n
        return lambda idx: n(self.base_idx(idx))

    def at(self, idx):
        return self.getter()(tuple(dim(i) for i in idx))

    def nan_at(self, idx):
        n = self.ngetter()
        return n(tuple(dim(i) for i in idx)) if n else FALSE

    def unwrap(self):
        if self.shape_e == ():
            v = self.at(())
            if self.ngetter() and self.nan_at(()) is not FALSE:
                return self
            if isinstance(v, B):
                return bool_of(v)
            return SNum(v, self.dtype_ if self.dtype_ != "b" else "i") \
                if self.dtype_ != "i" else mk(v, "i")
        return self

    @property
    def shape(self):
        return tuple(mk(s, "i") for s in self.shape_e)

    @property
    def ndim(self):
        return len(self.shape_e)

    @property
    def size_e(self):
        n = ONE
        for s in self.shape_e:
            n = n * s
        return n

    @property
    def size(self):
        return mk(self.size_e, "i")

    def __len__(self):
        c = self.shape_e[0].const()
        if c is None:
            raise Unsupported("len of a symbolic array")
        return int(c)

    def __iter__(self):
        c = self.shape_e[0].const()
        if c is None:
            raise Unsupported("native iteration over a symbolic array")
        return iter([self[k] for k in range(int(c))])

    def __repr__(self):
        return f"SArr{self.shape_e}"

    def __bool__(self):
        if self.size_e.const() == 1:
            v = self.at(tuple(ZERO for _ in self.shape_e))
            return C.decide(boolean(v))
        raise_(ValueError("The truth value of an array is ambiguous"))

    def __getattr__(self, n):
        if n.startswith(("__", "_pv_")) or n == "_baseclass":
            raise AttributeError(n)
        raise Unsupported(f"array attribute {n}")

    __hash__ = object.__hash__

    # -- elementwise operators
    def _op(self, o, name, swap=False):
        if isinstance(o, SMa) or hasattr(o, "_pv_binop"):
            return NotImplemented
        if not (is_scalar(o) or isinstance(o, (SArr, list, tuple))
                or type(o).__name__ in ("PList", "ndarray")):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return binop(name, a, b)

    def __add__(self, o):
        return self._op(o, "add")

    def __radd__(self, o):
        return self._op(o, "add", True)

    def __sub__(self, o):
        return self._op(o, "sub")

    def __rsub__(self, o):
        return self._op(o, "sub", True)

    def __mul__(self, o):
        return self._op(o, "mul")

    def __rmul__(self, o):
        return self._op(o, "mul", True)

    def __truediv__(self, o):
        return self._op(o, "div")

    def __rtruediv__(self, o):
        return self._op(o, "div", True)

    def __floordiv__(self, o):
        return self._op(o, "floordiv")

    def __mod__(self, o):
        return self._op(o, "mod")

    def __pow__(self, o):
        return self._op(o, "pow")

    def __rpow__(self, o):
        return self._op(o, "pow", True)

    def __lt__(self, o):
        return self._op(o, "lt")

    def __le__(self, o):
        return self._op(o, "le")

    def __gt__(self, o):
        return self._op(o, "lt", True)

    def __ge__(self, o):
        return self._op(o, "le", True)

    def __eq__(self, o):
        return self._op(o, "eq")

    def __ne__(self, o):
        return self._op(o, "ne")

    def __and__(self, o):
        return self._op(o, "and")

    def __rand__(self, o):
        return self._op(o, "and")

    def __or__(self, o):
        return self._op(o, "or")

    def __ror__(self, o):
        return self._op(o, "or")

    def __xor__(self, o):
        return self._op(o, "xor")

    def __invert__(self):
        if self.dtype_ != "b":
            raise Unsupported("invert of numbers")
        return elementwise(NOT, self, dtype="b")

    def __neg__(self):
        return elementwise(lambda x: -num(x), self, dtype=self.dtype_)

    def __pos__(self):
        return self

    def __abs__(self):
        return elementwise(lambda x: fn("abs", num(x)), self,
                           dtype="f" if self.dtype_ == "c" else self.dtype_)

    def _iop(self, o, name):
        v = binop(name, self, o)
        if name in ("and", "or", "xor") and self.dtype_ != "b":
            raise Unsupported("bitwise in-place")
        assign(self, v, inplace=True)
        return self

    def __iadd__(self, o):
        return self._iop(o, "add")

    def __isub__(self, o):
        return self._iop(o, "sub")

    def __imul__(self, o):
        return self._iop(o, "mul")

    def __itruediv__(self, o):
        return self._iop(o, "div")

    def __ior__(self, o):
        return self._iop(o, "or")

    def __iand__(self, o):
        return self._iop(o, "and")

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    # -- methods
    def copy(self, order=None):
        return SArr.of(self.shape_e, self.getter(), self.dtype_,
                       self.ngetter())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, **k):
        t = dtype_of(t)
        return cast(self, t)

    @property
    def real(self):
        if self.dtype_ != "c":
            return self
        return SArr(self.buf, self.shape_e, self.spec, "f", "re")

    @property
    def imag(self):
        if self.dtype_ != "c":
            return zeros(self.shape_e)
        return SArr(self.buf, self.shape_e, self.spec, "f", "im")

    def conj(self):
        if self.dtype_ != "c":
            return self
        return elementwise(lambda x: conj(num(x)), self, dtype="c")

    conjugate = conj

    @property
    def T(self):
        n = len(self.shape_e)
        if n < 2:
            return self
        g, m = self.getter(), self.ngetter()
        return SArr.of(self.shape_e[::-1], lambda idx: g(idx[::-1]),
                       self.dtype_,
                       (lambda idx: m(idx[::-1])) if m else None)

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose with axes")
        return self.T

    def any(self, axis=None):
        return reduce_bool(self, axis, "any")

    def all(self, axis=None):
        return reduce_bool(self, axis, "all")

    def sum(self, axis=None, **k):
        return reduce_sum(self, axis)

    def max(self, axis=None):
        return reduce_opaque("max", self, axis)

    def min(self, axis=None):
        return reduce_opaque("min", self, axis)

    def mean(self, axis=None):
        s = reduce_sum(self, axis)
        if axis is not None:
            raise Unsupported("mean along an axis")
        return s / self.size

    def std(self, axis=None):
        return reduce_opaque("std", self, axis)

    def flatten(self):
        return flatten(self)

    def ravel(self):
        return flatten(self)

    def reshape(self, *shape):
        if len(shape) == 1 and not is_scalar(shape[0]):
            shape = tuple(shape[0])
        return reshape(self, tuple(dim(s) for s in shape))

    def item(self, *a):
        if self.shape_e != ():
            raise Unsupported("item")
        return self.unwrap()

    def tolist(self):
        return list(self)

    def fill(self, v):
        assign(self, v)

    def squeeze(self):
        raise Unsupported("squeeze")


class DTag(str):
    """Tag of an element type; compares like numpy's dtype."""

    @property
    def pv_dtype(self):
        return str(self)

    @property
    def kind(self):
        return {"f4": "f"}.get(str(self), str(self))

    @property
    def type(self):
        return self

    @property
    def names(self):
        return None

    def __eq__(self, o):
        if isinstance(o, str) and str.__eq__(self, o):
            return True
        try:
            return dtype_of(o) == str(self)
        except BaseException:
            return False

    def __ne__(self, o):
        return not self == o

    __hash__ = str.__hash__


class SSel(SArr):
    """The elements of an array selected by a mask, in order."""
    sel = None


def new_sel(val, mask):
    """val[mask] for arrays of one shape."""
    g, m = val.getter(), mask.getter()
    shape = val.shape_e
    bv = [fresh("s") for _ in shape]
    cnt = ite(m(tuple(bv)), ONE, ZERO)
    for v, s in reversed(list(zip(bv, shape))):
        cnt = mk_sum(ZERO, s, v, cnt)
    C.assume(LE(ZERO, cnt))

    def get(idx):
        t = [fresh("s") for _ in shape]
        body = num(g(tuple(t)))
        return mk_op("select", (tuple(shape), ), t,
                     ite(boolean(m(tuple(t))), body, HOLE()), idx, "real"
                     if val.dtype_ not in ("c", "i") else
                     {"c": "cplx", "i": "int"}[val.dtype_], linear=False)

    def getb(idx):
        return NOT(EQ(get(idx), ZERO))

    r = SSel(Buffer((cnt,), getb if val.dtype_ == "b" else get), (cnt,), None,
             val.dtype_)
    r.sel = (g, m, shape)
    return r


def HOLE():
    return var("HOLE", "real")


NPOPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b,
         "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def binop(name, a, b):
    if isinstance(a, SMa) or isinstance(b, SMa):
        return ma_binop(name, a, b)
    ta, tb = getter_of(a)[3], getter_of(b)[3]
    if name in ("and", "or", "xor"):
        if ta != "b" or tb != "b":
            raise Unsupported("bitwise operation on numbers")
        f = {"and": AND, "or": OR,
             "xor": lambda x, y: NOT(IFF(x, y))}[name]
        return elementwise(f, a, b, dtype="b")
    if name in ("lt", "le", "eq", "ne"):
        if isinstance(a, float) or isinstance(b, float):
            x = a if isinstance(a, float) else b
            if x in (float("inf"), float("-inf")):
                big = x > 0
                left = x is a
                v = {"lt": (not big) if left else big,
                     "le": (not big) if left else big,
                     "eq": False, "ne": True}[name]
                arr = b if left else a
                return elementwise(lambda y: TRUE if v else FALSE, arr,
                                   dtype="b")
        ga, gb = getter_of(a), getter_of(b)
        shape = broadcast([ga[2], gb[2]])

        def get(idx):
            ia, ib = bidx(ga[2], idx), bidx(gb[2], idx)
            x, y = ga[0](ia), gb[0](ib)
            if isinstance(x, B) and isinstance(y, B) and name in ("eq", "ne"):
                r = IFF(x, y)
                if name == "ne":
                    r = NOT(r)
            else:
                x, y = num(x), num(y)
                r = {"lt": LT, "le": LE, "eq": EQ,
                     "ne": lambda p, q: NOT(EQ(p, q))}[name](x, y)
            bad = OR(*[g[1](i) for g, i in ((ga, ia), (gb, ib)) if g[1]])
            if bad is not FALSE:
                r = OR(bad, r) if name == "ne" else AND(NOT(bad), r)
            return r
        return SArr.of(shape, get, "b").unwrap()
    t = join(ta, tb)
    if t == "b":
        t = "i"
    for x, y in ((a, b), (b, a)):
        # a python number does not widen single precision
        if isinstance(x, SArr) and x.dtype_ == "f4" and is_scalar(y) \
                and kind_of(y) in ("f", "i", "b"):
            t = "f4"
    if name == "div" and t == "i":
        t = "f"
    if name in NPOPS:
        f = NPOPS[name]
        return elementwise(lambda x, y: f(num(x), num(y)), a, b, dtype=t)
    if name == "pow":
        c = num_e(b).const() if is_scalar(b) else None
        if c is None or c.denominator not in (1, 2):
            return elementwise(lambda x, y: app("pow", (num(x), num(y)),
                                                "real"), a, b, dtype="f")
        return elementwise(lambda x: num(x) ** c, a, dtype=t)
    if name == "floordiv":
        return elementwise(lambda x, y: fn("floor", num(x) / num(y)), a, b,
                           dtype=t)
    if name == "mod":
        return elementwise(
            lambda x, y: num(x) - num(y) * fn("floor", num(x) / num(y)),
            a, b, dtype=t)
    raise Unsupported(name)


def cast(a, t):
    g, n = a.getter(), a.ngetter()
    s = a.dtype_
    if core.SINGLE and t == "f4" and s in ("f", "i"):
        return SArr.of(a.shape_e, lambda i: app("single", (g(i),), "real"),
                       t, n)
    if t == s or t in ("f", "f4", "c") and s in ("f", "f4", "i", "c") and \
            not (s == "c" and t != "c"):
        return SArr.of(a.shape_e, g, t, n)
    if t == "b":
        return SArr.of(a.shape_e, lambda i: OR(boolean(g(i)), n(i))
                       if n else boolean(g(i)), "b")
    if t == "i":
        if s == "b":
            return SArr.of(a.shape_e, lambda i: num(g(i)), "i")
        if n:
            raise Unsupported("integer cast of NaN")
        return SArr.of(a.shape_e, lambda i: fn("trunc", g(i)), "i")
    if s == "b":
        return SArr.of(a.shape_e, lambda i: num(g(i)), t)
    if s == "c":
        return SArr.of(a.shape_e, lambda i: re(g(i)), t, n)
    raise Unsupported(f"cast {s} to {t}")


def zeros(shape, t="f"):
    return SArr.of(shape, lambda idx: FALSE if t == "b" else ZERO, t)


def full(shape, v, t=None):
    g, n, _, k = getter_of(v)
    t = t or k
    val = g(())
    if t != "b":
        val = num(val)
    return SArr.of(shape, lambda idx: val, t,
                   (lambda idx: n(())) if n else None)


# ----------------------------------------------------------- index handling
def norm_int(i, n, axis=0):
    i = dim(i)
    if not i.is_int():
        raise_(IndexError("only integers are valid indices"))
    if C.decide(LT(i, ZERO)):
        i = i + n
        if C.decide(LT(i, ZERO)):
            raise_(IndexError("index out of bounds"))
    elif not C.decide(LT(i, n)):
        raise_(IndexError("index out of bounds"))
    return i


def norm_slice(s, n):
    """(offset, step, length) of a slice of a dimension of length n."""
    step = s.step
    if step is not None:
        step = dim(step).const()
        if step is None or step not in (1, -1):
            raise Unsupported("slice step")
    step = int(step or 1)
    if step == -1:
        if s.start is not None or s.stop is not None:
            raise Unsupported("reversed partial slice")
        return n - 1, -1, n

    def pos(v, default):
        if v is None:
            return default
        e = dim(v)
        if not (e.is_int()):
            raise_(TypeError("slice indices must be integers"))
        if C.decide(LT(e, ZERO)):
            e = e + n
            if C.decide(LT(e, ZERO)):
                return ZERO
            return e
        if not C.decide(LE(e, n)):
            return n
        return e
    lo = pos(s.start, ZERO)
    hi = pos(s.stop, n)
    if hi is n and s.stop is None and lo == ZERO:
        return ZERO, 1, n
    if not C.decide(LE(lo, hi)):
        return lo, 1, ZERO
    return lo, 1, hi - lo


def is_basic(k):
    return k is None or k is Ellipsis or isinstance(k, slice) or \
        (is_scalar(k) and kind_of(k) != "b")


class Ix(tuple):
    """np.ix_"""


class SWhere:
    """The index tuple np.where gives for a condition."""
    _pv_seq = True

    def __init__(self, cond):
        self.cond = cond

    def __iter__(self):
        return iter([SWhereAx(self.cond, d)
                     for d in range(len(self.cond.shape_e))])

    def __getitem__(self, d):
        return SWhereAx(self.cond, d)

    def __len__(self):
        return len(self.cond.shape_e)


class SWhereAx:
    def __init__(self, cond, d):
        self.cond, self.d = cond, d

    def __getitem__(self, k):
        if not isinstance(k, int):
            raise Unsupported("index of a np.where result")
        return mk(where_at(self.cond, self.d, k), "i")

    def _pv_ite(self, c, o):
        return core.Poison("a result of np.where that differs between paths")

    def _pv_terms(self):
        return [self.cond.at(tuple(fresh("y") for _ in self.cond.shape_e))]

    def _pv_subst(self, mp):
        from .seqs import vsubst

        return SWhereAx(vsubst(self.cond, mp), self.d)

    def __getattr__(self, n):
        raise Unsupported(f"np.where result: {n}")


def where_at(cond, d, k):
    bv = [fresh("w") for _ in cond.shape_e]
    r = mk_op(f"where_{d}_{k}", (tuple(cond.shape_e),), bv,
              cond.at(tuple(bv)), (), "int", linear=False)
    return r


def getitem(a, key):
    if isinstance(key, SWhere):
        return new_sel(a, key.cond)
    if isinstance(key, Ix):
        return fancy_outer(a, key)
    if isinstance(key, SArr) and key.dtype_ == "b":
        if len(key.shape_e) == len(a.shape_e):
            return new_sel(a, key)
        raise Unsupported("partial boolean index")
    if isinstance(key, (SArr, list)) or type(key).__name__ in ("PList",
                                                               "ndarray"):
        ix = asarray(key)
        if ix.dtype_ == "b":
            return getitem(a, ix)
        return take(a, ix)
    if not isinstance(key, tuple):
        key = (key,)
    if not all(is_basic(k) for k in key):
        arrs = [k for k in key if not is_basic(k)]
        if len(key) == len(a.shape_e) == len(arrs):
            parts = [asarray(k) for k in key]
            g, n = a.getter(), a.ngetter()
            shape = broadcast([p.shape_e for p in parts])
            pg = [(p.getter(), p.shape_e) for p in parts]

            def ix(idx):
                return tuple(f(bidx(s, idx)) for f, s in pg)
            return SArr.of(shape, lambda idx: g(ix(idx)), a.dtype_,
                           (lambda idx: n(ix(idx))) if n else None)
        if len(arrs) == 1 and all(isinstance(k, slice) and k == slice(None)
                                  for k in key if is_basic(k)):
            d = [i for i, k in enumerate(key) if not is_basic(k)][0]
            return take(a, asarray(arrs[0]), d)
        raise Unsupported("mixed fancy index")
    return view(a, key).unwrap()


def positions(f, n, size):
    """The positions a fancy index of n entries selects (from the end for
    negative ones)."""
    t = fresh("q")
    j = f((t,))
    if C.known(OR(LT(t, ZERO), LE(n, t), AND(LE(ZERO, j), LT(j, size)))):
        return f
    if C.decide(BEX(ZERO, n, t, OR(LE(size, j), LT(j, -size)))):
        raise_(IndexError("index is out of bounds"))
    if C.known(OR(LT(t, ZERO), LE(n, t), LE(ZERO, j))):
        return f
    return lambda i: ite(LT(f(i), ZERO), f(i) + size, f(i))


def take(a, ix, axis=0):
    if len(ix.shape_e) != 1:
        raise Unsupported("fancy index of this rank")
    g, n, f = a.getter(), a.ngetter(), ix.getter()
    shape = a.shape_e[:axis] + ix.shape_e + a.shape_e[axis + 1:]
    f = positions(f, ix.shape_e[0], a.shape_e[axis])

    def m(idx):
        return idx[:axis] + (f((idx[axis],)),) + idx[axis + 1:]
    return SArr.of(shape, lambda idx: g(m(idx)), a.dtype_,
                   (lambda idx: n(m(idx))) if n else None)


def fancy_outer(a, key):
    g, n = a.getter(), a.ngetter()
    fs = [asarray(k) for k in key]
    gs = [positions(f.getter(), f.shape_e[0], a.shape_e[d])
          for d, f in enumerate(fs)]

    def m(idx):
        return tuple(f((i,)) for f, i in zip(gs, idx))
    return SArr.of([f.shape_e[0] for f in fs], lambda idx: g(m(idx)),
                   a.dtype_, (lambda idx: n(m(idx))) if n else None)


def view(a, key):
    """The view of a basic index."""
    key = list(key)
    n = len(a.shape_e)
    used = sum(k is not None and k is not Ellipsis for k in key)
    if Ellipsis in [k for k in key if k is Ellipsis]:
        i = [k is Ellipsis for k in key].index(True)
        key[i:i + 1] = [slice(None)] * (n - used)
    else:
        key += [slice(None)] * (n - used)
    if sum(k is not None for k in key) > n:
        raise_(IndexError("too many indices for array"))
    shape, maps = [], {}
    d = 0
    for k in key:
        if k is None:
            shape.append(ONE)
            continue
        if isinstance(k, slice):
            lo, step, ln = norm_slice(k, a.shape_e[d])
            maps[d] = ("s", lo, step, len(shape))
            shape.append(ln)
        else:
            maps[d] = ("i", norm_int(k, a.shape_e[d]))
        d += 1
    spec0 = a.spec or tuple(("s", ZERO, 1, i) for i in range(n))
    spec = []
    for s in spec0:
        if s[0] == "i":
            spec.append(s)
            continue
        m = maps[s[3]]
        if m[0] == "i":
            spec.append(("i", s[1] + m[1] * s[2]))
        else:
            spec.append(("s", s[1] + m[1] * s[2], s[2] * m[2], m[3]))
    return SArr(a.buf, shape, tuple(spec), a.dtype_, a.part)


def region(a):
    """(function base idx -> condition, function base idx -> view idx)"""
    if a.spec is None:
        return (lambda b: TRUE), (lambda b: b)
    shape, spec, base = a.shape_e, a.spec, a.buf.shape

    def cond(b):
        out = []
        for x, s, n in zip(b, spec, base):
            if s[0] == "i":
                out.append(EQ(x, s[1]))
            else:
                ln = shape[s[3]]
                if s[2] == 1 and s[1] == ZERO and ln == n:
                    continue
                if s[2] == 1:
                    out += [LE(s[1], x), LT(x, s[1] + ln)]
                else:
                    out += [LE(x, s[1]), LT(s[1] - ln, x)]
        return AND(*out)

    def inv(b):
        out = [ZERO] * len(shape)
        for x, s in zip(b, spec):
            if s[0] == "s":
                out[s[3]] = x - s[1] if s[2] == 1 else s[1] - x
        return tuple(out)
    return cond, inv


def coerce(v, src, dst, inplace=False):
    """An element stored into an array of another type."""
    if dst == "b":
        return boolean(v)
    v = num(v)
    if dst == "i" and src not in ("i", "b"):
        return fn("trunc", v)
    if dst in ("f", "f4") and src == "c":
        return re(v)
    return v


def assign(a, value, where=None, inplace=False):
    """Write value (broadcast) into the elements of the view a."""
    if isinstance(value, SMa):
        value = value._data
    g, n, shp, t = getter_of(value)
    dst = a.dtype_
    if inplace and RANK[t] > RANK[dst] and not (dst == "f4" and t == "f") \
            and not (dst == "i" and t == "b"):
        raise_(TypeError(f"cannot cast output from {t} to {dst}"))
    if shp:
        # leading ones may be dropped by numpy
        s = shp
        while len(s) > len(a.shape_e) and s[0].const() == 1:
            raise Unsupported("assignment of a higher rank")
        if len(s) > len(a.shape_e):
            raise_(ValueError("could not broadcast input array"))
        for x, y in zip(s[::-1], a.shape_e[::-1]):
            if x.const() == 1 or x == y:
                continue
            if not C.decide(EQ(x, y)):
                raise_(ValueError("could not broadcast input array"))
    cond, inv = region(a)
    old, oldn = a.buf.fn, a.buf.nan
    w = where.getter() if where is not None else None
    part = a.part

    def c_at(b):
        c = cond(b)
        if w is not None:
            c = AND(c, boolean(w(inv(b))))
        return c

    def new(b):
        c = c_at(b)
        if c is FALSE:
            return old(b)
        v = coerce(g(bidx(shp, inv(b))), t, dst)
        if part == "re":
            v = num(v) + IMAG() * im(num(old(b)))
        elif part == "im":
            v = re(num(old(b))) + IMAG() * num(v)
        if c is TRUE:
            return v
        o = old(b)
        if isinstance(v, B) or isinstance(o, B):
            return BITE(c, boolean(v), boolean(o))
        return ite(c, v, o)

    nan = None
    if n or oldn:
        def nan(b):
            c = c_at(b)
            return BITE(c, n(bidx(shp, inv(b))) if n else FALSE,
                        oldn(b) if oldn else FALSE)
    a.buf.set(new, nan)


def setitem(a, key, value):
    if isinstance(key, SWhere):
        key = key.cond
    if isinstance(key, SMa):
        raise Unsupported("masked index")
    if isinstance(key, SArr) and key.dtype_ == "b":
        if len(key.shape_e) != len(a.shape_e):
            raise Unsupported("partial boolean index")
        if not is_scalar(value) and not (
                isinstance(value, SArr) and value.shape_e == ()):
            raise Unsupported("boolean assignment of an array")
        assign(a, value, where=key)
        return
    if not isinstance(key, tuple):
        key = (key,)
    if not all(is_basic(k) for k in key):
        raise Unsupported("fancy assignment")
    assign(view(a, key), value)


# ------------------------------------------------------------ reductions
def over(a):
    """(bound variables, element, nan) at a generic index."""
    bv = [fresh("b") for _ in a.shape_e]
    return bv, a.at(tuple(bv)), a.nan_at(tuple(bv))


def nonneg_shape(a):
    pass


def reduce_sum(a, axis=None):
    if isinstance(a, SSel) and a.sel and axis is None:
        g, m, shape = a.sel
        bv = [fresh("b") for _ in shape]
        body = ite(boolean(m(tuple(bv))), num(g(tuple(bv))), ZERO)
        for v, s in reversed(list(zip(bv, shape))):
            body = mk_sum(ZERO, s, v, body)
        return mk(body, "i" if a.dtype_ in "bi" else a.dtype_)
    if axis is None:
        bv, body, nan = over(a)
        if nan is not FALSE:
            raise Unsupported("sum with NaN")
        body = num(body)
        for v, s in reversed(list(zip(bv, a.shape_e))):
            body = mk_sum(ZERO, s, v, body)
        return mk(body, "i" if a.dtype_ in ("b", "i") else a.dtype_)
    if not isinstance(axis, int):
        raise Unsupported("sum axis")
    axis %= len(a.shape_e)
    g = a.getter()
    n = a.shape_e[axis]

    def get(idx):
        v = fresh("b")
        return mk_sum(ZERO, n, v, num(g(idx[:axis] + (v,) + idx[axis:])))
    return SArr.of(a.shape_e[:axis] + a.shape_e[axis + 1:], get,
                   "i" if a.dtype_ in ("b", "i") else a.dtype_).unwrap()


def reduce_bool(a, axis, kind):
    g, n = a.getter(), a.ngetter()

    def val(i):
        b = boolean(g(i))
        if n:
            b = OR(b, n(i))
        return b if kind == "any" else NOT(b)
    if axis is None:
        bv = [fresh("b") for _ in a.shape_e]
        f = val(tuple(bv))
        for v, s in reversed(list(zip(bv, a.shape_e))):
            f = BEX(ZERO, s, v, f)
        return bool_of(f if kind == "any" else NOT(f))
    axis %= len(a.shape_e)
    d = a.shape_e[axis]

    def get(idx):
        v = fresh("b")
        f = BEX(ZERO, d, v, val(idx[:axis] + (v,) + idx[axis:]))
        return f if kind == "any" else NOT(f)
    return SArr.of(a.shape_e[:axis] + a.shape_e[axis + 1:], get, "b").unwrap()


def opaque_body(a):
    """The operand of an opaque function of a whole array."""
    if isinstance(a, SSel) and a.sel:
        g, m, shape = a.sel
        bv = [fresh("b") for _ in shape]
        return bv, ite(boolean(m(tuple(bv))), num(g(tuple(bv))), HOLE()), shape
    bv, body, nan = over(a)
    body = num(body)
    if nan is not FALSE:
        body = ite(nan, var("NAN", "real"), body)
    return bv, body, a.shape_e


def opaque(name, a, params=(), sort="real", idx=()):
    bv, body, shape = opaque_body(a)
    return mk_op(name, (tuple(shape),) + tuple(params), bv, body,
                 tuple(dim(i) for i in idx), sort, linear=False)


def reduce_opaque(name, a, axis=None):
    if axis is not None:
        raise Unsupported(f"{name} along an axis")
    t = a.dtype_
    if name in ("max", "min") and t == "c":
        raise Unsupported("order of complex numbers")
    if name in ("max", "min") and not C.known(
            LT(ZERO, a.size_e)):
        if C.decide(EQ(a.size_e, ZERO)):
            raise_(ValueError("zero-size array to reduction operation"))
    if name in ("max", "min", "median") and not (
            isinstance(a, SSel) and a.sel):
        bv = [fresh("b") for _ in a.shape_e]
        x = num(a.at(tuple(bv)))
        if a.nan_at(tuple(bv)) is FALSE and x.vars().isdisjoint(
                {v.single() for v in bv}):
            return SNum(x, "i" if t == "i" else "f")    # all equal
    r = opaque(name, a, sort="int" if t in "ib" and name in ("max", "min")
               else "real")
    if name in ("max", "min") and not (isinstance(a, SSel) and a.sel):
        # a bound attained by some element
        bv = [fresh("b") for _ in a.shape_e]
        n = a.nan_at(tuple(bv))
        if n is FALSE:
            x = num(a.at(tuple(bv)))
            bad = LT(r, x) if name == "max" else LT(x, r)
            hit = EQ(x, r)
            for v, s in reversed(list(zip(bv, a.shape_e))):
                bad = BEX(ZERO, s, v, bad)
                hit = BEX(ZERO, s, v, hit)
            C.assume(NOT(bad))
            C.assume(hit)
    return SNum(r, "i" if t == "i" else "f")


def flatten(a):
    if len(a.shape_e) == 1:
        return a.copy()
    if len(a.shape_e) != 2:
        raise Unsupported("flatten")
    g, n = a.getter(), a.ngetter()
    w = a.shape_e[1]

    def m(idx):
        q = fn("floor", idx[0] / w)
        return (q, idx[0] - q * w)
    r = SArr.of((a.size_e,), lambda i: g(m(i)), a.dtype_,
                (lambda i: n(m(i))) if n else None)
    r.flat_of = a.copy()
    return r


def reshape(a, shape):
    if len(shape) == len(a.shape_e) and all(
            x == y for x, y in zip(shape, a.shape_e)):
        return a
    if len(a.shape_e) == 1 and len(shape) == 2:
        if any(s.const() == -1 for s in shape):
            raise Unsupported("reshape -1")
        n = a.shape_e[0]
        if not (n == shape[0] * shape[1]
                or C.known(EQ(n, shape[0] * shape[1]))):
            raise Unsupported("reshape to another size")
        o = getattr(a, "flat_of", None) if "flat_of" in a.__dict__ else None
        if o is not None and o.shape_e == tuple(shape):
            return o.copy()
        g, nn = a.getter(), a.ngetter()
        w = shape[1]

        def read(get):
            def at(i):
                # in the range of the shape, position / w rounds to the row
                c = fresh("c")
                FLOORS[c / w] = i[0]
                try:
                    v = get((c,))
                finally:
                    del FLOORS[c / w]
                return subst(v, {c.single(): i[0] * w + i[1]})
            return at
        return SArr.of(shape, read(g), a.dtype_, read(nn) if nn else None)
    if len(shape) == 1:
        if shape[0].const() == -1 or shape[0] == a.size_e:
            return flatten(a)
    raise Unsupported("reshape")


# ----------------------------------------------------------- masked arrays
class SMa(Cell):
    """numpy.ma.MaskedArray"""
    __class__ = property(lambda self: type("MaskedArray", (), {}))
    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, data, mask=None, fill=None):
        super().__init__()
        self._data, self._mask, self._fill = data, mask, fill

    def snap(self):
        return (self._data, self._mask)

    def restore(self, st):
        self._data, self._mask = st

    @property
    def shape_e(self):
        return self._data.shape_e

    @property
    def dtype_(self):
        return self._data.dtype_

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def shape(self):
        return self._data.shape

    @property
    def ndim(self):
        return self._data.ndim

    @property
    def size(self):
        return self._data.size

    @property
    def size_e(self):
        return self._data.size_e

    @property
    def data(self):
        return self._data

    @property
    def mask(self):
        if self._mask is None:
            return NoMask
        return self._mask

    @mask.setter
    def mask(self, m):
        if m is NoMask or m is False:
            if self._mask is None:
                return
            assign(self._mask, False)
            return
        if self._mask is None:
            self.touch()
            self._mask = zeros(self.shape_e, "b")
        if isinstance(m, MaybeMask):
            m = m.arr
        if not isinstance(m, SMa):
            m = asarray(m)
        else:
            m = m._data
        if m.dtype_ != "b":
            m = cast(m, "b")
        # numpy.ma assigns through .flat, which needs the same size
        if m.shape_e != () and not (len(m.shape_e) == len(self.shape_e)):
            raise Unsupported("mask of another rank")
        assign(self._mask, m)

    def mask_e(self):
        return zeros(self.shape_e, "b") if self._mask is None else self._mask

    def getmaskarray(self):
        return self.mask_e()

    def soften_mask(self):
        return self

    def filled(self, v=None):
        if v is None:
            if self._fill is None:
                v = SNum(var("FILL", "real"), "f")
            else:
                v = self._fill
        if self._mask is None:
            return self._data
        return where(self._mask, v, self._data, self.dtype_)

    def __len__(self):
        return len(self._data)

    def __getitem__(self, key):
        d = self._data[key]
        if not isinstance(d, SArr):
            if self._mask is None:
                return d
            m = self._mask[key]
            if form(m) is FALSE or C.known(NOT(form(m))):
                return d
            raise Unsupported("element of a masked array")
        return SMa(d, None if self._mask is None else self._mask[key])

    def __setitem__(self, key, v):
        if isinstance(v, SMa):
            raise Unsupported("masked assignment")
        self._data[key] = v
        if self._mask is not None:
            self._mask[key] = False

    def _op(self, o, name, swap=False):
        if hasattr(o, "_pv_binop"):
            return NotImplemented
        return ma_binop(name, o, self) if swap else ma_binop(name, self, o)

    def __add__(self, o):
        return self._op(o, "add")

    def __radd__(self, o):
        return self._op(o, "add", True)

    def __sub__(self, o):
        return self._op(o, "sub")

    def __rsub__(self, o):
        return self._op(o, "sub", True)

    def __mul__(self, o):
        return self._op(o, "mul")

    def __rmul__(self, o):
        return self._op(o, "mul", True)

    def __truediv__(self, o):
        return self._op(o, "div")

    def __pow__(self, o):
        return self._op(o, "pow")

    def __lt__(self, o):
        return self._op(o, "lt")

    def __le__(self, o):
        return self._op(o, "le")

    def __gt__(self, o):
        return self._op(o, "lt", True)

    def __ge__(self, o):
        return self._op(o, "le", True)

    def __abs__(self):
        return SMa(abs(self._data), self._mask)

    def _iop(self, o, name):
        r = ma_binop(name, self, o)
        assign(self._data, r._data, inplace=True)
        if r._mask is not None:
            self.mask = r._mask
        return self

    def __iadd__(self, o):
        return self._iop(o, "add")

    def __isub__(self, o):
        return self._iop(o, "sub")

    def __imul__(self, o):
        return self._iop(o, "mul")

    def astype(self, t, **k):
        return SMa(self._data.astype(t), None if self._mask is None
                   else self._mask.copy())

    def copy(self):
        return SMa(self._data.copy(), None if self._mask is None
                   else self._mask.copy())

    @property
    def real(self):
        return SMa(self._data.real, self._mask)

    @property
    def imag(self):
        return SMa(self._data.imag, self._mask)

    def sum(self, axis=None):
        if axis is not None:
            raise Unsupported("masked sum axis")
        return reduce_sum(where(self.mask_e(), 0, self._data, self.dtype_))

    def max(self):
        raise Unsupported("masked max")

    @property
    def T(self):
        return SMa(self._data.T, None if self._mask is None else self._mask.T)

    def flatten(self):
        return SMa(self._data.flatten(), None if self._mask is None
                   else self._mask.flatten())

    def __getattr__(self, n):
        if n.startswith(("__", "_pv_")):
            raise AttributeError(n)
        raise Unsupported(f"masked array attribute {n}")

    __hash__ = object.__hash__


def ma_binop(name, a, b):
    da = a._data if isinstance(a, SMa) else a
    db = b._data if isinstance(b, SMa) else b
    d = binop(name, da, db)
    ms = [x._mask for x in (a, b) if isinstance(x, SMa)
          and x._mask is not None]
    if name == "div":
        # numpy.ma masks divisions by zero
        den = getter_of(db)
        bad = elementwise(lambda x: EQ(num(x), ZERO), db, dtype="b")
        if isinstance(bad, SArr):
            i = [fresh("i") for _ in bad.shape_e]
            if bad.at(tuple(i)) is not FALSE:
                ms = ms + [bad]
        elif form(bad) is not FALSE and C.decide(form(bad)):
            d = da if isinstance(da, SArr) else asarray(da)
            return SMa(d, full(d.shape_e, True, "b"))
    m = None
    if ms:
        m = ms[0].copy()
        for x in ms[1:]:
            m = m | x
    if not isinstance(d, SArr):
        d = asarray(d)
    return SMa(d, m)


class _NoMask:
    """numpy.ma.nomask as given by .mask"""
    shape = ()
    size = 1
    ndim = 0
    shape_e = ()

    def any(self):
        return False

    def sum(self):
        return 0

    def all(self):
        return False

    def __bool__(self):
        return False

    def __invert__(self):
        return True

    def __repr__(self):
        return "False"

    def __getattr__(self, n):
        raise Unsupported(f"nomask attribute {n}")

    def copy(self):
        return self

    def astype(self, t):
        return 0 if dtype_of(t) != "b" else False


NoMask = _NoMask()


class MaybeMask:
    """A mask that numpy.ma shrinks to nomask when it flags nothing."""

    def __init__(self, arr):
        self.arr = arr

    def resolve(self):
        some = form(self.arr.any())
        if C.decide(some):
            return self.arr
        return NoMask

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.resolve(), n)

    def __invert__(self):
        return ~self.resolve()

    def __getitem__(self, k):
        return self.resolve()[k]

    def __setitem__(self, k, v):
        raise Unsupported("writing into a mask that may be nomask")

    def __bool__(self):
        return bool(self.resolve())

    def __len__(self):
        return len(self.resolve())


for _n in ("and", "or", "xor", "eq", "ne", "add", "mul", "sub"):
    for _p in ("__", "__r"):
        def _f(self, o, _n=f"{_p}{_n}__"):
            if isinstance(o, MaybeMask):
                o = o.resolve()
            f = getattr(self.resolve(), _n, None)
            if f is None:
                raise Unsupported(f"{_n} of a mask that may be nomask")
            return f(o)
        if _p == "__" or _n not in ("eq", "ne"):
            setattr(MaybeMask, f"{_p}{_n}__", _f)


def where(c, x, y, t=None):
    gc, _, sc, _ = getter_of(c)
    gx, nx, sx, tx = getter_of(x)
    gy, ny, sy, ty = getter_of(y)
    t = t or join(tx, ty)
    shape = broadcast([sc, sx, sy])

    def get(idx):
        k = boolean(gc(bidx(sc, idx)))
        u, v = gx(bidx(sx, idx)), gy(bidx(sy, idx))
        if t == "b":
            return BITE(k, boolean(u), boolean(v))
        return ite(k, num(u), num(v))
    nan = None
    if nx or ny:
        def nan(idx):
            k = boolean(gc(bidx(sc, idx)))
            return BITE(k, nx(bidx(sx, idx)) if nx else FALSE,
                        ny(bidx(sy, idx)) if ny else FALSE)
    return SArr.of(shape, get, t, nan).unwrap()

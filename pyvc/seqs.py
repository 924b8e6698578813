"""Lists, ranges and the other iterables of symbolic length."""
from .arrays import (SArr, SMa, asarray, dim, elementwise, getitem, norm_int,  # noqa
                     norm_slice, where, MaybeMask, NoMask)
from .core import (AND, B, BALL, BEX, C, Cell, E, EQ, FALSE, IFF, LE, LT, NOT,
                   ONE, OR, Poison, SBool, SNum, TRUE, Unsupported, ZERO, BITE,
                   bool_of, form, fresh, ite, join, kind_of, lift, mk, num_e,
                   raise_, subst, var)


def vsubst(v, mp):
    """A value with variables replaced (a snapshot for mutable ones)."""
    if v is None or isinstance(v, (bool, int, float, str, complex, bytes)):
        return v
    if isinstance(v, SNum):
        return mk(subst(v.e, mp), v.t)
    if isinstance(v, SBool):
        return bool_of(subst(v.b, mp))
    if isinstance(v, SArr):
        g, n = v.getter(), v.ngetter()
        r = SArr.of([subst(s, mp) for s in v.shape_e],
                    lambda idx: at_subst(g, idx, mp), v.dtype_,
                    (lambda idx: at_subst(n, idx, mp)) if n else None)
        return r
    if isinstance(v, SMa):
        return SMa(vsubst(v._data, mp), None if v._mask is None
                   else vsubst(v._mask, mp), v._fill)
    if isinstance(v, tuple):
        return tuple(vsubst(x, mp) for x in v)
    if isinstance(v, PList):
        return v.vsubst(mp)
    if hasattr(v, "_pv_subst"):
        return v._pv_subst(mp)
    if isinstance(v, (Poison,)) or v is NoMask:
        return v
    if isinstance(v, (list, dict, set)):
        return Poison("native container in a symbolic loop")
    return v      # an object that does not depend on symbols


def at_subst(g, idx, mp):
    ts = tuple(fresh("z") for _ in idx)
    return subst(subst(g(ts), mp), {t.single(): i for t, i in zip(ts, idx)})


INF = float("inf")


def vite(c, x, y):
    """x when c holds, else y (values of one kind)."""
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
        return bool_of(BITE(c, form(x), form(y)))
    num = (SNum, int, float)
    for v in (x, y):
        if type(v) is float and (v != v or v in (INF, -INF)):
            if type(x) is type(y) and (x == y or x != x and y != y):
                return x
            return Poison("a number that is finite on some paths only")
    if isinstance(x, num) and isinstance(y, num):
        return mk(ite(c, num_e(x), num_e(y)), join(kind_of(x), kind_of(y)))
    if isinstance(x, SArr) and isinstance(y, SArr) and \
            len(x.shape_e) == len(y.shape_e):
        if all(a == b for a, b in zip(x.shape_e, y.shape_e)):
            return where(SBool(c), x, y, join(x.dtype_, y.dtype_))
    if isinstance(x, SMa) and isinstance(y, SMa):
        m = None
        if x._mask is not None or y._mask is not None:
            m = vite(c, x.mask_e(), y.mask_e())
        return SMa(vite(c, x._data, y._data), m)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(vite(c, a, b) for a, b in zip(x, y))
    if isinstance(x, str) and x == y:
        return x
    if x is None and y is None:
        return None
    if hasattr(x, "_pv_ite"):
        return x._pv_ite(c, y)
    return Poison("a value that differs in kind between paths")


def freeze(r, before):
    """Writes into an array made on demand would be lost."""
    if isinstance(r, SMa):
        freeze(r._data, before)
        if r._mask is not None:
            freeze(r._mask, before)
    elif isinstance(r, SArr):
        if r.buf.serial > before:
            r.buf.frozen = True
    elif isinstance(r, tuple):
        for x in r:
            freeze(x, before)


class PList(Cell):
    """A list: either concrete items, or a length and an element function.

    guard: when set, the list holds the elements of base positions 0..n-1 for
    which guard(j) holds, in order (n is then the number of base positions).
    """
    _pv_seq = True

    def __init__(self, items=None, n=None, get=None, guard=None):
        super().__init__()
        self.items = list(items) if items is not None else None
        self.n, self.get, self.guard = n, get, guard
        self.tail = []     # appended after a symbolic part
        if items is None and n is None:
            self.items = []

    def snap(self):
        return (None if self.items is None else list(self.items), self.n,
                self.get, self.guard, list(self.tail))

    def restore(self, st):
        items, self.n, self.get, self.guard, tail = st
        self.items = None if items is None else list(items)
        self.tail = list(tail)

    def length(self):
        if self.items is not None:
            return lift(len(self.items))
        if self.guard is None:
            return self.n + len(self.tail)
        v = fresh("c")
        from .expr import mk_sum
        r = mk_sum(ZERO, self.n, v, ite(self.guard(v), ONE, ZERO))
        C.assume(LE(ZERO, r))
        return r + len(self.tail)

    def __len__(self):
        c = self.length().const()
        if c is None:
            raise Unsupported("len of a symbolic list")
        return int(c)

    def __bool__(self):
        return C.decide(LT(ZERO, self.length()))

    def elem(self, j):
        """Element at position j (a term within the bounds)."""
        if self.items is not None:
            return self.elem_(j)
        before = Cell.serial_now()
        r = self.elem_(j)
        freeze(r, before)
        return r

    def elem_(self, j):
        j = dim(j)
        if self.items is not None:
            c = j.const()
            if c is not None:
                return self.items[int(c)]
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                r = vite(EQ(j, lift(k)), self.items[k], r)
            return r
        if self.guard is not None:
            return self.get(self.nth(j))
        if self.tail:
            d = (j - self.n).const()
            if d is not None and d >= 0:
                return self.tail[int(d)]
            r = self.get(j)
            for k, t in enumerate(self.tail):
                r = vite(EQ(j, self.n + k), t, r)
            return r
        return self.get(j)

    def nth(self, j):
        """The base position of element j of a filtered list: it passes the
        filter."""
        from .expr import mk_op
        if self.tail:
            raise Unsupported("position in an extended filtered list")
        v = fresh("c")
        g = self.guard
        r = mk_op("nth", ((self.n,),), [v], ite(g(v), ONE, ZERO), (j,), "int",
                  linear=False)
        C.assume(OR(LT(j, ZERO), LE(self.length(), j), AND(
            LE(ZERO, r), LT(r, self.n), g(r))))
        return r

    def __getitem__(self, key):
        if isinstance(key, slice):
            if self.items is not None and all(
                    v is None or dim(v).const() is not None
                    for v in (key.start, key.stop, key.step)):
                f = [None if v is None else int(dim(v).const())
                     for v in (key.start, key.stop, key.step)]
                return PList(self.items[slice(*f)])
            lo, step, ln = norm_slice(key, self.length())
            return PList(n=ln, get=lambda j: self_elem(j * step + lo))
        n = self.length()
        c = dim(key).const()
        if self.items is not None and c is not None:
            try:
                return self.items[int(c)]
            except IndexError as e:
                raise_(e)
        if c is not None and c < 0 and -c <= len(self.tail):
            return self.tail[int(c)]
        return self.elem(norm_int(key, n))

    def __setitem__(self, key, v):
        c = dim(key).const()
        if self.items is not None and c is not None:
            self.touch()
            try:
                self.items[int(c)] = v
            except IndexError as e:
                raise_(e)
            return
        if self.items is None and self.guard is None:
            if c is not None and c < 0 and -c <= len(self.tail):
                self.touch()
                self.tail = list(self.tail)
                self.tail[int(c)] = v
                return
            n = self.length()
            k = norm_int(key, n)
            old = self.copy()
            self.touch()
            self.n, self.tail = n, []
            self.get = lambda j: vite(EQ(j, k), v, old.elem(j)) \
                if j != k else v
            return
        raise Unsupported("assignment into a symbolic list")

    def __iter__(self):
        if self.items is None:
            if self.length().const() is None:
                raise Unsupported("native iteration over a symbolic list")
            return iter([self.elem(lift(k)) for k in range(len(self))])
        return iter(list(self.items))

    def append(self, x):
        self.touch()
        if self.items is not None:
            self.items.append(x)
        else:
            self.tail.append(x)

    def extend(self, xs):
        for x in list(xs):
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        if self.items is not None and isinstance(o, (PList, list)):
            if isinstance(o, list) or o.items is not None:
                return PList(self.items + list(o))
        raise Unsupported("concatenation of symbolic lists")

    def __radd__(self, o):
        return PList(list(o)) + self

    def __mul__(self, k):
        if self.items is not None and isinstance(k, int):
            return PList(self.items * k)
        if self.items is not None and len(self.items) == 1:
            x = self.items[0]
            n = dim(k)
            C.assume(TRUE)
            return PList(n=fn_max0(n), get=lambda j: x)
        raise Unsupported("repetition of a symbolic list")

    __rmul__ = __mul__

    def reverse(self):
        self.touch()
        if self.items is not None:
            self.items.reverse()
            return
        n, get = self.length(), self.snapshot_elem()
        self.n, self.get, self.guard, self.tail = \
            n, (lambda j: get(n - 1 - j)), None, []

    def snapshot_elem(self):
        c = self.copy()
        return c.elem

    def copy(self):
        r = PList(self.items, self.n, self.get, self.guard)
        r.items = None if self.items is None else list(self.items)
        r.tail = list(self.tail)
        return r

    def pop(self, k=-1):
        self.touch()
        if self.items is not None and isinstance(k, int):
            return self.items.pop(k)
        raise Unsupported("pop of a symbolic list")

    def insert(self, k, x):
        self.touch()
        if self.items is not None and isinstance(k, int):
            return self.items.insert(k, x)
        raise Unsupported("insert into a symbolic list")

    def sort(self, **k):
        raise Unsupported("sort of a list")

    def bound(self, nm):
        """The largest / smallest number of a filtered list."""
        v = fresh("c")
        g, val = self.guard, num_e(self.get(v))
        t = kind_of(self.get(v))
        if not C.decide(LT(ZERO, self.length())):
            raise_(ValueError(f"{nm}() iterable argument is empty"))
        from .expr import mk_op
        r = mk_op(nm + "of", ((self.n,),), [v], ite(
            g(v), val, var("absent", "int" if t == "i" else "real")), (),
            "int" if t == "i" else "real", linear=False)
        C.assume(BEX(ZERO, self.n, v, AND(g(v), EQ(r, val))))
        C.assume(BALL(ZERO, self.n, v, OR(NOT(g(v)), LE(
            val, r) if nm == "max" else LE(r, val))))
        return mk(r, t)

    def index(self, x):
        raise Unsupported("index of a list")

    def __contains__(self, x):
        if self.items is not None:
            for y in self.items:
                if y is x or y == x:
                    return True
            return False
        raise Unsupported("membership in a symbolic list")

    def __eq__(self, o):
        if isinstance(o, (list, PList)):
            if self.items is not None and (isinstance(o, list)
                                           or o.items is not None):
                return list(self.items) == list(o)
            if self.items is None and isinstance(o, (list, PList)) and \
                    len(o) is not None:
                n = self.length()
                if n.const() is None and not C.decide(EQ(n, lift(len(o)))):
                    return False
                return all(self.elem(lift(k)) == y
                           for k, y in enumerate(list(o)))
        return False

    __hash__ = None

    def vsubst(self, mp):
        if self.items is not None:
            r = PList([vsubst(x, mp) for x in self.items])
            return r
        get, guard = self.get, self.guard
        r = PList(n=subst(self.n, mp), get=lambda j: sub_elem(get, j, mp),
                  guard=None if guard is None else
                  (lambda j: at_subst(lambda i: guard(i[0]), (j,), mp)))
        r.tail = [vsubst(x, mp) for x in self.tail]
        return r

    def __getattr__(self, n):
        if hasattr(list, n):
            raise Unsupported(f"list method {n}")
        raise AttributeError(n)

    def to_array(self):
        """np.array(list) for a symbolic list."""
        if self.tail:
            raise Unsupported("array of an extended list")
        j = fresh("j")
        v = self.get(j)
        if self.guard is not None:
            me = self.copy()
            return PList(n=self.length(), get=me.elem).to_array()
        if isinstance(v, tuple):
            parts = [x for x in v]
            if not all(isinstance(x, (SNum, int, float)) for x in parts):
                raise Unsupported("array of tuples")
            w = len(parts)
            get = self.get

            def at(idx):
                vals = [num_e(x) for x in get(idx[0])]
                r = vals[-1]
                for k in range(w - 2, -1, -1):
                    r = ite(EQ(idx[1], lift(k)), vals[k], r)
                return r
            return SArr.of((self.n, lift(w)), at, "f")
        if isinstance(v, (SNum, int, float)):
            get = self.get
            return SArr.of((self.n,), lambda i: num_e(get(i[0])), kind_of(v))
        if isinstance(v, (SBool, bool)):
            get = self.get
            return SArr.of((self.n,), lambda i: form(get(i[0])), "b")
        if isinstance(v, SArr):
            get = self.get
            return SArr.of((self.n,) + v.shape_e,
                           lambda i: get(i[0]).at(i[1:]), v.dtype_)
        raise Unsupported("array of a symbolic list")

    def __repr__(self):
        return f"PList({self.items if self.items is not None else self.n})"


def fn_max0(n):
    from .expr import fn
    if C.known(LE(ZERO, n)):
        return n
    return fn("max", n, ZERO)


def self_elem(*a):
    raise Unsupported("slice of a list")


def _slice_get(lst, lo, step):
    return lambda j: lst.elem(j * step + lo)


def _plist_getslice(self, key):
    lo, step, ln = norm_slice(key, self.length())
    src = self.copy()
    return PList(n=ln, get=_slice_get(src, lo, step))


_old_getitem = PList.__getitem__


def _getitem(self, key):
    if isinstance(key, slice):
        if self.items is not None and all(
                v is None or dim(v).const() is not None
                for v in (key.start, key.stop, key.step)):
            return _old_getitem(self, key)
        return _plist_getslice(self, key)
    return _old_getitem(self, key)


PList.__getitem__ = _getitem


def sub_elem(get, j, mp):
    t = fresh("z")
    v = vsubst(get(t), mp)
    return vsubst(v, {t.single(): dim(j)})


class SRange:
    _pv_seq = True

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = dim(lo), dim(hi), int(step)
        if self.step not in (1, -1):
            raise Unsupported("range step")

    def length(self):
        n = (self.hi - self.lo) * self.step
        if n.const() is not None:
            return lift(max(0, int(n.const())))
        if C.decide(LE(ZERO, n)):
            return n
        return ZERO

    def elem(self, j):
        return mk(self.lo + dim(j) * self.step, "i")

    def __iter__(self):
        n = self.length().const()
        if n is None:
            raise Unsupported("native iteration over a symbolic range")
        return iter([self.elem(lift(k)) for k in range(int(n))])

    def __len__(self):
        return int(self.length().const())


class SZip:
    _pv_seq = True

    def __init__(self, *its):
        self.its = [as_seq(i) for i in its]

    def length(self):
        ns = [i.length() for i in self.its]
        n = ns[0]
        for m in ns[1:]:
            if m == n:
                continue
            if C.decide(LE(m, n)):
                n = m
        return n

    def elem(self, j):
        return tuple(i.elem(j) for i in self.its)

    def __iter__(self):
        n = self.length().const()
        if n is None:
            raise Unsupported("native iteration over a symbolic zip")
        return iter([self.elem(lift(k)) for k in range(int(n))])


class SEnum:
    _pv_seq = True

    def __init__(self, it, start=0):
        self.it, self.start = as_seq(it), dim(start)
        self.guard = getattr(self.it, "guard", None)
        if self.guard is not None:
            raise Unsupported("enumerate of a filtered list")

    def length(self):
        return self.it.length()

    def elem(self, j):
        return (mk(self.start + dim(j), "i"), self.it.elem(j))

    def __iter__(self):
        n = self.length().const()
        if n is None:
            raise Unsupported("native iteration over a symbolic enumerate")
        return iter([self.elem(lift(k)) for k in range(int(n))])


class Native:
    """A native iterable of known items."""
    _pv_seq = True

    def __init__(self, items):
        self.items = items

    def length(self):
        return lift(len(self.items))

    def elem(self, j):
        c = dim(j).const()
        if c is not None:
            return self.items[int(c)]
        r = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1):
            r = vite(EQ(dim(j), lift(k)), self.items[k], r)
        return r

    def __iter__(self):
        return iter(self.items)


class ArrSeq:
    """Iteration over the first dimension of an array."""
    _pv_seq = True

    def __init__(self, a):
        self.a = a

    def length(self):
        return self.a.shape_e[0]

    def elem(self, j):
        return self.a[mk(dim(j), "i")]

    def __iter__(self):
        return iter(self.a)


class Rev:
    _pv_seq = True

    def __init__(self, s):
        self.s = s

    def length(self):
        return self.s.length()

    def elem(self, j):
        return self.s.elem(self.s.length() - 1 - dim(j))

    def __iter__(self):
        n = self.length().const()
        if n is None:
            raise Unsupported("native iteration over a symbolic reversal")
        return iter([self.elem(lift(k)) for k in range(int(n))])


def as_seq(it):
    if isinstance(it, (SArr, SMa)):
        return ArrSeq(it)
    if getattr(type(it), "_pv_seq", False):
        if hasattr(it, "length"):
            return it
        return Native(list(it))
    if hasattr(it, "_pv_elems"):
        return it._pv_elems()
    if isinstance(it, (list, tuple, str, range, set, frozenset, dict)):
        return Native(list(it))
    if hasattr(it, "__next__") or hasattr(it, "__iter__"):
        return Native(list(it))
    raise_(TypeError(f"'{type(it).__name__}' object is not iterable"))

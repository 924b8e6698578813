"""Symbolic values and the path explorer.

The functions of the repository run natively in CPython (after the mechanical
rewriting of instrument.py) on these values; every `if` on a symbolic condition
forks a path, loops over symbolic ranges are summarised by loops.py.
"""
import itertools
import time

from . import expr
from . import prove as P
from .expr import (AND, B, BALL, BAPP, BEX, E, EQ, FALSE, IFF, IMAG, LE, LT,  # noqa
                   NOT, ONE, OR, TRUE, ZERO, Atom, BITE, Unsupported, app,
                   atom_e, conj, fn, fresh, im, ite, lift, mk_op, mk_sum, re,
                   sqrt, subst, var)


class Infeasible(BaseException):
    """The current path cannot happen."""


class Frame:
    def __init__(self, trace):
        self.trace = list(trace)
        self.pos = 0
        self.alts = []
        self.decided = []


def propositional(f, pc):
    """The truth of f by the formulas of pc alone, or None."""
    if f in pc:
        return True
    if NOT(f) in pc:
        return False
    if f.kind in ("and", "or"):
        vs = [propositional(x, pc) for x in f.args]
        if f.kind == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if f.kind == "not":
        v = propositional(f.args[0], pc)
        return None if v is None else not v
    return TRUE is f if f in (TRUE, FALSE) else None


_HEAVY = {}


def heavy(f):
    """Does f speak of Fourier transforms?  (A path condition about them is
    taken as it comes: exploring a path that does not exist is harmless.)"""
    if f.uid not in _HEAVY:
        _HEAVY[f.uid] = (f, any(
            a.kind == "phase" or a.kind == "op" and a.args[0] in (
                "fft", "ifft", "roll") for a in expr.flat_atoms(f)))
    return _HEAVY[f.uid][1]


def feasible(pc, f):
    if heavy(f):
        return P.solve([g for g in pc if not heavy(g)], [f], 60)[0] != "unsat"
    return P.solve([g for g in pc if not heavy(g)], [f], 1500)[0] != "unsat"


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pc = []
        self.frames = []
        self.journals = []
        self.serial = itertools.count(1)
        self.deadline = None
        self.facts = []
        self.oblig = []
        self.paths = 0

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit of the symbolic execution")

    def assume(self, f):
        """A fact about what was just created (an assumed contract)."""
        if f is TRUE or f in self.pc:
            return
        self.pc.append(f)
        for j in self.journals:
            j.facts.append(f)

    def known(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if f in self.pc:
            return True
        if not heavy(f) and not feasible(self.pc, NOT(f)):
            return True
        return P.entails(self.pc, f) if heavy(f) or not any(
            heavy(g) for g in self.pc) else False

    def decide(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        self.tick()
        if f in self.pc:
            return True
        nf = NOT(f)
        if nf in self.pc:
            return False
        v = propositional(f, self.pc)
        if v is not None:
            return v
        can_t = feasible(self.pc, f)
        can_f = feasible(self.pc, nf)
        if not can_t and not can_f:
            raise Infeasible
        if not can_f:
            return True
        if not can_t:
            return False
        if not self.frames:
            raise Unsupported("undecided condition outside of a path")
        fr = self.frames[-1]
        if fr.pos < len(fr.trace):
            v = fr.trace[fr.pos]
        else:
            v = True
            fr.alts.append(fr.trace[:fr.pos] + [False])
            fr.trace.append(True)
        fr.pos += 1
        g = f if v else nf
        fr.decided.append(g)
        self.pc.append(g)
        return v


C = Ctx()


def explore(body, limit=400):
    """Run body() along every path; returns the number of paths."""
    todo = [[]]
    n = 0
    base = len(C.pc)
    first = expr._fresh[0]
    while todo:
        tr = todo.pop()
        if not C.frames:
            # nothing is shared by the outermost paths: they may use the same
            # names, which makes their common prefix the same terms
            expr._fresh[0] = first
        n += 1
        C.paths += 1
        if n > limit:
            raise Unsupported(f"more than {limit} paths")
        fr = Frame(tr)
        C.frames.append(fr)
        jn = list(C.journals)
        try:
            body()
        except Infeasible:
            pass
        finally:
            C.frames.pop()
            C.journals[:] = jn
            del C.pc[base:]
        todo += fr.alts
    return n


# ------------------------------------------------------------------ scalars
def num_e(x):
    """The term of a number."""
    if isinstance(x, SNum):
        return x.e
    if isinstance(x, SBool):
        return ite(x.b, ONE, ZERO)
    if isinstance(x, SArr) and len(x.shape_e) == 0:
        v = x.at(())
        return ite(v, ONE, ZERO) if isinstance(v, B) else v
    if isinstance(x, E):
        return x
    return lift(x)


def kind_of(x):
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, (bool, SBool)):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, complex):
        return "c"
    if isinstance(x, SArr):
        return x.dtype
    if isinstance(x, float):
        return "f"
    import numpy as _np

    if isinstance(x, _np.bool_):
        return "b"
    if isinstance(x, _np.integer):
        return "i"
    if isinstance(x, _np.floating):
        return "f"
    if isinstance(x, _np.complexfloating):
        return "c"
    if isinstance(x, E):
        return "i" if x.is_int() else "f" if x.is_real() else "c"
    raise Unsupported(f"number of type {type(x).__name__}")


RANK = {"b": 0, "i": 1, "f4": 2, "f": 3, "c": 4}


def join(a, b):
    return a if RANK[a] >= RANK[b] else b


def mk(e, t):
    c = e.const()
    if c is not None and t == "i" and c.denominator == 1:
        return int(c)
    return SNum(e, t)


CUT = None          # hook that replaces an operand by a proved equal one
SINGLE = False      # conversions to single precision are a named function
ROUNDING = False       # model float arithmetic with rounding (C06)


def flop(op, a, b):
    """A rounded floating-point operation: a monotone function of both."""
    ca, cb = a.const(), b.const()
    # rounding is monotone and keeps what is representable
    def imp(c, g):
        C.assume(OR(NOT(c), g))
    if op == "add":
        if ca == 0:
            return b
        if cb == 0:
            return a
        r = app("fl_add", (a, b), "real")
        imp(LE(ZERO, b), LE(a, r))
        imp(LE(ZERO, a), LE(b, r))
        imp(LE(b, ZERO), LE(r, a))
        return r
    if op == "sub":
        if cb == 0:
            return a
        r = app("fl_sub", (a, b), "real")
        imp(LE(ZERO, b), LE(r, a))
        imp(LE(b, ZERO), LE(a, r))
        imp(LE(b, a), LE(ZERO, r))
        return r
    if op == "mul":
        if ca == 1:
            return b
        if cb == 1:
            return a
        r = app("fl_mul", (a, b), "real")
        imp(AND(LE(ZERO, a), LE(ZERO, b)), LE(ZERO, r))
        return r
    if cb == 1:
        return a
    r = app("fl_div", (a, b), "real")
    imp(AND(LE(ZERO, a), LT(ZERO, b)), LE(ZERO, r))
    imp(AND(LE(a, b), LT(ZERO, b)), LE(r, ONE))
    imp(AND(LE(b, a), LT(ZERO, b)), LE(ONE, r))
    return r


class SNum:
    __slots__ = ("e", "t")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, e, t=None):
        self.e = e
        self.t = t or ("i" if e.is_int() else "f" if e.is_real() else "c")

    def __repr__(self):
        return f"SNum({self.e!r})"

    def _num(self, o):
        return isinstance(o, (SNum, SBool, int, float, complex)) or \
            type(o).__module__ == "numpy" and getattr(o, "shape", None) == ()

    def _bin(self, o, op, swap=False):
        if isinstance(o, (SArr,)) or hasattr(o, "_pv_binop"):
            return NotImplemented
        if not self._num(o):
            return NotImplemented
        a, b = self.e, num_e(o)
        t = join(self.t if self.t != "b" else "i",
                 kind_of(o) if kind_of(o) != "b" else "i")
        if swap:
            a, b = b, a
        if ROUNDING and (t == "f" or op == "div"):
            return SNum(flop(op, a, b), "f")
        if op == "add":
            return mk(a + b, t)
        if op == "sub":
            return mk(a - b, t)
        if op == "mul":
            return mk(a * b, t)
        if op == "div":
            if b.const() == 0:
                raise ZeroDivisionError("division by zero")
            return mk(a / b, "c" if t == "c" else "f")
        if op == "floordiv":
            if b.const() == 0:
                raise ZeroDivisionError("division by zero")
            return mk(int_floor(a, b) if t == "i" else fn("floor", a / b), t)
        if op == "mod":
            return mk(a - b * fn("floor", a / b), t)
        raise Unsupported(op)

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)) or type(o).__name__ == "PList":
            return NotImplemented
        return self._bin(o, "mul")

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple)):
            raise Unsupported("sequence repetition")
        return self._bin(o, "mul", True)

    def __truediv__(self, o):
        return self._bin(o, "div")

    def __rtruediv__(self, o):
        return self._bin(o, "div", True)

    def __floordiv__(self, o):
        return self._bin(o, "floordiv")

    def __rfloordiv__(self, o):
        return self._bin(o, "floordiv", True)

    def __mod__(self, o):
        return self._bin(o, "mod")

    def __rmod__(self, o):
        return self._bin(o, "mod", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        c = num_e(o).const()
        if c is None:
            return power(self, o)
        if ROUNDING:
            raise Unsupported("rounded power")
        t = self.t
        if t == "i" and (c < 0 or c.denominator != 1):
            t = "f"
        if c.denominator not in (1, 2):
            return power(self, o)
        return mk(self.e ** c, t)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return mk(-self.e, self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(fn("abs", self.e), "f" if self.t == "c" else self.t)

    def __lt__(self, o):
        return cmp(self, o, "lt")

    def __le__(self, o):
        return cmp(self, o, "le")

    def __gt__(self, o):
        return cmp(o, self, "lt", self)

    def __ge__(self, o):
        return cmp(o, self, "le", self)

    def __eq__(self, o):
        return cmp(self, o, "eq")

    def __ne__(self, o):
        return cmp(self, o, "ne")

    __hash__ = None

    def __bool__(self):
        return C.decide(NOT(EQ(self.e, ZERO)))

    def __index__(self):
        c = self.e.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("symbolic integer given to native code")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = self.e.const()
        if c is not None:
            return float(c)
        raise Unsupported("symbolic number given to native code")

    def __format__(self, spec):
        return text_of(self, spec)

    __str__ = lambda self: text_of(self, "")  # noqa: E731

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round to digits")
        return mk(fn("round", self.e), "i")

    @property
    def real(self):
        return SNum(re(self.e), "f")

    @property
    def imag(self):
        return SNum(im(self.e), "f")

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def conjugate(self):
        return SNum(conj(self.e), self.t)

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        from .arrays import dtype_of
        return cast_num(self, dtype_of(t))

    def is_integer(self):
        return SBool(EQ(self.e, fn("floor", self.e)))

    def any(self):
        return self != 0

    def all(self):
        return self != 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, n):
        import numpy as _np

        if n.startswith("__") or n.startswith("_pv") or not (
                hasattr(_np.float64, n) or hasattr(_np.int64, n)):
            raise AttributeError(n)
        raise Unsupported(f"number attribute {n}")


TEXTS = None           # list of the numbers that were formatted (C18)


def text_of(x, spec):
    """A number inside of a text: a placeholder that stands for its digits."""
    if TEXTS is None:
        return "<number>"
    if x.t != "i" or spec not in ("", "d", "x", "X", "o", "b"):
        raise Unsupported(f"format {spec!r} of a symbolic number")
    TEXTS.append((x.e, spec or "d"))
    return f"\ue000{len(TEXTS) - 1}\ue001"


def cast_num(x, t):
    e = num_e(x)
    if t == "i":
        return mk(fn("trunc", e), "i")
    if t == "b":
        return SBool(NOT(EQ(e, ZERO)))
    return SNum(e, t)


def int_floor(a, b):
    return fn("floor", a / b)


def power(a, b):
    ea, eb = num_e(a), num_e(b)
    return SNum(app("pow", (ea, eb), "real"), "f")


def cmp(a, b, op, me=None):
    me = a if me is None else me
    o = b if me is a else a
    if isinstance(o, SArr) or hasattr(o, "_pv_binop"):
        return NotImplemented
    if not (isinstance(o, (SNum, SBool, int, float, complex)) or
            type(o).__module__ == "numpy" and getattr(o, "shape", 1) == ()):
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    if isinstance(o, float) and o in (float("inf"), float("-inf")):
        pos = o > 0
        if op == "eq":
            return False
        if op == "ne":
            return True
        # me op inf
        if me is a:
            return pos
        return not pos
    x, y = num_e(a), num_e(b)
    f = {"lt": LT, "le": LE, "eq": EQ}.get(op)
    r = NOT(EQ(x, y)) if op == "ne" else f(x, y)
    return bool_of(r)


def bool_of(b):
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    return SBool(b)


def form(x):
    """The formula of a truth value."""
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, B):
        return x
    if isinstance(x, SNum):
        return NOT(EQ(x.e, ZERO))
    if isinstance(x, SArr):
        if len(x.shape_e) == 0:
            v = x.at(())
            return v if isinstance(v, B) else NOT(EQ(v, ZERO))
        raise ValueError("The truth value of an array is ambiguous")
    return TRUE if x else FALSE


class SBool:
    __slots__ = ("b",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return C.decide(self.b)

    def __repr__(self):
        return f"SBool({self.b!r})"

    def _ok(self, o):
        return isinstance(o, (SBool, bool)) or type(o).__name__ in (
            "bool_", "bool")

    def __and__(self, o):
        return bool_of(AND(self.b, form(o))) if self._ok(o) else \
            NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return bool_of(OR(self.b, form(o))) if self._ok(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return bool_of(NOT(IFF(self.b, form(o)))) if self._ok(o) else \
            NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return bool_of(NOT(self.b))

    def __eq__(self, o):
        if self._ok(o):
            return bool_of(IFF(self.b, form(o)))
        return cmp(SNum(num_e(self)), o, "eq")

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    __hash__ = None

    def _n(self):
        return SNum(num_e(self), "i")

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._n() < o

    def __gt__(self, o):
        return self._n() > o

    def __le__(self, o):
        return self._n() <= o

    def __ge__(self, o):
        return self._n() >= o

    @property
    def shape(self):
        return ()

    def any(self):
        return self

    all = any

    def sum(self):
        return self._n()

    def astype(self, t):
        from .arrays import dtype_of
        return cast_num(self, dtype_of(t))


# -------------------------------------------------------------------- heap
class Journal:
    """Mutations since a point of the execution, with undo."""

    def __init__(self):
        self.start = next(C.serial)
        self.old = {}      # key -> (object, state)
        self.facts = []

    def touch(self, obj):
        if obj.serial > self.start or obj.key() in self.old:
            return
        self.old[obj.key()] = (obj, obj.snap())

    def touch_attr(self, obj, name):
        d = obj.__dict__
        if d.get("_pv_serial", 0) > self.start:
            return
        k = ("attr", id(obj), name)
        if k not in self.old:
            self.old[k] = (AttrCell(obj, name), d.get(name, MISSING))

    def undo(self):
        for obj, st in self.old.values():
            obj.restore(st)


class _Missing:
    def __repr__(self):
        return "MISSING"

    def __deepcopy__(self, memo):
        return self


MISSING = _Missing()


class AttrCell:
    """An attribute of an instance of one of the repository's classes."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def key(self):
        return ("attr", id(self.obj), self.name)

    def snap(self):
        return self.obj.__dict__.get(self.name, MISSING)

    def restore(self, st):
        if st is MISSING:
            self.obj.__dict__.pop(self.name, None)
        else:
            self.obj.__dict__[self.name] = st


class Cell:
    """Base of the mutable symbolic objects."""

    def __init__(self):
        self.serial = next(C.serial)

    @staticmethod
    def serial_now():
        return next(C.serial)

    def key(self):
        return ("cell", id(self))

    def touch(self):
        for j in C.journals:
            j.touch(self)


def touch_attr(obj, name):
    for j in C.journals:
        j.touch_attr(obj, name)


class Poison:
    """A value the verifier lost track of; any use stops the proof."""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "_why"))

    def __getattr__(self, n):
        raise Unsupported(object.__getattribute__(self, "_why"))

    __call__ = __iter__ = __len__ = __bool__ = __getitem__ = __setitem__ = \
        __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = \
        __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = \
        __eq__ = __ne__ = __index__ = __int__ = __float__ = __and__ = \
        __or__ = __contains__ = __neg__ = __invert__ = __pow__ = _no
    __hash__ = object.__hash__


class PyRaise:
    """Marks the exceptions a shim raises on behalf of the library."""


def raise_(exc):
    exc._pv = True
    raise exc


from .arrays import SArr  # noqa: E402

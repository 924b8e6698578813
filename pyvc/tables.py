"""Contract of sep.extract: a table of sources."""
from . import shims
from .arrays import SArr, SMa, asarray, boolean
from .core import (AND, BAPP, C, EQ, LE, LT, ONE, TRUE, Unsupported, ZERO, app,
                   fresh, ite, lift, mk, mk_sum, num_e)
from .shims import LIBS, raise_, uses

INTS = ("npix", "flag", "tnpix", "xmin", "xmax", "ymin", "ymax")


class Choice:
    """np.random.choice(n, k, replace=False)"""

    def __init__(self, n, k):
        self.n, self.k = n, k

    def _pv_len(self):
        return mk(self.k, "i")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"random choice: {nm}")


def choice(a, size=None, replace=True, p=None):
    """size distinct numbers below a; an error when there are not enough"""
    uses("numpy.random.choice", choice.__doc__)
    if p is not None or replace is not False or size is None or \
            isinstance(a, SArr):
        raise Unsupported("choice arguments")
    n, k = num_e(a), num_e(size)
    if not C.decide(LE(k, n)):
        raise_(ValueError("Cannot take a larger sample than population"))
    return Choice(n, k)


class Table:
    """Rows of an extraction: sel(i) tells which are kept (None: all), pick
    which of those were drawn."""

    def __init__(self, base, rows, n, sel=None, pick=None):
        self.base, self.rows, self.n = base, rows, n
        self.sel, self.pick = sel, pick

    def _pv_len(self):
        return mk(self.n, "i")

    @property
    def size(self):
        return mk(self.n, "i")

    @property
    def shape(self):
        return (mk(self.n, "i"),)

    def copy(self):
        return self

    def __getitem__(self, k):
        if isinstance(k, str):
            if self.sel is not None or self.pick is not None:
                raise Unsupported("column of selected rows")
            t = "i" if k in INTS else "f"
            return SArr.of((self.n,), lambda i: app(
                f"{k}{self.base}", tuple(i), "int" if t == "i" else "real"),
                t)
        if isinstance(k, Choice):
            if self.pick is not None or not C.decide(LE(k.n, self.n)):
                raise Unsupported("choice of rows")
            return Table(self.base, self.rows, k.k, self.sel, k)
        if isinstance(k, SArr) and k.dtype_ == "b" and len(k.shape_e) == 1:
            if self.sel is not None or self.pick is not None:
                raise Unsupported("selection of selected rows")
            if not C.decide(EQ(k.shape_e[0], self.n)):
                raise_(IndexError("boolean index did not match"))
            g = k.getter()
            cnt = count(lambda i: boolean(g((i,))), self.n)
            return Table(self.base, self.rows, cnt,
                         lambda i: boolean(g((i,))))
        if isinstance(k, slice):
            raise Unsupported("slice of a table")
        raise Unsupported("row of a table")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"table.{nm}")


def count(f, n):
    v = fresh("c")
    c = mk_sum(ZERO, n, v, ite(f(v), ONE, ZERO))
    C.assume(LE(ZERO, c))
    C.assume(LE(c, n))
    return c


class Extractor:
    """sep.extract with a log of its calls."""

    def __init__(self):
        self.calls = []

    def __call__(self, data, thresh, err=None, var=None, gain=None, mask=None,
                 maskthresh=0.0, minarea=5, **k):
        """either an error, or a table with the columns of its sources"""
        uses("sep.extract", Extractor.__call__.__doc__)
        if k or err is not None or var is not None or gain is not None:
            raise Unsupported("extract arguments")
        j = len(self.calls)
        c = {"data": asarray(data) if not isinstance(data, SMa) else data,
             "mask": mask, "thresh": num_e(thresh),
             "minarea": num_e(minarea), "fails": False, "table": None}
        self.calls.append(c)
        if C.decide(BAPP(f"extraction {j} fails")):
            c["fails"] = True
            raise_(Exception("internal pixel buffer full"))
        n = fresh("rows")
        C.assume(LE(ZERO, n))
        c["table"] = Table(j, n, n)
        return c["table"]

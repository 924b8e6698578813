"""Harness of C07 and C08: a SingleImage is built from every kind of input by
the real constructor; the background and the stamp shape are stubbed (they are
given values and change neither the pixels nor the mask nor the gain)."""
from pyvc import core, fits
from pyvc.arrays import SArr, SMa
from pyvc.core import (AND, BAPP, C, E, EQ, LE, LT, NOT, SBool, SNum,
                       Unsupported, ZERO, app, fresh, lift, num_e, var)
from pyvc.instrument import genuine
from .c18 import shims

PATH = "image.fits"
MASKPATH = "mask.fits"


class Cards:
    """A FITS header with cards that may be absent."""

    def __init__(self, cards):
        self.cards = cards        # name -> (present formula, value)

    def __contains__(self, k):
        c = self.cards.get(str(k).upper())
        return c is not None and C.decide(c[0])

    def __getitem__(self, k):
        if k not in self:
            shims.raise_(KeyError(f"Keyword {k!r} not found."))
        return self.cards[str(k).upper()][1]

    def get(self, k, default=None):
        return self[k] if k in self else default

    def keys(self):
        return self

    def __getattr__(self, n):
        if n.startswith("_pv") or n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"header.{n}")


def stubbed(cls, names):
    d = {}
    for n in names:
        if not isinstance(getattr(cls, n, None), property):
            raise Unsupported(f"{n} is not a property")
        d[n] = property(lambda self, n=n: self.__dict__.get("pv_" + n),
                        lambda self, v, n=n: self.__dict__.__setitem__(
                            "pv_" + n, v))
    return type(cls.__name__, (cls,), d)


def hdu(cls, data, cards):
    h = cls(data)
    h.__dict__["header"] = Cards(cards)
    return h


def pixels(kind, n, name="pix"):
    s = {"i": "int", "b": "bool"}.get(kind, "real")
    nan = (lambda i: BAPP("nan", *i)) if kind in ("f", "f4") else None
    return SArr.of(n, lambda i: app(name, tuple(i), s), kind, nan)


def size(nm="n"):
    n = tuple(fresh(nm) for _ in range(2))
    for v in n:
        C.assume(LT(ZERO, v))
    return n


def inside(t, n):
    return [f for x, s in zip(t, n) for f in (LE(ZERO, x), LT(x, lift(s)))]


def build(si, cls, args, R, F, what):
    """The image, or None after an exception."""
    shims.IDS.clear()
    try:
        return cls(**args)
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(F, "no exception", f"{what}: {type(e).__name__}: {e}")
        return None

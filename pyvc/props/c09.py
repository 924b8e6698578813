"""C09: cleaning replaces flagged pixels only, and all of them."""
from pyvc import core, loops, shims
from pyvc.arrays import SArr, SMa, asarray
from pyvc.core import (AND, BAPP, BALL, C, EQ, IFF, LE, LT, NOT, OR, Unsupported,
                       ZERO, app, fresh)
from pyvc.expr import TRUE
from pyvc.instrument import genuine
from pyvc.shims import LIBS, SNum
from .image import inside, size, stubbed

F = "SingleImage.interped"
FB = "SingleImage.bkg_sub_img"
FH = "SingleImage.interped_hat"


class Background:
    """Any background of the shape of the image."""

    def __init__(self, a, **k):
        self.shape_e = a.shape_e

    def back(self, dtype=None):
        return SArr.of(self.shape_e, lambda i: app("back", tuple(i), "real"),
                       "f")

    @property
    def globalrms(self):
        return SNum(app("rms", (), "real"), "f")

    @property
    def globalback(self):
        return SNum(app("globalback", (), "real"), "f")

    def _pv_array(self):
        return self.back()

    def __array__(self, *a, **k):
        raise Unsupported("array of a background")


def interpolated_value(x0, x, i):
    """Where it was NaN at first, a pixel is NaN or interpolated."""
    return OR(NOT(x0.nan_at(i)), x.nan_at(i), BAPP("interpolated", x.at(i)))


def contracts(R):
    R.function(FB, "ensures the data minus the background and the mask of "
               "the data, and leaves the data as they are")
    R.function(F, "ensures an image of the same size without NaN, equal to "
               "the background-subtracted data where they are not masked, "
               "not NaN and no cosmic ray, and an interpolated value "
               "elsewhere; the pixels interpolated from hold no flagged one; "
               "data and mask are left as they are; computed once")
    R.function(FH, "ensures the transform of the cleaned image")
    R.assume_text("the cleaning loop ends (partial correctness); the "
                  "detection of cosmic rays and the background are any")
    W = R.world()
    si = W.module("single_image")
    cls = with_mask(stubbed(si.SingleImage, ("data",)))
    real = LIBS["sep"].Background
    LIBS["sep"].Background = Background
    loops.ARRAY_INV.append(interpolated_value)
    shims.LEMMAS["interpolated"] = [interp_lemma]
    try:
        for masked in (True, False):
            R.run(lambda: clean(R, cls, masked))
        hat = with_mask(stubbed(si.SingleImage, ("data", "interped")))
        R.run(lambda: transform(R, hat))
    finally:
        LIBS["sep"].Background = real
        loops.ARRAY_INV.remove(interpolated_value)
        shims.LEMMAS.pop("interpolated")


def with_mask(cls):
    if not isinstance(getattr(cls, "mask", None), property):
        raise Unsupported("mask is not a property")
    return type(cls.__name__, (cls,), {"mask": property(
        lambda self: self.data.mask)})


def interp_lemma(a, e):
    """What the interpolation returns for a NaN pixel is interpolated."""
    t = tuple(fresh("t") for _ in a.shape_e)
    f = BAPP("interpolated", e(t))
    for v, s in reversed(list(zip(t, a.shape_e))):
        f = BALL(ZERO, s, v, f)
    C.assume(f)


def image(n, masked):
    pix = SArr.of(n, lambda i: app("pix", tuple(i), "real"), "f4",
                  lambda i: BAPP("nan", *i))
    msk = SArr.of(n, lambda i: BAPP("msk", *i), "b") if masked else None
    return SMa(pix, msk)


def clean(R, cls, masked):
    n = size()
    o = object.__new__(cls)
    o.__dict__["pv_data"] = image(n, masked)
    o.__dict__["pv_masked"] = masked
    t = (fresh("t"), fresh("t"))
    rng = inside(t, n)
    pix, nan = app("pix", t, "real"), BAPP("nan", *t)
    msk = BAPP("msk", *t) if masked else core.FALSE
    want = pix - app("back", t, "real")
    seen = []
    crs = shims.COSMICS
    del crs[:]

    def given(a):
        """What the first interpolation is given."""
        if not seen:
            fl = OR(msk, nan, *[c.at(t) for c in crs])
            R.prove(F, "the interpolation is given the flagged pixels as NaN",
                    IFF(a.nan_at(t), fl), rng)
            R.prove(F, "the interpolation is given the values of the others",
                    OR(fl, EQ(a.at(t), want)), rng)
        seen.append(a)
    shims.INTERPOLATED[:] = [given]
    try:
        o._bkg = None
        sub = o.bkg_sub_img
        sd, sm = sub._data, sub._mask
        R.prove(FB, "the data minus the background", OR(nan, AND(
            EQ(sd.at(t), want), NOT(sd.nan_at(t)))), rng)
        R.prove(FB, "NaN stays NaN", OR(NOT(nan), sd.nan_at(t)), rng)
        R.prove(FB, "the mask is that of the data", IFF(
            core.FALSE if sm is None else sm.at(t), msk), rng)
        untouched(R, FB, o, t, rng)
        r = o.interped
        again = o.interped
    except Exception as e:
        if not genuine(e):
            raise
        if isinstance(e, AttributeError) and "'_" in str(e):
            raise Unsupported(f"{e}") from e
        R.fail(F, "no exception", f"{type(e).__name__}: {e}")
        return
    finally:
        shims.INTERPOLATED[:] = []
    R.cover("a cleaned image")
    if isinstance(r, SMa):
        if r._mask is not None:
            R.prove(F, "nothing is masked", NOT(r._mask.at(t)), rng)
        r = r._data
    r = asarray(r)
    if len(r.shape_e) != 2:
        R.fail(F, "the shape of the image", "")
        return
    R.prove(F, "the shape of the image", AND(*[EQ(a, b) for a, b in zip(
        r.shape_e, n)]))
    flagged = OR(msk, nan, *[c.at(t) for c in crs])
    R.prove(F, "no NaN is left", NOT(r.nan_at(t)), rng)
    R.prove(F, "a pixel without a flag keeps its value",
            OR(flagged, EQ(r.at(t), want)), rng)
    R.prove(F, "a flagged pixel holds an interpolated value",
            OR(NOT(flagged), BAPP("interpolated", r.at(t))), rng, soft=True)
    if not seen:
        R.add(F, "the interpolation is given the flagged pixels as NaN",
              "unknown", "", "no interpolation was called")
    R.prove(F, "a second access gives the same", TRUE if again is r or
            asarray(again) is r else EQ(asarray(again).at(t), r.at(t)), rng,
            soft=True)
    untouched(R, F, o, t, rng)


def untouched(R, fn, o, t, rng):
    d = o.__dict__["pv_data"]
    R.prove(fn, "the data are left as they are", AND(
        EQ(d._data.at(t), app("pix", t, "real")), IFF(
            d._data.nan_at(t), BAPP("nan", *t)), IFF(
                core.FALSE if d._mask is None else d._mask.at(t),
                BAPP("msk", *t) if o.pv_masked else core.FALSE)), rng)


def transform(R, cls):
    n = size()
    o = object.__new__(cls)
    o.__dict__["pv_data"] = image(n, True)
    a = SArr.of(n, lambda i: app("clean", tuple(i), "real"), "f")
    o.__dict__["pv_interped"] = a
    try:
        r = o.interped_hat
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(FH, "no exception", f"{type(e).__name__}: {e}")
        return
    want = LIBS["numpy"].fft.fft2(a, norm="ortho")
    t = (fresh("t"), fresh("t"))
    if len(r.shape_e) != 2:
        R.fail(FH, "the shape of the image", "")
        return
    R.prove(FH, "the transform of the cleaned image", EQ(r.at(t), want.at(t)),
            inside(t, n))
    R.prove(FH, "the cleaned image is left as it is", EQ(a.at(t), app(
        "clean", t, "real")), inside(t, n))

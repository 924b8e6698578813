"""C08: pixel data are the trimmed input times the gain."""
from pyvc import core, fits
from pyvc.arrays import SArr, SMa
from pyvc.core import (AND, BALL, BAPP, BEX, C, EQ, IFF, LE, LT, NOT, ONE, OR,
                       SBool, SNum, TRUE, Unsupported, ZERO, app, fresh, ite,
                       lift, num_e, var)
from pyvc.shims import FlatNZ
from .image import (MASKPATH, PATH, build, hdu, inside, pixels, size, stubbed)

F = "SingleImage.data"
FM = "SingleImage.mask"


def contracts(R):
    R.function(F, "requires an array (any real type), a masked array, a FITS "
               "HDU, an HDU list or a file, a gain or none, borders or not, "
               "four margins that leave a pixel; ensures the pixels are the "
               "input in single precision within the frame, times the gain; "
               "the frame is the smallest rectangle with all non-zero pixels "
               "(on request), less the margins; the input is not changed")
    R.function("SingleImage.gain", "the given one, else the GAIN card, else 1")
    R.function("SingleImage.header", "the header of the primary HDU, else "
               "empty")
    R.function("SingleImage.attached_to", "does not touch the pixels")
    R.function(FM, "ensures the pixel values are not changed")
    R.assume_text("the conversion to single precision is a function of the "
                  "value; the product with the gain is exact; the background "
                  "and stamp shape setters leave the pixels alone (checked at "
                  "run time)")
    W = R.world()
    si = W.module("single_image")
    cls = stubbed(si.SingleImage, ("_bkg", "stamp_shape", "mask"))
    core.SINGLE = True
    try:
        for what, kind in (("ndarray", "f"), ("ndarray", "f4"),
                           ("ndarray", "i"), ("masked", "f"),
                           ("PrimaryHDU", "f"), ("PrimaryHDU", "i"),
                           ("HDUList", "f"), ("file", "f"), ("file", "i")):
            for gain in (False, True):
                for borders in (False, True):
                    for crop in (False, True):
                        R.run(lambda: one(R, si, cls, what, kind, gain,
                                          borders, crop))
    finally:
        core.SINGLE = False
    # the mask setter leaves the pixels alone, whatever mask is given
    from . import c07
    c07.contracts(R, pixels_only=True)


def one(R, si, cls, what, kind, gain, borders, crop):
    n = size()
    a = pixels(kind, n)
    before = pixels(kind, n)
    cards = {"GAIN": (BAPP("has GAIN"), SNum(var("GAIN", "real"), "f"))}
    flag = None
    fits.FILES.there, fits.FILES.unknown = {}, {}
    if what == "ndarray":
        img = a
    elif what == "masked":
        flag = SArr.of(n, lambda i: BAPP("flag", *i), "b")
        img = SMa(a, flag)
    elif what == "PrimaryHDU":
        img = hdu(fits.PrimaryHDU, a, cards)
    elif what == "HDUList":
        img = fits.HDUList([hdu(fits.PrimaryHDU, a, cards)])
    else:
        img = PATH
        fits.FILES.there[PATH] = [(a, hdu(fits.PrimaryHDU, a, cards).header)]
    args = dict(img=img)
    if gain:
        g = var("g", "real")
        args["gain"] = SNum(g, "f")
    elif what in ("ndarray", "masked"):
        g = ONE
    else:
        g = ite(BAPP("has GAIN"), var("GAIN", "real"), ONE)
    if borders:
        args["borders"] = True

    def single(i):
        v = before.at(i)
        return v if kind == "f4" else app("single", (v,), "real")

    # the frame: [lo, hi) on both axes
    fr = [(ZERO, m) for m in n]
    if borders:
        fr = frame(n, single, before)
    c = ((ZERO, ZERO), (ZERO, ZERO))
    if crop:
        c = tuple((fresh("lo"), fresh("hi")) for _ in range(2))
        for (lo, hi), (x, y) in zip(c, fr):
            C.assume(LE(ZERO, lo))
            C.assume(LE(ZERO, hi))
            C.assume(LT(lo + hi, y - x))      # a pixel is left
    fr = [(lo + x, hi - y) for (lo, hi), (x, y) in zip(fr, c)]
    if crop:
        args["crop"] = tuple(tuple(core.mk(x, "i") for x in p) for p in c)
    o = build(si, cls, args, R, F, f"{what} {kind}")
    if o is None:
        return
    where = f"{what} {kind} gain {gain} borders {borders} crop {crop}"
    d = o.data
    if not isinstance(d, SMa):
        R.fail(F, "the pixels are a masked array", f"{where}: {type(d)}")
        return
    d = d._data
    got = SNum(ZERO, "f") + o.gain
    R.prove(F, "the gain is the given one, else the card, else one",
            EQ(num_e(got), g))

    if len(d.shape_e) != 2:
        R.fail(F, "shape of the frame", where)
        return
    R.prove(F, "shape of the frame", AND(*[
        EQ(s, hi - lo) for s, (lo, hi) in zip(d.shape_e, fr)]))
    t = tuple(fresh("t") for _ in n)
    rng = [f for x, (lo, hi) in zip(t, fr) for f in (LE(ZERO, x),
                                                     LT(x, hi - lo))]
    src = tuple(x + lo for x, (lo, hi) in zip(t, fr))
    h, hb = d.ngetter(), before.ngetter()
    if hb:
        R.prove(F, "NaN pixels stay NaN, and no others",
                IFF(h(t) if h else core.FALSE, hb(src)), rng)
        rng = rng + [NOT(hb(src))]
    R.prove(F, "the pixels are those of the frame in single precision times "
            "the gain", EQ(d.at(t), single(src) * g), rng)
    j = tuple(fresh("j") for _ in n)
    R.prove(F, "the input is not changed", AND(
        EQ(a.at(j), before.at(j)), IFF(flag.at(j), BAPP("flag", *j))
        if flag is not None else TRUE), inside(j, n))
    R.cover(f"image {what} {gain} {borders} {crop}")


def frame(n, single, before):
    """The smallest rectangle holding the non-zero pixels (the whole image
    without any)."""
    nan = before.ngetter()

    def nz(i, k):
        v = NOT(EQ(single((i, k)), ZERO))
        return OR(v, nan((i, k))) if nan else v

    def row(i):
        k = fresh("k")
        return BEX(ZERO, n[1], k, nz(i, k))

    def col(k):
        i = fresh("i")
        return BEX(ZERO, n[0], i, nz(i, k))

    i = fresh("i")
    some = BEX(ZERO, n[0], i, row(i))
    if not C.decide(some):
        return [(ZERO, n[0]), (ZERO, n[1])]
    k = fresh("k")
    C.assume(BEX(ZERO, n[1], k, col(k)))
    out = []
    for m, f in ((n[0], row), (n[1], col)):
        # extreme positions; their defining facts come with them
        nz_ = FlatNZ(SArr.of((m,), lambda i, f=f: f(i[0]), "b"))
        out.append((num_e(nz_.end("first")), num_e(nz_.end("last")) + 1))
    return out

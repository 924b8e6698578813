"""C13: the sources used for the PSF pass the quality cuts."""
from pyvc import tables
from pyvc.arrays import SArr, SMa
from pyvc.core import (AND, BAPP, C, EQ, IFF, LE, LT, NOT, ONE, SNum,
                       Unsupported, ZERO, app, form, fresh, lift, mk, num_e)
from pyvc.instrument import genuine
from pyvc.shims import LIBS
from .image import inside, pixels, shims, size, stubbed

F = "SingleImage.best_sources"


def contracts(R):
    R.function(F, "requires an image with a background; ensures the sources "
               "are those of an extraction from the background-subtracted "
               "pixels outside the mask that pass the cuts (all of them if "
               "fewer than five pass), at most 1800 of them; the extraction "
               "is the lower-threshold one exactly when the first gives less "
               "than the minimum and the other does not give fewer; none or "
               "one source raise ValueError")
    R.function("SingleImage.bkg_sub_img", "the pixels less the background")
    R.function("SingleImage.min_sources", "returns the value set")
    R.assume_text("sep.extract returns the sources found in the array it is "
                  "given outside the mask it is given; the global background "
                  "noise is positive")
    W = R.world()
    si = W.module("single_image")
    cls = stubbed(si.SingleImage, ("data", "mask", "stamp_shape"))
    R.run(lambda: one(R, si, cls))


def one(R, si, cls):
    n = size()
    flag = SArr.of(n, lambda i: BAPP("flag", *i), "b")
    pix = pixels("i", n)
    o = object.__new__(cls)
    o.data = SMa(pix, flag)
    o.mask = flag
    o._bkg = None
    ms = fresh("minimum")
    o.min_sources = mk(ms, "i")
    rms = num_e(o._bkg.globalrms)
    C.assume(LT(ZERO, rms))
    x = tables.Extractor()
    LIBS["sep"].__dict__["extract"] = x
    LIBS["numpy.random"].__dict__["choice"] = tables.choice
    err = r = None
    try:
        r = o.best_sources
    except Exception as e:
        if not genuine(e):
            raise
        err = e
    for c in x.calls:
        check_call(R, o, n, pix, flag, c)
    done = [c for c in x.calls if not c["fails"]]
    # which extraction must be used
    if not done:
        if err is None:
            R.fail(F, "a failed extraction is not used", repr(r))
        return
    first = done[0]
    T = first["table"]
    few = LT(T.n, ms)
    later = x.calls[[c is first for c in x.calls].index(True) + 1:]
    if C.decide(few):
        if not later:
            R.fail(F, "the lower threshold is tried below the minimum",
                   f"{len(x.calls)} extractions")
            return
        for c in later:
            R.prove(F, "the other threshold is lower",
                    LT(c["thresh"], first["thresh"]))
        if later[-1]["fails"]:
            if err is None:
                R.fail(F, "a failed extraction is not used", repr(r))
            return
        L = later[-1]["table"]
        if C.decide(LE(T.n, L.n)):
            T = L
    if C.decide(LE(T.n, ONE)):
        if isinstance(err, ValueError):
            R.add(F, "no source or one raise ValueError", "proved", "path")
        else:
            R.fail(F, "no source or one raise ValueError", f"{err!r} {r!r}")
        R.cover("refused")
        return
    if err is not None:
        R.fail(F, "no exception with two sources or more",
               f"{type(err).__name__}: {err}")
        return
    R.add(F, "no exception with two sources or more", "proved", "path")
    if not isinstance(r, tables.Table):
        raise Unsupported("the sources are not rows of a table")
    if r.base != T.base:
        R.fail(F, "the extraction with the sources wanted is used",
               f"extraction {r.base} for {T.base}")
        return
    R.add(F, "the extraction with the sources wanted is used", "proved",
          "path")
    pct = LIBS["numpy"].percentile
    npix, flux, flg = T["npix"], T["flux"], T["flag"]
    lo, hi = num_e(pct(npix, 20)), num_e(pct(npix, 80))
    fl, fh = num_e(pct(flux, 15)), num_e(pct(flux, 85))

    def good(i):
        return AND(EQ(flg.at((i,)), ZERO), LE(lo, npix.at((i,))),
                   LE(npix.at((i,)), hi), LE(fl, flux.at((i,))),
                   LE(flux.at((i,)), fh))

    cnt = tables.count(good, T.n)
    if C.decide(LT(cnt, lift(5))):
        def want(i):
            return form(True)
        m = T.n
        R.cover("all sources")
    else:
        want, m = good, cnt
        R.cover("good sources")
    i = fresh("i")
    R.prove(F, "the sources are those that pass the cuts", IFF(
        r.sel(i) if r.sel else form(True), want(i)),
        [LE(ZERO, i), LT(i, T.n)])
    if C.decide(LE(m, lift(1800))):
        R.prove(F, "all of them are used, up to 1800",
                EQ(r.n, m) if r.pick is None else form(False))
    else:
        R.prove(F, "never more than 1800", LE(r.n, lift(1800)))
        R.cover("drawn")
    again = o.best_sources
    if again is not r:
        R.fail(F, "the sources are kept", "second access")


def check_call(R, o, n, pix, flag, c):
    d, m = c["data"], c["mask"]
    if isinstance(d, SMa):
        d = d._data
    t = tuple(fresh("t") for _ in n)
    back = o._bkg.back()
    if len(d.shape_e) != 2:
        R.fail(F, "the extraction is from the background-subtracted image", "")
        return
    R.prove(F, "the extraction is from the background-subtracted image", AND(
        EQ(d.shape_e[0], n[0]), EQ(d.shape_e[1], n[1]),
        EQ(d.at(t), pix.at(t) - back.at(t))), inside(t, n))
    if isinstance(m, SMa) or not isinstance(m, SArr) or len(m.shape_e) != 2:
        R.fail(F, "the extraction is outside the mask", repr(m))
        return
    R.prove(F, "the extraction is outside the mask", AND(
        EQ(m.shape_e[0], n[0]), EQ(m.shape_e[1], n[1]),
        IFF(form(m.at(t)), flag.at(t)) if m.dtype_ == "b" else
        IFF(NOT(EQ(m.at(t), ZERO)), flag.at(t))), inside(t, n))

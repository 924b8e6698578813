"""C07: every bad pixel is masked, and only grown from bad pixels."""
from pyvc import core, fits
from pyvc.arrays import SArr, SMa, cast, full
from pyvc.core import (AND, BAPP, BITE, C, EQ, FALSE, IFF, LE, LT, NOT, ONE, OR,
                       SNum, Unsupported, ZERO, app, form, fresh, lift, num_e,
                       var)
from pyvc.shims import LIBS, ndi_convolve
from .image import (MASKPATH, PATH, build, hdu, inside, pixels, size, stubbed)

F = "SingleImage.mask"

CASES = []
for _m in ("none", "bool", "int", "file", "unguessed"):
    for _k in ("ndarray", "masked", "PrimaryHDU"):
        if _k != "masked" or _m in ("none", "unguessed"):
            CASES.append((_k, _m, None))
    for _e in (1, 2):
        CASES.append(("HDUList", _m, _e))
        CASES.append(("file", _m, _e))


def contracts(R, pixels_only=False):
    R.function(F, "requires any kind of image and mask, any mask threshold; "
               "ensures a boolean mask of the image's shape, true exactly at "
               "the flagged pixels, those below -50 or above 65000 counts, "
               "the non-finite ones when guessed without a plane, and the "
               "pixels that seven growth rounds add; the pixel values, the "
               "image and the mask given are not changed")
    R.function("SingleImage.maskthresh", "returns the value set, else the "
               "default")
    R.assume_text("non-finite pixels compare false with every threshold "
                  "(exact for NaN; infinite pixels are checked at run time)")
    W = R.world()
    si = W.module("single_image")
    cls = stubbed(si.SingleImage, ("_bkg", "stamp_shape"))
    for what, mask, ext in CASES:
        for th in (False, True):
            if not th and not (mask == "file" or mask == "none" and ext == 2):
                continue        # the threshold is not used
            R.run(lambda: one(R, si, cls, what, mask, ext, th, pixels_only))


def one(R, si, cls, what, mask, ext, th, pixels_only):
    n = size()
    a = pixels("f", n)
    before = pixels("f", n)
    flag = None
    cards = {"EXTEND": (BAPP("has EXTEND"), core.SBool(BAPP("EXTEND")))}
    plane = pixels("i", n, "plane")
    plane0 = pixels("i", n, "plane")
    # no file is called like a class
    fits.FILES.there = {}
    fits.FILES.unknown = {"MaskedArray": core.SBool(FALSE)}
    if what == "ndarray":
        img = a
    elif what == "masked":
        flag = SArr.of(n, lambda i: BAPP("flag", *i), "b")
        img = SMa(a, flag)
    elif what == "PrimaryHDU":
        img = hdu(fits.PrimaryHDU, a, cards)
    elif what == "HDUList":
        img = fits.HDUList([hdu(fits.PrimaryHDU, a, cards)] + (
            [fits.ImageHDU(plane)] if ext == 2 else []))
    else:
        img = PATH
        fits.FILES.there[PATH] = [
            (a, hdu(fits.PrimaryHDU, a, cards).header)] + (
                [(plane, fits.Header())] if ext == 2 else [])
    g = var("g", "real")
    args = dict(img=img, gain=SNum(g, "f"))
    tm = None
    given = None
    if mask in ("bool", "int"):
        given = SArr.of(n, lambda i: BAPP("given", *i), "b") \
            if mask == "bool" else pixels("i", n, "given")
        args["mask"] = given
    elif mask == "file":
        fits.FILES.there[MASKPATH] = [(plane, fits.Header())]
        args["mask"] = MASKPATH
    elif mask == "unguessed":
        args["guessmask"] = False
    if th:
        tm = var("maskthresh", "real")
        args["maskthresh"] = SNum(tm, "f")
    # -- specification
    seeds = []
    # the threshold in force: the one given, else the default of the code
    tv = tm if th else default(cls)
    bad = before.ngetter()
    if flag is not None:
        seeds.append(lambda i: BAPP("flag", *i))
    has_plane = False
    if mask in ("bool", "int"):
        seeds.append(lambda i: given_flag(given, i))
        has_plane = True
    elif mask == "file":
        has_plane = True
    elif mask == "none" and ext == 2:
        has_plane = bool(C.decide(AND(BAPP("has EXTEND"), BAPP("EXTEND"))))
    if has_plane and given is None:
        zero = EQ(num_e(LIBS["numpy"].median(plane0)), ZERO)
        seeds.append(lambda i: BITE(zero, LE(tv, plane0.at(i)),
                                    LE(plane0.at(i), tv)))

    def value(i):
        return before.at(i) * g

    seeds.append(lambda i: AND(NOT(bad(i)), LT(value(i), lift(-50))))
    seeds.append(lambda i: AND(NOT(bad(i)), LT(lift(65000), value(i))))
    if mask == "none" and not has_plane:
        seeds.append(bad)
    base = SArr.of(n, lambda i: OR(*[s(i) for s in seeds]), "b")
    specs = [base]

    def spec(k):
        while len(specs) <= k:
            q = specs[-1]
            c = ndi_convolve(cast(q, "i"), full((3, 3), 1.0))
            specs.append(SArr.of(n, lambda i, q=q, c=c: OR(
                q.at(i), LT(lift(2), c.at(i))), "b"))
        return specs[k]

    calls, lost = [], []

    def cut(name, x):
        """The operand of the k-th growth round is the specified one."""
        k = len(calls)
        calls.append(k)
        if k > 7 or len(x.shape_e) != 2 or x.ngetter() or \
                x.dtype_ not in ("i", "f", "f4"):
            lost.append(k)
            return x
        core.CUT = None
        try:
            want = cast(spec(k), "i")
            u = tuple(fresh("u") for _ in n)
            if R.prove(F, "each growth round starts from the masked pixels",
                       AND(EQ(x.shape_e[0], n[0]), EQ(x.shape_e[1], n[1]),
                           truth(x.at(u), spec(k).at(u))),
                       inside(u, n), soft=True) == "proved":
                return want
        finally:
            core.CUT = cut
        lost.append(k)
        return x

    case = f"{what} mask {mask} planes {ext}"
    core.CUT = None if pixels_only else cut
    try:
        o = build(si, cls, args, R, F, case)
    finally:
        core.CUT = None
    if o is None:
        return
    d = o.data
    if not isinstance(d, SMa):
        R.fail(F, "the pixels are a masked array", case)
        return
    m = o.mask
    t = tuple(fresh("t") for _ in n)
    rng = inside(t, n)
    px = d._data
    if len(px.shape_e) != 2:
        R.fail(F, "the pixel values are not changed", case)
        return
    h = px.ngetter() or (lambda i: FALSE)
    R.prove(F, "the pixel values are not changed", AND(
        EQ(px.shape_e[0], n[0]), EQ(px.shape_e[1], n[1]),
        IFF(h(t), bad(t)), OR(bad(t), EQ(px.at(t), before.at(t) * g))), rng)
    if pixels_only:
        return
    if not isinstance(m, SArr) or m.dtype_ != "b" or len(m.shape_e) != 2:
        R.fail(F, "the mask is a boolean array of the image's shape",
               f"{case}: {m!r}")
        return
    R.prove(F, "the mask is a boolean array of the image's shape", AND(
        EQ(m.shape_e[0], n[0]), EQ(m.shape_e[1], n[1])))
    if th:
        R.prove(F, "the threshold given is used", EQ(
            num_e(SNum(ZERO, "f") + o.maskthresh), tm))
    R.prove(F, "every bad pixel is masked", OR(
        NOT(base.at(t)), form(m.at(t))), rng)
    nm = "only bad pixels and seven growth rounds are masked"
    if calls:
        # without the cuts the sums are uninterpreted
        R.prove(F, nm, IFF(form(m.at(t)), spec(7).at(t)), rng,
                soft=bool(lost))
    else:
        # nothing is flagged: growth adds nothing (the sums are zero)
        R.prove(F, nm, NOT(base.at(t)), rng, soft=True)
        R.prove(F, nm, NOT(form(m.at(t))), rng)
    j = tuple(fresh("j") for _ in n)
    same = [EQ(a.at(j), before.at(j)), EQ(plane.at(j), plane0.at(j))]
    if flag is not None:
        same.append(IFF(flag.at(j), BAPP("flag", *j)))
    if mask == "bool":
        same.append(IFF(given.at(j), BAPP("given", *j)))
    if mask == "int":
        same.append(EQ(given.at(j), app("given", j, "int")))
    R.prove(F, "the image and the mask given are not changed", AND(*same),
            inside(j, n))
    R.cover(f"{case} {th}")


def default(cls):
    o = object.__new__(cls)
    o.maskthresh = None
    return num_e(SNum(ZERO, "f") + o.maskthresh)


def truth(x, f):
    """The integer x is one when f holds, else zero."""
    x = num_e(core.mk(x, "i"))
    return AND(IFF(EQ(x, ONE), f), OR(EQ(x, ZERO), EQ(x, ONE)))


def given_flag(given, i):
    v = given.at(i)
    return v if given.dtype_ == "b" else NOT(EQ(v, ZERO))

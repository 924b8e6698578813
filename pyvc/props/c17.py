"""C17: a stored image carries its pixels and its mask."""
from pyvc import core, fits
from pyvc.arrays import SArr, SMa
from pyvc.core import (AND, BAPP, C, EQ, IFF, LE, LT, ONE, Unsupported, ZERO,
                       app, form, fresh, ite, lift, num_e)
from pyvc.instrument import genuine

F = "utils.store_img"


class Path:
    """The caller's path."""
    _pv_str = True

    def __bool__(self):
        return True

    def __getattr__(self, n):
        if n.startswith("_pv") or n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"path.{n}")


def image(kind, rank, shape):
    s = {"i": "int", "c": "cplx"}.get(kind, "real")
    nan = (lambda i: BAPP("nan", *i)) if kind in ("f", "f4") else None
    return SArr.of(shape, lambda i: app("pix", tuple(i), s), kind, nan)


def contracts(R):
    R.function(F, "requires an array (integer, single, double or complex) or "
               "a masked array of these; ensures the pixel plane holds the "
               "(real parts of the) pixels in the same type, single precision "
               "for masked images; a masked image has one more plane, 1 where "
               "masked and 0 elsewhere; without a path the HDUs are returned "
               "and no file is written, with one that file holds them, "
               "whatever it held before; the image is not changed")
    R.assume_text("conversion to single precision and of integers to "
                  "floating point is taken as exact; the type is tracked")
    W = R.world()
    ut = W.module("utils")
    for rank in (2, 1, 3):
        for kind in ("f", "f4", "i", "c"):
            for mask in ("array", "masked", "nomask"):
                for path in (False, True):
                    R.run(lambda: one(R, ut, rank, kind, mask, path))


def one(R, ut, rank, kind, mask, path):
    n = tuple(fresh("n") for _ in range(rank))
    for v in n:
        C.assume(LT(ZERO, v))
    img = a = image(kind, rank, n)
    before = image(kind, rank, n)
    flag = None
    if mask == "masked":
        flag = SArr.of(n, lambda i: BAPP("flag", *i), "b")
    if mask != "array":
        img = SMa(a, flag)
        if C.decide(EQ(fresh("fill"), ZERO)):
            img._fill = core.SNum(fresh("fv", "real"), "f")
    p = Path() if path else None
    fits.FILES.there = {}
    fits.FILES.unknown = {id(p): core.SBool(BAPP("file exists"))} if path \
        else {}
    try:
        r = ut.store_img(img, p) if path else ut.store_img(img)
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(F, "no exception", f"{kind} {mask}: {type(e).__name__}: {e}")
        return
    R.cover(f"stored {mask} {path}")
    if path:
        if list(fits.FILES.there) != [id(p)]:
            R.fail(F, "the file of the path is written, and no other",
                   repr(list(fits.FILES.there)))
            return
        R.add(F, "the file of the path is written, and no other", "proved",
              "path")
        planes = fits.FILES.there[id(p)]
    else:
        if fits.FILES.there:
            R.fail(F, "no file is written without a path", "")
            return
        R.add(F, "no file is written without a path", "proved", "path")
        if not isinstance(r, (fits.HDUList, fits._HDU)):
            R.fail(F, "the HDUs are returned without a path", repr(r))
            return
        R.add(F, "the HDUs are returned without a path", "proved", "path")
        planes = r.content()
    if len(planes) != (1 if mask == "array" else 2):
        R.fail(F, "number of planes", f"{len(planes)} for {mask}")
        return
    R.add(F, "number of planes", "proved", "path")
    t = tuple(fresh("t") for _ in n)
    rng = [f for x, s in zip(t, n) for f in (LE(ZERO, x), LT(x, s))]
    d = planes[0][0]
    same_shape(R, F, "shape of the pixel plane", d, n)
    want = before.real
    R.prove(F, "the pixel plane holds the pixels", EQ(d.at(t), want.at(t)),
            rng)
    g, h = d.ngetter(), want.ngetter()
    if g or h:
        R.prove(F, "NaN pixels stay NaN, and no others", IFF(
            g(t) if g else core.FALSE, h(t) if h else core.FALSE), rng)
    ty = ("f4", "f") if mask != "array" else (want.dtype_,)
    if d.dtype_ not in ty:
        R.fail(F, "type of the pixel plane", f"{d.dtype_} for {kind} {mask}")
    else:
        R.add(F, "type of the pixel plane", "proved", "path")
    if mask != "array":
        m = planes[1][0]
        same_shape(R, F, "shape of the mask plane", m, n)
        R.prove(F, "the mask plane is one exactly at the masked pixels", EQ(
            num_e(core.mk(m.at(t), "i")) if m.dtype_ != "b" else
            ite(m.at(t), ONE, ZERO),
            ite(BAPP("flag", *t), ONE, ZERO) if flag is not None else ZERO),
            rng)
    R.prove(F, "the image given is not changed", AND(
        EQ(a.at(t), before.at(t)), IFF(flag.at(t), BAPP("flag", *t))
        if flag is not None else core.TRUE), rng)
    if mask == "nomask" and img._mask is not None:
        R.prove(F, "the image given is not changed", core.NOT(
            form(img._mask.at(t))), rng)


def same_shape(R, F, nm, d, n):
    if d is None or len(d.shape_e) != len(n):
        R.fail(F, nm, repr(d))
        return
    R.prove(F, nm, AND(*[EQ(a, lift(b)) for a, b in zip(d.shape_e, n)]))

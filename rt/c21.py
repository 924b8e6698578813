"""Inputs are left untouched."""
import copy
import os
import tempfile

from rt import c01, c04, c07, imgs
from rt.common import need, np, scratch
from astropy.io import fits
from properimage import SingleImage, operations

RULE = ("arrays, masked arrays, HDUs, HDU lists, masks and lists of images "
        "given to construction, subtraction (all options, arrays and images) "
        "and co-addition (arrays and images, all worker counts), compared "
        "before and after; non-trivial: all")


def cases(seed, tier):
    r = np.random.default_rng(seed + 21)
    a = c07.cases(seed + 1, tier)
    sub = c01.cases(seed, tier, 21)
    co = c04.cases(seed, tier, 21)
    for k in range(500 if tier == "quick" else 3000):
        if k % 4 < 2:
            s = next(a)
            if s["img"].startswith("file"):
                s["img"] = "hdul1"
            s["op"] = "build"
            s["borders"] = bool(r.integers(2))
            s["dtype"] = str(r.choice(["f8", "f4", "<f4", "i4"])
                             if s["bad"] == "no" else
                             r.choice(["f8", "f4", "<f4"]))
            s["use"] = bool(r.integers(2))
            s["dgain"] = True
            yield s
        elif k % 4 == 2:
            s = next(sub)
            if s["shape"][0] > 200:
                s["shape"] = [100, 100]
            s["run"] = False
            s["op"] = "sub"
            s["how"] = str(r.choice(["images", "arrays", "masked"]))
            yield s
        else:
            s = next(co)
            s["op"] = "coadd"
            s["how"] = str(r.choice(["images", "arrays", "mixed"]))
            s["align"] = False
            yield s


def snap(x):
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", np.array(x.data), np.array(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        return ("a", x.copy())
    if isinstance(x, fits.HDUList):
        return ("l", [snap(h) for h in x])
    if isinstance(x, (fits.PrimaryHDU, fits.ImageHDU)):
        return ("h", np.array(x.data), [tuple(c) for c in x.header.cards])
    if isinstance(x, SingleImage):
        return ("si", snap(x.data))
    if isinstance(x, (list, tuple)):
        return ("s", [id(v) for v in x], [snap(v) for v in x])
    return ("o", copy.copy(x) if isinstance(x, (int, float, str, bool,
                                                type(None))) else None)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return (a.dtype == b.dtype and a.shape == b.shape
                and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def check(s):
    globals()["ck_" + s["op"]](s)


def ck_build(s):
    with tempfile.TemporaryDirectory(dir=scratch()) as d:
        img, kw, want, _ = c07.build(s, d)
        before = snap(img), snap(kw["mask"])
        try:
            si = SingleImage(img, **kw)
        except Exception as e:
            if not c07._acceptable(s, e):
                raise
            si = None
        after = snap(img), snap(kw["mask"])
        need(same(before[0], after[0]), "construction changes the image given")
        need(same(before[1], after[1]), "construction changes the mask given")
        if si is not None and s["use"]:
            try:
                si.interped
                si.best_sources
            except ValueError:
                pass
            need(same(before[0], snap(img)), "cleaning changes the image given")
            need(same(before[1], snap(kw["mask"])),
                 "cleaning changes the mask given")


def ck_sub(s):
    fit = s["fitted"]
    FORCE = c01.FORCE
    b, dx, dy = s["x"]
    FORCE["x"] = ([b, dx, dy] if s["shift"] else b) if s["beta"] else [dx, dy]
    FORCE["fail"], FORCE["run"] = s["fail"], False
    if s["how"] == "images":
        ref, new = imgs.image(s, 0, fit), imgs.image(s, 1, fit)
    else:
        (ref, mr), (new, mn) = imgs.frame(s, 0), imgs.frame(s, 1)
        if s["how"] == "masked":
            ref = np.ma.MaskedArray(ref, mask=mr)
            new = np.ma.MaskedArray(new, mask=mn)
    before = snap(ref), snap(new)
    try:
        operations.subtract(ref, new, inf_loss=s["loss"], beta=s["beta"],
                            shift=s["shift"], iterative=s["iterative"],
                            fitted_psf=fit)
    finally:
        if s["how"] == "images":
            ref._clean()
            new._clean()
    need(same(before[0], snap(ref)), "subtraction changes the reference")
    need(same(before[1], snap(new)), "subtraction changes the new image")


def ck_coadd(s):
    ims = []
    for k in range(s["N"]):
        if s["how"] == "images" or (s["how"] == "mixed" and k % 2):
            ims.append(imgs.image(s, k, False))
        else:
            ims.append(imgs.frame(s, k)[0])
    before = snap(ims)
    try:
        operations.coadd(ims, align=False, inf_loss=s["loss"],
                         n_procs=s["procs"])
    finally:
        for i in ims:
            if isinstance(i, SingleImage):
                i._clean()
    need(same(before, snap(ims)), "co-addition changes what it is given")

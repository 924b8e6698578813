"""store_img keeps pixels and mask."""
import os
import tempfile

from rt.common import need, np, scratch
from astropy.io import fits
from properimage import utils

RULE = ("plain, complex, masked arrays of several types, with full, partial, "
        "empty and scalar (nomask) masks, returned or written to new and "
        "existing files; non-trivial: masked or complex images")
KINDS = ["f8", "f4", "i2", "i4", "u1", "c16", "c8", "mf8", "mf4", "mi4",
         "mc16", "mi2", "mu2", "mu1", "u2", "mc8", "i1", "mi1"]


def cases(seed, tier):
    r = np.random.default_rng(seed)
    reps = 4 if tier == "quick" else 120
    for rep in range(reps):
        for kind in KINDS:
            for where in ("ret", "new", "old"):
                for m in (("some", "none", "all", "one", "corner",
                                    "nomask")
                          if kind[0] == "m" else ("-",)):
                    yield {"kind": kind, "where": where, "mask": m,
                           "seed": int(r.integers(1 << 30)),
                           "shape": [int(r.integers(1, 20)),
                                     int(r.integers(1, 20))]}


def nontrivial(s):
    return s["kind"][0] in "mc"


def check(s):
    r = np.random.default_rng(s["seed"])
    sh = tuple(s["shape"])
    k = s["kind"]
    masked = k[0] == "m"
    dt = np.dtype(k[1:] if masked else k)
    a = r.normal(300, 400, sh)
    if dt.kind == "c":
        a = (a + 1j * r.normal(0, 900, sh)).astype(dt)
    elif dt.kind == "u":
        a = r.integers(0, min(60000, np.iinfo(dt).max), sh).astype(dt)
    else:
        a = np.clip(a, np.iinfo(dt).min, np.iinfo(dt).max).astype(dt) \
            if dt.kind == "i" else a.astype(dt)
    mask = None
    if masked:
        mask = {"some": r.random(sh) < 0.3, "none": np.zeros(sh, bool),
                "all": np.ones(sh, bool), "one": np.zeros(sh, bool),
                "corner": np.zeros(sh, bool), "nomask": np.zeros(sh, bool)}[s["mask"]]
        if s["mask"] == "one":
            mask[r.integers(sh[0]), r.integers(sh[1])] = True
        if s["mask"] == "corner":
            mask[-1, -1] = mask[0, 0] = True
        img = np.ma.MaskedArray(a.copy(), mask=np.ma.nomask
                                if s["mask"] == "nomask" else mask.copy())
    else:
        img = a.copy()
    want = a.real if dt.kind == "c" else a
    if s["where"] == "ret":
        hdu = utils.store_img(img)
        keep(img, a, mask)
        need(hdu is not None, "nothing is returned without a path")
        hl = hdu if isinstance(hdu, fits.HDUList) else fits.HDUList([hdu])
        judge(hl, want, mask)
        # what a user gets after writing it
        with tempfile.TemporaryDirectory(dir=scratch()) as d:
            p = os.path.join(d, "w.fits")
            hdu.writeto(p)
            with fits.open(p) as hl:
                judge(hl, want, mask)
    else:
        with tempfile.TemporaryDirectory(dir=scratch()) as d:
            p = os.path.join(d, "im.fits")
            if s["where"] == "old":
                fits.HDUList([fits.PrimaryHDU(np.ones((30, 31))),
                              fits.ImageHDU(np.ones((3, 3))),
                              fits.ImageHDU(np.ones((3, 3)))]).writeto(p)
            utils.store_img(img, p)
            keep(img, a, mask)
            need(os.path.exists(p), "no file written")
            with fits.open(p) as hl:
                judge(hl, want, mask)
            need(os.listdir(d) == ["im.fits"], "other files written")


def keep(img, a, mask):
    """The image given is as it was."""
    need(np.array_equal(np.asarray(img.data if mask is not None else img), a),
         "the image given was changed")
    if mask is not None:
        need(np.array_equal(np.ma.getmaskarray(img), mask),
             "the mask given was changed")


def judge(hl, want, mask):
    got = np.asarray(hl[0].data)
    need(got.shape == want.shape, f"shape {got.shape} of {want.shape}")
    if mask is not None:
        w = want.astype("f4").astype(float)
        need(np.allclose(got.astype(float), w, rtol=2e-7, atol=0),
             "pixel values of the masked image differ")
        need(len(hl) == 2, f"{len(hl)} planes for a masked image")
        m = np.asarray(hl[1].data)
        need(m.shape == mask.shape, "mask plane shape")
        need(np.array_equal(m, mask.astype(int)),
             "the mask plane is not one exactly at the masked pixels")
    else:
        need(len(hl) == 1, "unexpected planes")
        need(np.array_equal(got.astype(float), want.astype(float)),
             "pixel values differ")

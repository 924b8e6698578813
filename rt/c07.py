"""SingleImage.mask and SingleImage.data: C07 and C08 share the builder."""
import os
import tempfile

from rt.common import need, np, close, scratch
from astropy.io import fits
from scipy.ndimage import convolve
from properimage import SingleImage

RULE = ("images of every input kind (array, masked-free HDU, HDU list with and "
        "without extension, file with, without and with empty extension) with "
        "NaN, infinite, high and low pixels next to the thresholds, masks of "
        "every kind and thresholds, crops, gains, borders; non-trivial: some "
        "pixel masked")


def cases(seed, tier):
    r = np.random.default_rng(seed)
    for k in range(2500 if tier == "quick" else 9000):
        img = str(r.choice(["ndarray", "primary", "hdul1", "hdul2", "file",
                            "file_ext", "file_noext"]))
        mk = str(r.choice(["none", "none", "none", "bool", "int", "file",
                           "empty"]))
        yield {"seed": int(r.integers(1 << 30)), "img": img, "mask": mk,
               "shape": [int(r.integers(40, 90)), int(r.integers(40, 90))],
               "bad": str(r.choice(["nan", "inf", "sat", "low", "mix", "no",
                                    "pairs", "edge", "few"])),
               "thresh": [None, 1, 16, 30, 4][int(r.integers(5))],
               "guess": bool(r.integers(5) > 0),
               "gain": [None, None, 1.0, 2.5, 0.5][int(r.integers(5))],
               "hgain": [None, None, 1.7][int(r.integers(3))],
               "crop": [[0, 0], [0, 0]] if r.integers(2) else
               [[int(r.integers(0, 5)), int(r.integers(0, 5))],
                [int(r.integers(0, 5)), int(r.integers(0, 5))]],
               "planes": str(r.choice(["median0", "medianpos", "bool"]))}


def pixels(s):
    """Frame with stars and bad pixels."""
    r = np.random.default_rng(s["seed"])
    sh = tuple(s["shape"])
    a = r.normal(200.0, 5.0, sh)
    yy, xx = np.mgrid[: sh[0], : sh[1]]
    for _ in range(14):
        cx, cy = r.uniform(6, sh[0] - 6), r.uniform(6, sh[1] - 6)
        a += r.uniform(1500, 5000) * np.exp(-((yy - cx) ** 2 + (xx - cy) ** 2) / 5)
    bad = s["bad"]

    def put(vals, k):
        for _ in range(k):
            a[r.integers(sh[0]), r.integers(sh[1])] = vals[r.integers(len(vals))]

    if bad in ("nan", "few"):
        put([np.nan], 5 if bad == "nan" else 1)
    elif bad == "inf":
        put([np.inf, -np.inf], 4)
    elif bad == "sat":
        put([65000.5, 65001.0, 65000.0, 70000, 64999.0], 8)
    elif bad == "low":
        put([-50.5, -51.0, -50.0, -49.0, -1000], 8)
    elif bad == "mix":
        put([np.nan, np.inf, 65001, -60, 1e6, -np.inf], 10)
    elif bad == "pairs":
        for _ in range(3):
            i, j = r.integers(2, sh[0] - 4), r.integers(2, sh[1] - 4)
            for di, dj in ((0, 0), (0, 1), (1, 0)):
                if r.integers(4):
                    a[i + di, j + dj] = np.nan if r.integers(2) else 66000.0
    elif bad == "edge":
        a[0, r.integers(sh[1])] = np.nan
        a[-1, -1] = 66000
        a[r.integers(sh[0]), 0] = -80
    return a


def frame_of(s, a):
    """(trimmed frame slice, gain) wanted."""
    sh = a.shape
    x0, x1, y0, y1 = 0, sh[0], 0, sh[1]
    if s.get("borders"):
        nz = np.nan_to_num(a.astype("f4"), nan=1.0) != 0
        rows, cols = np.flatnonzero(nz.any(1)), np.flatnonzero(nz.any(0))
        x0, x1, y0, y1 = rows[0], rows[-1] + 1, cols[0], cols[-1] + 1
    (a0, a1), (b0, b1) = s["crop"]
    sl = np.s_[x0 + a0:x1 - a1, y0 + b0:y1 - b1]
    g = s["gain"]
    if g is None:
        g = s["hgain"] if (s["img"] != "ndarray" and s["hgain"]) else 1.0
    return sl, g


def planes(s, shape):
    """FITS flag plane and the flags wanted of it."""
    r = np.random.default_rng(s["seed"] + 5)
    t = 16 if s["thresh"] is None else s["thresh"]
    if s["planes"] == "medianpos":
        p = np.full(shape, t + 20)
        for _ in range(9):
            p[r.integers(shape[0]), r.integers(shape[1])] = r.choice(
                [0, t - 1, t, t + 1])
    else:
        p = np.zeros(shape, int)
        for _ in range(9):
            p[r.integers(shape[0]), r.integers(shape[1])] = r.choice(
                [t, t + 1, max(t - 1, 0), t + 40])
    p = p.astype("i4")
    want = p >= t if np.median(p) == 0 else p <= t
    return p, want


def build(s, d):
    """The arguments of SingleImage; everything file-like goes below d."""
    a = pixels(s)
    sh = a.shape
    if s.get("dtype"):
        a = a.astype(s["dtype"])
    sl, g = frame_of(s, a)
    inner = np.empty(sh, bool)[sl].shape
    kw = {"maskthresh": s["thresh"], "guessmask": s["guess"],
          "gain": s["gain"], "crop": tuple(map(tuple, s["crop"])),
          "borders": bool(s.get("borders"))}
    flags = np.zeros(inner, bool)
    ext = s["img"] in ("hdul2", "file_ext")
    hdr = fits.Header()
    if s["hgain"]:
        hdr["GAIN"] = s["hgain"]
    if s["img"] == "ndarray":
        img = a.copy()
    elif s["img"] == "primary":
        img = fits.PrimaryHDU(a.copy(), header=hdr)
    else:
        hl = fits.HDUList([fits.PrimaryHDU(a.copy(), header=hdr)])
        if ext:
            pl, w = planes(s, inner)
            hl.append(fits.ImageHDU(pl))
            hl[0].header["EXTEND"] = True
            if s["mask"] == "none" and s["guess"]:
                flags |= w
        elif s["img"] == "file_noext" and "EXTEND" in hl[0].header:
            del hl[0].header["EXTEND"]
        if s["img"].startswith("file"):
            img = os.path.join(d, "im.fits")
            hl.writeto(img)
        else:
            img = hl
    mask = None
    r = np.random.default_rng(s["seed"] + 9)
    if s["mask"] in ("bool", "int", "empty"):
        mask = r.random(inner) < (0.01 if s["mask"] != "empty" else 0)
        flags |= mask
        if s["mask"] == "int":
            mask = mask.astype(int)
    elif s["mask"] == "file":
        pl, w = planes(s, inner)
        mask = os.path.join(d, "mask.fits")
        fits.writeto(mask, pl)
        flags |= w
    kw["mask"] = mask
    plane = ext
    want = (a.astype("f4")[sl] * g).astype(float)
    seedm = flags | (want < -50.0) | (want > 65000.0)
    if mask is None and s["guess"] and not plane:
        seedm |= ~np.isfinite(want)
    return img, kw, want, seedm


def grow(m):
    m = m.copy()
    for _ in range(7):
        m |= convolve(m.astype(int), np.ones((3, 3)), mode="reflect") > 2
    return m


def construct(s):
    """(image, wanted pixels, wanted seed mask, given args before)"""
    with tempfile.TemporaryDirectory(dir=scratch()) as d:
        img, kw, want, seedm = build(s, d)
        if not np.isfinite(want[~seedm]).all() and s.get("skipnan", True):
            # unmasked non-finite pixels are allowed by the property but
            # the background estimation refuses them
            pass
        si = SingleImage(img, **kw)
    return si, want, seedm


def nontrivial(s):
    return s["bad"] != "no" or s["mask"] not in ("none", "empty")


def usable(s):
    # NaN pixels which nothing masks (mask given) end in the background
    # estimation, outside of this property
    return True


def check(s):
    try:
        si, want, seedm = construct(s)
    except (ValueError, Exception) as e:
        if _acceptable(s, e):
            return
        raise
    m = si.mask
    need(isinstance(m, np.ndarray) and m.dtype == bool, "mask is not boolean")
    need(m.shape == want.shape, f"mask shape {m.shape}, image {want.shape}")
    need(np.array_equal(np.ma.getmaskarray(si.data), m), "data.mask differs")
    lost = seedm & ~m
    need(not lost.any(), f"{lost.sum()} bad pixels not masked")
    g = grow(seedm)
    need(np.array_equal(m, g),
         f"{(m & ~g).sum()} pixels too many, {(g & ~m).sum()} too few")


def _acceptable(s, e):
    """Refusals outside of the property: too few stars for the construction."""
    return isinstance(e, ValueError) and (
        "Few sources" in str(e) or "Only one source" in str(e)
        or "constant" in str(e))

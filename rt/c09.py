"""SingleImage.interped."""
import astroscrappy
import numpy as _np

_real = astroscrappy.detect_cosmics
INJECT = {"mask": None, "seen": None}


def _spy(*a, **k):
    cr, clean = _real(*a, **k)
    if INJECT["mask"] is not None:
        cr = _np.asarray(cr, dtype=bool) | INJECT["mask"]
    INJECT["seen"] = _np.array(cr, dtype=bool)
    return cr, clean


astroscrappy.detect_cosmics = _spy

from rt.common import need, np, stars  # noqa: E402
from properimage import SingleImage  # noqa: E402

RULE = ("star frames with masks (points, blocks, lines, none, whole corners), "
        "NaN pixels (masked and unmasked by guessing), real cosmic rays and "
        "further detections added to those found; non-trivial: some pixel "
        "flagged")


def cases(seed, tier):
    r = np.random.default_rng(seed + 9)
    for k in range(800 if tier == "quick" else 3000):
        yield {"seed": int(r.integers(1 << 30)),
               "shape": [int(r.integers(70, 130)), int(r.integers(70, 130))],
               "mask": str(r.choice(["none", "pts", "block", "line", "corner",
                                     "big", "allfalse"])),
               "nan": int(r.choice([0, 0, 1, 6])),
               "cr": int(r.choice([0, 0, 3, 12])),
               "inject": str(r.choice(["no", "no", "pts", "block"])),
               "neg": bool(r.integers(4) == 0),
               "low": int(r.choice([0, 1, 4])),
               "depth": float(r.choice([30., 90., 180., 900., 60000.]))}


def nontrivial(s):
    return s["mask"] not in ("none", "allfalse") or s["nan"] or s["cr"] \
        or s["inject"] != "no"


def build(s):
    r = np.random.default_rng(s["seed"])
    sh = tuple(s["shape"])
    a = stars(s["seed"], sh, n=15)
    for _ in range(s["cr"]):
        i, j = r.integers(2, sh[0] - 3), r.integers(2, sh[1] - 3)
        a[i, j] += 9000.0
        if r.integers(2):
            a[i + 1, j + 1] += 7000.0
    if s["neg"]:
        a -= 180.0
    for _ in range(s.get("low", 0)):
        # dead pixels: real data, however deep, unless the mask says otherwise
        a[r.integers(sh[0]), r.integers(sh[1])] -= s["depth"]
    m = np.zeros(sh, bool)
    if s["mask"] == "pts":
        m[r.integers(0, sh[0], 9), r.integers(0, sh[1], 9)] = True
    elif s["mask"] == "block":
        i, j = r.integers(0, sh[0] - 12), r.integers(0, sh[1] - 12)
        m[i:i + 9, j:j + 7] = True
    elif s["mask"] == "line":
        m[:, r.integers(sh[1])] = True
    elif s["mask"] == "corner":
        m[:8, :8] = True
        m[-1, -1] = True
    elif s["mask"] == "big":
        m[10:45, 20:50] = True
    a[m] = 12345.0
    for _ in range(s["nan"]):
        a[r.integers(sh[0]), r.integers(sh[1])] = np.nan
    kw = {} if s["mask"] == "none" else {"mask": m | np.isnan(a)}
    inj = None
    if s["inject"] == "pts":
        inj = np.zeros(sh, bool)
        inj[r.integers(0, sh[0], 5), r.integers(0, sh[1], 5)] = True
    elif s["inject"] == "block":
        inj = np.zeros(sh, bool)
        inj[30:34, 40:43] = True
    return a, kw, inj


def check(s):
    a, kw, inj = build(s)
    INJECT["mask"] = None
    si = SingleImage(a, **kw)
    sub = np.array(si.bkg_sub_img.data, dtype=float)
    bk = np.asarray(si.data.data, float) - np.asarray(si.background, float)
    um = ~np.asarray(si.mask)
    need(np.allclose(sub[um], bk[um], rtol=1e-5, atol=1e-3, equal_nan=True),
         "bkg_sub_img is not data minus background")
    mask0 = si.mask.copy()
    INJECT["mask"], INJECT["seen"] = inj, None
    try:
        out = si.interped
    finally:
        INJECT["mask"] = None
    seen = INJECT["seen"]
    need(out.shape == sub.shape, "shape")
    need(not np.isnan(out).any(), "NaN in the cleaned image")
    if np.ma.isMaskedArray(out):
        out = np.asarray(out.data)
    bad = mask0 | np.isnan(sub)
    if seen is not None:
        bad = bad | seen
    elif inj is not None:
        bad = bad | inj
    ok = ~bad
    d = out[ok] != sub[ok]
    need(not d.any(), f"{d.sum()} good pixels changed")
    if bad.any():
        tol = 1e-6 * np.abs(sub[ok]).max()
        for i, j in zip(*np.where(bad)):
            w = np.s_[max(0, i - 5):i + 6, max(0, j - 5):j + 6]
            g = sub[w][ok[w]]
            if not g.size:
                g = sub[ok]
            lo, hi = min(0, g.min()) - tol, max(0, g.max()) + tol
            need(lo <= out[i, j] <= hi,
                 f"flagged pixel {i},{j} is {out[i, j]}, neighbours "
                 f"{g.min()} to {g.max()}")
    need(np.array_equal(si.mask, mask0), "the mask of the image changed")
    again = si.interped
    need(np.array_equal(np.asarray(again), out), "a second access differs")

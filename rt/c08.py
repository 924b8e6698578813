"""Pixel data: trimmed input times the gain."""
from rt import c07
from rt.common import need, np, close

RULE = ("as C07 without bad pixels, with zero borders (full and partial rows, "
        "inner zeros), crops with zero margins, gains and headers, and pixel "
        "types; non-trivial: crop, border or gain")


def cases(seed, tier):
    r = np.random.default_rng(seed + 8)
    for k in range(2500 if tier == "quick" else 9000):
        z = int(r.integers(3))
        crop = [[int(v) for v in r.integers(0, 6, 2)] for _ in range(2)]
        for ax in range(2):
            for e in range(2):
                if r.integers(2):
                    crop[ax][e] = 0
        yield {"seed": int(r.integers(1 << 30)),
               "img": str(r.choice(["ndarray", "primary", "hdul1", "hdul2",
                                    "file", "file_ext", "file_noext"])),
               "mask": str(r.choice(["none", "none", "bool", "int", "file",
                                     "empty"])),
               "shape": [int(r.integers(45, 90)), int(r.integers(45, 90))],
               "bad": str(r.choice(["no", "no", "sat"])), "thresh": None,
               "guess": bool(r.integers(4) > 0),
               "gain": [None, None, 1.0, 2.5, 0.5, 3][int(r.integers(6))],
               "hgain": [None, 1.7, 4][int(r.integers(3))],
               "crop": crop if z else [[0, 0], [0, 0]],
               "planes": "median0",
               "borders": bool(r.integers(2)),
               "zeros": [int(v) for v in r.integers(0, 4, 4)],
               "inner": bool(r.integers(3) == 0),
               "dtype": str(r.choice(["f8", "f8", "f4", "i4", "i2"]))}


def nontrivial(s):
    return s["gain"] is not None or s["borders"] or s["crop"] != [[0, 0], [0, 0]]


_pix = c07.pixels


def pixels(s):
    a = _pix(s)
    if s.get("dtype") == "i2":
        a = np.clip(a, -30000, 30000)
    if "zeros" in s:
        t, b, l, r = s["zeros"]
        a[:t] = 0
        a[a.shape[0] - b:] = 0
        a[:, :l] = 0
        a[:, a.shape[1] - r:] = 0
        if s["inner"]:
            a[t + 12, :] = 0
            a[:, l + 9] = 0
    return a


c07.pixels = pixels


def check(s):
    try:
        si, want, _ = c07.construct(s)
    except Exception as e:
        if c07._acceptable(s, e):
            return
        raise
    d = np.asarray(si.data.data)
    need(d.shape == want.shape, f"frame {d.shape}, not {want.shape}")
    need(np.allclose(d.astype(float), want, rtol=3e-7, atol=0),
         "the pixels are not the trimmed input times the gain")
    g = s["gain"]
    if g is None:
        g = s["hgain"] if (s["img"] != "ndarray" and s["hgain"]) else 1.0
    need(si.gain == g, f"gain {si.gain}, not {g}")

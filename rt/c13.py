"""SingleImage.best_sources."""
import sep

_real = sep.extract
SCRIPT = {"cats": None, "log": None}


def _spy(data, thresh=None, *a, **k):
    if SCRIPT["cats"] is None:
        return _real(data, thresh, *a, **k)
    SCRIPT["log"].append((data, thresh, k))
    c = SCRIPT["cats"](thresh, k.get("minarea"), len(SCRIPT["log"]))
    if isinstance(c, Exception):
        raise c
    return c.copy()


sep.extract = _spy

from rt.common import need, np, stars  # noqa: E402
from properimage import SingleImage  # noqa: E402

RULE = ("crafted catalogues (ties at the percentiles, flags, fewer than five "
        "good ones, more than 1800, zero, one, around the minimum number) for "
        "each threshold, each extraction succeeding or failing; non-trivial: "
        "some source cut, or a fallback")


def cases(seed, tier):
    r = np.random.default_rng(seed + 13)
    for k in range(2000 if tier == "quick" else 12000):
        yield {"seed": int(r.integers(1 << 30)),
               "n": int(r.choice([0, 1, 2, 3, 5, 12, 19, 20, 21, 40, 300,
                                  1800, 1801, 2600, 6000],
                                 p=[.05, .05, .08, .08, .1, .1, .08, .08, .08,
                                    .1, .1, .025, .025, .025, .025])),
               "n_low": int(r.choice([0, 1, 2, 6, 18, 20, 60])),
               "n_low9": int(r.choice([0, 3, 25])),
               "n_high": int(r.choice([2, 10, 30])),
               "fail": [bool(v) for v in r.random(2) < .25],
               "flags": float(r.choice([0, .1, .5, 1.0])),
               "ties": bool(r.integers(2)),
               "min": [None, 1, 5, 20, 60][int(r.integers(5))],
               "const": bool(r.integers(5) == 0),
               "real": bool(r.integers(14) == 0)}


def nontrivial(s):
    return s["n"] > 1


DT = [("thresh", "f8"), ("npix", "i8"), ("x", "f8"), ("y", "f8"),
      ("flux", "f8"), ("flag", "i2")]


def cat(s, n, salt):
    r = np.random.default_rng(s["seed"] + salt)
    c = np.zeros(n, dtype=DT)
    c["thresh"] = salt
    c["npix"] = r.integers(5, 12, n) if s["ties"] else r.integers(5, 9000, n)
    c["flux"] = r.integers(1, 9, n) if s["ties"] else r.lognormal(5, 2, n)
    c["flag"] = np.where(r.random(n) < s["flags"], r.integers(1, 9, n), 0)
    c["x"], c["y"] = r.random(n) * 60, r.random(n) * 60
    return c


def good(c):
    p20, p80 = np.percentile(c["npix"], [20, 80])
    f15, f85 = np.percentile(c["flux"], [15, 85])
    ok = ((c["npix"] >= p20) & (c["npix"] <= p80) & (c["flux"] >= f15)
          & (c["flux"] <= f85) & (c["flag"] == 0))
    return c[ok] if ok.sum() >= 5 else c


def rows(c):
    return sorted(map(tuple, c.tolist()))


def image(s):
    r = np.random.default_rng(s["seed"])
    a = r.normal(100, 3.0, (64, 66))
    if s["const"]:
        a = np.full((64, 66), 100.0) + r.normal(0, 1e-3, (64, 66))
    m = np.zeros(a.shape, bool)
    m[5:9, 7:12] = True
    return SingleImage(a, mask=m, stamp_shape=(9, 9), min_sources=s["min"])


def check(s):
    if s["real"]:
        return real(s)
    si = image(s)
    mn = 20 if s["min"] is None else s["min"]
    rms = si._bkg.globalrms if hasattr(si, "_bkg") else si.var
    rms = si.var
    first = cat(s, s["n"], 1)
    high = cat(s, s["n_high"], 2)
    low = cat(s, s["n_low"], 3)
    low9 = cat(s, s["n_low9"], 4)
    bad = []

    def script(thresh, minarea, k):
        f = thresh / rms
        if abs(f - 8) < 1e-6 and minarea == 9:
            return RuntimeError("object deblending overflow") \
                if s["fail"][0] else first
        if abs(f - 35) < 1e-4 and minarea == 9:
            return high
        if abs(f - 3) < 1e-6 and minarea == 5:
            return RuntimeError("overflow") if s["fail"][1] else low
        if abs(f - 3) < 1e-6 and minarea == 9:
            return low9
        bad.append((f, minarea))
        return first

    SCRIPT["cats"], SCRIPT["log"] = script, []
    exc = None
    try:
        got = si.best_sources
    except ValueError as e:
        exc = e
    finally:
        log = SCRIPT["log"]
        SCRIPT["cats"] = None
    need(not bad, f"unexpected extraction {bad}")
    sub = np.asarray(si.bkg_sub_img.data)
    for data, thresh, k in log:
        need(np.array_equal(np.asarray(data), sub),
             "the extraction is not run on the background-subtracted image")
        need(k.get("mask") is not None
             and np.array_equal(np.asarray(k["mask"]), si.mask),
             "the extraction does not use the mask")
    srcs = high if s["fail"][0] else first
    if len(srcs) < mn:
        lo = low9 if s["fail"][1] else low
        need(len(log) >= 2, "no lower-threshold extraction")
        if not len(srcs) > len(lo):
            srcs = lo
    else:
        need(len(log) == (2 if s["fail"][0] else 1),
             "needless lower-threshold extraction")
    if len(srcs) < 2:
        need(exc is not None, f"an image with {len(srcs)} source accepted")
        return
    need(exc is None, f"ValueError {exc} with {len(srcs)} sources")
    want = good(srcs)
    if len(want) <= 1800:
        need(rows(got) == rows(want),
             f"{len(got)} sources, {len(want)} pass the cuts of {len(srcs)}")
    else:
        need(len(got) == 1800, f"{len(got)} sources")
        w = set(rows(want))
        g = rows(got)
        need(len(set(g)) == len(g) or s["ties"], "a source twice")
        need(set(g) <= w, "a source that fails the cuts")
    need(si.best_sources is got or rows(si.best_sources) == rows(got),
         "a second access differs")


def real(s):
    a = stars(s["seed"] % 1000, (110, 90), n=24)
    m = np.zeros(a.shape, bool)
    m[40:60, 30:50] = True
    si = SingleImage(a, mask=m, stamp_shape=(9, 9))
    got = si.best_sources
    sub = np.asarray(si.bkg_sub_img.data)
    rms = si.var
    srcs = _real(sub, 8 * rms, mask=si.mask, minarea=9)
    if len(srcs) < 20:
        lo = _real(sub, 3 * rms, mask=si.mask, minarea=5)
        if not len(srcs) > len(lo):
            srcs = lo
    need(rows(got) == rows(good(srcs)), "real catalogue")

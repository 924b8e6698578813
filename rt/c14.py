"""Stamps, positions and count in step."""
from rt.common import need, np, stars
from astropy.nddata.utils import extract_array
from properimage import SingleImage

RULE = ("star frames of several shapes, stamp shapes, sources at and beyond "
        "the edges, stamps rejected (NaN in the cleaned image through a "
        "subclass; strict picking), crafted source lists through "
        "update_sources; non-trivial: some stamp rejected or cut at an edge")


class Nan(SingleImage):
    """The cleaned image keeps some NaN pixels (what the code guards for)."""

    holes = ()

    @property
    def interped(self):
        im = np.array(SingleImage.interped.fget(self))
        for i, j in self.holes:
            im[i, j] = np.nan
        return im


def cases(seed, tier):
    r = np.random.default_rng(seed + 14)
    for k in range(1500 if tier == "quick" else 6000):
        yield {"seed": int(r.integers(1 << 30)),
               "shape": [int(r.integers(70, 120)), int(r.integers(70, 120))],
               "n": int(r.choice([4, 9, 16, 25, 34])),
               "stamp": [None, (7, 7), (9, 9), (8, 8), (11, 7), (10, 9)]
               [int(r.integers(6))],
               "strict": bool(r.integers(3) > 0),
               "holes": int(r.choice([0, 0, 1, 3, 8])),
               "craft": str(r.choice(["no", "no", "grid", "edge", "dup"])),
               "access": str(r.choice(["pos", "n", "var", "cov"])),
               "noise": float(r.choice([3., 8.]))}


def nontrivial(s):
    return s["strict"] or s["holes"] or s["craft"] != "no"


def build(s):
    r = np.random.default_rng(s["seed"])
    sh = tuple(s["shape"])
    a = stars(s["seed"] % 100000, sh, n=s["n"], noise=s["noise"])
    # close companions and bright pixels make the strict picking reject
    for _ in range(4):
        i, j = r.integers(5, sh[0] - 6), r.integers(5, sh[1] - 6)
        a[i:i + 2, j:j + 2] += 6000
    st = None if s["stamp"] is None else tuple(s["stamp"])
    im = Nan(a, stamp_shape=st, strict_star_pick=s["strict"])
    im.holes = [(int(r.integers(sh[0])), int(r.integers(sh[1])))
                for _ in range(0 if s["strict"] else s["holes"])]
    if s["craft"] != "no":
        src = im.best_sources
        base = np.zeros(30, dtype=src.dtype)
        base[:] = src[np.arange(30) % len(src)]
        if s["craft"] == "grid":
            base["x"] = r.uniform(12, sh[1] - 12, 30)
            base["y"] = r.uniform(12, sh[0] - 12, 30)
        elif s["craft"] == "edge":
            base["x"] = np.clip(r.uniform(-2, sh[1] + 1, 30), 0, sh[1] - 1)
            base["y"] = np.where(r.random(30) < .5, 1.2, sh[0] - 1.4)
        im.update_sources(base[:int(r.choice([6, 15, 21, 30]))])
    return im


def check(s):
    im = build(s)
    try:
        first = im.stamp_shape
        src = im.best_sources.copy()
        clean = np.array(im.interped)
        with np.errstate(all="ignore"):
            if s["access"] == "n":
                im.n_sources
            pos = np.array(im.stamps_pos)
        n = im.n_sources
        shape = tuple(im.stamp_shape)
        need(len(pos) == n, f"{len(pos)} positions, n_sources {n}")
        need(shape == (first[0] + 6, first[1] + 6) or n == 0,
             f"stamp shape {shape} of {first}")
        cand = [(y, x) for x, y in zip(src["x"], src["y"])]
        need(np.array_equal(clean, im.interped, equal_nan=True),
             "measuring the stamps changed the cleaned image")
        last = -1
        for k in range(n):
            try:
                st = im.db.load(k)[0]
            except Exception as e:
                need(False, f"stamp {k} of {n} is not stored ({e})")
            need(st.shape == shape, f"stamp {k} is {st.shape}, not {shape}")
            if np.isnan(extract_array(clean, (first[0] + 6, first[1] + 6),
                                      tuple(pos[k]), mode="partial",
                                      fill_value=0.)).any():
                # only with the injected NaN pixels: the stamp grew over one
                p = tuple(pos[k])
                idx = [i for i in range(last + 1, len(cand))
                       if tuple(cand[i]) == p]
                need(idx, f"position {k} is not that of a later source")
                last = idx[0]
                continue
            need(np.isfinite(st).all(), f"NaN in stamp {k}")
            need(abs(st.sum() - 1) < 1e-6, f"stamp {k} sums to {st.sum()}")
            p = tuple(pos[k])
            idx = [i for i in range(last + 1, len(cand))
                   if tuple(cand[i]) == p]
            need(idx, f"position {k} is not that of a later source")
            last = idx[0]
            need(cut_at(im, clean, st, first, p),
                 f"stamp {k} is not cut at position {k}")
        try:
            im.db.load(n)
            extra = True
        except Exception:
            extra = False
        need(not extra, "more stamps than positions")
        if not s["strict"]:
            # without strict picking only stamps with NaN are left out
            keep = []
            for q in cand:
                c = extract_array(clean, first, q, mode="partial",
                                  fill_value=im.var)
                if not np.isnan(c).any():
                    keep.append(q)
            need(len(keep) == n and np.allclose(np.array(keep).reshape(-1, 2),
                                                pos.reshape(-1, 2)),
                 f"{n} stamps, {len(keep)} sources with usable stamps")
        if s["access"] == "cov" and n > 2 and not np.isnan(clean).any():
            st = np.array([im.db.load(k)[0].ravel() for k in range(n)])
            need(np.allclose(im.cov_matrix, np.cov(st, rowvar=True),
                             rtol=1e-6, atol=1e-12),
                 "the covariance matrix is not that of the stamps")
        need(np.array_equal(np.array(im.stamps_pos), pos)
             and im.n_sources == n and tuple(im.stamp_shape) == shape,
             "a second access differs")
    finally:
        im._clean()


def cut_at(im, clean, st, first, p):
    """Is the stamp an affine image of the cleaned pixels around p?"""
    for g in (2, 4, 6):
        sh = (first[0] + g, first[1] + g)
        c = extract_array(clean, sh, p, mode="partial", fill_value=im.var)
        if np.isnan(c).any():
            continue
        o = (6 - g) // 2
        inner = st[o:o + sh[0], o:o + sh[1]]
        A = np.c_[c.ravel(), np.ones(c.size)]
        co, *_ = np.linalg.lstsq(A, inner.ravel(), rcond=None)
        # the sign of the scale is that of the sum of the raw stamp
        if np.abs(A @ co - inner.ravel()).max() <= 1e-4 * np.abs(inner).max() \
                and abs(co[0]) > 0:
            return True
    # stamps holding NaN after growing cannot be compared
    return np.isnan(extract_array(clean, (first[0] + 6, first[1] + 6), p,
                                  mode="partial", fill_value=0.)).any()

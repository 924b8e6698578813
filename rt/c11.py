"""Truncation of the Karhunen-Loeve expansion."""
from rt.common import need, np, stars, close, err
from properimage import SingleImage

RULE = ("crafted spectra (equal, dominated, decaying, exactly on the "
        "threshold, negative rounding, zero tails) given to the real "
        "truncation through a subclass, and real spectra; decreasing losses; "
        "non-trivial: more than one component kept somewhere")
LOSS = [0.999, 0.9, 0.75, 0.5, 0.25, 0.2, 0.1, 0.05, 0.01, 1e-3]


class Store:
    """Stand-in for the stamp store, holding given stamps."""

    def __init__(self, st):
        self.st = st

    def load(self, i):
        return [self.st[int(i)].copy()]


class Many(SingleImage):
    """An image with the given number of stars; the stamps are given too."""

    n_sources = 0


class Crafted(SingleImage):
    """The stars and the spectrum are given; everything else is real."""

    craft = None

    @property
    def eigenv(self):
        return self.craft if self.craft is not None else super().eigenv


def cases(seed, tier):
    r = np.random.default_rng(seed + 11)
    for k in range(700 if tier == "quick" else 3000):
        if k % 40 == 3:
            yield {"kind": "many", "rseed": int(r.integers(1 << 30)),
                   "n": [251, 252, 256, 270][k // 40 % 4]}
        yield {"seed": int(r.integers(5)), "kind": str(r.choice(
            ["real", "equal", "dom", "decay", "rand", "exact", "neg", "tail",
             "one", "quarter"])),
            "rseed": int(r.integers(1 << 30)), "cov": bool(r.integers(4) > 0),
            "smooth": bool(r.integers(6) == 0)}


def nontrivial(s):
    return s["kind"] not in ("one", "dom")


def spectrum(s, n):
    r = np.random.default_rng(s["rseed"])
    k = s["kind"]
    if k == "equal":
        v = np.ones(n)
    elif k == "dom":
        v = np.r_[np.full(n - 1, 1e-4), 10.0]
    elif k == "decay":
        v = 0.5 ** np.arange(n)[::-1]
    elif k == "exact":
        v = np.zeros(n)
        v[-4:] = [1, 1, 2, 4]
    elif k == "quarter":
        v = np.zeros(n)
        v[-4:] = 1
    elif k == "neg":
        v = np.sort(r.random(n)) - 0.1
    elif k == "tail":
        v = np.zeros(n)
        v[-(n // 2):] = np.sort(r.random(n // 2))
    elif k == "one":
        v = np.zeros(n)
        v[-1] = 1
    else:
        v = np.sort(r.exponential(1, n)) ** 2
    q, _ = np.linalg.qr(r.normal(0, 1, (n, n)))
    return np.sort(v), q


def many(s):
    """More than 250 stars: the same truncation, another construction."""
    r = np.random.default_rng(s["rseed"])
    n = s["n"]
    shape = (4, 3)
    st = 1 + r.random((n,) + shape)
    base = np.exp(-((np.mgrid[:4, :3] - 1.4) ** 2).sum(0))
    st = 5 * base + .3 * r.random((n,) + shape)
    a = stars(70, (80, 84), n=16)
    with Many(a, stamp_shape=(9, 9)) as im:
        im.stamps_pos
        db = im.db
        try:
            im.db, im.n_sources, im.stamp_shape = Store(st), n, shape
            c = im.cov_matrix
            flat = st.reshape(n, -1)
            need(close(c, flat @ flat.T, 1e-9),
                 "the matrix is not that of the inner products of the stamps")
            vals, vecs = im.eigenv
            power = np.abs(vals) / np.abs(vals).sum()
            left = 1 - np.cumsum(power[::-1])
            for loss in [0.0, 1e-6, 1e-4, 1e-3, 0.01, 0.2]:
                im.inf_loss = loss
                basis = im.kl_basis
                k = len(basis)
                need(1 <= k <= n, f"{k} components of {n}")
                need(left[k - 1] <= loss + 1e-9 or k == n,
                     f"{k} components leave out {left[k - 1]:.4g} > {loss}")
                need(k == 1 or left[k - 2] > loss - 1e-9,
                     f"{k} components for loss {loss}")
                for i, b in enumerate(basis[:12]):
                    w = np.tensordot(vecs[:, n - 1 - i], st, 1)
                    w = w / w.sum()
                    w = w - abs(w.min())
                    w = w / w.sum()
                    need(close(b, w, 1e-5), f"component {i} is not the "
                         "combination given by its eigenvector")
        finally:
            im.db = db


def check(s):
    if s["kind"] == "many":
        return many(s)
    a = stars(70 + s["seed"], (80, 84), n=16, varpsf=.8, noise=3.0)
    with Crafted(a, stamp_shape=(9, 9), smooth_psf=s["smooth"]) as im:
        n = im.n_sources
        if s["cov"] or s["kind"] == "real":
            im.cov_matrix
        if s["kind"] != "real":
            im.craft = spectrum(s, n)
        vals, vecs = im.eigenv
        need(np.all(np.diff(vals) >= -1e-12), "eigenvalues not ascending")
        st = np.array([im.db.load(j)[0] for j in range(n)])
        power = np.abs(vals) / np.abs(vals).sum()
        counts = []
        prev = None
        for loss in LOSS:
            _, basis = im.get_variable_psf(inf_loss=loss)
            basis = [np.array(b) for b in basis]
            b2 = im.kl_basis
            need(len(b2) == len(basis), "kl_basis and get_variable_psf differ")
            k = len(basis)
            counts.append(k)
            left = 1 - np.cumsum(power[::-1])
            tol = 1e-9
            need(1 <= k <= n, f"{k} components of {n}")
            need(left[k - 1] <= loss + tol or k == n,
                 f"{k} components leave out {left[k - 1]:.4g} > {loss}")
            if k > 1:
                need(left[k - 2] > loss - tol,
                     f"{k} components for loss {loss}, {k - 1} leave out only "
                     f"{left[k - 2]:.4g}")
            for i, b in enumerate(basis):
                w = np.tensordot(vecs[:, n - 1 - i], st, 1)
                if s["smooth"]:
                    continue
                need(b.shape == w.shape, "component shape")
                # the component up to the normalisation of the stamps branch
                if hasattr(im, "_m") and k > 1:
                    need(close(b, w, 1e-6), f"component {i} is not the "
                         f"combination given by eigenvector: {err(b, w)}")
                else:
                    A = np.c_[w.ravel(), np.ones(w.size)]
                    if hasattr(im, "_m"):
                        A = A[:, :1]
                    c, *_ = np.linalg.lstsq(A, b.ravel(), rcond=None)
                    need(close(A @ c, b.ravel(), 1e-5),
                         f"component {i} is not the combination of the stamps")
            if prev is not None and len(prev) > 1:
                need(all(close(p, q, 1e-9) for p, q in zip(prev, basis)),
                     "a smaller loss changed the leading components")
            prev = basis
        need(counts == sorted(counts), f"counts {counts} for falling losses")
        if s["kind"] == "exact":
            need(counts[LOSS.index(0.5)] == 1 and counts[LOSS.index(0.25)] == 2,
                 f"counts {counts} on exact thresholds")
        if s["kind"] == "quarter":
            need(counts[LOSS.index(0.75)] == 1 and counts[LOSS.index(0.5)] == 2
                 and counts[LOSS.index(0.25)] == 3, f"counts {counts}")
        # the coefficients are fitted to the matching eigenvector entries
        if s["kind"] != "real" or n < 3:
            return
        af, basis = im.get_variable_psf(inf_loss=0.05)
        if af[0] is None:
            return
        from astropy.modeling import fitting, models

        pos = im.stamps_pos
        for i, f in enumerate(af):
            ref = fitting.LinearLSQFitter()(
                models.Polynomial2D(degree=3), pos[:, 0], pos[:, 1],
                vecs[:, n - 1 - i])
            need(close(f(pos[:, 0], pos[:, 1]), ref(pos[:, 0], pos[:, 1]), 1e-6),
                 f"coefficient field {i} is not fitted to eigenvector {i}")

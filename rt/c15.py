"""transparency: least-squares zero points of the commonly matched stars."""
from rt.common import need, np, close
from properimage import utils

RULE = ("stub images with crafted catalogues (permuted, missing, spurious, "
        "ambiguous and shifted stars), 2 to 6 images, with and without a "
        "separate master, and repeated or interleaved matchings; non-trivial: "
        "at least one common star and two images")
RADIUS = 2.0


class Img:
    """What transparency uses of an image."""

    def __init__(self, cat):
        self._best_sources = cat

    @property
    def best_sources(self):
        return self._best_sources

    def update_sources(self, new_sources=None):
        del self._best_sources
        self._best_sources = new_sources


def cases(seed, tier):
    r = np.random.default_rng(seed)
    for k in range(3000 if tier == "quick" else 12000):
        yield {"seed": int(r.integers(1 << 30)), "p": int(r.integers(1, 7)),
               "n": int(r.choice([0, 1, 2, 3, 5, 8, 15])),
               "miss": float(r.choice([0, 0, 0.1, 0.3, 0.9])),
               "extra": int(r.choice([0, 1, 4])),
               "order": str(r.choice(["same", "perm", "flux"])),
               "master": bool(r.integers(4) == 0),
               "again": str(r.choice(["no", "twice", "roles", "sub", "other"])),
               "dup": bool(r.integers(4) == 0)}


def build(s):
    r = np.random.default_rng(s["seed"])
    p = s["p"] + (1 if s["master"] else 0)
    n = s["n"]
    # stars at least 6 pixels apart
    grid = r.permutation(64)[:n]
    xy = np.c_[grid % 8, grid // 8] * 8.0 + r.random((n, 2)) * 2
    mags = r.uniform(-14, -8, n)
    zp = np.r_[0, r.normal(0, 1, p)]
    cats = []
    dt = [("npix", int), ("x", float), ("y", float), ("flux", float),
          ("flag", int)]
    for k in range(p):
        keep = r.random(n) >= (s["miss"] if n else 0)
        sh = r.normal(0, 0.15, (n, 2))
        idx = np.flatnonzero(keep)
        if s["order"] == "perm":
            idx = r.permutation(idx)
        if s["order"] == "flux":
            idx = idx[np.argsort(mags[idx])]
        x = xy[idx] + sh[idx]
        f = 10 ** (-0.4 * (mags[idx] + zp[k])) * (1 + r.normal(0, .02, len(idx)))
        ex = s["extra"] if k % 2 else s["extra"] // 2
        if ex:
            x = np.r_[x, r.random((ex, 2)) * 64 + 200 + 40 * k]
            f = np.r_[f, r.uniform(100, 1000, ex)]
        if s["dup"] and len(idx):
            # a second source next to a star: only the nearest is matched
            x = np.r_[x, xy[idx[:1]] + 1.3]
            f = np.r_[f, 77.0]
        c = np.zeros(len(f), dtype=dt)
        c["x"], c["y"], c["flux"] = x[:, 0], x[:, 1], f
        c["npix"] = np.arange(len(f)) + 9
        cats.append(c)
    return cats


def expected(cats, with_master=False):
    m = cats[0]
    p = len(cats)
    links = []
    common = np.ones(len(m), bool)
    for c in cats[1:]:
        lk = np.full(len(m), -1)
        if len(m) and len(c):
            d = np.hypot(m["x"][:, None] - c["x"], m["y"][:, None] - c["y"])
            j, i = d.argmin(1), d.argmin(0)
            for a in range(len(m)):
                if i[j[a]] == a and d[a, j[a]] < RADIUS:
                    lk[a] = j[a]
        links.append(lk)
        common &= lk >= 0
    q = int(common.sum())
    if q == 0:
        return None
    stars = np.flatnonzero(common)
    A = np.zeros((p * q, p + q))
    b = np.zeros(p * q)
    for k in range(p):
        for t, st in enumerate(stars):
            f = m["flux"][st] if k == 0 else cats[k]["flux"][links[k - 1][st]]
            A[k * q + t, k] = 1
            A[k * q + t, p + t] = 1
            b[k * q + t] = -2.5 * np.log10(f) + 20.0
    sol = np.linalg.lstsq(A, b, rcond=None)[0]
    return sol[:p], sol[p:]


def nontrivial(s):
    return s["n"] > 0 and s["p"] > 1


def run(imgs, master=None):
    return utils.transparency(imgs, master=master) if master is not None \
        else utils.transparency(imgs)


def judge(res, cats, what):
    want = expected(cats)
    zps, mm = res
    p = len(cats)
    need(np.shape(zps) == (p,), f"{what}: {np.shape(zps)} zero points for {p}")
    if want is None:
        need(np.all(np.asarray(zps) == 1.0),
             f"{what}: no common star but zero points {zps}")
        return
    need(np.shape(mm) == want[1].shape, f"{what}: {np.shape(mm)} mean "
         f"magnitudes, {want[1].shape} common stars")
    need(np.allclose(zps, want[0], rtol=1e-4, atol=1e-3),
         f"{what}: zero points {zps}, least squares {want[0]}")
    need(np.allclose(np.sort(mm), np.sort(want[1]), rtol=1e-4, atol=1e-3),
         f"{what}: mean magnitudes {mm} vs {want[1]}")


def check(s):
    cats = build(s)
    if s["p"] < 1 or not all(len(c) for c in cats):
        return
    imgs = [Img(c.copy()) for c in cats]

    def go(sel, what, master=None):
        ims = [imgs[k] for k in sel]
        cs = [cats[k] for k in sel]
        if master is not None:
            judge(run(ims, imgs[master]), [cats[master]] + cs, what)
        else:
            judge(run(ims), cs, what)

    n = len(imgs)
    if s["again"] == "roles" and n > 1:
        go(list(range(n))[::-1], "first, reversed")
    elif s["again"] == "sub" and n > 2:
        go([1, 2], "first, a part")
    elif s["again"] == "other":
        r = np.random.default_rng(s["seed"] + 1)
        go(r.permutation(n).tolist(), "first, permuted")
    if s["master"]:
        go(list(range(1, n)), "with a master", 0)
    else:
        go(list(range(n)), "call")
    if s["again"] in ("twice", "roles"):
        go(list(range(n)), "again")
    # positions and fluxes are kept, source by source
    for im, c in zip(imgs, cats):
        g = im.best_sources
        need(len(g) == len(c), "sources lost")
        a = sorted(zip(g["x"], g["y"], g["flux"], g["npix"]))
        b = sorted(zip(c["x"], c["y"], c["flux"], c["npix"]))
        need(a == b, "the catalogue rows are mixed up")

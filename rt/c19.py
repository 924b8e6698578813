"""Simulation tools."""
from rt.common import need, np, close
from properimage import simtools
from scipy import signal
from scipy.ndimage import rotate

RULE = ("sizes, widths, rotations, positions, weights, signal-to-noise "
        "ratios, noise kinds and seeds, with draws before; non-trivial: all")


def cases(seed, tier):
    r = np.random.default_rng(seed)
    N = 1 if tier == "quick" else 25
    for n in list(range(1, 30)) + [31, 40, 41, 1.0, 2.3, 7.5]:
        for fw in (0.4, 0.5, 1.0, 2.3, 3.0, 5.0):
            yield {"what": "Psf", "N": n, "fw": fw, "fy": 0, "theta": 0}
            if n == int(n):
                yield {"what": "astropy", "N": int(n), "fw": fw}
    for _ in range(60 * N):
        yield {"what": "Psf", "N": int(r.integers(3, 45)),
               "fw": float(r.uniform(.4, 9)), "fy": float(r.uniform(.4, 9)),
               "theta": float(r.choice([0, 0, 30, 45, 90, 150]))}
        yield {"what": "Psff", "N": float(r.uniform(8, 40)),
               "fw": float(r.uniform(.8, 9)), "fy": float(r.uniform(.8, 9)),
               "theta": float(r.choice([0, 0, 30]))}
        yield {"what": "astropy", "N": int(r.integers(1, 60)),
               "fw": float(r.uniform(.35, 6))}
        yield {"what": "airy", "N": int(r.integers(1, 26)),
               "w": float(r.uniform(.5, 8))}
        yield {"what": "delta", "N": int(r.integers(2, 40)),
               "k": int(r.integers(0, 12)), "seed": int(r.integers(1 << 30)),
               "kind": str(r.choice(["center", "list", "zip", "zipw", "arr",
                                     "listw", "floatw", "npw", "dup"]))}
    for _ in range(40 * N):
        yield {"what": "image", "N": int(r.integers(24, 60)),
               "fw": float(r.choice([2, 3, 4.5, 5])),
               "fy": float(r.choice([0, 0, 3, 4])),
               "theta": float(r.choice([0, 0, 45, 30])),
               "SN": float(r.choice([2, 10, 30, 1000])),
               "pdf": str(r.choice(["poisson", "gaussian"])),
               "bias": float(r.choice([100.0, 0.0, 317.5])),
               "seed": int(r.integers(0, 50)),
               "before": int(r.integers(3))}
    for _ in range(4 * N):
        yield {"what": "sim_varpsf", "nstars": int(r.choice([8, 16, 41, 60])),
               "SN": float(r.choice([5, 30.0])), "seed": int(r.integers(0, 40)),
               "N": int(r.choice([64, 100]))}


def check(s):
    globals()["ck_" + s["what"].replace("Psff", "Psf")](s)


def ck_Psf(s):
    p = simtools.Psf(s["N"], s["fw"], s["fy"], s["theta"])
    need(np.isfinite(p).all(), "PSF not finite")
    need(abs(p.sum() - 1) < 1e-9, f"PSF sums to {p.sum()}")
    if s["theta"] == 0:
        need((p >= 0).all(), "negative PSF")
        need(p.shape == (int(s["N"]), int(s["N"])), "PSF size")
    q = simtools.Psf(s["N"], s["fw"], s["fy"], s["theta"])
    need(np.array_equal(p, q), "not reproducible")


def ck_astropy(s):
    p = simtools.astropy_Psf(s["N"], s["fw"])
    need(p.shape == (s["N"], s["N"]), "size")
    need(np.isfinite(p).all() and (p >= 0).all(), "PSF negative")
    need(abs(p.sum() - 1) < 1e-9, f"sums to {p.sum()}")


def ck_airy(s):
    N = s["N"]
    a = simtools.airy_patron(N, s["w"])
    need(a.shape == (N, N), "size")
    need(np.isfinite(a).all(), "Airy pattern not finite")
    need((a >= 0).all(), "negative")
    mu = (N - 1) / 2
    ii, jj = np.mgrid[:N, :N]
    d = np.hypot(ii - mu, jj - mu)
    cen = d <= d.min() + 1e-9
    need(a[cen].min() >= a.max() - 1e-12, "the maximum is not at the centre")
    if N % 2:
        need(abs(a[N // 2, N // 2] - 1.0) < 1e-9, "centre value")
    need(np.allclose(a, a[::-1]) and np.allclose(a, a.T), "not symmetric")


def ck_delta(s):
    N, k = s["N"], s["k"]
    r = np.random.default_rng(s["seed"])
    if s["kind"] == "center":
        m = simtools.delta_point(N)
        w = np.zeros((N, N))
        w[int(N / 2.0), int(N / 2.0)] = 1
        need(np.array_equal(m, w), "centred delta")
        return
    pos = r.permutation(N * N)[:k]
    k = len(pos)
    x, y = pos // N, pos % N
    wt = None
    if s["kind"] in ("zipw", "listw"):
        wt = list(r.uniform(.5, 100, k))
    if s["kind"] == "npw":
        wt = r.uniform(.5, 100, k)
    if s["kind"] == "floatw":
        wt = [float(i + 2) for i in range(k)]
    xy = {"zip": zip(x, y), "zipw": zip(x, y),
          "arr": np.c_[x, y]}.get(s["kind"], [(int(a), int(b))
                                              for a, b in zip(x, y)])
    m = simtools.delta_point(N, center=False, xy=xy, weights=wt)
    w = np.zeros((N, N))
    for i in range(k):
        w[x[i], y[i]] = 1.0 if wt is None else wt[i]
    need(m.shape == (N, N), "size")
    need(np.array_equal(m, w), "a pixel does not hold its own weight")


def ck_image(s):
    N = s["N"]
    r = np.random.default_rng(s["seed"] + 7)
    MF = np.zeros((N, N))
    MF[r.integers(0, N, 6), r.integers(0, N, 6)] = r.uniform(100, 9000, 6)
    M0 = MF.copy()
    kw = dict(Y_FWHM=s["fy"], theta=s["theta"], SN=s["SN"], bkg_pdf=s["pdf"],
              seed=s["seed"], bias=s["bias"])
    im = simtools.image(MF, N, 1.0, s["fw"], **kw)
    for _ in range(s["before"]):
        simtools.image(M0, N, 1.0, s["fw"], **{**kw, "seed": None})
        np.random.random(3)
    im2 = simtools.image(MF, N, 1.0, s["fw"], **kw)
    need(np.array_equal(im, im2), "the seeded image changes between calls")
    need(np.array_equal(MF, M0), "the source frame is changed")
    fw = max(s["fw"], s["fy"])
    P = simtools.Psf(5 * fw, s["fw"], s["fy"], s["theta"])
    # the convolution, done independently with zero padding
    full = signal.convolve2d(M0, P, mode="full")
    o = [(a - 1) // 2 for a in P.shape]
    src = full[o[0]:o[0] + N, o[1]:o[1] + N]
    noise = im - src - s["bias"]
    b = src.max()
    n = N * N
    if s["pdf"] == "poisson":
        mean = b / s["SN"]
        need(np.allclose(noise, np.round(noise), atol=1e-3 + 1e-6 * b),
             "Poisson noise is not made of counts")
        need((noise > -1e-2).all(), "negative counts")
        need(abs(noise.mean() - mean) < 6 * np.sqrt(max(mean, 1e-9) / n) + 1e-2
             + 1e-4 * mean,
             f"mean count {noise.mean()}, not {mean}")
    else:
        sd = b / s["SN"]
        need(abs(noise.mean()) < 6 * sd / np.sqrt(n), "noise mean")
        need(abs(noise.std() / sd - 1) < 6 / np.sqrt(2 * n),
             f"noise deviation {noise.std()}, not {sd}")
    im3 = simtools.image(MF, N, 1.0, s["fw"], **{**kw, "seed": s["seed"] + 1})
    need(not np.array_equal(im, im3), "the seed has no effect")


def ck_sim_varpsf(s):
    a = simtools.sim_varpsf(s["nstars"], SN=s["SN"], N=s["N"], seed=s["seed"])
    simtools.sim_varpsf(8, N=64)
    b = simtools.sim_varpsf(s["nstars"], SN=s["SN"], N=s["N"], seed=s["seed"])
    need(np.array_equal(a, b), "seeded frame changes between calls")
    need(a.shape == (2 * s["N"],) * 2 and np.isfinite(a).all(), "frame")
    # every quadrant holds its stars above the two biases
    N = s["N"]
    for i in range(2):
        for j in range(2):
            q = a[i * N:(i + 1) * N, j * N:(j + 1) * N]
            need(abs(np.median(q) - 200.0) < 60, "bias of a quadrant")
            need(q.max() > 260, "no star in a quadrant")

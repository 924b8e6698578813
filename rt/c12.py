"""PSF normalisation and local PSFs."""
from rt.common import need, np, stars, close, err
from scipy.ndimage import convolve
from properimage import SingleImage

RULE = ("star frames with constant and varying PSF, stamp shapes (odd, even, "
        "non-square), losses giving one and several components, positions "
        "over the whole frame incl. corners, edges and outside by rounding; "
        "non-trivial: several components or an edge position")


def cases(seed, tier):
    r = np.random.default_rng(seed + 12)
    for k in range(450 if tier == "quick" else 1500):
        yield {"seed": int(r.integers(8)),
               "stamp": [None, (9, 9), (8, 8), (9, 11), (7, 7)]
               [int(r.integers(5))],
               "loss": float(r.choice([0.9, 0.5, 0.2, 0.1, 0.03])),
               "shape": [[80, 84], [90, 70]][int(r.integers(2))],
               "pos": [[float(v) for v in r.random(2)] for _ in range(4)]
               + [[0, 0], [1, 1], [0, 1], [.5, .5], [0, .4], [.3, 1]]}


def nontrivial(s):
    return True


def check(s):
    a = stars(90 + s["seed"], tuple(s["shape"]), n=16,
              varpsf=[0, .8][s["seed"] % 2], noise=3.0)
    st = None if s["stamp"] is None else tuple(s["stamp"])
    with SingleImage(a, stamp_shape=st) as im:
        af, basis = im.get_variable_psf(inf_loss=s["loss"])
        basis = [np.array(b) for b in basis]
        sh = basis[0].shape
        if len(basis) == 1:
            need(abs(basis[0].sum() - 1) < 1e-6,
                 f"the PSF sums to {basis[0].sum()}")
            need(af[0] is None, "coefficients for one component")
            need(abs(im.kl_basis[0].sum() - 1) < 1e-6,
                 f"kl_basis sums to {im.kl_basis[0].sum()}")
        else:
            need(len(af) == len(basis), "one coefficient field per component")
        need(sh == tuple(im.stamp_shape), "stamp size")
        N = im.data.shape
        x, y = np.mgrid[: N[0], : N[1]]
        if len(basis) == 1:
            pass
        else:
            norm = np.zeros(N, dtype=np.float32)
            for f, b in zip(af, basis):
                norm += convolve(f(x, y), b)
            need(close(im.normal_image, norm, 1e-4),
                 "normalisation image: " + err(im.normal_image, norm))
        for u, v in s["pos"]:
            px, py = u * (N[0] - 1), v * (N[1] - 1)
            p = im.get_psf_xy(px, py)
            need(p.shape == sh, f"local PSF has shape {p.shape}, not {sh}")
            need(np.isfinite(p).all(), "local PSF not finite")
            need(abs(p.sum() - 1) < 1e-6, f"local PSF sums to {p.sum()}")
            if len(basis) == 1:
                need(close(p, basis[0], 1e-9), "local PSF of a single one")
                continue
            xi, yi = int(np.round(px)), int(np.round(py))
            x0, y0 = xi - (sh[0] - 1) // 2, yi - (sh[1] - 1) // 2
            gx, gy = np.mgrid[x0:x0 + sh[0], y0:y0 + sh[1]]
            nn = im.normal_image[np.clip(gx, 0, N[0] - 1),
                                 np.clip(gy, 0, N[1] - 1)]
            w = sum(b * f(gx, gy) / nn for b, f in zip(basis, af))
            w = w / w.sum()
            inside = (x0 >= 0 and y0 >= 0 and x0 + sh[0] <= N[0]
                      and y0 + sh[1] <= N[1])
            if inside:
                need(close(p, w, 1e-5), f"local PSF at {px},{py}: {err(p, w)}")

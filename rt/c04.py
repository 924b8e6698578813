"""coadd: sum over the images."""
from scipy.ndimage import center_of_mass, fourier_shift

from rt import imgs
from rt.common import need, np, close, err
import properimage.utils as _u
from properimage import operations

_tr = _u.transparency
ZPS = {"v": None}


def _fake_tr(images, master=None):
    r = _tr(images, master) if master is not None else _tr(images)
    return r if ZPS["v"] is None else (np.array(ZPS["v"][:len(r[0])]), r[1])


_u.transparency = _fake_tr

RULE = ("lists of 1 to 5 images of several sizes, noises and PSFs (one or "
        "several components), chosen zero points, worker counts from 1 to "
        "beyond the number of images, products accessed before; non-trivial: "
        "at least two images")


def cases(seed, tier, salt=4):
    r = np.random.default_rng(seed + salt)
    for k in range(400 if tier == "quick" else 1500):
        n = int(r.integers(1, 6))
        yield {"seed": int(r.integers(40)), "N": n,
               "shape": [[80, 84], [90, 72], [81, 81]][int(r.integers(3))],
               "n": 14, "stamp": [9, 9], "var": float(r.choice([0, 0, .8])),
               "mask": "own", "loss": float(r.choice([.5, .2, .1, .04])),
               "procs": int(r.integers(1, n + 3)),
               "zps": ([None, [1.] * 6, [1., 2., 3., .5, .7, 4.],
                        [20.1, 20.7, 19.5, 20.9, 21., 22.]]
                       [int(r.integers(4))]),
               "pre": bool(r.integers(3) == 0), "perm": int(r.integers(99))}


def nontrivial(s):
    return s["N"] > 1


def fft(a, s=None):
    return np.fft.fft2(a, s=s, norm="ortho")


def parts(im, loss):
    """(matched filter transform, PSF power) of an image, from its public
    products and its current zero point."""
    af, basis = im.kl_afields, im.kl_basis
    basis = [np.array(b) for b in basis]
    sh = im.data.shape
    c = center_of_mass(basis[0])
    if af[0] is None:
        s = im.interped_hat * fft(basis[0], sh).conj()
        s = fourier_shift(s, c)
    else:
        x, y = np.mgrid[: sh[0], : sh[1]]
        s = 0
        for a, b in zip(af, basis):
            s = s + fourier_shift(
                fft(im.interped * a(x, y) / im.normal_image)
                * fft(b, sh).conj(), c)
    p = sum(np.abs(fft(b, sh)) ** 2 for b in basis)
    return im.zp / im.var**2 * s, (im.zp / im.var) ** 2 * p


def do(s, procs=None):
    ims = [imgs.image(s, k, False) for k in range(s["N"])]
    try:
        if s.get("pre"):
            for i in ims[::2]:
                i.s_hat_comp
                i.psf_hat_sqnorm()
        ZPS["v"] = s["zps"]
        try:
            out = operations.coadd(list(ims), align=False, inf_loss=s["loss"],
                                   n_procs=s["procs"] if procs is None
                                   else procs)
        finally:
            ZPS["v"] = None
        if s["zps"]:
            for i, z in zip(ims, s["zps"]):
                need(i.zp == z, "the zero point of an image was lost")
        S = P = 0
        for i in ims:
            need(i.inf_loss == s["loss"], "the information loss was lost")
            a, b = parts(i, s["loss"])
            S, P = S + a, P + b
        shapes = max(i.stamp_shape[0] for i in ims)
        return out, S, P, shapes, ims
    finally:
        for i in ims:
            i._clean()


def check(s):
    (R, P, m), S, Pw, st, _ = do(s)
    need(np.shape(R) == np.shape(S), "shape")
    want = np.fft.ifft2(S / np.sqrt(Pw), norm="ortho")
    # one constant, which depends on the frame size only
    c = np.vdot(want, R) / np.vdot(want, want)
    n = R.size
    need(close(R, c * want, 1e-5), f"coadd: {err(R, c * want)}")
    need(abs(c.imag) < 1e-6 * abs(c)
         and (abs(c.real - 1 / np.sqrt(n)) < 1e-5 / np.sqrt(n)
              or abs(c.real - 1) < 1e-5), f"scale {c} of the coadd")
    p = np.fft.ifft2(fourier_shift(np.sqrt(Pw.astype(complex)), (st, st)))
    p = p / p.sum()
    need(close(P, p, 1e-5), f"coadd PSF: {err(P, p)}")
    need(abs(P.sum() - 1) < 1e-6, f"the coadd PSF sums to {P.sum()}")

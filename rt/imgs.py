"""Pairs and lists of measured images, cached per process."""
from rt.common import np, stars
from properimage import SingleImage
from properimage.single_image import SingleImageGaussPSF

_cache = {}


def frame(spec, k):
    sh = tuple(spec["shape"])
    seed = spec["seed"] % 1000
    a = stars(seed, sh, n=spec.get("n", 18), noise=spec.get("noise", 4.0) *
              (1 + .5 * k), noise_seed=seed * 7 + k,
              fw=3.0 + .4 * k, fy=(3.4 if spec.get("ell") and k == 0 else None),
              bkg=200.0 + 40 * k, flux=1.0 + .3 * k,
              varpsf=spec.get("var", 0.0))
    m = np.zeros(sh, bool)
    r = np.random.default_rng(seed + 31 * k)
    mk = spec.get("mask", "own")
    if mk == "own" or (mk == "first" and k == 0) or (mk == "last" and
                                                     k == spec.get("last", 1)):
        m[r.integers(0, sh[0], 3), r.integers(0, sh[1], 3)] = True
        i, j = r.integers(4, sh[0] - 12), r.integers(4, sh[1] - 12)
        m[i:i + 3, j:j + 4] = True
    elif mk == "same":
        m[7:10, 12:15] = True
    return a, m


def image(spec, k, gauss):
    a, m = frame(spec, k)
    cls = SingleImageGaussPSF if gauss else SingleImage
    st = spec.get("stamp")
    kw = {} if st is None else {"stamp_shape": tuple(st)}
    if spec.get("mask") == "nomask":
        return cls(a, **kw)
    return cls(a, mask=m, **kw)

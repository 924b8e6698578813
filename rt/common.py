"""Shared helpers of the run-time contract checks (run under the repository's
own interpreter, against /repo's working tree)."""
import os
import sys
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")

REPO = os.environ.get("PV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import logging  # noqa: E402

logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402


class Broken(Exception):
    """The property does not hold on the case."""


def need(cond, msg):
    if not cond:
        raise Broken(msg)


def rng_of(*key):
    import hashlib

    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def close(a, b, rtol=1e-6, atol=0.0):
    """Arrays equal up to rounding relative to the largest value."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    a = np.where(na, 0, a)
    b = np.where(nb, 0, b)
    with np.errstate(all="ignore"):
        scale = np.max(np.abs(b))
        d = np.abs(a - b)
    if not np.isfinite(scale):
        fin = np.isfinite(b)
        if (np.isfinite(a) != fin).any() or (a[~fin] != b[~fin]).any():
            return False
        a, b = a[fin], b[fin]
        if a.size == 0:
            return True
        scale = np.max(np.abs(b))
        d = np.abs(a - b)
    return bool(np.max(d) <= rtol * scale + atol)


def err(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    with np.errstate(all="ignore"):
        m = np.nanmax(np.abs(a - b)) if a.size else 0
        s = np.nanmax(np.abs(b)) if b.size else 0
    return f"max deviation {m:.3g} of values up to {s:.3g}"


def gauss(n, fw, fy=None):
    fy = fw if fy is None else fy
    g = np.arange(n) - (n - 1) / 2
    sx, sy = fw / 2.335, fy / 2.335
    p = np.exp(-g[:, None] ** 2 / 2 / sx**2) * np.exp(-g[None, :] ** 2 / 2 / sy**2)
    return p / p.sum()


def stars(seed, shape=(128, 128), n=25, bkg=200.0, noise=5.0, fw=3.0, fy=None,
          flux=1.0, noise_seed=None, varpsf=0.0, step=800.0):
    """A frame with n isolated-ish stars over a noisy background."""
    r = np.random.default_rng(seed)
    im = np.zeros(shape)
    for i in range(n):
        x = int(r.integers(7, max(8, shape[0] - 20)))
        y = int(r.integers(7, max(8, shape[1] - 20)))
        f = fw * (1 + varpsf * x / shape[0])
        im[x:x + 11, y:y + 11] += gauss(11, f, fy) * (i + 5) * step
    r2 = np.random.default_rng(seed + 100 if noise_seed is None else noise_seed)
    return im * flux + bkg + r2.normal(0, noise, shape)


def scratch():
    """A scratch directory of this run (created by the driver)."""
    return os.environ["PV_SCRATCH"]

"""subtract: the returned products (C01), selection (C02) and mask (C03)."""
import numpy as _np
import scipy.optimize as _opt

CALLS = []
FORCE = {"x": None, "fail": False, "run": False}
_ls, _ms = _opt.least_squares, _opt.minimize_scalar


def _answer(kind, fun, x0, kw, real):
    CALLS.append({"kind": kind, "fun": fun, "x0": x0, "kw": kw})
    if FORCE["run"]:
        res = real()
    else:
        x = FORCE["x"]
        res = _opt.OptimizeResult(
            x=x if kind == "ms" else _np.atleast_1d(_np.asarray(x, float)),
            success=True, cost=0.0, fun=0.0, status=1, message="", nfev=1)
    if FORCE["fail"]:
        res.success = False
        res.status = 0
    CALLS[-1]["res"] = res
    return res


def least_squares(fun, x0, *a, **kw):
    return _answer("ls", fun, x0, dict(kw, _args=a),
                   lambda: _ls(fun, x0, *a, **kw))


def minimize_scalar(fun, *a, **kw):
    return _answer("ms", fun, None, dict(kw, _args=a),
                   lambda: _ms(fun, *a, **kw))


_opt.least_squares = least_squares
_opt.minimize_scalar = minimize_scalar

from rt.common import need, np, close, err  # noqa: E402
from rt import imgs, subspec  # noqa: E402
import properimage.utils as _u  # noqa: E402
from properimage import operations  # noqa: E402

_tr = _u.transparency
ZPS = {"v": None}


def _fake_tr(images, master=None):
    r = _tr(images, master) if master is not None else _tr(images)
    return r if ZPS["v"] is None else (np.array(ZPS["v"]), r[1])


_u.transparency = _fake_tr

RULE = ("image pairs of several sizes, aspect ratios, noises, PSF widths and "
        "masks, all option combinations (flux fitting, shift fitting, "
        "iterative, fitted or measured PSF), chosen zero points, the solver's "
        "answer chosen over its whole range, failing, or real; non-trivial: all")
SHAPES = [[100, 100], [96, 120], [121, 97], [104, 99]]


def cases(seed, tier, salt=1):
    r = np.random.default_rng(seed + 100 * salt)
    for k in range(240 if tier == "quick" else 1500):
        big = int(r.integers(6)) == 0
        yield {"seed": int(r.integers(40)),
               "shape": ([[222, 231], [240, 216]][int(r.integers(2))]
                         if big else SHAPES[int(r.integers(4))]),
               "n": 24 if big else 18,
               "beta": bool(k & 1), "shift": bool(k & 2),
               "iterative": bool(k & 4), "fitted": bool(r.integers(3) > 0),
               "ell": bool(r.integers(2)),
               "loss": float(r.choice([.25, .25, .5])),
               "mask": str(r.choice(["own", "same", "none", "first", "last",
                                     "nomask"])),
               "zps": ([None, [1., 1.], [2., 3.], [1.5, .4], [20.3, 21.]]
                       [int(r.integers(5))]),
               "x": [float(r.choice([.1, .5, 1., 2.7, 10.])),
                     float(r.choice([-.9, -.3, 0., .2, .6, .9])),
                     float(r.choice([-.7, -.4, 0., .5, .8]))],
               "fail": bool(r.integers(4) == 0),
               "run": bool(r.integers(12) == 0),
               "arrays": bool(r.integers(8) == 0)}


def do(s):
    """Run a case: returns what the checks need."""
    fit = s["fitted"]
    ref = imgs.image(s, 0, fit)
    new = imgs.image(s, 1, fit)
    try:
        ZPS["v"] = None
        CALLS.clear()
        FORCE["fail"], FORCE["run"] = s["fail"], s["run"]
        b, dx, dy = s["x"]
        if s["beta"]:
            FORCE["x"] = [b, dx, dy] if s["shift"] else b
        else:
            FORCE["x"] = [dx, dy]
        ZPS["v"] = s["zps"]
        out = operations.subtract(
            ref, new, align=False, inf_loss=s["loss"], beta=s["beta"],
            shift=s["shift"], iterative=s["iterative"], fitted_psf=fit)
        ZPS["v"] = None
        calls = list(CALLS)
        psf = []
        for im in (ref, new):
            _, p = im.get_variable_psf(s["loss"])
            psf.append(subspec.gauss_psf(p[1], im.data.shape) if fit
                       else np.array(p[0]))
        sub = subspec.Sub(ref, new, *psf)
        return ref, new, out, calls, sub
    finally:
        ZPS["v"] = None
        ref._clean()
        new._clean()


def selected(s, ref, new, calls):
    """The flux ratio and shift the property wants used."""
    ratio = new.zp / ref.zp
    if not (s["beta"] or s["shift"]):
        return ratio, 0.0, 0.0
    if not calls:
        return None
    res = calls[-1]["res"]
    if not res.success:
        return ratio, 0.0, 0.0
    x = np.atleast_1d(res.x)
    if s["beta"] and s["shift"]:
        return tuple(float(v) for v in x)
    if s["beta"]:
        return float(x[0]), 0.0, 0.0
    return ratio, float(x[0]), float(x[1])


def check(s):
    ref, new, out, calls, sub = do(s)
    sel = selected(s, ref, new, calls)
    D, P, S, mask = out
    if sel is None:
        # another optimiser: nothing observed, C02 judges the selection
        return
    wD, wP, wS = sub.products(*sel)
    need(np.shape(D) == sub.sh and np.shape(P) == sub.sh
         and np.shape(S) == sub.sh, "shapes of the products")
    need(close(D, wD, 1e-5), f"difference image: {err(D, wD)} (b, dx, dy = "
         f"{sel})")
    need(close(P, wP, 1e-5), f"difference PSF: {err(P, wP)}")
    need(close(S, wS, 1e-4), f"significance image: {err(S, wS)}")
    if s["arrays"]:
        sizes(s)


def sizes(s):
    a, m = imgs.frame(s, 0)
    b, _ = imgs.frame(s, 1)
    for c in (b[:-1], b[:, :-2], b.T if b.shape[0] != b.shape[1] else b[1:]):
        try:
            FORCE["x"] = [1., 0., 0.]
            operations.subtract(a.copy(), c.copy(), beta=s["beta"],
                                shift=s["shift"], iterative=s["iterative"],
                                fitted_psf=s["fitted"])
        except ValueError:
            continue
        need(False, f"images of shapes {a.shape} and {c.shape} subtracted")

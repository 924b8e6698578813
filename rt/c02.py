"""subtract: selection of the flux ratio and the shift."""
from rt import c01
from rt.c01 import CALLS, RULE  # noqa: F401
from rt.common import need, np, close, err


def cases(seed, tier):
    for s in c01.cases(seed, tier, 2):
        s["arrays"] = False
        if s["shift"] and s["shape"][0] < 200 and s["seed"] % 2:
            s["shape"] = [231, 222]
        yield s


BORDER = 100


def check(s):
    ref, new, out, calls, sub = c01.do(s)
    b0 = new.zp / ref.zp
    if s["zps"]:
        need(abs(b0 - s["zps"][1] / s["zps"][0]) < 1e-12, "zero points lost")
    fits = s["beta"] or s["shift"]
    if not fits:
        need(not calls, "a fit although none was asked")
    sel = c01.selected(s, ref, new, calls)
    if sel is None:
        return
    wD, wP, _ = sub.products(*sel)
    need(close(out[0], wD, 1e-5), "the difference image is not that of "
         f"b, dx, dy = {sel}: {err(out[0], wD)}")
    need(close(out[1], wP, 1e-5), f"the PSF is not that of b = {sel[0]}")
    if not fits:
        return
    need(len(calls) == 1, f"{len(calls)} fits")
    c = calls[0]
    x0, fun, kw = c["x0"], c["fun"], c["kw"]
    start = [b0] * s["beta"] + [0.0, 0.0] * s["shift"]
    lo = [0.1] * s["beta"] + [-.9, -.9] * s["shift"]
    hi = [10.0] * s["beta"] + [.9, .9] * s["shift"]
    if c["kind"] == "ls":
        need(np.allclose(np.atleast_1d(np.asarray(x0, float)), start),
             f"the fit starts at {x0}, not {start}")
    bd = kw.get("bounds", kw["_args"][0] if kw["_args"] else None)
    need(bd is not None, "unbounded fit")
    gl = np.broadcast_to(np.asarray(bd[0], float).ravel(), (len(lo),)) \
        if np.ndim(bd[0]) == 0 else np.asarray(bd[0], float)
    gh = np.broadcast_to(np.asarray(bd[1], float).ravel(), (len(lo),)) \
        if np.ndim(bd[1]) == 0 else np.asarray(bd[1], float)
    need(np.allclose(gl, lo) and np.allclose(gh, hi), f"bounds {bd}")
    r = np.random.default_rng(s["seed"])
    for _ in range(4):
        v = [float(r.uniform(l, h)) for l, h in zip(lo, hi)]
        b = v[0] if s["beta"] else b0
        dx, dy = v[-2:] if s["shift"] else (0.0, 0.0)
        arg = np.array(v) if (c["kind"] == "ls" and len(v) > 1) else v[0]
        if c["kind"] == "ls" and len(v) == 1:
            arg = np.array([v[0]])
        got = float(np.ravel(fun(arg))[0])
        want = sub.cost(b, dx, dy, BORDER if s["shift"] else 0, s["shift"]) \
            if (not s["shift"] or min(sub.sh) > 2 * BORDER) else None
        if want is not None:
            need(abs(got - want) <= 1e-4 * max(abs(want), 1e-12),
                 f"objective {got} at {v}, the residual is {want}")
    if s["run"] and not s["fail"]:
        x = np.atleast_1d(calls[0]["res"].x)
        need((x >= np.array(lo) - 1e-9).all() and
             (x <= np.array(hi) + 1e-9).all(), f"solution {x} out of range")

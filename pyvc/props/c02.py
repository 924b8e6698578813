"""C02: the selection of the flux ratio and the shift of a subtraction."""
from pyvc import core, prove
from pyvc.arrays import SArr, asarray
from pyvc.core import (AND, C, EQ, LE, LT, ONE, SNum, ZERO, app, fresh, lift,
                       num_e)
from . import subtract as D

TENTH, NINE = num_e(0.1), num_e(0.9)


def contracts(R):
    W, ops, si = D.setup(R)
    R.assume_text("an objective may be scaled by a positive constant (one, or "
                  "over the number of pixels)")

    def goals(o, r):
        F = D.F
        b0 = app("zp_n", (), "real") / app("zp_r", (), "real")
        want = 1 if o.beta or o.shift else 0
        if len(o.opts) != want:
            R.fail(F, "one minimisation when a fit is asked for, none else",
                   f"{len(o.opts)} with beta={o.beta}, shift={o.shift}")
            return
        R.add(F, "one minimisation when a fit is asked for, none else",
              "proved", "path")
        sel = D.selection(o)
        s = D.Spec(o)
        b, dx, dy = [SNum(x, "f") for x in sel]
        D.prove_arr(R, "D is that of the selected values", r[0],
                    s.D(b, dx, dy), s.sh)
        D.prove_arr(R, "P is that of the selected values", r[1], s.P(b), s.sh)
        if not want:
            return
        m = o.opts[0]
        n = (1 if o.beta else 0) + (2 if o.shift else 0)
        start = [b0] * o.beta + [ZERO, ZERO] * o.shift
        lo = [TENTH] * o.beta + [-NINE] * (2 * o.shift)
        hi = [lift(10)] * o.beta + [NINE] * (2 * o.shift)
        if m.dims != n:
            R.fail(F, "the fitted values are those asked for",
                   f"{m.dims} values")
            return
        if m.x0 is not None:
            R.prove(F, "the fit starts at the zero-point ratio and no shift",
                    AND(*[EQ(x, y) for x, y in zip(m.x0, start)]))
        R.prove(F, "ratios from 0.1 to 10, shifts within 0.9 pixel",
                AND(*[EQ(x, y) for x, y in zip(m.lo + m.hi, lo + hi)]))

    def on_fit(o, m):
        b0 = app("zp_n", (), "real") / app("zp_r", (), "real")
        n = (1 if o.beta else 0) + (2 if o.shift else 0)
        if m.dims == n:
            objective(R, o, D.Spec(o), m, b0,
                      [TENTH] * o.beta + [-NINE] * (2 * o.shift),
                      [lift(10)] * o.beta + [NINE] * (2 * o.shift))
    D.explore(R, goals, W, ops, si, on_fit)


def objective(R, o, s, m, b0, lo, hi):
    F, name = D.F, ("the objective is the absolute residual of the trial "
                    "difference image without the masked pixels")
    vs = [fresh("trial", "real") for _ in lo]
    for v, a, z in zip(vs, lo, hi):
        C.assume(LE(a, v))
        C.assume(LE(v, z))
    ns = [SNum(v, "f") for v in vs]
    arg = asarray(ns) if m.kind == "least_squares" else ns[0]
    try:
        got = m.fun(arg)
    except D.ABORT as e:
        if not D.genuine(e):
            raise
        R.fail(F, name, f"{type(e).__name__}: {e}")
        return
    if isinstance(got, SArr):
        got = got.at(tuple(ZERO for _ in got.shape_e))
    b = ns[0] if o.beta else SNum(b0, "f")
    dx, dy = ns[-2:] if o.shift else (SNum(ZERO, "f"), SNum(ZERO, "f"))
    want, sh = s.cost(b, dx, dy, o.border if o.shift else 0)
    size = ONE
    for d in sh:
        size = size * d
    got = num_e(got) if not isinstance(got, core.E) else got
    if o.shift and C.decide(EQ(size, ZERO)):
        return      # nothing is left of the image inside of the border
    mean = core.fn("abs", ONE / size)
    ks = (mean, ONE) if o.shift else (ONE, mean)
    for k in ks:
        if got == k * want:
            R.add(F, name, "proved", "normal form")
            return
    pr = prove.Prover(6000, 10)
    if pr.prove(list(C.pc), EQ(got, ks[1] * want)) == "proved":
        R.add(F, name, "proved", sorted(pr.by))
        return
    R.prove(F, name, EQ(got, ks[0] * want))

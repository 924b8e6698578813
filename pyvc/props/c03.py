"""C03: the returned masks are the unions of the masks of the images."""
from pyvc.arrays import MaybeMask, NoMask, SArr
from pyvc.core import AND, BAPP, EQ, IFF, LE, LT, OR, ZERO, fresh
from . import coadd, subtract as D


def contracts(R):
    W, ops, si = D.setup(R)
    F = D.F

    def goals(o, r):
        m = r[3]
        if m is NoMask or isinstance(m, MaybeMask) or not isinstance(
                m, SArr) or m.dtype_ != "b" or len(m.shape_e) != 2:
            R.fail(F, "the mask is a boolean array", repr(m)[:200])
            return
        R.prove(F, "the mask has the shape of the images", AND(*[
            EQ(a, b) for a, b in zip(m.shape_e, (o.H, o.W))]))
        ts = (fresh("t"), fresh("t"))
        rng = [f for t, s in zip(ts, (o.H, o.W))
               for f in (LE(ZERO, t), LT(t, s))]
        R.prove(F, "flagged exactly when flagged in one of the images", IFF(
            m.at(ts), OR(BAPP("mask_r", *ts), BAPP("mask_n", *ts))), rng)
    D.explore(R, goals, W, ops, si)

    W, ops, si = coadd.setup(R)

    def goals2(fam, inf, Rr, P, mask):
        coadd.mask_goal(R, fam, mask)
    coadd.explore(R, goals2, W, ops, si)

"""C01: the products of a subtraction."""
from pyvc.core import SNum
from . import subtract as D


def contracts(R):
    W, ops, si = D.setup(R)
    D.sizes(R, W, ops, si)

    def goals(o, r):
        sel = D.selection(o)
        if sel is None:
            R.fail(D.F, "one selection", f"{len(o.opts)} minimisations")
            return
        b, dx, dy = [SNum(x, "f") for x in sel]
        s = D.Spec(o)
        wD = s.D(b, dx, dy)
        wP = s.P(b)
        D.prove_arr(R, "D", r[0], wD, s.sh)
        D.prove_arr(R, "P", r[1], wP, s.sh)
        wS = s.S(b, s.centre(wP))
        D.prove_arr(R, "S_corr", r[2], wS, s.sh)
    D.explore(R, goals, W, ops, si)

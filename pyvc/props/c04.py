"""C04: the coadd sums every image exactly once with its own weight."""
from . import coadd as D


def contracts(R):
    W, ops, si = D.setup(R)

    def goals(fam, inf, Rr, P, mask):
        D.SCALE.pop(R, None)   # any constant on each path
        D.image_goals(R, fam, inf, Rr, P)
    D.explore(R, goals, W, ops, si)

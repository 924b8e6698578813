"""C05: the coadd does not depend on the number of workers.

Every result of coadd is proved equal to a term that does not mention the
number of workers (the sums over the images, and the union of the masks)."""
from . import coadd as D


def contracts(R):
    W, ops, si = D.setup(R)

    def goals(fam, inf, Rr, P, mask):
        D.image_goals(R, fam, inf, Rr, P)
        D.mask_goal(R, fam, mask)
    D.explore(R, goals, W, ops, si)

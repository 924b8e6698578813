"""C11: the PSF basis is the shortest leading part of the expansion allowed."""
from pyvc import core
from pyvc.arrays import SArr
from pyvc.core import (AND, BALL, C, EQ, LE, LT, NOT, ONE, OR, SNum,
                       Unsupported, ZERO, app, fresh, lift, mk, mk_sum, num_e,
                       subst)
from pyvc.expr import fn
from pyvc.instrument import genuine
from pyvc.seqs import PList
from pyvc.shims import LIBS
from .image import inside, shims, stubbed

F = "SingleImage._setup_kl_basis"
FC = "SingleImage.cov_matrix"


class Stamps:
    """The stamp store: load(i) gives a list with a copy of stamp i."""

    def __init__(self, n, s):
        self.n, self.s = n, s

    def load(self, k):
        k = num_e(k)
        if not C.decide(AND(LE(ZERO, k), LT(k, self.n))):
            raise Unsupported("no such stamp")
        return PList([SArr.of(self.s, lambda i: stamp(k, i), "f")])

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"stamp store: {n}")


def stamp(k, i):
    return app("stamp", (k,) + tuple(i), "real")


def contracts(R):
    R.function(FC, "requires stored stamps of the stamp shape; ensures the "
               "covariance matrix of the stamps (their inner products for "
               "more than 250)")
    R.function("SingleImage.eigenv", "ensures the eigenvalues and "
               "eigenvectors of that matrix; ValueError when they cannot be "
               "computed")
    R.function(F, "requires a loss of at least zero and a total power that is "
               "not zero; ensures at least one component, in decreasing order "
               "of eigenvalue, the fewest that leave out no more than the "
               "loss; component k is the combination of the stamps given by "
               "its eigenvector (normalised to unit sum when it is the only "
               "one)")
    R.function("SingleImage.kl_basis", "returns that basis")
    R.assume_text("the stamps are stored in step with their count (C14); "
                  "numpy.linalg.eigh gives the eigenvalues in increasing "
                  "order; for more than 250 stars the combination is shifted "
                  "and scaled by the code's own normalisation")
    W = R.world()
    si = W.module("single_image")
    cls = stubbed(si.SingleImage, ("data", "mask", "n_sources", "stamps_pos"))
    for many in (False, True):
        R.run(lambda: one(R, si, cls, many))


def one(R, si, cls, many):
    n = fresh("n")
    s = (fresh("s"), fresh("s"))
    for v in (n,) + s:
        C.assume(LT(ZERO, v))
    C.assume(LT(lift(250), n) if many else LE(n, lift(250)))
    o = object.__new__(cls)
    o.__dict__["_smooth_autopsf"] = False
    o.__dict__["pv_n_sources"] = mk(n, "i")
    o.stamp_shape = (mk(s[0], "i"), mk(s[1], "i"))
    o.db = Stamps(n, s)
    loss = fresh("loss", "real")
    C.assume(LE(ZERO, loss))
    o.inf_loss = SNum(loss, "f")
    try:
        val, vec = o.eigenv
    except Exception as e:
        if not genuine(e):
            raise
        if isinstance(e, ValueError) and (C.known(core.BAPP("eigh fails"))
                                          or C.known(EQ(n, ONE))):
            return
        R.fail("SingleImage.eigenv", "no exception",
               f"{type(e).__name__}: {e}")
        return
    # the matrix it must be the decomposition of
    if many:
        def inner(i):
            c = fresh("c")
            return mk_sum(ZERO, s[0] * s[1], c, stamp(i[0], split(
                c, s[1])) * stamp(i[1], split(c, s[1])))
        cov = SArr.of((n, n), inner, "f")
    else:
        m = SArr.of((s[0] * s[1], n), lambda i: stamp(i[1], split(
            i[0], s[1])), "f")
        cov = LIBS["numpy"].cov(m, rowvar=False)
    c = o.cov_matrix
    t = (fresh("t"), fresh("t"))
    rng = inside(t, (n, n))
    R.prove(FC, "the matrix of the stamps", AND(
        EQ(c.shape_e[0], n), EQ(c.shape_e[1], n), EQ(c.at(t), cov.at(t))),
        rng)
    wval, wvec = LIBS["numpy"].linalg.eigh(c)
    R.prove("SingleImage.eigenv", "the decomposition of that matrix", AND(
        EQ(val.at(t[:1]), wval.at(t[:1])), EQ(vec.at(t), wvec.at(t))), rng)
    try:
        r = o.kl_basis
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(F, "no exception", f"{type(e).__name__}: {e}")
        return

    def power(k):
        return fn("abs", val.at((n - 1 - k,)))

    j = fresh("j")
    total = mk_sum(ZERO, n, j, fn("abs", val.at((j,))))
    C.assume(LT(ZERO, total))

    def left(k, last=None):
        """what components 0..k-1 (and k, for last) leave out"""
        j = fresh("j")
        return ONE - (mk_sum(ZERO, k, j, power(j)) + (
            power(k) if last else ZERO)) / total

    K = r.length() if isinstance(r, PList) else lift(len(r))
    R.prove(F, "at least one component, at most one per star", AND(
        LE(ONE, K), LE(K, n)))
    R.prove(F, "no more than the loss is left out", OR(
        LE(left(K), loss), EQ(K, n)))
    k = fresh("k")
    R.prove(F, "no shorter part would do", LT(
        loss, left(k, True)), [LE(ZERO, k), LT(k + 1, K)])
    q = fresh("q")
    C.assume(LE(ZERO, q))
    C.assume(LT(q, K))
    a = r.elem(q)
    rng = inside(t, s)
    if len(a.shape_e) != 2:
        R.fail(F, "a component has the shape of the stamps", "")
        return
    R.prove(F, "a component has the shape of the stamps", AND(
        EQ(a.shape_e[0], s[0]), EQ(a.shape_e[1], s[1])))

    def comp(i):
        j = fresh("j")
        return mk_sum(ZERO, n, j, vec.at((j, n - 1 - q)) * stamp(j, i))

    want = SArr.of(s, comp, "f")
    np = LIBS["numpy"]
    if many:
        # the code's own normalisation
        want = want / np.sum(want)
        want = want - abs(np.min(want))
        want = want / np.sum(want)
    if many or not C.known(LT(ONE, K)):
        if C.decide(EQ(K, ONE)):
            want = want / np.sum(want)
    R.prove(F, "a component is the combination of the stamps given by its "
            "eigenvector", EQ(a.at(t), want.at(t)), rng, soft=many)


def split(x, w):
    d = fn("floor", x / w)
    return (d, x - d * w)

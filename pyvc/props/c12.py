"""C12: the PSFs handed out for the image are normalised to unit sum."""
from pyvc import core, loops
from pyvc.arrays import SArr, asarray
from pyvc.core import (AND, C, EQ, LE, LT, NOT, ONE, OR, SNum, Unsupported,
                       ZERO, app, fresh, lift, mk, mk_sum, num_e)
from pyvc.expr import fn
from pyvc.instrument import genuine
from pyvc.seqs import PList
from pyvc.shims import LIBS
from .c11 import Stamps
from .image import inside, stubbed

F = "SingleImage.get_psf_xy"
FB = "SingleImage._setup_kl_basis"
FA = "SingleImage._setup_kl_a_fields"
FN = "SingleImage.normal_image"
FV = "SingleImage.get_variable_psf"


class Field:
    """A fitted coefficient field: a function of two coordinates."""

    def __init__(self, k):
        self.k = k

    def __call__(self, x, y):
        x, y = asarray(x), asarray(y)
        f, g = x.getter(), y.getter()
        if len(x.shape_e) != len(y.shape_e):
            raise Unsupported("coordinates of different shapes")
        return SArr.of(x.shape_e, lambda i: app(
            "field", (self.k, f(i), g(i)), "real"), "f")

    def _pv_subst(self, mp):
        return Field(core.subst(self.k, mp))

    def _pv_terms(self):
        return [self.k]


def comp(k, i):
    return app("component", (k,) + tuple(i), "real")


def total(s, f):
    u, v = fresh("u"), fresh("v")
    return mk_sum(ZERO, s[0], u, mk_sum(ZERO, s[1], v, f((u, v))))


def contracts(R):
    R.function(F, "requires components of the stamp size, coefficient fields "
               "and a normalisation image of the size of the image, and a "
               "weighted sum that is not zero in total; ensures a PSF of the "
               "stamp size and of unit sum, in proportion to the sum of the "
               "components weighted by their fields over the normalisation "
               "where the window is inside of the image; the component for a "
               "single one")
    R.function(FN, "ensures the sum over the components of the coefficient "
               "field convolved with the component; the convolution of ones "
               "with a single component")
    R.function(FB, "ensures that a single component sums to one, smoothed or "
               "not")
    R.function(FA, "ensures the coefficient fields [None] for one component")
    R.function(FV, "ensures that a single component sums to one")
    R.function("SingleImage.kl_afields", "returns those fields")
    R.assume_text("the sums divided by are not zero; positions are finite")
    W = R.world()
    si = W.module("single_image")
    local = stubbed(si.SingleImage, ("data", "mask", "kl_basis", "kl_afields",
                                     "normal_image"))
    R.run(lambda: at(R, local))
    norm = stubbed(si.SingleImage, ("data", "mask", "kl_basis", "kl_afields"))
    R.run(lambda: normal(R, norm))
    one = stubbed(si.SingleImage, ("data", "mask", "eigenv", "n_sources",
                                   "best_sources", "stamps_pos"))
    for smooth in (False, True):
        for few in (True, False):
            R.run(lambda: alone(R, one, smooth, few))


def blank(cls, n):
    o = object.__new__(cls)
    o.__dict__["pv_data"] = LIBS["numpy"].ma.asarray(SArr.of(
        n, lambda i: app("pix", tuple(i), "real"), "f"))
    o.__dict__["_smooth_autopsf"] = False
    return o


def at(R, cls):
    n = (fresh("n"), fresh("n"))
    s = (fresh("s"), fresh("s"))
    m = fresh("m")
    for v in n + s + (m,):
        C.assume(LT(ZERO, v))
    o = blank(cls, n)
    many = C.decide(LT(ONE, m))
    if many:
        basis = PList(n=m, get=lambda k: SArr.of(s, lambda i: comp(k, i),
                                                 "f"))
        fields = PList(n=m, get=Field)
    else:
        basis = PList([SArr.of(s, lambda i: comp(ZERO, i), "f")])
        fields = PList([None])
    o.__dict__["pv_kl_basis"] = basis
    o.__dict__["pv_kl_afields"] = fields
    o.__dict__["pv_normal_image"] = SArr.of(n, lambda i: app(
        "normal", tuple(i), "real"), "f")
    o.stamp_shape = (mk(s[0], "i"), mk(s[1], "i"))
    x, y = fresh("x", "real"), fresh("y", "real")
    try:
        r = asarray(o.get_psf_xy(SNum(x, "f"), SNum(y, "f")))
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(F, "no exception", f"{type(e).__name__}: {e}")
        return
    if len(r.shape_e) != 2:
        R.fail(F, "the local PSF has the stamp size", "")
        return
    R.prove(F, "the local PSF has the stamp size", AND(
        EQ(r.shape_e[0], s[0]), EQ(r.shape_e[1], s[1])))
    t = (fresh("t"), fresh("t"))
    rng = inside(t, s)
    if not many:
        R.prove(F, "a single component is the local PSF everywhere",
                EQ(r.at(t), comp(ZERO, t)), rng)
        return
    # the corner of the window centred at the nearest pixel
    c = [fn("round", v) - fn("floor", (w - 1) / 2) for v, w in zip((x, y), s)]
    inn = AND(*[f for v, w, b in zip(c, s, n)
                for f in (LE(ZERO, v), LE(v + w, b))])

    def weighted(i):
        p = tuple(a + b for a, b in zip(c, i))
        k = fresh("k")
        return mk_sum(ZERO, m, k, comp(k, i) * app(
            "field", (k,) + p, "real")) / app("normal", p, "real")

    if C.decide(inn):
        tot = total(s, weighted)
        C.assume(NOT(EQ(tot, ZERO)))
        R.prove(F, "inside, the local PSF is the normalised weighted sum",
                EQ(r.at(t) * tot, weighted(t)), rng)
    unit(R, F, "the local PSF sums to one", r, s)


def normal(R, cls):
    n = (fresh("n"), fresh("n"))
    s = (fresh("s"), fresh("s"))
    m = fresh("m")
    for v in n + s + (m,):
        C.assume(LT(ZERO, v))
    o = blank(cls, n)
    many = C.decide(LT(ONE, m))
    loss = fresh("loss", "real")
    o.inf_loss = SNum(loss, "f")
    np = LIBS["numpy"]
    nd = LIBS["scipy.ndimage"]

    def one(k):
        return SArr.of(s, lambda i: comp(k, i), "f")
    if many:
        basis = PList(n=m, get=one)
        fields = PList(n=m, get=Field)
    else:
        basis = PList([one(ZERO)])
        fields = PList([None])
        tot = total(s, lambda i: comp(ZERO, i))
        C.assume(EQ(tot, ONE))
    o.__dict__["pv_kl_basis"] = basis
    o.__dict__["pv_kl_afields"] = fields
    o.__dict__["_kl_basis"] = basis
    o.__dict__["_kl_basis_inf_loss"] = o.inf_loss
    o.__dict__["_a_fields"] = fields
    o.__dict__["_a_fields_inf_loss"] = o.inf_loss
    o.stamp_shape = (mk(s[0], "i"), mk(s[1], "i"))
    try:
        r = asarray(o.normal_image)
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(FN, "no exception", f"{type(e).__name__}: {e}")
        return
    if len(r.shape_e) != 2:
        R.fail(FN, "the shape of the image", "")
        return
    R.prove(FN, "the shape of the image", AND(
        EQ(r.shape_e[0], n[0]), EQ(r.shape_e[1], n[1])))
    t = (fresh("t"), fresh("t"))
    rng = inside(t, n)
    if many:
        k = fresh("k")
        want = mk_sum(ZERO, m, k, nd.convolve(SArr.of(n, lambda i: app(
            "field", (k,) + tuple(i), "real"), "f"), one(k)).at(t))
    else:
        want = LIBS["astropy.convolution"].convolve_fft(
            np.ones((mk(n[0], "i"), mk(n[1], "i"))),
            one(ZERO) / SNum(tot, "f")).at(t)
    R.prove(FN, "the weighted components summed" if many else
            "the response to a constant", EQ(r.at(t), want), rng, soft=True)


def unit(R, name, what, r, s):
    """Σ r = 1, given that r = q / Σ q for some q with Σ q != 0."""
    tot = total(s, lambda i: r.at(i))
    for a in divisors(tot):
        C.assume(NOT(EQ(a, ZERO)))
    R.prove(name, what, EQ(tot, ONE))


def divisors(x):
    """What a term divides by (outside of sums)."""
    out = []
    for mono in x.terms:
        for a, e in mono:
            if e < 0:
                out.append(core.atom_e(a))
            elif a.kind == "inv":
                out.append(a.args[0])
    return out


def alone(R, cls, smooth, few):
    n = (fresh("n"), fresh("n"))
    s = (fresh("s"), fresh("s"))
    N = fresh("N")
    for v in n + s + (N,):
        C.assume(LT(ZERO, v))
    o = blank(cls, n)
    o.__dict__["_smooth_autopsf"] = smooth
    o.__dict__["pv_n_sources"] = mk(N, "i")
    o.__dict__["pv_eigenv"] = (
        SArr.of((N,), lambda i: app("val", tuple(i), "real"), "f"),
        SArr.of((N, N), lambda i: app("vec", tuple(i), "real"), "f"))
    o.__dict__["pv_stamps_pos"] = SArr.of((N, lift(2)), lambda i: app(
        "pos", tuple(i), "real"), "f")
    o.stamp_shape = (mk(s[0], "i"), mk(s[1], "i"))
    if few:
        o.__dict__["_m"] = SArr.of((s[0] * s[1], N), lambda i: app(
            "m", tuple(i), "real"), "f")
    o.db = Stamps(N, s)
    loss = fresh("loss", "real")
    o.inf_loss = SNum(loss, "f")
    try:
        b = o.kl_basis
        K = b.length() if isinstance(b, PList) else lift(len(b))
        if not C.decide(EQ(K, ONE)):
            return
        r = asarray(b[0])
        unit(R, FB, "a single component sums to one", r, s)
        af = o.kl_afields
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(FB, "no exception", f"{type(e).__name__}: {e}")
        return
    if not (len(af) == 1 and af[0] is None):
        R.fail(FA, "no coefficient field for a single component", "")
        return
    R.prove(FA, "no coefficient field for a single component", core.TRUE)
    try:
        af, b = o.get_variable_psf()
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(FV, "no exception", f"{type(e).__name__}: {e}")
        return
    r = asarray(b[0])
    unit(R, FV, "a single component sums to one", r, s)
    R.prove(FV, "a single component comes without coefficients",
            core.TRUE if af[0] is None else core.FALSE)

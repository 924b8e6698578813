"""C10: derived products always reflect the current settings.

Induction over the history, product by product: the attributes a product
leaves behind are those of a fresh image with the settings of its last access.
A product is verified against the contracts of those it is made of."""
from pyvc import core
from pyvc.arrays import SArr, SMa, asarray
from pyvc.core import (AND, BAPP, C, EQ, LE, LT, NOT, ONE, SNum, Unsupported,
                       ZERO, app, fresh, lift, mk, mk_sum, num_e)
from pyvc.expr import fn
from pyvc.instrument import genuine
from pyvc.seqs import PList
from .c11 import Stamps
from .image import inside, stubbed

PRODUCTS = ("kl_basis", "kl_afields", "normal_image", "s_hat_comp",
            "s_component")
GIVEN = ("data", "mask", "n_sources", "eigenv", "stamps_pos", "best_sources",
         "interped", "interped_hat", "_bkg", "stamp_shape")


class Field:
    """A coefficient field of the contract of kl_afields."""

    def __init__(self, loss, k):
        self.loss, self.k = loss, k

    def __call__(self, x, y):
        x, y = asarray(x), asarray(y)
        f, g = x.getter(), y.getter()
        if len(x.shape_e) != len(y.shape_e):
            raise Unsupported("coordinates of different shapes")
        return SArr.of(x.shape_e, lambda i: app(
            "field", (self.loss, self.k, f(i), g(i)), "real"), "f")

    def _pv_subst(self, mp):
        return Field(core.subst(self.loss, mp), core.subst(self.k, mp))

    def _pv_terms(self):
        return [self.loss, self.k]


class Size:
    """The sizes that are the same for both images."""

    def __init__(self):
        self.n = (fresh("n"), fresh("n"))
        self.s = (fresh("s"), fresh("s"))
        self.N = fresh("N")
        for v in self.n + self.s + (self.N,):
            C.assume(LT(ZERO, v))


class Bkg:
    def __init__(self, n):
        self.n = n

    @property
    def globalrms(self):
        v = app("rms", (), "real")
        C.assume(LT(ZERO, v))
        return SNum(v, "f")

    @property
    def globalback(self):
        return SNum(app("globalback", (), "real"), "f")


def comp(loss, k, i):
    return app("component", (loss, k) + tuple(i), "real")


def kept(self, name, make):
    """The value of a contract: one object per setting, as long as it is
    current."""
    c = self.__dict__.setdefault("pv_kept", [])
    key = tuple(num_e(v) for v in (self.zp, self.inf_loss))
    for nm, k, v in c:
        if nm == name and k == key:
            return v
    v = make(*key)
    c.append((name, key, v))
    return v


def many(loss, size):
    """The number of components: one to the number of stars."""
    K = app("K", (loss,), "int")
    C.assume(LE(ONE, K))
    C.assume(LE(K, size.N))
    return K, C.decide(LT(ONE, K))


def basis_of(self):
    s = self.pv_size.s

    def make(zp, loss):
        K, m = many(loss, self.pv_size)
        if m:
            return PList(n=K, get=lambda k: SArr.of(
                s, lambda i: comp(loss, k, i), "f"))
        u, v = fresh("u"), fresh("v")
        C.assume(EQ(mk_sum(ZERO, s[0], u, mk_sum(ZERO, s[1], v, comp(
            loss, ZERO, (u, v)))), ONE))
        return PList([SArr.of(s, lambda i: comp(loss, ZERO, i), "f")])
    return kept(self, "kl_basis", make)


def fields_of(self):
    def make(zp, loss):
        K, m = many(loss, self.pv_size)
        if m:
            return PList(n=K, get=lambda k: Field(loss, k))
        return PList([None])
    return kept(self, "kl_afields", make)


def normal_of(self):
    n = self.pv_size.n
    return kept(self, "normal_image", lambda zp, loss: SArr.of(
        n, lambda i: app("normal", (loss,) + tuple(i), "real"), "f"))


def shat_of(self):
    n = self.pv_size.n
    return kept(self, "s_hat_comp", lambda zp, loss: SArr.of(
        n, lambda i: app("shat", (zp, loss) + tuple(i), "cplx"), "c"))


def gvp_of(self, inf_loss=None, shape=None):
    if inf_loss is not None:
        self.inf_loss = inf_loss
    return [fields_of(self), basis_of(self)]


def set_loss(self, inf_loss=None, updating=False):
    if inf_loss is not None:
        self.inf_loss = inf_loss


CONTRACT = {"kl_basis": property(basis_of), "kl_afields": property(fields_of),
            "normal_image": property(normal_of),
            "s_hat_comp": property(shat_of)}


def kind(si, real):
    """The class with everything but `real` replaced by its contract."""
    base = stubbed(si.SingleImage, GIVEN)
    d = {n: p for n, p in CONTRACT.items() if n not in real}
    if "kl_basis" not in real:
        d["_setup_kl_basis"] = set_loss
        if "kl_afields" not in real:
            d["_setup_kl_a_fields"] = set_loss
            if "get_variable_psf" not in real:
                d["get_variable_psf"] = gvp_of
    for n in list(d):
        if not hasattr(base, n):
            if n.startswith("_"):
                del d[n]
                continue
            raise Unsupported(f"no {n}")
    return type(base.__name__, (base,), d)


def contracts(R):
    for p in PRODUCTS:
        R.function("SingleImage." + p, "ensures, after any accesses and "
                   "changes of the settings, the value for the current zero "
                   "point and information loss, and leaves behind what a "
                   "fresh image with these settings leaves")
    R.function("SingleImage.get_variable_psf", "sets the information loss it "
               "is given; returns the fields and the basis of the current one "
               "and leaves the basis unchanged")
    R.function("SingleImage.zp", "the value assigned last, 1 before")
    R.function("SingleImage.psf_hat_sqnorm", "the value for the current "
               "information loss")
    R.assume_text("the stars, their stamps and covariance, the background and "
                  "the cleaned image do not depend on the zero point and the "
                  "information loss")
    W = R.world()
    si = W.module("single_image")
    owned = {}
    for p in PRODUCTS:
        cls = kind(si, (p,))
        for calls in (False, True) if p in ("kl_basis", "kl_afields") else (
                False,):
            R.run(lambda: history(R, cls, p, owned, calls))
    cls = kind(si, ("get_variable_psf",))
    for given in (False, True):
        R.run(lambda: psf(R, cls, given))
    cls = kind(si, ())
    R.run(lambda: sqnorm(R, cls))
    R.run(lambda: settings(R, cls))
    # no product keeps anything where another does
    names = list(owned)
    bad = [(a, b, owned[a] & owned[b]) for i, a in enumerate(names)
           for b in names[i + 1:] if owned[a] & owned[b]]
    if bad:
        raise Unsupported(f"attributes shared between products: {bad}")
    R.add("SingleImage", "each product keeps attributes of its own", "proved",
          "path")


def image(cls, size):
    n, N = size.n, size.N
    o = object.__new__(cls)
    d = o.__dict__
    d["pv_size"] = size
    d["pv_data"] = SMa(SArr.of(n, lambda i: app("pix", tuple(i), "real"),
                               "f"),
                       SArr.of(n, lambda i: BAPP("msk", *i), "b"))
    d["pv_mask"] = SArr.of(n, lambda i: BAPP("msk", *i), "b")
    d["pv_n_sources"] = mk(N, "i")
    d["pv_eigenv"] = (
        SArr.of((N,), lambda i: app("val", tuple(i), "real"), "f"),
        SArr.of((N, N), lambda i: app("vec", tuple(i), "real"), "f"))
    d["pv_stamps_pos"] = SArr.of((N, lift(2)), lambda i: app(
        "pos", tuple(i), "real"), "f")
    d["pv_interped"] = SArr.of(n, lambda i: app("clean", tuple(i), "real"),
                               "f")
    d["pv_interped_hat"] = SArr.of(n, lambda i: app("cleanhat", tuple(i),
                                                    "cplx"), "c")
    d["pv__bkg"] = Bkg(n)
    d["pv_stamp_shape"] = tuple(mk(v, "i") for v in size.s)
    d["_smooth_autopsf"] = False
    d["_m"] = SArr.of((size.s[0] * size.s[1], N), lambda i: app(
        "m", tuple(i), "real"), "f")
    d["db"] = Stamps(N, size.s)
    return o


def settings_of():
    z, l = fresh("zp", "real"), fresh("loss", "real")
    return z, l


def put(o, st, zp=True, loss=True):
    if zp:
        o.zp = SNum(st[0], "f")
    if loss:
        o.inf_loss = SNum(st[1], "f")


def attrs(o):
    return {k: v for k, v in o.__dict__.items() if not k.startswith("pv_")}


def history(R, cls, p, owned, calls):
    F = "SingleImage." + p
    size = Size()
    a, b, c = settings_of(), settings_of(), settings_of()
    o = image(cls, size)
    try:
        put(o, a)
        before = set(attrs(o))
        getattr(o, p)
        left = {k for k in attrs(o) if k not in before}
        owned.setdefault(p, set()).update(left)
        now = c
        if calls:
            # the loss of the coadd entry point and of get_variable_psf
            f = getattr(o, "_setup_" + {"kl_basis": "kl_basis",
                                        "kl_afields": "kl_a_fields"}[p], None)
            if f is None:
                return
            f(SNum(c[1], "f"))
            if not same(o.inf_loss, SNum(c[1], "f")):
                o.inf_loss = SNum(c[1], "f")
            now = (a[0], c[1])
        else:
            put(o, b)
            which = C.decide(BAPP("only the zero point changes"))
            put(o, c, True, not which)
            now = (c[0], b[1]) if which else c
        got = getattr(o, p)
        fresh_ = image(cls, size)
        put(fresh_, now)
        want = getattr(fresh_, p)
    except Exception as e:
        if not genuine(e):
            raise
        if isinstance(e, AttributeError) and str(e).find("'_") >= 0:
            raise Unsupported(f"{e}") from e
        R.fail(F, "no exception", f"{type(e).__name__}: {e}")
        return
    equal(R, F, "the product is that of a fresh image with the current "
          "settings", got, want, size)
    # what is left behind, too
    x, y = attrs(o), attrs(fresh_)
    for k in sorted(set(x) | set(y)):
        if k in ("db", "_m"):
            continue
        if k not in x or k not in y:
            R.add(F, "what is left behind is that of a fresh image",
                  "unknown", "", f"attribute {k} is not always there")
            continue
        equal(R, F, "what is left behind is that of a fresh image", x[k],
              y[k], size)
    contracts_kept(R, F, o, size)


def contracts_kept(R, F, o, size):
    """What the method was given by its callees is as it was."""
    for nm, key, v in o.__dict__.get("pv_kept", []):
        zp, loss = key
        if nm == "kl_basis":
            equal(R, F, "the basis is left as it was", v, PList(
                n=v.length(), get=lambda k: SArr.of(
                    size.s, lambda i: comp(loss, k, i), "f")), size)
        elif nm == "normal_image":
            equal(R, F, "the normalisation image is left as it was", v,
                  SArr.of(size.n, lambda i: app(
                      "normal", (loss,) + tuple(i), "real"), "f"), size)
        elif nm == "s_hat_comp":
            equal(R, F, "the transform is left as it was", v,
                  SArr.of(size.n, lambda i: app(
                      "shat", (zp, loss) + tuple(i), "cplx"), "c"), size)


def same(a, b):
    return C.known(EQ(num_e(a), num_e(b)))


def equal(R, F, name, a, b, size):
    if a is b or (a is None and b is None):
        R.prove(F, name, core.TRUE)
        return
    if isinstance(a, (list, tuple, PList)) and isinstance(
            b, (list, tuple, PList)):
        la, lb = [x.length() if isinstance(x, PList) else lift(len(x))
                  for x in (a, b)]
        R.prove(F, name, EQ(la, lb))
        c = la.const()
        if c is not None:
            for i in range(int(c)):
                equal(R, F, name, a[i], b[i], size)
            return
        k = fresh("k")
        C.assume(LE(ZERO, k))
        C.assume(LT(k, la))
        equal(R, F, name, a.elem(k), b.elem(k) if isinstance(b, PList)
              else b[mk(k, "i")], size)
        return
    if isinstance(a, SArr) and isinstance(b, SArr) or isinstance(
            a, SMa) and isinstance(b, SMa):
        if isinstance(a, SMa):
            if (a._mask is None) != (b._mask is None):
                R.fail(F, name, "one is masked")
                return
            if a._mask is not None:
                equal(R, F, name, a._mask, b._mask, size)
            a, b = a._data, b._data
        if len(a.shape_e) != len(b.shape_e):
            R.fail(F, name, "shapes differ")
            return
        R.prove(F, name, AND(*[EQ(x, y) for x, y in zip(a.shape_e,
                                                        b.shape_e)]))
        t = tuple(fresh("t") for _ in a.shape_e)
        x, y = a.at(t), b.at(t)
        R.prove(F, name, EQ(x, y) if not isinstance(x, core.B) else core.IFF(
            x, y), inside(t, b.shape_e))
        return
    num = (SNum, int, float)
    if isinstance(a, num) and isinstance(b, num):
        R.prove(F, name, EQ(num_e(a), num_e(b)))
        return
    if callable(a) and callable(b):
        u, v = fresh("u", "real"), fresh("v", "real")
        g = [SArr.of((ONE,), lambda i, w=w: w, "f") for w in (u, v)]
        equal(R, F, name, asarray(a(*g)), asarray(b(*g)), size)
        return
    if isinstance(a, (bool, str)) and a == b:
        R.prove(F, name, core.TRUE)
        return
    if (a is None) != (b is None):
        R.fail(F, name, "one is None")
        return
    raise Unsupported(f"values of kind {type(a).__name__}")


def psf(R, cls, given):
    F = "SingleImage.get_variable_psf"
    size = Size()
    a, b = settings_of(), settings_of()
    o = image(cls, size)
    try:
        put(o, a)
        o.get_variable_psf()
        if given:
            r = o.get_variable_psf(inf_loss=SNum(b[1], "f"))
            now = (a[0], b[1])
        else:
            put(o, b)
            r = o.get_variable_psf()
            now = b
        f, q = r
    except Exception as e:
        if not genuine(e):
            raise
        if isinstance(e, AttributeError) and str(e).find("'_") >= 0:
            raise Unsupported(f"{e}") from e
        R.fail(F, "no exception", f"{type(e).__name__}: {e}")
        return
    R.prove(F, "the information loss is the given one", EQ(num_e(
        o.inf_loss), now[1]))
    n = image(kind_plain(cls), size)
    put(n, now)
    equal(R, F, "the fields are those of the current settings", f,
          fields_of(n), size)
    equal(R, F, "the basis is that of the current settings", q,
          basis_of(n), size)
    contracts_kept(R, F, o, size)


def kind_plain(cls):
    return cls


def sqnorm(R, cls):
    F = "SingleImage.psf_hat_sqnorm"
    size = Size()
    a, b = settings_of(), settings_of()
    o, n = image(cls, size), image(cls, size)
    try:
        put(o, a)
        o.psf_hat_sqnorm()
        put(o, b)
        got = o.psf_hat_sqnorm()
        put(n, b)
        want = n.psf_hat_sqnorm()
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(F, "no exception", f"{type(e).__name__}: {e}")
        return
    equal(R, F, "the value for the current settings", got, want, size)
    contracts_kept(R, F, o, size)


def settings(R, cls):
    F = "SingleImage.zp"
    size = Size()
    a, b = settings_of(), settings_of()
    o = image(cls, size)
    R.prove(F, "one before any is set", EQ(num_e(o.zp), ONE))
    put(o, a)
    put(o, b)
    R.prove(F, "the value assigned last", AND(EQ(num_e(o.zp), b[0]), EQ(
        num_e(o.inf_loss), b[1])))

"""Contracts of operations.subtract.

The two images are any two images known by the contracts of SingleImage:
`interped` (C09), `interped_hat` its transform, `var`, `data` (C07, C08) and
`get_variable_psf` (C12: one component, or the fitted model).
"""
from pyvc import core, expr, prove, shims
from pyvc.arrays import MaybeMask, NoMask, SArr, SMa, num
from pyvc.core import (AND, BAPP, BEX, C, EQ, IFF, LE, LT, NOT, ONE, OR, SNum,
                       TRUE, Unsupported, ZERO, app, fresh, ite, lift, mk,
                       num_e, sqrt, var)
from pyvc.instrument import genuine
from pyvc.seqs import PList

NP = shims.NP
F = "operations.subtract"
ABORT = (ValueError, TypeError, IndexError, KeyError, ZeroDivisionError,
         AttributeError, RuntimeError)


class Gauss:
    """The fitted model of an image: render(out) adds its values to out."""

    def __init__(self, w):
        self.__dict__.update(w=w, x_mean=SNum(app("x_mean_" + w, (), "real"),
                                              "f"),
                             y_mean=SNum(app("y_mean_" + w, (), "real"), "f"),
                             bounding_box="default")

    def __setattr__(self, n, v):
        if n not in ("x_mean", "y_mean", "bounding_box"):
            raise Unsupported(f"parameter {n} of the model")
        self.__dict__[n] = v

    def __getattr__(self, n):
        raise Unsupported(f"model.{n}")

    def values(self, shape):
        return gauss(self.w, num_e(self.x_mean), num_e(self.y_mean), shape,
                     "" if self.bounding_box is None else "_boxed")

    def render(self, out=None, coords=None):
        if out is None or coords is not None:
            raise Unsupported("render arguments")
        v = self.values(out.shape_e)
        out[...] = out + v
        return out


def gauss(w, x, y, shape, tag=""):
    return SArr.of(shape, lambda i: app("gauss_" + w + tag, (x, y) + tuple(i),
                                        "real"), "f")


class Im:
    """One of the two images."""

    def __init__(self, cls, w, H, W, fitted):
        self.__dict__.update(_pv_class=cls, w=w, H=H, W=W, fitted=fitted,
                             loss=None)
        self.__dict__["model"] = Gauss(w)
        self.__dict__["zp_"] = SNum(app("zp_old_" + w, (), "real"), "f")
        nm = "data_" + w
        self.__dict__["pix"] = SMa(
            SArr.of((H, W), lambda i: app(nm, tuple(i), "real"), "f4"),
            SArr.of((H, W), lambda i: BAPP("mask_" + w, *i), "b"))

    @property
    def zp(self):
        return self.zp_

    def __setattr__(self, n, v):
        if n == "zp":
            self.__dict__["zp_"] = v
        else:
            raise Unsupported(f"attribute {n} of an image")

    @property
    def var(self):
        v = app("var_" + self.w, (), "real")
        C.assume(LT(ZERO, v))
        return SNum(v, "f")

    @property
    def data(self):
        return self.pix

    @property
    def mask(self):
        return self.pix.mask

    @property
    def shape(self):
        return self.pix.shape

    @property
    def interped(self):
        nm = "interped_" + self.w
        return SArr.of((self.H, self.W), lambda i: app(nm, tuple(i), "real"),
                       "f")

    @property
    def interped_hat(self):
        return NP.fft.fft2(self.interped, norm="ortho")

    def psf(self, inf_loss=None):
        """The component for a loss, as big as the stamps."""
        l = num_e(inf_loss)
        nm = "psf_" + self.w
        h, w = app("psfH_" + self.w, (), "int"), app("psfW_" + self.w, (),
                                                     "int")
        for a, b in ((h, self.H), (w, self.W)):
            C.assume(LT(ZERO, a))
            C.assume(LE(a, b))
        return SArr.of((h, w), lambda i: app(nm, (l,) + tuple(i), "real"),
                       "f")

    def get_variable_psf(self, inf_loss=None, shape=None):
        if inf_loss is None or shape is not None:
            raise Unsupported("get_variable_psf arguments")
        if self.fitted:
            m = self.model
            return PList([None]), PList([gauss(
                self.w, num_e(m.x_mean), num_e(m.y_mean),
                (app("psfH_" + self.w, (), "int"),
                 app("psfW_" + self.w, (), "int"))), m])
        return PList([None]), PList([self.psf(inf_loss)])

    def _clean(self):
        pass

    def __getattr__(self, n):
        if n.startswith("_pv"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of an image")


class U:
    def __init__(self):
        def transparency(images, master=None):
            ims = list(images)
            for k, x in enumerate(ims):
                if not isinstance(x, Im):
                    raise Unsupported("transparency of something else")
            zs = [app("zp_" + x.w, (), "real") for x in ims]
            for z in zs:
                C.assume(LT(ZERO, z))
            z = SArr.of((lift(len(zs)),), lambda i: pick(zs, i[0]), "f")
            return z, SArr.of((fresh("stars"),), lambda i: app(
                "meanmag", i, "real"), "f")
        self.transparency = transparency

    def __getattr__(self, n):
        raise Unsupported(f"utils.{n} has no contract here")


def pick(zs, i):
    k = i.const()
    if k is not None:
        return zs[int(k)]
    r = zs[-1]
    for j in range(len(zs) - 2, -1, -1):
        r = ite(EQ(i, lift(j)), zs[j], r)
    return r


def setup(R):
    W = R.world()
    ops = W.module("operations")
    si = W.module("single_image")
    R.function(F, "ensures the products are those of the selected flux ratio "
               "and shift, for every pair of equally sized images and every "
               "combination of beta, shift, iterative and fitted_psf")
    R.assume_text("the images are known by the contracts of SingleImage (C07, "
                  "C08, C09, C12: a measured PSF has one component); "
                  "utils.transparency returns one positive zero point per "
                  "image (C15); model.render adds the model to the array it "
                  "is given; align=False")
    R.assume_text("arithmetic is over the reals and complex numbers; pixels "
                  "hold no NaN (C09)")
    return W, ops, si


class Opts:
    pass


def explore(R, goals, W, ops, si, on_fit=None):
    """Run subtract for every combination of the options; on_fit(o, record) is
    called at every minimisation."""
    ops.u = U()
    seen = set()
    shims.ON_OPT.clear()

    def body():
        o = Opts()
        o.fitted = C.decide(EQ(fresh("fitted"), ZERO))
        o.beta = C.decide(EQ(fresh("beta"), ZERO))
        o.shift = C.decide(EQ(fresh("shift"), ZERO))
        o.iterative = C.decide(EQ(fresh("iterative"), ZERO))
        H, Wd = fresh("H"), fresh("W")
        for x in (H, Wd):
            C.assume(LT(ZERO, x))
        cls = si.SingleImageGaussPSF if o.fitted else si.SingleImage
        o.ref = Im(cls, "r", H, Wd, o.fitted)
        o.new = Im(cls, "n", H, Wd, o.fitted)
        o.H, o.W = H, Wd
        o.loss = SNum(fresh("inf_loss", "real"), "f")
        o.border = getattr(ops, "OPT_BORDER", 0)
        o.eps = ops.eps
        shims.OPTS.clear()
        if on_fit is not None:
            def hook(r):
                key = frozenset(C.pc)
                if key in seen:
                    return
                seen.add(key)
                first = expr._fresh[0]
                core.explore(lambda: on_fit(o, r))
                expr._fresh[0] = first      # its terms are forgotten
            shims.ON_OPT[:] = [hook]
        try:
            r = ops.subtract(o.ref, o.new, align=False, inf_loss=o.loss,
                             beta=o.beta, shift=o.shift,
                             iterative=o.iterative, fitted_psf=o.fitted)
        except ABORT as e:
            if not genuine(e):
                raise
            if str(e) == "`x0` is infeasible":
                # the property is about fits that can start
                R.cover("start out of the bounds")
                return
            if str(e).startswith("Impossible to acquire center"):
                return
            R.fail(F, "no exception", f"{type(e).__name__}: {e}")
            return
        o.opts = list(shims.OPTS)
        R.cover(f"fitted={o.fitted} beta={o.beta} shift={o.shift} "
                f"iterative={o.iterative}")
        goals(o, list(r))
    R.run(body, 2000)


def sizes(R, W, ops, si):
    """Images of different sizes are refused."""
    ops.u = U()

    def body():
        d = [fresh(x) for x in ("H", "W", "H2", "W2")]
        for x in d:
            C.assume(LT(ZERO, x))
        C.assume(OR(NOT(EQ(d[0], d[2])), NOT(EQ(d[1], d[3]))))
        cls = si.SingleImage
        try:
            ops.subtract(Im(cls, "r", *d[:2], False),
                         Im(cls, "n", *d[2:], False), align=False,
                         fitted_psf=False)
        except ValueError as e:
            if not genuine(e):
                raise
            R.cover("another size")
            return
        except ABORT as e:
            if not genuine(e):
                raise
            R.fail(F, "another size is refused with ValueError", repr(e))
            return
        R.fail(F, "another size is refused with ValueError", "no error")
    R.run(body)
    if R.covers.get("another size"):
        R.add(F, "another size is refused with ValueError", "proved", "path")


class Spec:
    """Everything of a subtraction that does not depend on b, dx, dy."""

    def __init__(self, o):
        ref, new, H, W = o.ref, o.new, o.H, o.W
        sh = (H, W)
        self.o, self.sh = o, sh
        fft = NP.fft.fft2
        if o.fitted:
            p_r = gauss("r", W / 2, H / 2, sh)
            p_n = gauss("n", W / 2, H / 2, sh)
        else:
            p_r, p_n = ref.psf(o.loss), new.psf(o.loss)

        def hat(p):
            t = fft(p, s=(mk(H, "i"), mk(W, "i")), norm="ortho")
            g = t.getter()
            e = num_e(o.eps)
            return SArr.of(sh, lambda i: ite(EQ(expr.re(num(g(i))), ZERO), e,
                                             num(g(i))), "c")
        self.pr, self.pn = hat(p_r), hat(p_n)
        self.pr2 = self.pr * self.pr.conj()
        self.pn2 = self.pn * self.pn.conj()
        cr, cn = shims.center_of_mass(p_r), shims.center_of_mass(p_n)
        s = shims.fourier_shift
        self.Dr = s(self.pn * ref.interped_hat, tuple(-x for x in cn))
        self.Dn = s(self.pr * new.interped_hat, tuple(-x for x in cr))
        bk = shims.SepBackground
        self.gamma = bk(new.interped).back() - bk(ref.interped).back()
        self.sn, self.sr = new.var, ref.var
        self.zn = SNum(app("zp_n", (), "real"), "f")
        self.zr = SNum(app("zp_r", (), "real"), "f")

    def norm(self, b):
        return self.sn ** 2 * self.pr2 + b * b * self.sr ** 2 * self.pn2

    def D(self, b, dx, dy):
        d = self.Dn - b * shims.fourier_shift(self.Dr, (dx, dy))
        self.D_hat = d / NP.sqrt(self.norm(b))
        return NP.fft.ifft2(self.D_hat, norm="ortho")

    def P(self, b):
        self.fd = b / NP.sqrt(self.sr ** 2 * b * b + self.sn ** 2)
        self.P_hat = self.pr * self.pn * b / (NP.sqrt(self.norm(b)) * self.fd)
        return NP.fft.ifft2(self.P_hat, norm="ortho").real

    def S(self, b, centre):
        """The score, for the centre the PSF image was given."""
        ifft = NP.fft.ifft2
        fft = NP.fft.fft2
        s = shims.fourier_shift(self.fd * self.D_hat * self.P_hat.conj(),
                                tuple(centre))
        nrm = self.norm(b)
        kr = ifft(self.zn * b * self.pr.conj() * self.pn2 / nrm, norm="ortho")
        kn = ifft(self.zn * self.pn.conj() * self.pr2 / nrm, norm="ortho")
        o = self.o
        vn = ifft(fft(o.new.data.filled(0) + 1.0, norm="ortho")
                  * fft(kn ** 2), norm="ortho")
        vr = ifft(fft(o.ref.data.filled(0) + 1.0, norm="ortho")
                  * fft(kr ** 2), norm="ortho")
        return (ifft(s, norm="ortho") / NP.sqrt(vn + vr)).real

    def centre(self, P):
        """Centre of mass, or the peak when that is far from it."""
        c = shims.center_of_mass(P)
        w = NP.where(P == NP.max(P))
        pk = [x[0] for x in w]
        far = OR(*[LT(lift(30), num_e(NP.abs(a - b)))
                   for a, b in zip(c, pk)])
        if C.decide(far):
            return pk
        return c

    def masked(self):
        f, g = self.o.ref.data.mask, self.o.new.data.mask
        return f | g

    def cost(self, b, dx, dy, border):
        r = NP.sqrt(self.norm(b))
        ifft = NP.fft.ifft2
        g = self.gamma / NP.sqrt(self.sn ** 2 + b * b * self.sr ** 2)
        sh = (shims.s_int(shims.s_round(dx)), shims.s_int(shims.s_round(dy)))
        d = (ifft(self.Dn / r, norm="ortho")
             - b * ifft(shims.fourier_shift(self.Dr / r, (dx, dy)),
                        norm="ortho") - NP.roll(g, sh))
        d = NP.abs(d.real)
        m = self.masked()
        gm, gd = m.getter(), d.getter()
        v = SArr.of(self.sh, lambda i: ite(gm(i), ZERO, num(gd(i))), "f")
        if border:
            v = v[border:-border, border:-border]
        return num_e(NP.sum(v)), v.shape_e


def selection(o):
    """The flux ratio and shift that the run selected."""
    zr, zn = app("zp_r", (), "real"), app("zp_n", (), "real")
    ratio = zn / zr
    if not (o.beta or o.shift):
        return ratio, ZERO, ZERO
    if len(o.opts) != 1:
        return None
    r = o.opts[0]
    ok = BAPP(f"success{r.n}")
    if not C.decide(ok):
        return ratio, ZERO, ZERO
    if o.beta and o.shift:
        return tuple(r.x)
    if o.beta:
        return r.x[0], ZERO, ZERO
    return ratio, r.x[0], r.x[1]


def prove_arr(R, name, got, want, sh, fn=F):
    if not isinstance(got, SArr):
        R.fail(fn, name, f"not an array: {type(got).__name__}")
        return
    if len(got.shape_e) != 2:
        R.fail(fn, name, "another rank")
        return
    R.prove(fn, name + " (shape)", AND(*[EQ(a, b) for a, b in
                                         zip(got.shape_e, sh)]))
    ts = (fresh("t"), fresh("t"))
    rng = [f for t, s in zip(ts, sh) for f in (LE(ZERO, t), LT(t, s))]
    R.prove(fn, name, EQ(num(got.at(ts)), num(want.at(ts))), rng)

"""Contracts of operations.coadd and operations.process_chunk_joblib.

The images are any family img(0..n-1) of equally sized images, known by the
contracts of SingleImage: `s_hat_comp` and `psf_hat_sqnorm()` are functions of
the image, of its current zero point and of its current information loss (C10),
`data.mask` is a boolean array of the shape of the image (C07).
`utils.chunk_it` is used by its contract (C06).
"""
from pyvc import core, expr, prove, shims
from pyvc.arrays import SArr, SMa, MaybeMask, NoMask, zeros, num
from pyvc.core import (AND, BALL, BAPP, BEX, C, EQ, IFF, LE, LT, NOT, ONE, OR,
                       SNum, TRUE, Unsupported, ZERO, app, form, fresh, ite,
                       lift, sqrt, mk, mk_sum, num_e, subst, var)
from pyvc.instrument import genuine
from pyvc.seqs import PList, vsubst

NP = shims.NP
F = "operations.coadd"


class Fam:
    """The images of a co-addition."""

    def __init__(self, cls, n, H, W, aligned):
        self.cls, self.n, self.H, self.W = cls, n, H, W
        self.zp = SArr.of((n,), lambda i: app("zp_old", i, "real"), "f")
        self.inf = SArr.of((n,), lambda i: app("inf_old", i, "real"), "f")
        self.al = aligned
        self.tag = "al_" if aligned else ""


class Img:
    """Image number j of the family."""

    def __init__(self, fam, j):
        self.__dict__.update(fam=fam, j=j, _pv_class=fam.cls)

    def _pv_subst(self, mp):
        return Img(self.fam, subst(self.j, mp))

    def _pv_terms(self):
        return [self.j]

    def _pv_ite(self, c, o):
        if isinstance(o, Img) and o.fam is self.fam:
            return Img(self.fam, ite(c, self.j, o.j))
        return core.Poison("one of two images")

    def _t(self, nm):
        return self.fam.tag + nm

    # -- settings
    @property
    def zp(self):
        return self.fam.zp[mk(self.j, "i")]

    def __setattr__(self, n, v):
        if n == "zp":
            self.fam.zp[mk(self.j, "i")] = v
        elif n == "inf_loss":
            self.fam.inf[mk(self.j, "i")] = v
        else:
            raise Unsupported(f"attribute {n} of an image")

    @property
    def inf_loss(self):
        return self.fam.inf[mk(self.j, "i")]

    def _setup_kl_a_fields(self, inf_loss=None, updating=False):
        if inf_loss is not None:
            self.inf_loss = inf_loss

    def update_sources(self, *a, **k):
        pass

    # -- products
    @property
    def var(self):
        v = app(self._t("var"), (self.j,), "real")
        C.assume(LT(ZERO, v))
        return SNum(v, "f")

    @property
    def stamp_shape(self):
        return (SNum(app(self._t("stamp0"), (self.j,), "int"), "i"),
                SNum(app(self._t("stamp1"), (self.j,), "int"), "i"))

    @property
    def data(self):
        f = self.fam
        nm, j = self._t("data"), self.j
        return SMa(SArr.of((f.H, f.W), lambda i: app(nm, (j,) + tuple(i),
                                                     "real"), "f4"),
                   SArr.of((f.H, f.W), lambda i: BAPP(nm + "_mask", j, *i),
                           "b"))

    @property
    def mask(self):
        return self.data.mask

    @property
    def shape(self):
        return self.data.shape

    @property
    def s_hat_comp(self):
        f, j = self.fam, self.j
        z, l = num_e(self.zp), num_e(self.inf_loss)
        nm = self._t("shat")
        return SArr.of((f.H, f.W), lambda i: app(nm, (j, z, l) + tuple(i),
                                                 "cplx"), "c")

    def psf_hat_sqnorm(self):
        f, j = self.fam, self.j
        l = num_e(self.inf_loss)
        nm = self._t("psq")
        return SArr.of((f.H, f.W), lambda i: app(nm, (j, l) + tuple(i),
                                                 "cplx"), "c")

    def __getattr__(self, n):
        if n.startswith("_pv"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of an image")


def img_list(fam):
    return PList(n=fam.n, get=lambda j: Img(fam, j))


def chunk_contract(fam):
    """utils.chunk_it(seq, num): runs [b_k, b_k+1) that partition the list."""
    def chunk_it(seq, num):
        if not isinstance(seq, PList):
            raise Unsupported("chunk_it of something else")
        n = seq.length()
        p = num_e(num)
        if not C.decide(LE(ONE, p)):
            raise Unsupported("chunk_it without parts")
        K = fresh("chunks")
        b = lambda k: app("cut", (k,), "int")        # noqa: E731
        k, j = fresh("k"), fresh("j")
        C.assume(LE(ZERO, K))
        expr.AT_ZERO.add("cut")
        C.assume(EQ(b(K), n))
        C.assume(BALL(ZERO, K, k, AND(LE(b(k), b(k + 1)), LE(ZERO, b(k)),
                                      LE(b(k + 1), n))))
        # every element lies in one of the runs
        own = lambda j: app("chunkof", (j,), "int")  # noqa: E731
        C.assume(BALL(ZERO, n, j, AND(
            LE(ZERO, own(j)), LT(own(j), K), LE(b(own(j)), j),
            LT(j, b(own(j) + 1)))))
        src = seq.copy()

        def get(k):
            return PList(n=b(k + 1) - b(k), get=lambda i: src.elem(b(k) + i))
        return PList(n=K, get=get)
    return chunk_it


def setup(R, rounding=False):
    W = R.world()
    ops = W.module("operations")
    si = W.module("single_image")
    R.function(F, "ensures R, P, mask are the coadd of the family for every "
               "n >= 1 and every number of workers >= 1")
    R.function("operations.process_chunk_joblib", "inlined at its call: sums "
               "and unites over its chunk")
    R.assume_text("the images are equally sized and known by the contracts of "
                  "SingleImage (C07, C10) and utils.chunk_it (C06), "
                  "utils.transparency returns one zero point per image (C15), "
                  "utils._align_for_coadd returns as many images as it is "
                  "given, all of one size")
    R.assume_text("sums are over the reals: the order in which chunks and "
                  "images are added is immaterial (floating-point rounding is "
                  "not modelled)")
    return W, ops, si


class U:
    """properimage.utils seen by coadd: the contracts."""

    def __init__(self, fam, tab, log):
        self.chunk_it = chunk_contract(fam)
        self.fam, self.log = fam, log

        def transparency(images, master=None):
            if not isinstance(images, PList):
                raise Unsupported("transparency of something else")
            n = images.length()
            log.append(images)
            return (SArr.of((n,), lambda i: app("zp", i, "real"), "f"),
                    SArr.of((fresh("stars"),), lambda i: app(
                        "meanmag", i, "real"), "f"))
        self.transparency = transparency

        def _align_for_coadd(imglist):
            tab["aligned"] = Fam(fam.cls, fam.n, fresh("Ha"), fresh("Wa"),
                                 True)
            f = tab["aligned"]
            C.assume(LT(ZERO, f.H))
            C.assume(LT(ZERO, f.W))
            return img_list(f)
        self._align_for_coadd = _align_for_coadd

    def __getattr__(self, n):
        raise Unsupported(f"utils.{n} has no contract here")


def explore(R, goals, W, ops, si, align_values=(False, True)):
    """Run coadd for a symbolic family; goals(fam, R, P, mask, seq)."""
    cls = si.SingleImage

    def body():
        n, H, Wd, p = fresh("n"), fresh("H"), fresh("W"), fresh("procs")
        inf = fresh("inf_loss", "real")
        for x in (n, H, Wd, p):
            C.assume(LT(ZERO, x))
        fam = Fam(cls, n, H, Wd, False)
        tab, log = {}, []
        ops.u = U(fam, tab, log)
        al = fresh("align")
        align = C.decide(EQ(al, ZERO))
        lst = img_list(fam)
        try:
            Rr, P, mask = ops.coadd(lst, align=align, inf_loss=SNum(inf, "f"),
                                    n_procs=mk(p, "i"))
        except (ValueError, TypeError, IndexError, KeyError,
                ZeroDivisionError, AttributeError) as e:
            if not genuine(e):
                raise
            R.fail(F, "no exception", f"{type(e).__name__}: {e}")
            return
        R.cover("aligned" if align else "not aligned")
        fam2 = tab.get("aligned", fam) if align else fam
        goals(fam2, inf, Rr, P, mask)
    R.run(body)


def spec(fam, inf):
    """Sum of the transforms and of the weighted PSF powers."""
    n = fam.n

    def zp(j):
        return app("zp", (j,), "real")

    def S(i):
        j = fresh("s")
        return mk_sum(ZERO, n, j, app(fam.tag + "shat",
                                      (j, zp(j), inf) + tuple(i), "cplx"))

    def Pw(i):
        j = fresh("s")
        v = app(fam.tag + "var", (j,), "real")
        return mk_sum(ZERO, n, j, (zp(j) / v) ** 2 * app(
            fam.tag + "psq", (j, inf) + tuple(i), "cplx"))
    sh = (fam.H, fam.W)
    return SArr.of(sh, S, "c"), SArr.of(sh, Pw, "c")


def prove_arr(R, fn, name, got, want, shape):
    """Equal shape and equal elements."""
    if not isinstance(got, SArr):
        R.fail(fn, name, f"not an array: {type(got).__name__}")
        return
    if len(got.shape_e) != len(shape):
        R.fail(fn, name, "another rank")
        return
    R.prove(fn, name + " (shape)", AND(*[EQ(a, b) for a, b in
                                         zip(got.shape_e, shape)]))
    ts = tuple(fresh("t") for _ in shape)
    rng = [f for t, s in zip(ts, shape) for f in (LE(ZERO, t), LT(t, s))]
    return R.prove(fn, name, EQ(num(got.at(ts)), num(want.at(ts))), rng)


SCALE = {}


def quiet_equal(got, want, sh, k):
    """Is got k times want on this path (without a report)?"""
    ts = tuple(fresh("t") for _ in sh)
    rng = [f for t, s in zip(ts, sh) for f in (LE(ZERO, t), LT(t, s))]
    pr = prove.Prover(6000, 10)
    return pr.prove(list(C.pc) + rng,
                    EQ(num(got.at(ts)), k * num(want.at(ts)))) == "proved"


def image_goals(R, fam, inf, Rr, P, fn=F):
    S, Pw = spec(fam, inf)
    sh = (fam.H, fam.W)
    root = NP.sqrt(Pw)
    want = NP.fft.ifft2(S / root)
    # up to one constant that depends on the size of the frame only
    ks = [ONE, sqrt(fam.H * fam.W), fam.H * fam.W, ONE / sqrt(fam.H * fam.W),
          ONE / (fam.H * fam.W)]
    name = ("R is the inverse transform of the sum over the root of the "
            "summed weighted PSF powers")
    k = ONE
    if isinstance(Rr, SArr) and len(Rr.shape_e) == 2:
        done = SCALE.get(R)
        for k in [ks[done]] if done is not None else ks:
            if quiet_equal(Rr, want, sh, k):
                SCALE[R] = ks.index(k)
                break
        else:
            k = ONE
    w0 = want
    prove_arr(R, fn, name,
              Rr, want if k == ONE else SArr.of(
                  sh, lambda i: k * num(w0.at(i)), "c"), sh)
    st = SArr.of((fam.n,), lambda i: app(fam.tag + "stamp0", i, "int"), "i")
    m = NP.max(st)
    w = NP.fft.ifft2(shims.fourier_shift(root, (m, m)))
    w = w / NP.sum(w)
    prove_arr(R, fn, "the PSF is the inverse transform of that root, shifted "
              "by the stamp size, over its sum", P, w, sh)


def mask_goal(R, fam, mask, fn=F):
    if isinstance(mask, MaybeMask):
        R.fail(fn, "the mask is a boolean array", "it may be nomask")
        return
    if mask is NoMask or not isinstance(mask, SArr) or mask.dtype_ != "b":
        R.fail(fn, "the mask is a boolean array", repr(mask)[:200])
        return
    R.prove(fn, "the mask has the shape of the images",
            AND(EQ(mask.shape_e[0], fam.H), EQ(mask.shape_e[1], fam.W)))
    ts = (fresh("t"), fresh("t"))
    rng = [f for t, s in zip(ts, (fam.H, fam.W))
           for f in (LE(ZERO, t), LT(t, s))]
    m = mask.at(ts)
    x = fresh("img")
    nm = fam.tag + "data_mask"
    R.prove(fn, "a pixel flagged in an image is flagged in the result", m,
            rng + [LE(ZERO, x), LT(x, fam.n), BAPP(nm, x, *ts)],
            witnesses=[x, app("chunkof", (x,), "int"), x - app(
                "cut", (app("chunkof", (x,), "int"),), "int")])
    j = fresh("j")
    R.prove(fn, "a flagged pixel is flagged in an image",
            BEX(ZERO, fam.n, j, BAPP(nm, j, *ts)), rng + [m])

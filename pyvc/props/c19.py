"""C19: simulated frames hold what was asked for."""
from pyvc import arrays, core, expr, prove
from pyvc.arrays import SArr, SMa, asarray, is_scalar, num
from pyvc.core import (AND, C, E, EQ, LE, LT, NOT, ONE, OR, SNum, Unsupported,
                       ZERO, app, fresh, ite, lift, mk, mk_op, num_e, var)
from pyvc.expr import fn
from pyvc.instrument import World, genuine
from pyvc.seqs import PList, as_seq
from pyvc.shims import LIBS
from .image import inside, shims

FP = "simtools.Psf"
FA = "simtools.astropy_Psf"
FI = "simtools.airy_patron"
FD = "simtools.delta_point"
FM = "simtools.image"
FV = "simtools.sim_varpsf"


# ------------------------------------------------ contracts of the libraries
def pdf(x, loc=0, scale=1):
    """scipy.stats.norm.pdf: positive for a positive scale"""
    shims.uses("scipy.stats.norm.pdf", pdf.__doc__)
    s = num_e(scale)
    if not C.known(LT(ZERO, s)):
        if not C.decide(LT(ZERO, s)):
            raise Unsupported("a deviation that is not positive")
    return SNum(app("pos_pdf", (num_e(x), num_e(loc), s), "real"), "f")


class Gauss:
    """astropy Gaussian2D: positive for a positive amplitude"""

    def __init__(self, amplitude=1, x_mean=0, y_mean=0, x_stddev=None,
                 y_stddev=None, **k):
        shims.uses("astropy.modeling.models.Gaussian2D", Gauss.__doc__)
        if k or x_stddev is None or y_stddev is None:
            raise Unsupported("Gaussian2D arguments")
        self.a = num_e(amplitude)
        self.k = tuple(num_e(x) for x in (x_mean, y_mean, x_stddev, y_stddev))
        if not C.known(LT(ZERO, self.a)):
            raise Unsupported("amplitude")

    def __call__(self, x, y):
        return SNum(self.a * app("pos_gauss", self.k + (
            num_e(x), num_e(y)), "real"), "f")


def j1(r):
    """scipy.special.j1: (2 j1(r) / r)^2 is at most one, and falls until
    further out nothing is larger, for r up to 3"""
    shims.uses("scipy.special.j1", j1.__doc__)
    return SNum(app("j1", (num_e(r),), "real"), "f")


def rotate(a, theta=0, *r, **k):
    """scipy.ndimage.rotate: any array"""
    shims.uses("scipy.ndimage.rotate", rotate.__doc__)
    m = tuple(fresh("rot") for _ in "xy")
    for v in m:
        C.assume(LT(ZERO, v))
    return SArr.of(m, lambda i: app("rotated", tuple(i), "real"), "f")


def same(a, b, mode="full", *r, **k):
    """scipy.signal.fftconvolve, convolve, oaconvolve (mode='same'): the
    convolution, a function of both, of the shape of the first"""
    shims.uses("scipy.signal.fftconvolve", same.__doc__)
    a, w = asarray(a), asarray(b)
    if r or k or mode != "same" or a.ngetter() or w.ngetter() or \
            len(a.shape_e) != len(w.shape_e):
        raise Unsupported("convolution arguments")
    kv = [fresh("c") for _ in w.shape_e]
    ker = mk_op("kernel", (tuple(w.shape_e),), kv, w.at(tuple(kv)), (),
                "real", linear=False)
    return SArr.of(a.shape_e, lambda i: shims.opaque(
        "convolved_same", a, (tuple(w.shape_e), ker), "real", i), "f")


HISTORY = var("draws_before", "real")


class Gen:
    """A random generator: its draws are functions of the seed, of their
    number and of their parameters; those of the generator of the module (or
    of one without a seed) depend on the history."""

    def __init__(self, seed=None):
        if isinstance(seed, Gen):
            seed = seed.key
            self.key = seed
        elif seed is None:
            self.key = HISTORY
        else:
            self.key = app("seeded", (num_e(seed),), "real")
        self.n = 0

    def pv_name(self, kind):
        shims.uses("numpy.random.Generator", Gen.__doc__)
        if len(C.journals) > self.depth():
            raise Unsupported("random draws in a loop")
        self.n += 1
        return (self.key, lift(self.n))

    @staticmethod
    def depth():
        return BASE[0]

    def draw(self, kind, par, size, f, t):
        k = self.pv_name(kind)
        if size is None:
            return SNum(f(app(kind, k + par, "int" if t == "i" else "real")),
                        t)
        shape = size if isinstance(size, (tuple, list)) else (size,)
        shape = tuple(arrays.dim(s) for s in shape)
        return SArr.of(shape, lambda i: f(app(
            kind, k + par + tuple(i), "int" if t == "i" else "real")), t)

    def normal(self, loc=0.0, scale=1.0, size=None):
        m, s = num_e(loc), num_e(scale)
        return self.draw("gauss", (), size, lambda x: m + s * x, "f")

    def standard_normal(self, size=None):
        return self.normal(0, 1, size)

    def poisson(self, lam=1.0, size=None):
        return self.draw("poisson", (num_e(lam),), size, lambda x: x, "i")

    def integers(self, low, high=None, size=None, **k):
        if k:
            raise Unsupported("integers arguments")
        if high is None:
            low, high = 0, low
        a, b = num_e(low), num_e(high)
        r = self.draw("integers", (a, b), size, lambda x: x, "i")
        if is_scalar(r):
            raise Unsupported("a single integer")
        i = fresh("i")
        x = num(r.at((i,)))
        C.assume(core.BALL(ZERO, r.shape_e[0], i, AND(
            LT(a - 1, x), LT(x, b))))
        return r

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"Generator.{n}")


NAMES = {}


def whole_part(x=0, *r):
    """int(): an integer of its own, with its defining bounds."""
    if r or not is_scalar(x) or isinstance(x, (int, float, bool)) or \
            len(C.frames) != 1:
        return shims.s_int(x, *r)
    e = num_e(x)
    if e.is_int():
        return shims.s_int(x)
    k = (C.frames[0], e)
    if k not in NAMES:
        m = fresh("int")
        if C.decide(LE(ZERO, e)):
            C.assume(AND(LE(ZERO, m), LE(m, e), LT(e, m + 1)))
        else:
            C.assume(AND(LE(m, ZERO), LE(e, m), LT(m - 1, e)))
        NAMES[k] = m
    return mk(NAMES[k], "i")


def smaller(nm):
    old = shims.BT[nm]

    def f(*a, **k):
        if k or len(a) != 2 or len(C.frames) != 1 or not all(
                is_scalar(x) for x in a):
            return old(*a, **k)
        x, y = num_e(a[0]), num_e(a[1])
        if not x.is_int() and not y.is_int():
            return old(*a)
        first = C.decide(LE(x, y))
        return a[0 if first == (nm == "min") else 1]
    return f


BASE = [0]
SUMS = {}
WITNESS = [None]


def total(R, F):
    """np.sum, with the lemma that a sum of numbers that are not negative, one
    of them positive, is positive."""
    def f(a, *r, **k):
        if r or k:
            raise Unsupported("sum along an axis")
        a = asarray(a)
        if isinstance(a, SMa) or a.ngetter() or len(a.shape_e) != 2:
            raise Unsupported("sum operand")
        s = fresh("total", "real")
        SUMS[s] = a
        w = WITNESS[0]
        if w is not None:
            WITNESS[0] = None
            t = tuple(fresh("t") for _ in "ij")
            v = num(a.at(t))
            ok = R.prove(F, "non-negative", LE(ZERO, v), inside(
                t, a.shape_e) + positive(v)) == "proved"
            v = num(a.at(w))
            ok2 = R.prove(F, "the central pixel is positive", LT(ZERO, v),
                          positive(v)) == "proved"
            if ok and ok2:
                C.assume(LT(ZERO, s))
        else:
            C.assume(NOT(EQ(s, ZERO)))
        return SNum(s, "f")
    return f


def walk(x, pred, out, seen):
    if isinstance(x, tuple):
        for y in x:
            walk(y, pred, out, seen)
    elif isinstance(x, E):
        if x in seen:
            return out
        seen.add(x)
        for m in x.terms:
            for a, _ in m:
                walk(a, pred, out, seen)
    elif isinstance(x, (expr.Atom, core.B)):
        if x in seen:
            return out
        seen.add(x)
        if isinstance(x, expr.Atom) and pred(x):
            out.append(x)
        for y in x.args:
            walk(y, pred, out, seen)
    return out


def apps(x, name):
    return walk(x, lambda a: a.kind == "app" and a.args[0] == name, [],
                set())


def positive(v):
    return [LT(ZERO, expr.atom_e(a)) for n in ("pos_pdf", "pos_gauss")
            for a in apps(v, n)]


def attempt(R, F, f):
    """The result, or None after an exception."""
    BASE[0] = len(C.journals)
    try:
        return f()
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(F, "no exception", f"{type(e).__name__}: {e}", soft=True)
        return None


def unit(R, F, p):
    t = tuple(fresh("t") for _ in p.shape_e)
    x = num(p.at(t))
    for s, a in SUMS.items():
        if s.single() not in x.vars():
            continue
        if tuple(a.shape_e) == tuple(p.shape_e) and prove.Prover(
                4000, 20).prove(list(C.pc), EQ(
                    x * s, num(a.at(t)))) == "proved":
            R.add(F, "sums to one", "proved", ["normal form"])
            return
    R.prove(F, "sums to one", core.FALSE, soft=True)


# ------------------------------------------------------------- the contracts
def contracts(R):
    R.function(FP, "requires a size of at least one (an integer or not) and "
               "positive widths; ensures unit sum, and without a rotation a "
               "square array of the integral size that is not negative")
    R.function(FA, "requires a positive size and width; ensures a square "
               "array of that size, not negative, of unit sum")
    R.function(FI, "requires a width of at least half a pixel; ensures a "
               "defined value everywhere, and none larger than at the centre")
    R.function(FD, "requires distinct positions in the frame; ensures zero "
               "but at those, which hold their weight, one by default")
    R.function(FM, "ensures source frame convolved with a PSF of the widths "
               "and angle asked for, plus bias, plus Poisson noise of mean "
               "max / SN or normal noise of that deviation, of a generator "
               "of its own for a seed")
    R.function(FV, "ensures four such images side by side, of point sources "
               "inside of the frame, that with a seed do not depend on "
               "earlier draws")
    R.assume_text("numpy.random, rotate, fftconvolve and the library's "
                  "functions as in their contracts; the sum of a rotated PSF "
                  "is not zero; exact arithmetic (no underflow of the "
                  "Gaussian); utilities cartesian_product as all pairs")
    old = [shims.NP.sum, LIBS["numpy.random"].__dict__.get("default_rng")]
    lib = LIBS["scipy.stats"], LIBS["astropy.modeling"].models, LIBS["scipy"]
    try:
        LIBS["scipy.stats"].norm = shims.Shim("scipy.stats.norm", pdf=pdf)
        lib[1].Gaussian2D = Gauss
        LIBS["scipy"].special = LIBS["scipy.special"] = shims.Shim(
            "scipy.special", j1=j1)
        LIBS["scipy.ndimage"].rotate = rotate
        for n in ("fftconvolve", "convolve", "oaconvolve"):
            setattr(LIBS["scipy.signal"], n, same)
        LIBS["numpy.random"].default_rng = Gen
        LIBS["numpy"].linspace = linspace
        LIBS["functools"].reduce = lambda *a: core.Poison("reduce")
        W = World(shims.importer, dict(
            shims.BT, int=whole_part, min=smaller("min"), max=smaller("max")))
        st = W.module("simtools")
        for g in vars(st).values():
            if isinstance(g, Gen):      # used before, by any calls
                g.key = HISTORY
        for whole, y in ((True, False), (False, True)):
            R.run(lambda: psf(R, st, whole, y))
        R.run(lambda: astro(R, st))
        for odd in (True, False):
            R.run(lambda: airy(R, st, odd))
        shims.NP.sum = old[0]
        R.run(lambda: centre(R, st))
        for w in ("none", "list", "array"):
            R.run(lambda: delta(R, st, w))
        for kind in ("poisson", "gaussian"):
            for seed in (True, False):
                R.run(lambda: frame(R, st, kind, seed))
        R.run(lambda: varpsf(R, st))
    finally:
        shims.NP.sum = old[0]
        LIBS["numpy.random"].default_rng = old[1]


def psf(R, st, whole, y):
    SUMS.clear()
    NAMES.clear()
    shims.NP.sum = total(R, FP)
    N = fresh("N") if whole else fresh("N", "real")
    C.assume(LE(ONE, N))
    fx, fy, th = (fresh(c, "real") for c in ("fx", "fy", "theta"))
    C.assume(LT(ZERO, fx))
    C.assume(LT(ZERO, fy))
    C.assume(OR(EQ(th, ZERO), LT(ZERO, th), LT(th, ZERO)))
    n = N
    if not whole:
        n = fresh("n")
        C.assume(AND(LE(n, N), LT(N, n + 1)))
    mid = fresh("mid")
    C.assume(AND(LE(mid * 2, N - 1), LT(N - 1, mid * 2 + 2)))
    flat = C.decide(EQ(th, ZERO))
    WITNESS[0] = (mid, mid) if flat else None
    p = attempt(R, FP, lambda: st.Psf(
        mk(N, "i" if whole else "f"), SNum(fx, "f"),
        SNum(fy, "f") if y else 0, SNum(th, "f")))
    if p is None:
        return
    p = asarray(p)
    R.prove(FP, "defined everywhere", nowhere_nan(p), ())
    unit(R, FP, p)
    if flat:
        R.prove(FP, "of the size asked for", AND(*[EQ(s, n)
                                                   for s in p.shape_e]))
        t = tuple(fresh("t") for _ in "ij")
        v = num(p.at(t))
        R.prove(FP, "non-negative", LE(ZERO, v), inside(t, p.shape_e) +
                positive(v))


def nowhere_nan(p):
    if p.ngetter() is None:
        return core.TRUE
    t = tuple(fresh("t") for _ in p.shape_e)
    return OR(NOT(AND(*inside(t, p.shape_e))), NOT(p.nan_at(t)))


def pairs(arrs):
    """cartesian_product: every pair of elements in a row of its own"""
    shims.uses("simtools.cartesian_product", pairs.__doc__)
    a = [as_seq(x) for x in list(arrs)]
    if len(a) != 2:
        raise Unsupported("product of other than two")
    n = [x.length() for x in a]
    L, r = fresh("L"), fresh("r")
    C.assume(LE(ZERO, L))
    C.assume(core.BALL(ZERO, L, r, AND(*[f for c in (0, 1) for f in inside(
        (app(f"pair{c}", (r,), "int"),), (n[c],))])))
    # the row of the central pixel
    mid, = MIDDLE
    at = fresh("row")
    lo = [num_e(x.elem(ZERO)) for x in a]
    C.assume(OR(NOT(AND(*[f for c in (0, 1) for f in inside(
        (mid - lo[c],), (n[c],))])), AND(LE(ZERO, at), LT(at, L), *[EQ(app(
            f"pair{c}", (at,), "int"), mid - lo[c]) for c in (0, 1)])))

    def get(i):
        p = [num_e(a[c].elem(app(f"pair{c}", (i[0],), "int")))
             for c in (0, 1)]
        return ite(EQ(i[1], ZERO), p[0], p[1])
    return SArr.of((L, lift(2)), get, "i")


MIDDLE = [None]


def astro(R, st):
    SUMS.clear()
    NAMES.clear()
    shims.NP.sum = total(R, FA)
    N, f = fresh("N"), fresh("f", "real")
    C.assume(LE(ONE, N))
    C.assume(LT(ZERO, f))
    mid = fresh("mid")
    C.assume(AND(LE(mid * 2, N - 1), LT(N - 1, mid * 2 + 2)))
    MIDDLE[0] = mid
    WITNESS[0] = (mid, mid)
    old, st.cartesian_product = st.cartesian_product, pairs
    try:
        p = attempt(R, FA, lambda: st.astropy_Psf(mk(N, "i"), SNum(f, "f")))
    finally:
        st.cartesian_product = old
    if p is None:
        return
    p = asarray(p)
    R.prove(FA, "defined everywhere", nowhere_nan(p))
    R.prove(FA, "of the size asked for", AND(*[EQ(s, N) for s in p.shape_e]))
    unit(R, FA, p)
    t = tuple(fresh("t") for _ in "ij")
    v = num(p.at(t))
    R.prove(FA, "non-negative", LE(ZERO, v), inside(t, p.shape_e) +
            positive(v))


def root(x):
    """numpy.sqrt: the root grows with its argument from zero on"""
    if not is_scalar(x):
        raise Unsupported("root of an array")
    return SNum(app("root", (num_e(x),), "real"), "f")


def airy(R, st, odd):
    M = fresh("M")
    C.assume(LE(ZERO, M) if odd else LT(ZERO, M))
    N = 2 * M + 1 if odd else 2 * M
    w = fresh("w", "real")
    C.assume(LE(ONE, w * 2))
    old, shims.NP.sqrt = shims.NP.sqrt, root
    try:
        a = attempt(R, FI, lambda: st.airy_patron(mk(N, "i"), SNum(w, "f")))
    finally:
        shims.NP.sqrt = old
    if a is None:
        return
    a = asarray(a)
    R.prove(FI, "of the size asked for", AND(*[EQ(s, N) for s in a.shape_e]))
    R.prove(FI, "defined everywhere", nowhere_nan(a))
    d = tuple(fresh("d") for _ in "ij")     # from the centre
    t = tuple(M + x for x in d)
    rng = inside(t, (N, N))
    v, c = num(a.at(t)), num(a.at((M, M)))
    facts, rad = [], {}
    for x in apps((v, c), "j1"):
        r = x.args[1]
        q = (r * w).single() if len((r * w).terms) == 1 else None
        if q is None or q.kind != "app" or q.args[0] != "root":
            raise Unsupported("radius")
        rad[q.args[1]] = (2 * expr.atom_e(x) / r) ** 2
    for x in set(rad) | {q.args[1] for q in apps((v, c), "root")}:
        s = app("root", (x,), "real")
        facts += [LE(ZERO, s), EQ(s * s, x), OR(NOT(EQ(s, ZERO)), EQ(
            x, ZERO)), OR(NOT(EQ(x, ZERO)), EQ(s, ZERO))]
    near = lift(0) if odd else ONE / 2
    for x, J in rad.items():
        R.prove(FI, "no pixel is closer to the middle than the centre",
                LE(near, x), rng)
        facts += [LE(near, x), OR(EQ(x, ZERO), AND(LE(ZERO, J), LE(J, ONE)))]
    for x, J in rad.items():
        for y, K in rad.items():
            if x is not y:
                # radii x <= y (over the width), the first one up to 3
                facts.append(OR(NOT(AND(LT(ZERO, x), LE(x, y), LE(app(
                    "root", (x,), "real"), 3 * w))), LE(K, J)))
    R.prove(FI, "no value is larger than that of the centre", LE(v, c),
            rng + facts)


def centre(R, st):
    N = fresh("N")
    C.assume(LT(ZERO, N))
    m = attempt(R, FD, lambda: st.delta_point(mk(N, "i")))
    if m is None:
        return
    t = tuple(fresh("t") for _ in "ij")
    h = fn("floor", N / 2)
    R.prove(FD, "a single source at the centre", EQ(num(m.at(t)), ite(
        AND(EQ(t[0], h), EQ(t[1], h)), ONE, ZERO)), inside(t, (N, N)))


def delta(R, st, weights):
    N, K = fresh("N"), fresh("K")
    C.assume(LT(ZERO, N))
    C.assume(LE(ZERO, K))
    j, i = fresh("j"), fresh("i")
    X = lambda j: app("px", (j,), "int")     # noqa: E731
    Y = lambda j: app("py", (j,), "int")     # noqa: E731
    C.assume(core.BALL(ZERO, K, j, AND(*inside((X(j), Y(j)), (N, N)))))
    C.assume(core.BALL(ZERO, K, j, core.BALL(ZERO, K, i, OR(
        EQ(i, j), NOT(EQ(X(i), X(j))), NOT(EQ(Y(i), Y(j)))))))
    xy = PList(n=K, get=lambda j: (SNum(X(j), "i"), SNum(Y(j), "i")))
    wt = lambda j: app("wt", (j,), "real")   # noqa: E731
    w = {"none": None, "list": PList(n=K, get=lambda j: SNum(wt(j), "f")),
         "array": SArr.of((K,), lambda i: wt(i[0]), "f")}[weights]
    m = attempt(R, FD, lambda: st.delta_point(
        mk(N, "i"), center=False, xy=xy, weights=w))
    if m is None:
        return
    R.prove(FD, "of the size asked for", AND(*[EQ(s, N) for s in m.shape_e]))
    k = fresh("k")
    R.prove(FD, "a pixel holds its own weight", EQ(
        num(m.at((X(k), Y(k)))), wt(k) if weights != "none" else ONE),
        inside((k,), (K,)))
    t = tuple(fresh("t") for _ in "ij")
    R.prove(FD, "zero elsewhere", OR(EQ(num(m.at(t)), ZERO), core.BEX(
        ZERO, K, j, AND(EQ(X(j), t[0]), EQ(Y(j), t[1])))),
        inside(t, (N, N)))


SHAPE = [None]


def linspace(a, b, n=50, **k):
    """numpy.linspace: evenly spaced from the first to the last"""
    shims.uses("numpy.linspace", linspace.__doc__)
    if k:
        raise Unsupported("linspace arguments")
    a, b, n = num_e(a), num_e(b), num_e(n)
    return SArr.of((n,), lambda i: ite(LE(n, ONE), a, a + (b - a) * i[0] * app(
        "spacing", (n,), "real")), "f")


def psf_contract(N, X_FWHM, Y_FWHM=0, theta=0):
    """Psf: an array of its own size, a function of the widths and the
    angle"""
    x, y, th = num_e(X_FWHM), num_e(Y_FWHM), num_e(theta)
    y = ite(EQ(y, ZERO), x, y)
    return SArr.of(SHAPE[0], lambda i: app("psf", (x, y, th) + tuple(i), "real"),
                   "f")


def frame(R, st, kind, seeded):
    N = fresh("N")
    C.assume(LT(ZERO, N))
    fx, fy, th, sn, bias, te = (fresh(c, "real") for c in (
        "fx", "fy", "theta", "SN", "bias", "t"))
    seed = fresh("seed")
    C.assume(LE(ZERO, seed))
    C.assume(LT(ZERO, fx))
    C.assume(LE(ZERO, fy))
    C.assume(LT(ZERO, sn))
    SHAPE[0] = tuple(fresh("psf") for _ in "xy")
    for v in SHAPE[0]:
        C.assume(LT(ZERO, v))
    MF = SArr.of((N, N), lambda i: app("source", tuple(i), "real"), "f")
    old, st.Psf = st.Psf, psf_contract
    kw = {"seed": mk(seed, "i")} if seeded else {}
    try:
        im = attempt(R, FM, lambda: st.image(
            MF, mk(N, "i"), SNum(te, "f"), SNum(fx, "f"), SNum(sn, "f"),
            Y_FWHM=SNum(fy, "f"), theta=SNum(th, "f"), bkg_pdf=kind,
            bias=SNum(bias, "f"), **kw))
        if im is None:
            return
        BASE[0] = len(C.journals)
        want = same(MF, psf_contract(0, SNum(fx, "f"), SNum(fy, "f"),
                                     SNum(th, "f")), mode="same")
        top = num_e(shims.NP.max(want))
    finally:
        st.Psf = old
    t = tuple(fresh("t") for _ in "ij")
    R.prove(FM, "the source frame is left as it is", EQ(num(MF.at(t)), app(
        "source", t, "real")), inside(t, (N, N)))
    R.prove(FM, "of the size asked for", AND(*[EQ(s, N)
                                               for s in im.shape_e]))
    v = num(im.at(t))
    nm = "poisson" if kind == "poisson" else "gauss"
    noise = apps(v, nm)
    if len(noise) != 1:
        R.prove(FM, "one draw of the noise for each pixel", core.FALSE,
                soft=True)
        return
    x = noise[0]
    R.prove(FM, "each pixel has a draw of its own", AND(*[EQ(a, b) for a, b
            in zip(x.args[-2:], t)]), inside(t, (N, N)))
    if seeded:
        R.prove(FM, "the draws are those of the seed", EQ(
            x.args[1], app("seeded", (seed,), "real")))
    e = expr.atom_e(x)
    if kind == "poisson":
        R.prove(FM, "mean of the Poisson noise", EQ(x.args[3] * sn, top))
    else:
        e = e * top / sn
    R.prove(FM, "source convolved with the PSF, plus bias, plus noise", EQ(
        v, num(want.at(t)) + bias + e), inside(t, (N, N)))


def varpsf(R, st):
    N, stars, seed = fresh("N"), fresh("nstars"), fresh("seed")
    C.assume(LT(lift(60), N))
    C.assume(LE(lift(4), stars))
    C.assume(LE(ZERO, seed))
    sn = fresh("SN", "real")
    C.assume(LT(ZERO, sn))
    made, points = [], []

    def image(MF, N, t_exp, X_FWHM, SN, Y_FWHM=0, theta=0, bkg_pdf="poisson",
              std=None, seed=None, bias=100.0):
        k = len(made)
        n = num_e(N)
        made.append((num_e(theta), n, num_e(SN), seed, MF))
        return SArr.of((n, n), lambda i: app("image", (lift(k),) + tuple(i),
                                             "real"), "f")

    def delta_point(N, center=True, xy=None, weights=None):
        n = num_e(N)
        k = len(points)
        if center or xy is None:
            raise Unsupported("a single point source")
        pos = as_seq(xy)
        i = fresh("i")
        if not C.known(LT(ZERO, pos.length())):
            raise Unsupported("no sources")
        for g in inside((i,), (pos.length(),)):
            C.assume(g)
        p = pos.elem(i)
        points.append([num_e(c) for c in p])
        R.prove(FV, "sources inside of the frame", AND(*[f for c in p
                for f in inside((num_e(c),), (n,))]),
                inside((i,), (pos.length(),)))
        return SArr.of((n, n), lambda j: app("points", (lift(k),) + tuple(j),
                                             "real"), "f")
    old = st.image, st.delta_point
    st.image, st.delta_point = image, delta_point
    try:
        f = attempt(R, FV, lambda: st.sim_varpsf(
            mk(stars, "i"), SN=SNum(sn, "f"), N=mk(N, "i"),
            seed=mk(seed, "i")))
    finally:
        st.image, st.delta_point = old
    if f is None:
        return
    R.prove(FV, "two by two frames", AND(*[EQ(s, 2 * N) for s in f.shape_e]))
    t = tuple(fresh("t") for _ in "ij")
    h = HISTORY.single()
    own = [p for q in points for p in q]
    R.prove(FV, "nothing depends on earlier draws", core.TRUE if not any(
        h in p.vars() for p in own) and all(
            m[3] is not None for m in made) else core.FALSE)
    seen = []
    for i in range(2):
        for j in range(2):
            v = num(f.at((t[0] + i * N, t[1] + j * N)))
            v = prove.simplify(list(C.pc) + inside(t, (N, N)), v) if hasattr(
                prove, "simplify") else v
            hit = None
            for k, m in enumerate(made):
                x = app("image", (lift(k),) + t, "real")
                b = fresh("t"), fresh("t")
                v2 = num(f.at((b[0] + i * N, b[1] + j * N)))
                y = app("image", (lift(k),) + b, "real")
                if prove.Prover(4000, 10).prove(
                        list(C.pc) + inside(t, (N, N)) + inside(b, (N, N)),
                        EQ(v - x, v2 - y)) == "proved":
                    hit = k
            if hit is None:
                R.prove(FV, "each quarter is a simulated image", core.FALSE,
                        soft=True)
                return
            R.add(FV, "each quarter is a simulated image", "proved",
                  ["normal form"])
            seen.append(hit)
            th, n, s, sd, MF = made[hit]
            R.prove(FV, "of the ratio, seed and sources asked for", AND(
                EQ(n, N), EQ(s, sn), EQ(num_e(sd), seed), EQ(
                    num(asarray(MF).at(t)), app("points", (lift(hit),) + t,
                                                "real"))))
    R.prove(FV, "four different ones", core.TRUE if sorted(seen) == [
        0, 1, 2, 3] else core.FALSE)

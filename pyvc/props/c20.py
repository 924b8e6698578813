"""C20: PSF plots draw every component on its own axes; plot dispatch."""
from pyvc import core, shims
from pyvc.arrays import SArr
from pyvc.core import (AND, BAPP, C, EQ, LE, LT, ONE, OR, Unsupported,
                       ZERO, app, bool_of, fresh, lift, mk, num_e)
from pyvc.instrument import genuine
from pyvc.seqs import PList

A, B_, I_, D = ("Plot.autopsf", "Plot.autopsf_coef", "Plot.imshow",
                "Plot.__call__")


class Token:
    """A value of the caller that only travels."""

    def __init__(self, nm):
        self.nm = nm

    def __repr__(self):
        return f"<{self.nm}>"

    def _pv_subst(self, mp):
        return self

    def _pv_terms(self):
        return []


class Canvas:
    """Ghost state: what was drawn on the axes of one grid."""

    def __init__(self, n, a, b):
        self.n = n
        self.what = SArr.of((n, a, b), lambda i: app("blank", tuple(i),
                                                     "real"), "f")
        self.count = SArr.of((n,), lambda i: ZERO, "i")
        self.opts = []


class Fig:
    def __init__(self, env):
        self.env = env

    def _pv_subst(self, mp):
        return self

    def _pv_terms(self):
        return []

    def set_size_inches(self, *a, **k):
        pass

    def subplots(self, nrows=1, ncols=1, **k):
        if k:
            raise Unsupported("subplots arguments")
        r, c = num_e(nrows), num_e(ncols)
        for x in (nrows, ncols):
            if core.kind_of(x) != "i":
                shims.raise_(TypeError("number of rows and columns"))
        if not C.decide(AND(LT(ZERO, r), LT(ZERO, c))):
            shims.raise_(ValueError("number of rows and columns"))
        return self.env.grid((r, c))

    def colorbar(self, img, ax=None, **k):
        self.env.opt("colorbar", k)

    def __getattr__(self, n):
        if n.startswith("_pv"):
            raise AttributeError(n)
        raise Unsupported(f"figure.{n}")


class Grid:
    """An array of axes, as fig.subplots returns it, or a single one."""

    def __init__(self, env, shape):
        self.env, self.shape_e = env, shape
        n = ONE
        for s in shape:
            n = n * s
        self.n = n

    def _pv_size(self):
        return mk(self.n, "i")

    size = property(_pv_size)

    def _pv_ravel(self):
        env = self.env
        return PList(n=self.n, get=lambda j: Axes(env, j))

    ravel = flatten = _pv_ravel
    flat = property(_pv_ravel)

    def _pv_subst(self, mp):
        return self

    def __len__(self):
        raise Unsupported("len of the axes")

    def _pv_len(self):
        # a single axes has no length
        if len(self.shape_e) == 0 or C.decide(EQ(self.n, ONE)):
            shims.raise_(TypeError("object of type 'Axes' has no len()"))
        if len(self.shape_e) == 1:
            return mk(self.shape_e[0], "i")
        return mk(self.shape_e[0], "i")

    def __iter__(self):
        raise Unsupported("iteration over the grid")


class Axes:
    def __init__(self, env, j):
        self.env, self.j = env, j

    def _pv_subst(self, mp):
        return Axes(self.env, core.subst(self.j, mp))

    def _pv_terms(self):
        return [self.j]

    def get_figure(self):
        return Fig(self.env)

    @property
    def figure(self):
        return Fig(self.env)

    def imshow(self, x, **k):
        c = self.env.canvas
        j = mk(self.j, "i")
        c.what[j] = x
        c.count[j] = c.count[j] + 1
        self.env.opt("imshow", k)
        return Token("image")

    def set_title(self, *a, **k):
        pass

    set_xlabel = set_ylabel = set_xticks = set_yticks = set_axis_off = \
        set_title

    def contour(self, x, y, z, **k):
        self.env.opt("contour", k)
        for a, s in ((x, z.shape_e[1]), (y, z.shape_e[0])):
            if not C.decide(EQ(a.shape_e[0], s)):
                shims.raise_(TypeError("length of the coordinates"))

    def __getattr__(self, n):
        if n.startswith("_pv"):
            raise AttributeError(n)
        raise Unsupported(f"axes.{n}")


class Field:
    def __init__(self, j):
        self.j = j

    def __call__(self, x, y):
        j = self.j
        return SArr.of(x.shape_e, lambda i: app(
            "field", (j, x.at(i), y.at(i)), "real"), "f")

    def _pv_subst(self, mp):
        return Field(core.subst(self.j, mp))

    def _pv_terms(self):
        return [self.j]


class Si:
    """The image plotted: N components."""

    def __init__(self, n, single, loss, shape):
        self.n, self.single = n, single
        self.want = loss, shape
        self.bad = None
        self.h, self.w = fresh("ph"), fresh("pw")
        self.H, self.W = fresh("H"), fresh("W")
        for v in (self.h, self.w, self.H, self.W):
            C.assume(LT(ZERO, v))
        self.data = SArr.of((self.H, self.W), lambda i: app(
            "pix", tuple(i), "real"), "f")

    def psf(self, j):
        return SArr.of((self.h, self.w), lambda i: app(
            "psf", (j,) + tuple(i), "real"), "f")

    def get_variable_psf(self, inf_loss=None, shape=None):
        if inf_loss is not self.want[0] or shape is not self.want[1]:
            self.bad = (inf_loss, shape)
        f = PList([None]) if self.single else PList(n=self.n, get=Field)
        return PList([f, PList([self.psf(ZERO)]) if self.single
                      else PList(n=self.n, get=self.psf)])

    def get_afield_domain(self):
        return tuple(SArr.of((self.H, self.W), lambda i, k=k: app(
            "domain", (lift(k),) + tuple(i), "real"), "f") for k in (0, 1))

    def __getattr__(self, n):
        if n.startswith("_pv"):
            raise AttributeError(n)
        raise Unsupported(f"image.{n}")


class Env:
    """One call: the axes it draws on."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.canvas = None
        self.opts = {}

    def grid(self, shape):
        g = Grid(self, shape)
        self.canvas = Canvas(g.n, self.a, self.b)
        self.made = g
        return g

    def opt(self, what, k):
        self.opts.setdefault(what, []).append(dict(k))


def plt(env):
    one = {}

    def gca():
        if "ax" not in one:
            env.grid(())
            one["ax"] = Axes(env, ZERO)
        return one["ax"]
    return dict(gcf=lambda: Fig(env), gca=gca, figure=lambda *a, **k: Fig(env))


def run(f, env, *a, **k):
    p = shims.LIBS["matplotlib.pyplot"]
    keep = {n: v for n, v in p.__dict__.items() if n != "_nm"}
    p.__dict__.update(plt(env))
    try:
        return "value", f(*a, **k)
    except Exception as e:
        if not genuine(e):
            raise
        return "error", e
    finally:
        for n in plt(env):
            p.__dict__.pop(n, None)
        p.__dict__.update(keep)


def contracts(R):
    R.function(A, "requires N >= 1 components and, on request, axes of any "
               "number; ensures component j is drawn once, on axes j, nothing "
               "else is drawn and the axes are returned; a ValueError exactly "
               "when fewer than N axes are given; options passed on")
    R.function(B_, "the same for the coefficient fields; a ValueError for the "
               "single component without fields")
    R.function("plot.primes", "requires n >= 1; ensures the result is an "
               "integer of at least 1")
    R.function(I_, "draws the pixels on the axes (the current ones by "
               "default), which it returns; options passed on")
    R.function(D, "runs the public method of that name (imshow without one) "
               "and returns its value, else raises ValueError")
    R.assume_text("matplotlib draws what the Axes methods are given; rounding "
                  "of a square root is taken as exact")
    W = R.world()
    pl = W.module("plot")

    keep = getattr(pl, "primes", None)
    if keep is not None:
        R.run(lambda: primes(R, keep))

        def spec(n):
            r = app("primes", (num_e(n),), "int")
            C.assume(OR(LT(num_e(n), ONE), LE(ONE, r)))
            return mk(r, "i")
        pl.primes = spec

    for fn, coef in ((A, False), (B_, True)):
        for how in ("auto", "array", "single"):
            for kws in (False, True):
                for iso in {how != "array" and kws and not coef,
                            kws and not coef}:
                    R.run(lambda: components(R, pl, fn, coef, how, iso, kws))
    R.run(lambda: nofields(R, pl))
    pl.primes = keep
    R.run(lambda: image(R, pl))
    R.run(lambda: dispatch(R, pl))


def primes(R, f):
    P = "plot.primes"
    n = fresh("n")
    C.assume(LE(ONE, n))
    try:
        r = f(mk(n, "i"))
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(P, "no exception", f"{type(e).__name__}: {e}")
        return
    R.cover("primes")
    if core.kind_of(r) != "i":
        R.fail(P, "the result is an integer", repr(r))
        return
    R.prove(P, "the result is at least one", LE(ONE, num_e(r)))


def components(R, pl, fn, coef, how, iso, kws):
    n = fresh("N")
    C.assume(LE(lift(2) if coef else ONE, n))
    loss, shape = (Token("inf_loss"), Token("shape")) if kws else (None, None)
    si = Si(n, False, loss, shape)
    env = Env(*((si.H, si.W) if coef else (si.h, si.w)))
    k = {}
    if kws:
        k = dict(inf_loss=loss, shape=shape, cmap_kw={"shrink": Token("s")},
                 cmap=Token("cmap"), interpolation=Token("i"))
    if iso:
        k["iso"] = True
        if kws:
            k["iso_kw"] = {"colors": Token("colors")}
    axs = None
    if how == "array":
        m = fresh("M")
        C.assume(LE(ONE, m))
        axs = env.grid((m,))
    elif how == "single":
        axs = env.grid(())
    want = {a: dict(b) if isinstance(b, dict) else b for a, b in k.items()}
    kind, v = run(getattr(pl.Plot(si), fn.split(".")[1]), env, axs=axs, **k)
    M = axs.n if axs is not None else None
    if kind == "error":
        nm = "the automatic layout holds every component" if axs is None \
            else "only too few axes are refused, with a ValueError"
        if isinstance(v, ValueError) and axs is not None:
            R.prove(fn, nm, LT(M, n))
        else:
            R.fail(fn, nm, f"{type(v).__name__}: {v}")
        return
    R.cover(f"{fn} {how}")
    if axs is None:
        R.add(fn, "the automatic layout holds every component", "proved",
              "path")
        if env.canvas is None:
            raise Unsupported("no axes were made")
        axs = env.made
        M = axs.n
    R.prove(fn, "too few axes are refused", LE(n, M))
    if v is not axs:
        R.fail(fn, "the axes are returned", repr(v))
    else:
        R.add(fn, "the axes are returned", "proved", "path")
    if si.bad is not None:
        R.fail(fn, "the loss and the shape are passed on", repr(si.bad))
    else:
        R.add(fn, "the loss and the shape are passed on", "proved", "path")
    c = env.canvas
    j = fresh("j")
    rng = [LE(ZERO, j), LT(j, n)]
    R.prove(fn, "every component is drawn once", EQ(c.count.at((j,)), ONE),
            rng)
    R.prove(fn, "nothing else is drawn", EQ(c.count.at((j,)), ZERO),
            [LE(n, j), LT(j, M)])
    t = (fresh("t"), fresh("t"))
    if coef:
        x, y = si.get_afield_domain()
        val = Field(j)(x, y).at(t)
    else:
        val = si.psf(j).at(t)
    R.prove(fn, "axes j show component j", EQ(c.what.at((j,) + t), val), rng +
            [f for a, s in zip(t, (env.a, env.b))
             for f in (LE(ZERO, a), LT(a, s))])
    options(R, fn, env, want, iso)


def options(R, fn, env, want, iso):
    nm = "the options of the caller are passed on"
    bad = None
    for kw in env.opts.get("imshow", []):
        for o in ("cmap", "interpolation"):
            if o in want and kw.get(o) is not want[o]:
                bad = f"imshow: {o}"
    for kw in env.opts.get("colorbar", []):
        if "cmap_kw" in want and kw.get("shrink") is not \
                want["cmap_kw"]["shrink"]:
            bad = "colorbar: shrink"
    if iso and not env.opts.get("contour"):
        bad = "no contours"
    if not iso and env.opts.get("contour"):
        bad = "contours"
    for kw in env.opts.get("contour", []):
        if "iso_kw" in want and kw.get("colors") is not \
                want["iso_kw"]["colors"]:
            bad = "contour: colors"
    if bad:
        R.fail(fn, nm, bad)
    else:
        R.add(fn, nm, "proved", "path")


def nofields(R, pl):
    si = Si(ONE, True, None, None)
    kind, v = run(pl.Plot(si).autopsf_coef, Env(si.H, si.W))
    nm = "a single component without fields is refused with a ValueError"
    if kind == "error" and isinstance(v, ValueError):
        R.add(B_, nm, "proved", "path")
    else:
        R.fail(B_, nm, repr(v))


def image(R, pl):
    si = Si(ONE, True, None, None)
    env = Env(si.H, si.W)
    given = C.decide(EQ(fresh("given"), ZERO))
    ax = None
    if given:
        env.grid(())
        ax = Axes(env, ZERO)
    want = {"cmap": Token("cmap"), "origin": Token("origin")}
    kind, v = run(pl.Plot(si).imshow, env, ax=ax, **want)
    if kind == "error":
        R.fail(I_, "no exception", f"{type(v).__name__}: {v}")
        return
    c = env.canvas
    if not isinstance(v, Axes) or v.env is not env or (
            given and v is not ax):
        R.fail(I_, "the axes are returned", repr(v))
        return
    R.add(I_, "the axes are returned", "proved", "path")
    R.prove(I_, "the pixels are drawn once", EQ(c.count.at((ZERO,)), ONE))
    t = (fresh("t"), fresh("t"))
    R.prove(I_, "the pixels are those of the image", EQ(
        c.what.at((ZERO,) + t), app("pix", t, "real")))
    kw = env.opts["imshow"][0]
    if any(kw.get(o) is not want[o] for o in want):
        R.fail(I_, "the options of the caller are passed on", repr(kw))
    else:
        R.add(I_, "the options of the caller are passed on", "proved", "path")


class AnyName(str):
    """A name that is no attribute; nothing else is known about it."""
    __hash__ = str.__hash__
    others = ()

    def __eq__(self, o):
        if self is o:
            return True
        if o in self.others:
            return False
        return bool(bool_of(BAPP(f"name_is_{o}"))) if isinstance(o, str) \
            else False

    def __ne__(self, o):
        return not self == o


def dispatch(R, pl):
    si = Si(ONE, True, None, None)
    p = pl.Plot(si)
    names = [x for x in dir(p) if not x.startswith("_pv")]
    public = [x for x in names if not x.startswith("_")
              and callable(getattr(p, x))]
    if "imshow" not in public:
        raise Unsupported("imshow is missing")
    k = {"alpha": Token("alpha")}
    AnyName.others = tuple(names)
    for nm in names + [AnyName("\ue002"), AnyName("_\ue002"), None]:
        p = pl.Plot(si)
        called = []
        out = {x: Token("value of " + x) for x in public}
        for x in public:
            def rec(*a, x=x, **kw):
                called.append((x, a, kw))
                return out[x]
            p.__dict__[x] = rec
        try:
            v = p(nm, **k)
        except Exception as e:
            if not genuine(e):
                raise
            v = e
        if nm is None or not isinstance(nm, AnyName) and nm in public:
            x = "imshow" if nm is None else nm
            good = called == [(x, (), k)] and v is out[x]
            name = "a public method runs once, with the options, and its " \
                "value is returned" if nm else "without a name the image is " \
                "plotted"
        else:
            good = isinstance(v, ValueError) and not called
            name = "any other name is refused with a ValueError"
        if good:
            R.add(D, name, "proved", "path")
        else:
            R.fail(D, name, f"{nm!r}: {v!r} {called}")
    R.cover("dispatch")

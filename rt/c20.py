"""Plots: every component once, in order; dispatch by name."""
from rt.common import need, np
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from properimage import plot  # noqa: E402

RULE = ("stub images with N components for every N up to a bound, automatic "
        "and given axes (enough, exact, too few; arrays, lists, single axes), "
        "options, and every kind of plot name; non-trivial: N > 1 or a name")


class StubSI:
    def __init__(self, n, s=0):
        self.n = n
        r = np.random.default_rng(n * 1000 + s)
        self.basis = [np.abs(r.normal(0, 1, (5, 7))) + i for i in range(n)]
        self.fields = ([None] if n == 1 else
                       [self._mk(i) for i in range(n)])
        self.data = np.arange(20.0).reshape(4, 5)
        self.asked = []

    def _mk(self, i):
        return lambda x, y: x * (i + 1.0) + y * 0.5 - i

    def get_variable_psf(self, inf_loss=None, shape=None):
        self.asked.append((inf_loss, shape))
        return [self.fields, list(self.basis)]

    def get_afield_domain(self):
        return np.mgrid[:6, :4]


def cases(seed, tier):
    for n in range(1, 34 if tier == "quick" else 120):
        yield {"what": "autopsf", "n": n, "axs": "auto"}
        if n > 1:
            yield {"what": "autopsf_coef", "n": n, "axs": "auto"}
    for n in (1, 2, 3, 4, 5, 6, 9):
        for axs in ("exact", "more", "few", "list", "grid", "single",
                    "grid-"):
            if axs == "grid-" and n < 3:
                continue
            yield {"what": "autopsf", "n": n, "axs": axs}
            yield {"what": "autopsf", "n": n, "axs": axs, "kw": True}
            if n > 1:
                yield {"what": "autopsf_coef", "n": n, "axs": axs}
                yield {"what": "autopsf_coef", "n": n, "axs": axs, "kw": True}
    yield {"what": "coef1"}
    for name in (None, "imshow", "autopsf", "autopsf_coef", "_x", "__init__",
                 "__call__", "nope", "si", "DEFAULT_PLOT", "__class__",
                 "imshow_", "Imshow", "autopsf_", "__dict__"):
        yield {"what": "name", "name": name}
    for n in range(34, 60 if tier == "quick" else 400):
        yield {"what": "layout", "n": n}
        yield {"what": "autopsf" if n % 2 else "autopsf_coef", "n": n,
               "axs": "auto"}


def nontrivial(s):
    return s["what"] in ("name", "coef1") or s.get("n", 0) > 1


def shown(ax):
    return [im.get_array() for im in ax.get_images()]


def check(s):
    plt.close("all")
    try:
        _check(s)
    finally:
        plt.close("all")


class FakeAx:
    pass


def _check(s):
    if s["what"] == "name":
        return names(s["name"])
    if s["what"] == "coef1":
        try:
            plot.Plot(StubSI(1)).autopsf_coef()
        except ValueError:
            return
        need(False, "coefficients of a single PSF plotted")
    if s["what"] == "layout":
        p = plot.primes(s["n"])
        need(p >= 1, f"primes({s['n']}) = {p}")
        return
    n = s["n"]
    si = StubSI(n)
    pl = plot.Plot(si)
    fn = getattr(pl, s["what"])
    kw = {}
    if s.get("kw"):
        kw = {"cmap": "gray", "inf_loss": 0.123, "shape": (5, 5),
              "cmap_kw": {"shrink": 0.31}}
        if s["what"] == "autopsf":
            kw.update(iso=True, iso_kw={"colors": "red", "alpha": 0.25})
    given = s["axs"]
    if given != "auto":
        fig = plt.figure()
        k = {"exact": n, "more": n + 2, "few": n - 1, "list": n,
             "grid": n + (n % 2), "single": 1,
             "grid-": 2 * ((n - 1) // 2)}[given]
        if given in ("grid", "grid-"):
            arr = np.array([fig.add_subplot(2, max(1, k // 2), i + 1)
                            for i in range(k)], dtype=object
                           ).reshape(2, max(1, k // 2))
        else:
            arr = np.array([fig.add_subplot(1, max(k, 1), i + 1)
                            for i in range(k)], dtype=object)
        if given == "list":
            arr = list(arr)
        if given == "single":
            arr = arr[0]
        kw["axs"] = arr
        if k < n:
            try:
                fn(**kw)
            except ValueError:
                return
            need(False, f"{k} axes accepted for {n} components")
    axs = fn(**kw)
    flat = list(np.ravel(axs))
    need(len(flat) >= n, f"{len(flat)} axes for {n} components")
    if given != "auto":
        need(flat == list(np.ravel(kw["axs"])), "the given axes are not used")
    need(len({id(a) for a in flat}) == len(flat), "axes repeated")
    x, y = si.get_afield_domain()
    for i, ax in enumerate(flat):
        ims = shown(ax)
        if i < n:
            need(len(ims) == 1, f"{len(ims)} images on axes {i} of {n}")
            want = (si.basis[i] if s["what"] == "autopsf"
                    else si.fields[i](x, y))
            need(np.array_equal(np.asarray(ims[0]), want),
                 f"axes {i} does not show component {i}")
            if s.get("kw"):
                need(ax.get_images()[0].get_cmap().name == "gray",
                     "cmap option lost")
                cb = ax.get_images()[0].colorbar
                need(cb is not None, "no colorbar")
                if s["what"] == "autopsf":
                    from matplotlib.contour import ContourSet

                    cs = [c for c in ax.get_children()
                          if isinstance(c, ContourSet)]
                    need(len(cs) == 1 and cs[0].get_alpha() == 0.25,
                         "contour options lost")
        else:
            need(len(ims) == 0, "image on a surplus axes")
    if s.get("kw"):
        need(si.asked and all(a[0] == 0.123 and a[1] == (5, 5)
                              for a in si.asked), "PSF options lost")


def names(name):
    si = StubSI(3)
    pl = plot.Plot(si)
    ok = name in (None, "imshow", "autopsf", "autopsf_coef")
    if not ok:
        try:
            pl(name)
        except ValueError:
            return
        need(False, f"name {name!r} accepted")
    calls = []
    cls = type(pl)
    target = name or "imshow"
    orig = getattr(cls, target)

    def spy(self, *a, **k):
        calls.append((target, a, k))
        return "result"

    setattr(cls, target, spy)
    try:
        got = pl(name, cmap="gray", foo=3)
        got2 = pl(plot=name)
    finally:
        setattr(cls, target, orig)
    need(got == "result" and got2 == "result", "result not passed on")
    need(calls == [(target, (), {"cmap": "gray", "foo": 3}), (target, (), {})],
         f"calls {calls}")
    fig = plt.figure()
    if target == "imshow":
        ax = fig.add_subplot(111)
        r = pl(name, ax=ax, cmap="gray", origin="upper")
        need(r is ax and np.array_equal(np.asarray(shown(ax)[0]), si.data),
             "imshow does not show the data on the given axes")
        need(ax.get_images()[0].origin == "upper"
             and ax.get_images()[0].get_cmap().name == "gray",
             "imshow options lost")
        plt.close("all")
        ax2 = pl(name)
        need(np.array_equal(np.asarray(shown(ax2)[0]), si.data)
             and ax2.get_images()[0].origin == "lower",
             "default imshow")
    else:
        r = pl(name)
        need(len(np.ravel(r)) >= 3, "axes")

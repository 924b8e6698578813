"""C14: star stamps, their positions and their count stay in step."""
from pyvc import arrays, cats, core, expr, loops, prove
from pyvc.arrays import Buffer, SArr, SMa, asarray, dim, num
from pyvc.core import (AND, C, EQ, IFF, LE, LT, NOT, ONE, OR, SNum,
                       Unsupported, ZERO, app, fresh, ite, lift, mk, mk_sum,
                       num_e, subst)
from pyvc.expr import fn
from pyvc.instrument import genuine
from pyvc.seqs import PList, vsubst
from pyvc.shims import LIBS
from .c10 import Bkg
from .image import inside, shims, stubbed

F = "SingleImage.stamps_pos"
FN = "SingleImage.n_sources"
OPAQUE = ("mean", "min", "max", "amin", "amax", "sum", "std", "median",
          "percentile")
HALF = lift(1) / 2
CUTS = []
INSIDE = set()     # indices of stamps known to be in the cut


def contracts(R):
    R.function(F, "requires a source list with positions in the frame, a "
               "cleaned image without NaN, stamps of at least one pixel and "
               "with a sum that is not zero; ensures as many stored stamps as "
               "positions as counted sources, numbered from zero in the order "
               "of the positions, each position that of a source; the stamp "
               "stored under k is a scaled and shifted cut of the cleaned "
               "image at position k, framed to the shape the image reports "
               "afterwards, of unit sum; the cleaned image is left as it is")
    R.function(FN, "ensures that number")
    R.assume_text("the sums divided by are not zero; the cleaned image has no "
                  "NaN (C09); sources lie in the frame; the tests that reject "
                  "a stamp are any conditions (means, deviations, percentiles "
                  "and local maxima are arbitrary functions of the stamp)")
    W = R.world()
    si = W.module("single_image")
    ut = W.module("utils")
    cls = stubbed(si.SingleImage, ("data", "mask", "interped", "_bkg"))
    old = [shims.NPDB, loops.UNROLL, arrays.new_sel] + [getattr(shims.NP, k)
                                        for k in OPAQUE]
    N = LIBS["astropy.nddata.utils"]
    try:
        shims.NPDB = lambda name, mode=None: Store(R, name, mode)
        N.extract_array = lambda *a, **k: extract(R, *a, **k)
        LIBS["astropy.nddata"].extract_array = N.extract_array
        if hasattr(si, "extract_array"):
            si.extract_array = N.extract_array
        for k in OPAQUE:
            setattr(shims.NP, k, boxed(k))
        arrays.new_sel = selection
        shims.NP.pad = pad
        shims.NP.delete = delete
        ut.find_S_local_maxima = maxima
        loops.UNROLL = 8
        for few, strict, first in ((True, True, "n_sources"),
                                   (False, False, "stamps_pos"),
                                   (False, True, "stamps_pos")):
            R.run(lambda: measure(R, cls, few, strict, first))
    finally:
        shims.NPDB, loops.UNROLL, arrays.new_sel = old[:3]
        for k, v in zip(OPAQUE, old[3:]):
            setattr(shims.NP, k, v)


BOXES, KEYS, SUMS = {}, {}, {}
INDEX = tuple(core.var(f"box_i{k}", "int") for k in range(2))


def summary(name, a, extra=(), sort="real"):
    """A function of all elements of an array, as a new function of their
    free variables (the same one for the same elements)."""
    if isinstance(a, SMa) or a.ngetter() or len(a.shape_e) > 2:
        raise Unsupported(f"np.{name} operand")
    sel = (a.sel if isinstance(a, arrays.SSel) else None)
    shape = tuple(sel[2] if sel else a.shape_e)
    t = INDEX[:len(shape)]
    body = (sel[1](t), sel[0](t)) if sel else (a.at(t),)
    key = (name, shape, body, tuple(extra))
    if key not in KEYS:
        # their free variables, by name
        terms = list(shape) + list(body) + list(extra)
        vs = set()
        for e in terms:
            vs |= e.vars()
        for v in t:
            vs -= v.vars()
        vs = sorted(vs, key=lambda v: str(v.args[0]))
        mp = {v: core.var(f"box_{k}", v.sort) for k, v in enumerate(vs)}
        gen = (name, bool(sel), len(shape), tuple(v.sort for v in vs),
               tuple(subst(e, mp) for e in terms))
        nm = BOXES.setdefault(gen, f"{name}~{len(BOXES)}")
        KEYS[key] = app(nm, tuple(expr.atom_e(v) for v in vs), sort)
    return KEYS[key]


def boxed(name):
    def f(a, *rest, axis=None, **k):
        rest = rest + tuple(k.values())
        if axis is not None:
            raise Unsupported(f"np.{name} along an axis")
        shims.uses("numpy." + name, "a function of the elements")
        a = asarray(a)
        r = summary(name, a, tuple(num_e(x) for x in rest))
        if name == "sum" and not (a.sel if isinstance(a, arrays.SSel) else None):
            SUMS[r] = a
        return SNum(r, "f")
    return f


def selection(val, mask):
    """val[mask]: some of the elements"""
    n = summary("count", mask, (), "int")
    C.assume(LE(ZERO, n))

    def get(i):
        raise Unsupported("an element of a selection")
    r = arrays.SSel(Buffer((n,), get), (n,), None, val.dtype_)
    r.sel = (val.getter(), mask.getter(), val.shape_e)
    return r


class Cut:
    def __init__(self, shape, pos, lo):
        self.shape, self.pos, self.lo = shape, pos, lo


class Watched(Buffer):
    """Pixels of a cut: a view of the image where the cut is inside of it."""

    def set(self, f, nan):
        self.guard()
        super().set(f, nan)


def extract(R, large, shape, position, mode="partial", fill_value=None, **k):
    """astropy.nddata.extract_array(mode='partial'): the pixels at ceil(p -
    n / 2) on, the fill value out of the frame; a view of the image when all
    of them are in the frame"""
    shims.uses("astropy.nddata.extract_array", extract.__doc__)
    large = asarray(large)
    if k or mode != "partial" or isinstance(large, SMa) or large.ngetter() \
            or len(large.shape_e) != 2 or fill_value is None:
        raise Unsupported("extract_array arguments")
    shape = tuple(dim(x) for x in shape)
    pos = tuple(num_e(x) for x in position)
    n = large.shape_e
    lo = tuple(-fn("floor", s * HALF - p) for s, p in zip(shape, pos))
    apart = OR(*[OR(LE(a + s, ZERO), LE(m, a))
                 for a, s, m in zip(lo, shape, n)])
    if not C.known(NOT(apart)) and C.decide(apart):
        shims.raise_(ValueError("Arrays do not overlap."))
    t = tuple(fresh("t") for _ in n)
    if not EQ(num(large.at(t)), app("clean", t, "real")) is core.TRUE:
        raise Unsupported("a cut of another image")
    fill = num_e(fill_value)

    def at(i):
        return app("cut", shape + pos + (fill,) + tuple(i), "real")
    whole = AND(*[AND(LE(ZERO, a), LE(a + s, m))
                  for a, s, m in zip(lo, shape, n)])
    buf = Watched(shape, at)

    def guard():
        if C.decide(whole):
            R.fail(F, "the cleaned image is left as it is",
                   "a cut of it is changed in place")
    buf.guard = guard
    a = SArr(buf, shape, None, "f")
    CUTS.append((C.frames[-1], Cut(shape, pos, lo), a.getter(), n))
    return a


def pad(a, width, mode="constant", **k):
    """numpy.pad: the array, framed by functions of it"""
    shims.uses("numpy.pad", pad.__doc__)
    a = asarray(a)
    w = [tuple(dim(y) for y in x) for x in list(width)]
    if len(w) != len(a.shape_e) or any(len(x) != 2 for x in w):
        raise Unsupported("pad width")
    for x in w:
        for y in x:
            if C.decide(LT(y, ZERO)):
                shims.raise_(ValueError(
                    "index can't contain negative values"))
    g, old = a.getter(), a
    whole = summary("content", a)

    def ring(i):
        return app("padding", (whole,) + tuple(i), "real")
    shape = tuple(s + x[0] + x[1] for s, x in zip(a.shape_e, w))

    def at(i):
        j = tuple(x - y[0] for x, y in zip(i, w))
        if i in INSIDE:
            return num(g(j))
        return ite(AND(*inside(j, old.shape_e)), num(g(j)),
                   ring(i))
    return SArr.of(shape, at, a.dtype_)


def maxima(img, threshold=None, neighborhood_size=None):
    """find_S_local_maxima: a list of (row, column, height)"""
    shims.uses("utils.find_S_local_maxima", maxima.__doc__)
    a = asarray(img)
    n = summary("n_maxima", a, (), "int")
    whole = summary("content", a)
    C.assume(LE(ZERO, n))

    def get(j):
        return tuple(SNum(app(f"maximum_{c}", (whole, j), "real"), "f")
                     for c in "yxh")
    return PList(n=n, get=get)


def delete(a, idx, axis=None):
    """numpy.delete: fewer rows"""
    if not isinstance(a, cats.Cat):
        raise Unsupported("delete from an array")
    u = fresh("m")
    C.assume(LE(ZERO, u))
    c = fresh("d").single().args[0]
    return cats.Cat(u, {k: SArr.of((u,), lambda i, k=k: app(
        f"{c}_{k}", tuple(i), "int" if v.dtype_ == "i" else "real"),
        v.dtype_) for k, v in a.cols.items()})


class Store:
    """The stamp store: dump(a, i) stores a copy of a under the number i."""

    def __init__(self, R, name, mode):
        if mode != "store":
            raise Unsupported("store mode")
        self.R = R
        self.log = PList()

    def dump(self, a, ident):
        a = asarray(a)
        if isinstance(a, SMa) or a.ngetter() or len(a.shape_e) != 2:
            raise Unsupported("stored stamp")
        cut, fields = cut_of(self.R, a)
        self.log.append((mk(num_e(ident), "i"),) + fields)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"stamp store: {n}")


def cut_of(R, a):
    """The cut of this path that the stamp is an image of, with the stamp's
    properties proved."""
    mine = [c for c in CUTS if c[0] is C.frames[-1]]
    for _, cut, g, n in reversed(mine):
        off = tuple((x - y) * HALF for x, y in zip(a.shape_e, cut.shape))
        if any(o.const() is None or o.const() < 0 or
               o.const() != int(o.const()) for o in off):
            continue
        goal, rng = affine(a, cut, g, n, off)
        if prove.Prover(4000, 20).prove(list(C.pc) + rng, goal) == "proved":
            R.add(F, "each stored stamp is a scaled and shifted cut of the "
                  "cleaned image", "proved", ["normal form"])
            unit(R, a)
            return cut, tuple(SNum(p, "f") for p in cut.pos) + tuple(
                mk(s, "i") for s in a.shape_e)
    if not mine:
        raise Unsupported("a stored stamp that is not cut in the same step")
    _, cut, g, n = mine[-1]
    off = tuple((x - y) * HALF for x, y in zip(a.shape_e, cut.shape))
    goal, rng = affine(a, cut, g, n, off)
    R.prove(F, "each stored stamp is a scaled and shifted cut of the cleaned "
            "image", goal, rng, soft=True)
    raise Unsupported("a stored stamp that is not known to be a cut")


def unit(R, a):
    """Element by element an array over its own sum (the sum is linear)."""
    t = tuple(fresh("t") for _ in a.shape_e)
    x = num(a.at(t))
    dens = {e for m in x.terms for e, k in m if k < 0}
    for d in dens:
        b = SUMS.get(expr.atom_e(d))
        if b is not None and tuple(b.shape_e) == tuple(a.shape_e) and \
                prove.Prover(4000, 20).prove(list(C.pc), EQ(
                    x * expr.atom_e(d), num(b.at(t)))) == "proved":
            R.add(F, "stamps have unit sum", "proved", ["normal form"])
            return
    R.prove(F, "stamps have unit sum", core.FALSE, soft=True)


def affine(a, cut, g, n, off):
    ts = [tuple(fresh("i") for _ in "yx") for _ in range(3)]
    rng = []
    for t in ts:
        rng += inside(t, cut.shape)
        INSIDE.add(tuple(x + y for x, y in zip(t, off)))
    st = [num(a.at(tuple(x + y for x, y in zip(t, off)))) for t in ts]
    c = [num(g(t)) for t in ts]
    return EQ((st[0] - st[1]) * (c[0] - c[2]),
              (st[0] - st[2]) * (c[0] - c[1])), rng


def measure(R, cls, few, strict, first):
    CUTS.clear()
    N = fresh("N")
    # few sources (all of them then kept) or many, strict or not
    C.assume(LE(ZERO, N))
    C.assume(LE(N, lift(20)) if few else LT(lift(20), N))
    n = (fresh("n"), fresh("n"))
    s = (fresh("s"), fresh("s"))
    for v in n + s:
        C.assume(LT(ZERO, v))
    o = object.__new__(cls)
    o.__dict__["pv__bkg"] = Bkg(n)
    src = cats.Cat(N, {c: SArr.of((N,), lambda i, c=c: app(
        f"src_{c}", tuple(i), "real"), "f") for c in ("x", "y", "flux")})
    j = fresh("j")
    for c, m in (("y", n[0]), ("x", n[1])):
        p = app(f"src_{c}", (j,), "real")
        C.assume(core.BALL(ZERO, N, j, AND(LE(ZERO, p), LE(p, m - 1))))
    o._best_sources = src
    o.__dict__["pv_interped"] = SArr.of(n, lambda i: app(
        "clean", tuple(i), "real"), "f")
    o.__dict__["dbname"] = "/pv-tmp/db"
    o._strict_star_pick = strict
    o.stamp_shape = (mk(s[0], "i"), mk(s[1], "i"))
    try:
        if first == "n_sources":
            cnt = o.n_sources
            pos = o.stamps_pos
        else:
            pos = o.stamps_pos
            cnt = o.n_sources
        shape = o.stamp_shape
    except Exception as e:
        if not genuine(e):
            raise
        R.fail(F, "no exception", f"{type(e).__name__}: {e}", soft=True)
        return
    log = o.db.log
    R.prove(F, "as many stored stamps as counted sources",
            EQ(log.length(), num_e(cnt)))
    first_pos, pos = pos, asarray(pos)
    R.prove(F, "as many positions as counted sources",
            EQ(pos.shape_e[0], num_e(cnt)))
    step(R, log, pos, shape, src)
    t = tuple(fresh("t") for _ in n)
    R.prove(F, "the cleaned image is left as it is", EQ(
        o.__dict__["pv_interped"].at(t), app("clean", t, "real")),
        inside(t, n))
    again = o.stamps_pos
    R.prove(F, "a second access returns the same positions",
            core.TRUE if again is first_pos else core.FALSE)


def step(R, log, pos, shape, src):
    """Entry by entry."""
    k, t = fresh("k"), fresh("t")
    rng = inside((k,), (log.length(),))
    if log.items is not None:
        if log.items:
            raise Unsupported("stamps of a known number")
        return
    if log.guard:
        # exactly k stored stamps come before stored stamp k
        b = log.nth(k)
        rng.append(EQ(mk_sum(ZERO, b, t, ite(log.guard(t), ONE, ZERO)), k))
    else:
        b = k
    e = log.get(b)
    R.prove(F, "the k-th stamp is stored under k", EQ(num_e(e[0]), k), rng)
    for c in (0, 1):
        p = num(pos.at((k, lift(c))))
        R.prove(F, "the k-th stamp is cut at the k-th position",
                EQ(num_e(e[1 + c]), p), rng)
        R.prove(F, "each position is that of its source", EQ(
            p, app("src_" + "yx"[c], (b,), "real")), rng)
    R.prove(F, "stamps have the shape the image reports", AND(
        *[EQ(num_e(a), num_e(b)) for a, b in zip(e[3:5], shape)]), rng)

"""C16: catalogue matching pairs mutual nearest neighbours within the
radius."""
from pyvc import cats, core
from pyvc.arrays import SArr, asarray, boolean
from pyvc.core import (AND, BALL, C, EQ, IFF, LE, LT, NOT, ONE, OR, SNum,
                       Unsupported, ZERO, app, fresh, lift, mk, num_e)
from pyvc.instrument import genuine
from .image import inside

F = "_matching"
FX = "crossmatch"
UNMATCHED = lift(-13133)


def contracts(R):
    R.function(FX, "ensures, for every point, the distance and index of the "
               "nearest point of the other set when nearer than the bound, "
               "else inf and the number of those points; sets of different "
               "dimension raise ValueError")
    R.function(F, "requires distinct identifiers, none of them the marker of "
               "unmatched sources, and no two equal distances; ensures that a "
               "source has the identifier of a master source exactly when "
               "each is the nearest of the other's catalogue and their "
               "distance is below the radius, else the marker; no identifier "
               "twice; flags for exactly the matched; catalogues unchanged "
               "but for the column masterindex")
    R.assume_text("no ties in the distances; distances in exact arithmetic; "
                  "identifiers are distinct and not -13133")
    W = R.world()
    ut = W.module("utils")
    R.run(lambda: cross(R, ut))
    for key in (None, "sourceid"):
        for masked in (True, False):
            R.run(lambda: match(R, ut, key, masked))


def points(nm, n, d=2):
    return SArr.of((n, lift(d)), lambda i: app(nm, tuple(i), "real"), "f")


def cross(R, ut):
    cats.QUERIES.clear()
    n, m = fresh("n"), fresh("m")
    C.assume(LE(ZERO, n))
    C.assume(LE(ZERO, m))
    a, b = points("a", n), points("b", m)
    r = fresh("radius", "real")
    bound = C.decide(core.BAPP("a radius is given"))
    kw = {"max_distance": SNum(r, "f")} if bound else {}
    other = C.decide(core.BAPP("different dimensions"))
    if other:
        b = points("b", m, 3)
    try:
        dist, ind = ut.crossmatch(a, b, **kw)
    except Exception as e:
        if not genuine(e):
            raise
        R.prove(FX, "sets of different dimension raise ValueError",
                core.TRUE if other and isinstance(e, ValueError)
                else core.FALSE)
        return
    if other:
        R.fail(FX, "sets of different dimension raise ValueError", "")
        return
    if not isinstance(dist, cats.Dist):
        raise Unsupported("distances of another kind")
    ind = asarray(ind)
    i, j = fresh("i"), fresh("j")
    rng = inside((i,), (n,)) + inside((j,), (m,))
    R.prove(FX, "one distance and one index for every point", AND(
        EQ(dist.shape_e[0], n), EQ(ind.shape_e[0], n)))
    found = boolean(dist.found((i,)))
    x = ind.at((i,))
    facts = cats.instances((n, [i]), (m, [j]), 1)
    rng = rng + facts

    def d2(i, j):
        return cats.dist2(a, i, b, j)
    d = dist.d.at((i,))
    R.prove(FX, "the index is that of the nearest point", OR(NOT(found), AND(
        LE(ZERO, x), LT(x, m), LE(d2(i, x), d2(i, j)))), rng)
    R.prove(FX, "the distance is that of the nearest point", OR(
        NOT(found), AND(LE(ZERO, d), EQ(d * d, d2(i, x)))), rng)
    near = LT(d2(i, j), r * r) if bound else core.TRUE
    pos = [LT(ZERO, r)] if bound else []
    R.prove(FX, "a point within the bound is found", OR(NOT(near), found),
            rng + pos)
    R.prove(FX, "none is found beyond the bound", OR(
        NOT(found), LT(d2(i, x), r * r) if bound else core.TRUE), rng + pos)
    R.prove(FX, "no neighbour: the number of points", OR(found, EQ(x, m)),
            inside((i,), (n,)) + facts)
    unchanged(R, FX, a, "a", b, "b")


def unchanged(R, fn, *arrs):
    for a, nm in zip(arrs[::2], arrs[1::2]):
        t = tuple(fresh("t") for _ in a.shape_e)
        R.prove(fn, "the points are left as they are", EQ(a.at(t), app(
            nm, t, "real")), inside(t, a.shape_e))


def catalogue(nm, n, ids):
    cols = {c: SArr.of((n,), lambda i, c=c: app(f"{c}_{nm}", tuple(i),
                                                "real"), "f")
            for c in ("x", "y", "flux")}
    for c in ids:
        cols[c] = SArr.of((n,), lambda i, c=c: app(f"{c}_{nm}", tuple(i),
                                                   "int"), "i")
    return cats.Cat(n, cols)


def match(R, ut, key, masked):
    cats.QUERIES.clear()
    n, m = fresh("n"), fresh("m")
    C.assume(LE(ZERO, n))
    C.assume(LE(ZERO, m))
    M = catalogue("M", n, ("masterindex", "sourceid"))
    K = catalogue("C", m, ("sourceid",))
    r = fresh("radius", "real")
    C.assume(LT(ZERO, r))

    def ident(j):
        return j if key is None else app("sourceid_M", (j,), "int")

    def d2(k, j):
        """source k, master j"""
        x = app("x_M", (j,), "real") - app("x_C", (k,), "real")
        y = app("y_M", (j,), "real") - app("y_C", (k,), "real")
        return x * x + y * y
    try:
        res = ut._matching(M, K, masteridskey=key, radius=SNum(r, "f"),
                           masked=masked)
        if masked:
            if not (isinstance(res, tuple) and len(res) == 2):
                R.fail(F, "identifiers and flags", repr(type(res)))
                return
            ids, flags = asarray(res[0]), asarray(res[1])
        else:
            ids, flags = asarray(res), None
    except Exception as e:
        if not genuine(e):
            raise
        # the path may contradict what the search ensures
        R.fail(F, "no exception", f"{type(e).__name__}: {e}", soft=isinstance(
            e, IndexError))
        return
    R.prove(F, "one identifier for every source", AND(
        EQ(lift(len(ids.shape_e)), ONE), EQ(ids.shape_e[0], m)))
    k, j = fresh("k"), fresh("j")
    i, l = fresh("i"), fresh("l")
    qs = [q for q in cats.QUERIES if q[0].shape_e[0] == m and
          q[1].shape_e[0] == n]
    if not qs:
        raise Unsupported("no search of the nearest master sources")
    b, a = qs[0][:2]

    def nn(k):
        return app("nearest", (cats.content(b), cats.content(a), k), "int")
    x = nn(k)
    rk, rj = inside((k,), (m,)), inside((j,), (n,))
    rng = rk + rj
    marker = [OR(*[NOT(q) for q in inside((y,), (n,))] + [NOT(EQ(ident(
        y), UNMATCHED))]) for y in (j, x)]
    got = ids.at((k,))
    # 1. mutual nearest neighbours within the radius are matched
    facts = cats.instances((m, [k]), (n, [j]), 1)
    near = [LT(d2(k, j), r * r)]
    for y in [x]:
        near.append(OR(EQ(y, j), LT(d2(k, j), d2(k, y)), LT(y, ZERO),
                       LE(n, y)))
    for q in cats.QUERIES:
        if q[0].shape_e[0] == n and q[1].shape_e[0] == m:
            y = app("nearest", (cats.content(q[0]), cats.content(q[1]), j),
                    "int")
            near.append(OR(EQ(y, k), LT(d2(k, j), d2(y, j)), LT(y, ZERO),
                           LE(m, y)))
    R.prove(F, "mutual nearest neighbours within the radius are matched",
            EQ(got, ident(j)), rng + near + facts)
    if flags is not None:
        R.prove(F, "one flag for every source", EQ(flags.shape_e[0], m))
        R.prove(F, "matched sources are flagged", boolean(flags.at((k,))),
                rng + near + marker + facts)
    # 2. a source is marked unmatched or has the identifier of its mutual
    # nearest neighbour within the radius: for any j and i, no master source
    # is nearer to k than x, and no source nearer to x than k
    facts = cats.instances((m, [k, i]), (n, [j]), 2)
    ri = inside((i,), (m,))
    R.prove(F, "only mutual nearest neighbours within the radius are matched",
            OR(EQ(got, UNMATCHED), AND(
                EQ(got, ident(x)), LE(ZERO, x), LT(x, n),
                LT(d2(k, x), r * r), OR(*[NOT(q) for q in rj] + [LE(
                    d2(k, x), d2(k, j))]), LE(d2(k, x), d2(i, x)))),
            rk + ri + facts)
    if flags is not None:
        R.prove(F, "exactly the matched sources are flagged", IFF(
            boolean(flags.at((k,))), NOT(EQ(got, UNMATCHED))), rk + marker)
    # 3. no identifier twice
    facts = cats.instances((m, [k, l]), (n, []), 2)
    y = nn(l)
    inj = OR(NOT(EQ(ident(x), ident(y))), EQ(x, y))
    R.prove(F, "no identifier is given twice", OR(
        EQ(k, l), EQ(got, UNMATCHED), NOT(EQ(got, ids.at((l,))))),
        rk + inside((l,), (m,)) + [inj] + facts)
    # 4. the catalogues
    for c, cat, nm, cn in [(c, M, "M", n) for c in ("x", "y", "flux",
                                                    "sourceid")] + [
            (c, K, "C", m) for c in ("x", "y", "flux", "sourceid")]:
        t = fresh("t")
        R.prove(F, "the catalogues are left as they are", EQ(
            cat.cols[c].at((t,)), app(f"{c}_{nm}", (t,), "int" if c ==
                                      "sourceid" else "real")),
                inside((t,), (cn,)))
    if set(K.cols) != {"x", "y", "flux", "sourceid"} or set(M.cols) != {
            "x", "y", "flux", "sourceid", "masterindex"}:
        R.fail(F, "the catalogues are left as they are", "columns")

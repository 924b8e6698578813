"""_matching / crossmatch: mutual nearest neighbours within the radius."""
from rt.common import need, np
from properimage import utils

RULE = ("random and hand-made pairs of catalogues (empty-ish, identical, "
        "shifted, crowded, one source near many), radii, id columns with and "
        "without zero, negative and repeated-free arbitrary ids; ties in the "
        "distances avoided; non-trivial: at least one pair matches or competes")


def cases(seed, tier):
    r = np.random.default_rng(seed)
    n = 6000 if tier == "quick" else 30000
    for k in range(n):
        yield {"seed": int(r.integers(1 << 30)), "nm": int(r.integers(1, 25)),
               "nc": int(r.integers(1, 25)),
               "mode": str(r.choice(["rand", "shift", "crowd", "same", "line"])),
               "radius": float(r.choice([0.5, 1.5, 2.0, 5.0, 30.0])),
               "key": str(r.choice(["none", "range", "ids", "neg"])),
               "masked": bool(r.integers(2)),
               "extra": bool(r.integers(2))}


def build(s):
    r = np.random.default_rng(s["seed"])
    nm, nc = s["nm"], s["nc"]
    box = 60.0 if s["mode"] != "crowd" else 6.0
    m = r.random((nm, 2)) * box
    if s["mode"] in ("shift", "same"):
        c = m[r.permutation(nm)] + (r.normal(0, 0.6, (nm, 2))
                                    if s["mode"] == "shift" else 0.0)
        c = c[:nc]
    elif s["mode"] == "line":
        m[:, 1] = 3.0
        c = r.random((nc, 2)) * box
        c[:, 1] = 3.0
    else:
        c = r.random((nc, 2)) * box
    dt = [("x", float), ("y", float), ("flux", float), ("masterindex", int),
          ("sourceid", int)]
    M = np.zeros(len(m), dtype=dt)
    M["x"], M["y"] = m.T
    C = np.zeros(len(c), dtype=dt)
    C["x"], C["y"] = c.T
    if s["key"] == "ids":
        M["sourceid"] = r.permutation(5 * nm)[:nm]
    elif s["key"] == "neg":
        M["sourceid"] = r.permutation(nm) - nm // 2
    else:
        M["sourceid"] = np.arange(nm)
    C["sourceid"] = 99
    return M, C


def expected(M, C, radius):
    d = np.hypot(C["x"][:, None] - M["x"][None], C["y"][:, None] - M["y"][None])
    j = d.argmin(1)
    i = d.argmin(0)
    out = np.full(len(C), -1)
    for a in range(len(C)):
        if i[j[a]] == a and d[a, j[a]] < radius:
            out[a] = j[a]
    return out


def check(s):
    M, C = build(s)
    M0, C0 = M.copy(), C.copy()
    want = expected(M, C, s["radius"])
    key = None if s["key"] == "none" else "sourceid"
    ids, flag = utils._matching(M, C, masteridskey=key, radius=s["radius"],
                                masked=True)
    ids2 = utils._matching(M0.copy(), C0.copy(), masteridskey=key,
                           radius=s["radius"])
    idm = np.arange(len(M)) if key is None else M0["sourceid"]
    need(len(ids) == len(C) and len(flag) == len(C), "one id per source")
    need(np.array_equal(np.asarray(ids), np.asarray(ids2)),
         "masked and plain results differ")
    flag = np.asarray(flag)
    need(flag.dtype == bool, "flags are not booleans")
    for k in range(len(C)):
        if want[k] >= 0:
            need(ids[k] == idm[want[k]],
                 f"source {k} has id {ids[k]}, not {idm[want[k]]}")
            need(flag[k], f"source {k} matches but is flagged unmatched")
        else:
            need(not flag[k], f"source {k} is flagged matched")
            need(ids[k] not in idm, f"unmatched source {k} has id {ids[k]}")
    got = np.asarray(ids)[flag]
    need(len(set(got.tolist())) == len(got), "an id is given twice")
    for f in ("x", "y", "flux"):
        need(np.array_equal(M[f], M0[f]) and np.array_equal(C[f], C0[f]),
             "the catalogues are changed")
    # the distances and indices of crossmatch itself
    X1 = np.c_[M0["x"], M0["y"]]
    X2 = np.c_[C0["x"], C0["y"]]
    dist, ind = utils.crossmatch(X1, X2, max_distance=s["radius"])
    d = np.hypot(X1[:, None, 0] - X2[None, :, 0], X1[:, None, 1] - X2[None, :, 1])
    mi = d.min(1)
    for k in range(len(X1)):
        if mi[k] < s["radius"]:
            need(abs(dist[k] - mi[k]) < 1e-9 and d[k, ind[k]] <= mi[k] + 1e-9,
                 "crossmatch: not the nearest")
        elif mi[k] > s["radius"]:
            need(dist[k] == np.inf and ind[k] == len(X2),
                 "crossmatch: a match beyond the radius")
    dist, ind = utils.crossmatch(X1, X2)
    need(np.allclose(dist, mi) and np.allclose(d[np.arange(len(X1)), ind], mi),
         "crossmatch without radius: not the nearest")


def nontrivial(s):
    return (expected(*build(s), s["radius"]) >= 0).any()

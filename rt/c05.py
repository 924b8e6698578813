"""coadd: independence of the number of workers."""
from rt import c04
from rt.common import need, np, close, err

RULE = ("lists of 1 to 6 images with own zero points and masks, every worker "
        "count from 1 to beyond the number of images, against one worker; "
        "non-trivial: at least two images")


def cases(seed, tier):
    r = np.random.default_rng(seed + 5)
    for k in range(90 if tier == "quick" else 500):
        n = 1 + k % 6
        yield {"seed": int(r.integers(40)), "N": n,
               "shape": [[80, 84], [90, 72]][int(r.integers(2))],
               "n": 14, "stamp": [9, 9], "var": float(r.choice([0, 0, .8])),
               "mask": str(r.choice(["own", "last", "none", "nomask"])),
               "last": n - 1, "pre": False,
               "loss": float(r.choice([.5, .2, .1])),
               "procs": [int(v) for v in
                         sorted(set([2, n, n + 1, 2 * n + 3,
                                     int(r.integers(2, 12)),
                                     int(r.integers(2, 40))]))],
               "zps": ([None, [1., 2., 3., .5, .7, 4.],
                        [20.1, 20.7, 19.5, 20.9, 21., 22.]]
                       [int(r.integers(3))])}


def nontrivial(s):
    return s["N"] > 1


def check(s):
    base = c04.do(s, 1)[0]
    for p in s["procs"]:
        out = c04.do(s, p)[0]
        for g, w, what in zip(out, base, ("image", "PSF", "mask")):
            if what == "mask":
                need(np.shape(g) == np.shape(w) and np.array_equal(g, w),
                     f"mask with {p} workers")
            else:
                need(close(g, w, 1e-7), f"{what} with {p} workers: "
                     f"{err(g, w)}")

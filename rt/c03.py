"""Masks returned by subtract and coadd."""
from rt import c01, c04, imgs
from rt.common import need, np
from properimage import operations

RULE = ("pairs and lists of images whose masks are separate, shared, only in "
        "the first or last image, or empty; all worker counts; non-trivial: "
        "some masked pixel")


def cases(seed, tier):
    r = np.random.default_rng(seed + 3)
    sub = c01.cases(seed, tier, 3)
    for k in range(320 if tier == "quick" else 2000):
        if k % 2:
            s = next(sub)
            s["op"] = "sub"
            s["run"] = False
            if s["shape"][0] > 200:
                s["shape"] = [100, 100]
            yield s
        else:
            n = int(r.integers(1, 6))
            yield {"op": "coadd", "seed": int(r.integers(40)), "N": n,
                   "shape": [[80, 84], [90, 72]][int(r.integers(2))],
                   "n": 14, "stamp": [9, 9], "last": n - 1,
                   "mask": str(r.choice(["own", "same", "none", "first",
                                         "last", "nomask", "own"])),
                   "procs": int(r.integers(1, n + 3)), "loss": .5}


def nontrivial(s):
    return s["mask"] not in ("none", "nomask")


def check(s):
    if s["op"] == "sub":
        ref, new, out, _, sub = c01.do(s)
        mask, ims = out[3], [ref, new]
    else:
        ims = [imgs.image(s, k, False) for k in range(s["N"])]
        try:
            out = operations.coadd(list(ims), align=False, inf_loss=s["loss"],
                                   n_procs=s["procs"])
            mask = out[2]
        finally:
            for i in ims:
                i._clean()
    need(isinstance(mask, np.ndarray), f"the mask is a {type(mask).__name__}")
    need(mask.dtype == bool, f"the mask is of {mask.dtype}")
    want = np.zeros(ims[0].data.shape, bool)
    for k, i in enumerate(ims):
        want |= np.ma.getmaskarray(i.data)
        if s["mask"] != "nomask":
            a, m = imgs.frame(s, k)
            need(not (m & ~want).any(), "the image lost its mask")
    need(mask.shape == want.shape, f"mask shape {mask.shape}")
    need(np.array_equal(mask, want), f"{(mask & ~want).sum()} pixels too many,"
         f" {(want & ~mask).sum()} missing")

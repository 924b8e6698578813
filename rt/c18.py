"""Temporary stamp files."""
import glob
import os
import tempfile

from rt.common import need, np, stars, scratch

tempfile.tempdir = tempfile.mkdtemp(dir=scratch())

from properimage import SingleImage  # noqa: E402
from properimage.single_image import SingleImageGaussPSF  # noqa: E402

RULE = ("several live images (both classes, same pixels, in forked workers) "
        "opened, measured and left in random orders, normally and by "
        "exceptions of several kinds; files counted after every step; "
        "non-trivial: more than one image")


def cases(seed, tier):
    r = np.random.default_rng(seed + 18)
    for k in range(6):
        yield {"n": 3, "fork": True, "seed": int(r.integers(1000))}
    for k in range(180 if tier == "quick" else 1500):
        n = int(r.integers(1, 6))
        yield {"n": n, "same": bool(r.integers(2)),
               "measure": [bool(v) for v in r.random(n) < .8],
               "gauss": [bool(v) for v in r.random(n) < .3],
               "exit": [str(r.choice(["ok", "err", "key", "base", "oserr"]))
                        for _ in range(n)],
               "order": [int(v) for v in r.permutation(n)],
               "gone": bool(r.integers(5) == 0),
               "seed": int(r.integers(1000))}


def nontrivial(s):
    return s["n"] > 1


JOBS = 1


class Base(BaseException):
    pass


EXC = {"err": RuntimeError("x"), "key": KeyError("k"), "base": Base("b"),
       "oserr": OSError("o")}


def files():
    return {p for p in glob.glob(os.path.join(tempfile.tempdir, "**"),
                                 recursive=True) if os.path.isfile(p)}


def forked(s):
    """Forked workers measure images at the same time."""
    import json
    import time

    a = stars(s["seed"], (64, 66), n=8)
    before = files()
    with tempfile.TemporaryDirectory(dir=scratch()) as d:
        pids = []
        for k in range(s["n"]):
            pid = os.fork()
            if pid == 0:
                try:
                    im = SingleImage(a * (1 + .1 * k), stamp_shape=(7, 7))
                    n = im.n_sources
                    st = [im.db.load(i)[0].copy() for i in range(n)]
                    with open(f"{d}/t{k}", "w") as f:
                        f.write("x")
                    os.rename(f"{d}/t{k}", f"{d}/up{k}")
                    t = time.time()
                    while (len(glob.glob(d + "/up*")) < s["n"]
                           and time.time() - t < 60):
                        time.sleep(.01)
                    ok = all(np.array_equal(im.db.load(i)[0], st[i])
                             for i in range(n))
                except Exception as e:
                    ok = repr(e)
                with open(f"{d}/res{k}", "w") as f:
                    json.dump([ok, im.dbname], f)
                t = time.time()
                while (len(glob.glob(d + "/res*")) < s["n"]
                       and time.time() - t < 60):
                    time.sleep(.01)
                im._clean()
                os._exit(0)
            pids.append(pid)
        for p in pids:
            os.waitpid(p, 0)
        for k in range(s["n"]):
            ok, name = json.load(open(f"{d}/res{k}"))
            need(ok is True, f"stamps of the image of worker {k}: {ok}")
    for p in files() - before:
        os.remove(p)


def check(s):
    if s.get("fork"):
        return forked(s)
    before = files()
    ims, mine = [], []
    a = stars(s["seed"], (64, 66), n=8)
    for k in range(s["n"]):
        cls = SingleImageGaussPSF if s["gauss"][k] else SingleImage
        b = a if s["same"] else stars(s["seed"] + k, (64, 66), n=8)
        ims.append(cls(b, stamp_shape=(7, 7)))
    stamps = []
    for k, im in enumerate(ims):
        f0 = files()
        im.__enter__()
        if s["measure"][k]:
            n = im.n_sources
            stamps.append([im.db.load(i)[0].copy() for i in range(n)])
        else:
            stamps.append(None)
        new = files() - f0
        mine.append(new)
        if s["measure"][k]:
            need(len(new) >= 1, f"image {k} stores its stamps in the files of "
                 "another image")
    for i in range(s["n"]):
        for j in range(i):
            need(not mine[i] & mine[j], f"images {i} and {j} share files")
        if stamps[i] is not None:
            now = [ims[i].db.load(q)[0] for q in range(len(stamps[i]))]
            need(all(np.array_equal(u, v) for u, v in zip(now, stamps[i])),
                 f"the stamps of image {i} were overwritten")
    other = os.path.join(tempfile.tempdir, "other_SingleImage.dat")
    with open(other, "w") as f:
        f.write("x")
    left = set(before) | {other}
    for m in mine:
        left |= m
    need(files() == left, "unexpected files")
    for k in s["order"]:
        if s["gone"] and mine[k]:
            for p in mine[k]:
                os.remove(p)
        how = s["exit"][k]
        if how == "ok":
            with ims[k]:
                pass
        else:
            try:
                with ims[k]:
                    raise EXC[how]
            except BaseException as e:
                need(e is EXC[how], f"{type(e).__name__} instead of the "
                     "exception of the block")
            else:
                need(False, "the exception of the block is lost")
        left -= mine[k]
        need(files() == left, f"files after leaving image {k}: missing "
             f"{len(left - files())}, left over {len(files() - left)}")
        for i in s["order"][s["order"].index(k) + 1:]:
            if stamps[i] is not None:
                need(np.array_equal(ims[i].db.load(0)[0], stamps[i][0]),
                     f"the stamps of image {i} are gone")
    os.remove(other)

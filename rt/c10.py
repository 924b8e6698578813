"""Histories of accesses and setting changes against a fresh image."""
from rt.common import need, np, stars, close, err
from properimage import SingleImage

RULE = ("random histories of product accesses and of changes of zp and "
        "inf_loss (new values and returns to old ones), every product compared "
        "with that of a fresh image after every step; non-trivial: a change "
        "between two accesses")
PROD = ["kl_basis", "kl_afields", "normal_image", "s_hat_comp", "s_component",
        "gvp", "psf_hat_sqnorm", "p_sqnorm", "get_psf_xy", "interped",
        "interped_hat"]
LOSS = [0.9, 0.5, 0.2, 0.1, 0.03, 0.008]
ZPS = [1.0, 2.0, 0.25, 5.5, -3.0]


def cases(seed, tier):
    r = np.random.default_rng(seed + 10)
    # pairs first: access X, change, access Y
    for x in PROD:
        for ch in (["zp", 2.0], ["loss", 0.03], ["gvp_loss", 0.03],
                   ["setup", 0.1]):
            y = PROD[int(r.integers(len(PROD)))]
            yield {"seed": int(r.integers(6)), "hist":
                   [["get", x], ch, ["get", x], ["get", y]]}
    for k in range(500 if tier == "quick" else 3000):
        h = []
        for _ in range(int(r.integers(3, 9))):
            u = r.random()
            if u < 0.5:
                h.append(["get", PROD[int(r.integers(len(PROD)))]])
            elif u < 0.7:
                h.append(["zp", ZPS[int(r.integers(len(ZPS)))]])
            elif u < 0.88:
                h.append(["loss", LOSS[int(r.integers(len(LOSS)))]])
            else:
                h.append(["gvp_loss", LOSS[int(r.integers(len(LOSS)))]])
        h.append(["get", PROD[int(r.integers(len(PROD)))]])
        yield {"seed": int(r.integers(6)), "hist": h}


def nontrivial(s):
    ops = [h[0] for h in s["hist"]]
    return any(o != "get" for o in ops) and ops.count("get") > 1


def frame(k):
    return stars(50 + k, (76, 84), n=16, varpsf=0.8, noise=3.0)


def new(k):
    return SingleImage(frame(k), stamp_shape=(9, 9))


def get(im, what):
    if what == "gvp":
        a, b = im.get_variable_psf()
        return ev(im, a) + [np.array(x) for x in b]
    if what == "kl_basis":
        return [np.array(x) for x in im.kl_basis]
    if what == "kl_afields":
        return ev(im, im.kl_afields)
    if what in ("psf_hat_sqnorm", "p_sqnorm"):
        return [np.array(getattr(im, what)())]
    if what == "get_psf_xy":
        return [np.array(im.get_psf_xy(30.2, 41.0))]
    return [np.array(getattr(im, what))]


def ev(im, fields):
    x, y = np.mgrid[:40:5, :50:5]
    return [np.zeros(1) if f is None else np.array(f(x, y)) for f in fields]


_fresh = {}


def fresh(k, zp, loss, what):
    key = (k, zp, loss)
    if key not in _fresh:
        if len(_fresh) > 60:
            _fresh.clear()
        _fresh[key] = {}
    d = _fresh[key]
    if what not in d:
        with new(k) as im:
            im.zp = zp
            im.inf_loss = loss
            d[what] = get(im, what)
    return d[what]


def same(got, want, what, where):
    need(len(got) == len(want),
         f"{where}: {what} has {len(got)} parts, a fresh image {len(want)}")
    for g, w in zip(got, want):
        need(close(g, w, 1e-6), f"{where}: {what} differs from a fresh "
             f"image's: {err(g, w)}")


def check(s):
    k = s["seed"]
    with new(k) as im:
        zp, loss = im.zp, im.inf_loss
        for n, (op, arg) in enumerate(s["hist"]):
            if op == "get":
                same(get(im, arg), fresh(k, zp, loss, arg), arg, f"step {n}")
            elif op == "zp":
                im.zp = zp = arg
            elif op == "loss":
                im.inf_loss = loss = arg
            elif op == "gvp_loss":
                a, b = im.get_variable_psf(inf_loss=arg)
                loss = arg
                same(ev(im, a) + [np.array(x) for x in b],
                     fresh(k, zp, loss, "gvp"), "get_variable_psf(loss)",
                     f"step {n}")
            elif op == "setup":
                im._setup_kl_a_fields(arg)
                loss = arg
            need(im.zp == zp and im.inf_loss == loss, "settings changed")

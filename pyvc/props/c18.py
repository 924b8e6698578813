"""C18: the temporary files of an image."""
import ast
import pathlib
import re

from pyvc import core, shims
from pyvc.core import (AND, C, EQ, FALSE, NOT, TRUE, ZERO,
                       Unsupported, app, fresh, lift, subst)
from pyvc.instrument import genuine, repo_dir

F = "SingleImage.__init__"
G = "SingleImage.__exit__"
STUBS = ("attached_to", "data", "gain", "header", "mask", "_bkg",
         "stamp_shape", "maskthresh", "min_sources", "zp")


class Stop(BaseException):
    pass


class Files:
    """The files of the temporary directory: which exist, what was done."""

    def __init__(self):
        self.there = {}         # text -> exists (a formula or a truth value)
        self.removed = []

    def exists(self, p):
        p = str(p)
        if p not in self.there:
            raise Unsupported(f"existence of {p}")
        v = self.there[p]
        return v

    def remove(self, p):
        p = str(p)
        self.removed.append(p)
        if p in self.there:
            if not self.there[p]:
                shims.raise_(FileNotFoundError(p))
            self.there[p] = False

    def rmtree(self, p, ignore_errors=False, **k):
        p = str(p).rstrip("/") + "/"
        for q in self.there:
            if q.startswith(p) and self.there[q]:
                self.removed.append(q)
                self.there[q] = False


def fields(t):
    """Text and numbers of a text with placeholders."""
    out = re.split("\ue000(\\d+)\ue001", t)
    return out[::2], [core.TEXTS[int(k)] for k in out[1::2]]


def equal(a, b):
    """The formula: the two texts are the same (None: not known)."""
    la, fa = fields(a)
    lb, fb = fields(b)
    if la == lb and [f for _, f in fa] == [f for _, f in fb]:
        if all(l and not re.match("[0-9a-zA-Z]", l[0]) for l in la[1:-1]):
            return AND(*[EQ(x, y) for (x, _), (y, _) in zip(fa, fb)])
        known = [core.TRUE is EQ(x, y) for (x, _), (y, _) in zip(fa, fb)]
        if sum(not k for k in known) <= 1:
            return AND(*[EQ(x, y) for (x, _), (y, _) in zip(fa, fb)])
        return None
    for x, y, l in ((a, b, lb), (b, a, la)):
        # a text without numbers that does not fit the other one
        if "\ue000" not in x and not re.fullmatch(
                "[0-9a-fA-F]+".join(map(re.escape, l)), x):
            return FALSE
    return TRUE if a == b else None


def other(t, mp):
    """The same text for another image / process."""
    def f(m):
        e, k = core.TEXTS[int(m.group(1))]
        core.TEXTS.append((subst(e, mp), k))
        return f"\ue000{len(core.TEXTS) - 1}\ue001"
    return re.sub("\ue000(\\d+)\ue001", f, t)


def stubbed(cls):
    """The class with the setters of the other attributes replaced by their
    frame condition: they do not touch the files nor dbname."""
    d = {}
    for n in STUBS:
        if isinstance(getattr(cls, n, None), property):
            d[n] = property(lambda self, n=n: self.__dict__.get("pv_" + n),
                            lambda self, v, n=n: self.__dict__.__setitem__(
                                "pv_" + n, v))
    return type(cls.__name__, (cls,), d)


def stores(cls_names):
    """Functions of the module that assign an attribute dbname."""
    tree = ast.parse(open(repo_dir() + "/single_image.py").read())
    out = set()
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and x.attr == "dbname" and \
                        isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(fn.name)
    return out


def contracts(R):
    R.function(F, "ensures dbname differs between any two images that are "
               "alive at the same time, in the same process and in any two "
               "processes that share the temporary directory")
    R.function(G, "requires none or both of the files of the image to "
               "exist; ensures none exists, no file of another image was "
               "removed, a false value is returned and nothing is raised")
    R.function("SingleImage.stamps_pos", "opens its stamp store at dbname")
    R.assume_text("id() is unique among the live objects of a process, the "
                  "process number among the live processes; the temporary "
                  "directory is unique to a process and its forks; removing "
                  "an existing file succeeds; the setters of the pixel "
                  "attributes neither assign dbname nor touch the files")
    core.TEXTS = []
    W = R.world()
    si = W.module("single_image")
    where = stores(None)
    for nm in ("SingleImage", "SingleImageGaussPSF"):
        cls = getattr(si, nm, None)
        if cls is None:
            raise Unsupported(f"class {nm} is missing")

        def body():
            names(R, si, cls, where)
        R.run(body)

        def body2():
            leaving(R, si, cls)
        R.run(body2)
    core.TEXTS = None


def make(si, cls):
    shims.IDS.clear()
    shims.FS = Files()
    try:
        return stubbed(cls)(img=object())
    except Exception as e:
        if not genuine(e):
            raise
        raise Unsupported(f"constructor: {type(e).__name__}: {e}")


def ident(k):
    return core.var(f"id{k}")


def names(R, si, cls, where):
    x = make(si, cls)
    if where - {"__init__"} and "dbname" not in x.__dict__:
        raise Unsupported("dbname is set outside of the constructor")
    a = x.dbname
    if not isinstance(a, str):
        raise Unsupported("dbname is not a text")
    R.cover("constructed")
    i, j, p, q = ident(0), fresh("id"), core.var("pid"), fresh("pid")
    for nm, mp, hyp in (
            ("two live images of a process have different names",
             {i.single(): j}, [NOT(EQ(i, j))]),
            ("images of two processes have different names",
             {i.single(): j, p.single(): q}, [NOT(EQ(p, q))])):
        f = equal(a, other(a, mp))
        if f is None:
            R.add(F, nm, "unknown", detail="fields that run into each other")
        else:
            R.prove(F, nm, NOT(f), hyp)
    y = stubbed(cls)(img=object())
    b = y.dbname
    if fields(b)[0] != fields(a)[0]:
        raise Unsupported("names of two kinds")
    # the store is opened at dbname
    opened = []

    def db(name, mode="store"):
        opened.append((str(name), mode))
        raise Stop
    old = shims.NPDB
    shims.NPDB = db
    try:
        x.__dict__["pv_stamp_shape"] = (5, 5)
        x.stamps_pos
    except Stop:
        pass
    except Exception as e:
        if not genuine(e):
            raise
        raise Unsupported(f"stamps_pos: {type(e).__name__}: {e}")
    finally:
        shims.NPDB = old
    if not opened:
        raise Unsupported("stamps_pos does not open a store")
    S = "SingleImage.stamps_pos"
    f = equal(opened[0][0], a)
    if f is None:
        raise Unsupported("name of the store")
    R.prove(S, "the store is opened at dbname", f)


def leaving(R, si, cls):
    x = make(si, cls)
    a = x.dbname
    mine = [str(pathlib.PurePosixPath(a).with_suffix(s))
            for s in (".dat", ".map")]
    j = fresh("id")
    his = [other(t, {ident(0).single(): j}) for t in mine]
    C.assume(NOT(EQ(ident(0), j)))
    state = fresh("files")
    fs = shims.FS = Files()
    d = m = C.decide(EQ(state, ZERO))
    fs.there = {mine[0]: d, mine[1]: m, his[0]: True, his[1]: True}
    how = C.decide(EQ(fresh("failed"), ZERO))
    e = ValueError("user")
    try:
        with_self = x.__enter__()
        r = x.__exit__(ValueError, e, None) if how else x.__exit__(
            None, None, None)
    except Exception as ex:
        if not genuine(ex):
            raise
        R.fail(G, "leaving raises nothing of its own",
               f"{type(ex).__name__}: {ex}")
        return
    R.add(G, "leaving raises nothing of its own", "proved", "path")
    R.cover("left")
    if with_self is not x:
        R.fail(G, "entering gives the image itself", repr(with_self))
    else:
        R.add(G, "entering gives the image itself", "proved", "path")
    if core.form(r) is FALSE:
        R.add(G, "the exception is not hidden", "proved", "path")
    elif how:
        R.prove(G, "the exception is not hidden", NOT(core.form(r)))
    for k, s in enumerate((".dat", ".map")):
        if fs.there[mine[k]]:
            R.fail(G, f"the {s} file is gone",
                   f"existing before: .dat {d} .map {m}")
        else:
            R.add(G, f"the {s} file is gone", "proved", "path")
    for p in fs.removed:
        if p in mine:
            continue
        for h in his:
            f = equal(p, h)
            if f is None:
                raise Unsupported(f"removal of {p}")
            R.prove(G, "no file of another image is removed", NOT(f))
    R.prove(G, "no file of another image is removed",
            AND(*[lift_b(fs.there[h]) for h in his]))


def lift_b(v):
    return TRUE if v is True else FALSE if v is False else core.form(v)

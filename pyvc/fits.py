"""Contracts of astropy.io.fits: HDUs, HDU lists and files."""
from . import shims
from .arrays import SArr, SMa, asarray, cast
from .core import BAPP, C, Cell, Unsupported, app
from .shims import LIBS, raise_, uses

DOC = ("an HDU holds the array and the header it is given; writing an HDU or "
       "an HDU list stores the pixel values and headers of all its HDUs, and "
       "refuses an existing file unless overwrite is set; scale() to a "
       "floating type rounds to that type, for unsigned integer data after "
       "moving them in place by half of their range; complex, boolean and "
       "zero-dimensional data are refused")


class FILES:
    """The modelled files: path -> list of (data, header); who wrote."""
    there = {}
    unknown = {}        # path -> truth value: exists with other content


def exists(path):
    k = key(path)
    if k in FILES.there:
        return True
    if k in FILES.unknown:
        return bool(FILES.unknown[k])
    raise Unsupported("existence of a file that is not modelled")


def key(path):
    return path if isinstance(path, str) else id(path)


class Header(dict):
    def set(self, k, v=None, *a, **kw):
        self[k] = v

    def copy(self, strip=False):
        return Header(self)

    def update(self, *a, **k):
        raise Unsupported("header update")


class _HDU:
    is_image = True

    def __init__(self, data=None, header=None, name=None, uint=True, **k):
        if k:
            raise Unsupported(f"HDU arguments {sorted(k)}")
        uses("astropy.io.fits", DOC)
        self.header = Header() if header is None else Header(header)
        self.data = data

    def __setattr__(self, n, v):
        if n == "data" and v is not None:
            if isinstance(v, SMa):
                raise Unsupported("masked data of an HDU")
            if not isinstance(v, (SArr, list, tuple)) and \
                    not hasattr(v, "shape"):
                raise_(TypeError("data object could not be coerced"))
            a = asarray(v)
            if not a.shape_e:
                raise_(TypeError("data object should have at least one "
                                 "dimension"))
            if a.dtype_ in ("c", "b"):
                raise_(KeyError({"c": "complex128", "b": "bool"}[a.dtype_]))
            v = a
        if n not in ("data", "header", "name"):
            raise Unsupported(f"HDU attribute {n}")
        self.__dict__[n] = v

    def scale(self, type=None, option="old", bscale=None, bzero=None):
        if bscale is not None or bzero is not None or option != "old":
            raise Unsupported("scaled data")
        t = shims.dtype_of(type)
        d = self.data
        if t not in ("f", "f4"):
            raise Unsupported("scaling to integers")
        if d.dtype_ == "i" and C.decide(BAPP("unsigned")):
            g = d.getter()
            old = SArr.of(d.shape_e, g, "i")
            d[...] = SArr.of(d.shape_e, lambda i: app(
                "moved", (old.at(i),), "int"), "i")
        self.__dict__["data"] = cast(d, t).copy()

    def content(self):
        return [(None if self.data is None else self.data.copy(),
                 Header(self.header))]

    def writeto(self, path, overwrite=False, checksum=False, **k):
        if k:
            raise Unsupported("writeto arguments")
        write(path, self.content(), overwrite)

    def __getattr__(self, n):
        if n.startswith("_pv") or n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"HDU.{n}")


class PrimaryHDU(_HDU):
    pass


class ImageHDU(_HDU):
    pass


class HDUList:
    def __init__(self, hdus=(), file=None):
        uses("astropy.io.fits", DOC)
        self.hdus = [hdus] if isinstance(hdus, _HDU) else list(hdus)
        if self.hdus and not isinstance(self.hdus[0], PrimaryHDU):
            raise Unsupported("an HDU list without a primary HDU")

    def append(self, h):
        if not self.hdus:
            raise Unsupported("append to an empty HDU list")
        self.hdus.append(h)

    def __len__(self):
        return len(self.hdus)

    def __getitem__(self, k):
        if not isinstance(k, int):
            raise Unsupported("HDU by name")
        if not -len(self.hdus) <= k < len(self.hdus):
            raise_(IndexError("list index out of range"))
        return self.hdus[k]

    def __iter__(self):
        return iter(self.hdus)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self, *a, **k):
        pass

    def content(self):
        return [c for h in self.hdus for c in h.content()]

    def writeto(self, path, overwrite=False, **k):
        if k:
            raise Unsupported("writeto arguments")
        write(path, self.content(), overwrite)

    def __getattr__(self, n):
        if n.startswith("_pv") or n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"HDUList.{n}")


def write(path, content, overwrite):
    if exists(path) and not overwrite:
        raise_(OSError("File already exists"))
    for j in C.journals:
        raise Unsupported("files written in a symbolic loop")
    FILES.there[key(path)] = content
    FILES.unknown.pop(key(path), None)


def writeto(path, data, header=None, overwrite=False, **k):
    if k:
        raise Unsupported("writeto arguments")
    PrimaryHDU(data, header).writeto(path, overwrite=overwrite)


def opened(path):
    if key(path) in FILES.there:
        return FILES.there[key(path)]
    if key(path) in FILES.unknown:
        if not bool(FILES.unknown[key(path)]):
            raise_(FileNotFoundError(path))
    raise Unsupported("reading a file that is not modelled")


def getdata(path, *a, **k):
    """the data of the first HDU, of the second when the first has none"""
    uses("astropy.io.fits.getdata", getdata.__doc__)
    if a or k:
        raise Unsupported("getdata arguments")
    for d, _ in opened(path)[:2]:
        if d is not None:
            return d.copy()
    raise_(IndexError("No data in Primary HDU"))


def getheader(path, *a, **k):
    """the header of the first HDU"""
    uses("astropy.io.fits.getheader", getheader.__doc__)
    if a or k:
        raise Unsupported("getheader arguments")
    return opened(path)[0][1]


def fits_open(path, mode="readonly", **k):
    """the HDUs of the file"""
    uses("astropy.io.fits.open", fits_open.__doc__)
    if mode != "readonly" or set(k) - {"memmap"}:
        raise Unsupported("fits.open arguments")
    out = []
    for i, (d, h) in enumerate(opened(path)):
        u = (ImageHDU if i else PrimaryHDU)(None if d is None else d.copy())
        u.__dict__["header"] = h
        out.append(u)
    return HDUList(out)


FITS = LIBS["astropy.io.fits"]
FITS.__dict__.update(PrimaryHDU=PrimaryHDU, ImageHDU=ImageHDU,
                     HDUList=HDUList, Header=Header, writeto=writeto,
                     getdata=getdata, getheader=getheader, open=fits_open)

"""chunk_it: contiguous runs holding every element once."""
from rt.common import need, np
from properimage import utils

RULE = ("every (length, parts) pair up to a bound over lists, arrays, tuples, "
        "strings and lists of uncomparable objects; non-trivial: length > 0 "
        "and parts > 1")


class Obj:
    def __init__(self, k):
        self.k = k


def seq_of(kind, n, salt=0):
    vals = [(7 * i + salt) % 1000003 for i in range(n)]
    if kind == "list":
        return vals
    if kind == "range":
        return list(range(n))
    if kind == "const":
        return [5] * n
    if kind == "tuple":
        return tuple(vals)
    if kind == "array":
        return np.arange(n) * 3 - 7
    if kind == "float":
        return [float(v) / 3 for v in vals]
    if kind == "str":
        return "".join(chr(97 + v % 26) for v in vals)
    if kind == "obj":
        return [Obj(v) for v in vals]
    if kind == "mixed":
        return [v if v % 2 else str(v) for v in vals]
    if kind == "arrays":
        return [np.full((2, 2), v) for v in vals]


def cases(seed, tier):
    top = 22 if tier == "quick" else 60
    for n in range(top):
        for num in range(1, 2 * top):
            for kind in ("range", "obj"):
                yield {"kind": kind, "n": n, "num": num}
    for kind in ("list", "const", "tuple", "array", "float", "str", "mixed",
                 "arrays"):
        for n in (0, 1, 2, 3, 4, 5, 7, 10, 16, 20, 23):
            for num in (1, 2, 3, 4, 5, 6, 7, 9, 11, 20, 49):
                yield {"kind": kind, "n": n, "num": num}
    r = np.random.default_rng(seed)
    for _ in range(3000 if tier == "quick" else 60000):
        hi = int(r.choice([30, 120, 700, 5000]))
        yield {"kind": str(r.choice(["list", "obj", "array", "range"])),
               "n": int(r.integers(0, hi)),
               "num": int(r.integers(1, min(hi, 300) + 1))}


def nontrivial(s):
    return s["n"] > 0 and s["num"] > 1


def check(s):
    seq = seq_of(s["kind"], s["n"])
    # identity of the elements, so that equal values cannot hide a repetition
    if s["kind"] in ("list", "const", "tuple", "float", "str", "array",
                     "mixed", "range"):
        ref = [x for x in seq]
    else:
        ref = list(seq)
    out = utils.chunk_it(seq, s["num"])
    need(isinstance(out, list), "the result is not a list")
    runs = [list(c) for c in out]
    tot = sum(len(c) for c in runs)
    need(tot == len(ref), f"{tot} elements come out of {len(ref)}")
    need(partition(runs, ref, s["kind"] in ("obj", "arrays")),
         "the runs are not a contiguous partition: lengths "
         f"{[len(c) for c in runs]}")


def partition(runs, ref, ident):
    """Is some ordering of the runs exactly the sequence?"""
    eq = (lambda a, b: a is b) if ident else (lambda a, b: a == b)

    def at(run, pos):
        return all(eq(x, ref[pos + i]) for i, x in enumerate(run))

    left = [r for r in runs if len(r)]
    pos = 0
    # the runs come in the order of the sequence or sorted: try both ways,
    # then search
    for order in (left, left[::-1]):
        p, ok = 0, True
        for r in order:
            if p + len(r) > len(ref) or not at(r, p):
                ok = False
                break
            p += len(r)
        if ok and p == len(ref):
            return True
    while left:
        for k, r in enumerate(left):
            if pos + len(r) <= len(ref) and at(r, pos):
                # prefer the longest candidate (equal prefixes)
                break
        else:
            return False
        cand = max((r for r in left if pos + len(r) <= len(ref)
                    and at(r, pos)), key=len)
        left.remove(cand) if not ident else left.pop(
            [i for i, r in enumerate(left) if r is cand][0])
        pos += len(cand)
    return pos == len(ref)

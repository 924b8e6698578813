"""C06: chunk_it."""
from pyvc import core
from pyvc.core import (AND, C, EQ, LE, LT, NOT, SNum, TRUE, ZERO, ONE, app, fresh, lift,
                       mk, num_e, fn, subst, Unsupported, BALL)
from pyvc.arrays import norm_slice
from pyvc.seqs import PList
from pyvc import shims

F = "utils.chunk_it"


class Seq:
    """Any sequence: a length and elements; slices are contiguous runs."""
    _pv_seq = True

    def __init__(self, lo, hi, n):
        self.lo, self.hi, self.n = lo, hi, n

    def length(self):
        return self.hi - self.lo

    def __getitem__(self, key):
        if not isinstance(key, slice):
            raise Unsupported("element of the sequence")
        if self.lo is not ZERO:
            raise Unsupported("slice of a slice")
        return Run(num_e(key.start) if key.start is not None else ZERO,
                   num_e(key.stop) if key.stop is not None else self.n,
                   key.step)


class Run:
    def __init__(self, lo, hi, step):
        if step not in (None, 1):
            raise Unsupported("strided run")
        self.lo, self.hi = lo, hi

    def _pv_subst(self, mp):
        return Run(subst(self.lo, mp), subst(self.hi, mp), None)

    def _pv_terms(self):
        return [self.lo, self.hi]

    def __lt__(self, o):
        raise Unsupported("comparison of chunks")


class Perm:
    """sorted(list): the same runs in another order."""

    def __init__(self, of):
        self.of = of


def contracts(R):
    R.function(F, "requires num >= 1, len >= 0; ensures the result is a "
               "permutation of runs [b_k, b_k+1) with b_0 = 0, b_k <= b_k+1 "
               "and the last b >= len")
    R.assume_text("float division and addition are monotone roundings of the "
                  "exact result (IEEE 754); len and num are below 2**53; the "
                  "splitting loop ends (partial correctness)")
    core.ROUNDING = True
    W = R.world()
    f = W.module("utils").chunk_it
    how = [None]

    def hook(x, key, reverse):
        if key is not None:
            raise Unsupported("sort key")
        how[0] = fresh("sorted")
        if C.decide(EQ(how[0], ZERO)):
            shims.raise_(TypeError("unorderable"))
        if C.decide(EQ(how[0], ONE)):
            shims.raise_(ValueError("ambiguous"))
        return Perm(x)
    shims.SORTED = hook

    def body():
        n, num = fresh("len"), fresh("num")
        C.assume(LE(ZERO, n))
        C.assume(LE(ONE, num))
        seq = Seq(ZERO, n, n)
        try:
            out = f(seq, mk(num, "i"))
        except (TypeError, ValueError, IndexError, ZeroDivisionError) as e:
            R.fail(F, "no exception", f"{type(e).__name__}: {e}")
            return
        R.add(F, "no exception", "proved", "path")
        if isinstance(out, Perm):
            out = out.of
        if not isinstance(out, PList):
            R.fail(F, "the result is a list of runs", repr(type(out)))
            return
        if out.guard is not None:
            raise Unsupported("filtered list of runs")
        K = out.length()
        R.cover("result")

        def run(j):
            r = out.elem(j)
            if isinstance(r, Seq):
                return r.lo, r.hi
            if not isinstance(r, Run):
                raise Unsupported("not a slice of the sequence")
            return r.lo, r.hi
        inn = [LE(ZERO, n)]
        if K.const() is None or K.const() > 0:
            C_pos = LT(ZERO, K)
            j = fresh("j")
            lo, hi = run(j)
            rng = [LE(ZERO, j), LT(j, K)]
            R.prove(F, "every run is a forward slice within range",
                    AND(LE(ZERO, lo), LE(ZERO, hi)), rng)
            R.prove(F, "no run ends before it starts", LE(lo, hi), rng)
            lo2, _ = run(j + 1)
            R.prove(F, "each run starts where the one before it ends",
                    EQ(lo2, hi), rng + [LT(j + 1, K)])
            R.prove(F, "the first run starts at the first element",
                    EQ(run(ZERO)[0], ZERO), [C_pos])
            R.prove(F, "the last run reaches the last element",
                    LE(n, run(K - 1)[1]), [C_pos])
            x = fresh("x")
            R.prove(F, "induction step: what the first k+1 runs cover is what "
                    "the first k cover and run k", LT(x, lo),
                    rng + [LT(x, hi), NOT(AND(LE(lo, x), LT(x, hi)))])
        R.prove(F, "without runs the sequence is empty", EQ(n, ZERO),
                [EQ(K, ZERO)])
    R.run(body)

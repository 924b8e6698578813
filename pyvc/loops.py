"""Loops: run natively when their extent is known, summarised otherwise.

A loop over n elements (n symbolic) is summarised by running its body once
from a generic iteration k, along every path, from a state in which all that
the body may change is arbitrary; from the transition found that way a closed
form of the state after k iterations is read off (the loop invariant), and a
second run of the body from the closed form proves that it is preserved.
"""
from . import core
from . import prove as P
from .arrays import Buffer, SArr, SMa, num
from .expr import Atom
from .core import (AND, AttrCell, B, BALL, BAPP, BEX, C, Cell, E, EQ, FALSE,
                   Frame, IFF, Infeasible, Journal, LE, LT, MISSING, NOT, ONE,
                   OR, Poison, SBool, SNum, TRUE, Unsupported, ZERO, app,
                   bool_of, form, fresh, ite, join, kind_of, lift, mk, mk_op,
                   mk_sum, num_e, subst, var, BITE)
from .seqs import PList, as_seq, at_subst, vite, vsubst

NATIVE = 64


def is_num(v):
    return isinstance(v, (SNum, int, float)) and not isinstance(v, bool) or \
        type(v).__module__ == "numpy" and getattr(v, "shape", 1) == ()


def is_bool(v):
    return isinstance(v, (bool, SBool))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SNum) and isinstance(b, SNum):
        return a.e == b.e and a.t == b.t
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.b is b.b
    if isinstance(a, (bool, int, float, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def mentions(x, names):
    """Does a term mention one of the function symbols?"""
    seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, E):
            for m in y.terms:
                for a, _ in m:
                    todo.append(a)
        elif isinstance(y, (tuple, list)):
            todo += list(y)
        elif isinstance(y, B):
            if y.kind == "app" and y.args[0] in names:
                return True
            todo += list(y.args)
        elif hasattr(y, "kind"):
            if y.kind == "app" and y.args[0] in names:
                return True
            todo += list(y.args)
    return False


def value_terms(v):
    """Terms of a value at generic indices (to look for symbols)."""
    if isinstance(v, Poison):
        return []
    if isinstance(v, SNum):
        return [v.e]
    if isinstance(v, SBool):
        return [v.b]
    if isinstance(v, SArr):
        ts = tuple(fresh("y") for _ in v.shape_e)
        return [v.at(ts), v.nan_at(ts)] + list(v.shape_e)
    if isinstance(v, SMa):
        return value_terms(v._data) + ([] if v._mask is None
                                       else value_terms(v._mask))
    if isinstance(v, tuple):
        return [t for x in v for t in value_terms(x)]
    if isinstance(v, PList):
        if v.items is not None:
            return [t for x in v.items for t in value_terms(x)]
        j = fresh("y")
        out = [v.n] + value_terms(v.get(j))
        if v.guard:
            out.append(v.guard(j))
        for x in v.tail:
            out += value_terms(x)
        return out
    if hasattr(v, "_pv_terms"):
        return v._pv_terms()
    return []


def plain(v):
    """A value without state."""
    if isinstance(v, tuple):
        return all(plain(x) for x in v)
    return isinstance(v, (SNum, SBool, bool, int, float, str))


class Path:
    def __init__(self, cond, kind, env, cells, facts, value=None):
        self.cond, self.kind, self.env, self.cells = cond, kind, env, cells
        self.facts, self.value = facts, value


UNBOUND = Poison("a local variable that may be unbound")


def bind(v):
    return UNBOUND if v is MISSING else v


def unbind(v):
    return MISSING if v is UNBOUND else v


_count = [0]


# candidate invariants of arrays: f(first value, value, indices) -> formula
ARRAY_INV = []


def kept_where_defined(x0, x, i):
    return OR(x0.nan_at(i), AND(NOT(x.nan_at(i)), EQ(num(x.at(i)), num(
        x0.at(i)))))


UNROLL = 0      # run while loops natively, up to so many steps


class Loop:
    alone = False
    unsolved = frozenset()

    def __init__(self, it, names, is_while=False, dead=()):
        self.dead = set(dead)       # not read before their next assignment
        self.names = [n for n in names if n not in self.dead]
        self.is_while = is_while
        self.mode = None
        self.k = fresh("k")
        _count[0] += 1
        self.tag = f"L{fresh('l').single().args[0].split('!')[1]}"
        self.returned = False
        self.value = None
        self.flag = None
        self.kind = "next"
        self.soft = False
        self.done = False
        self.seq = None
        if not is_while:
            self.seq = as_seq(it)
            self.guard = getattr(self.seq, "guard", None)
            if self.guard is not None:
                self.n = self.seq.n
                if self.seq.tail:
                    raise Unsupported("loop over an extended filtered list")
            else:
                self.n = self.seq.length()
            c = self.n.const()
            if c is not None and self.guard is None and c <= NATIVE:
                self.mode = "native"
                self.items = [self.seq.elem(lift(j)) for j in range(int(c))] \
                    if not hasattr(self.seq, "items") or \
                    self.seq.items is None else list(self.seq.items)
            else:
                self.mode = "sum"
        else:
            self.mode = "unroll"
            self.guard = None
            self.n = None
            self.count = 0
        self.pos = 0
        self.state = None
        self.started = False
        self.env0 = None

    # ------------------------------------------------ the instrumented hooks
    def cond(self, v):
        """The condition of a while loop."""
        if self.mode == "unroll" and UNROLL:
            if self.count > UNROLL:
                raise Unsupported("while loop beyond its bound")
            return bool(v)
        if self.mode == "unroll":
            f = form(v) if not isinstance(v, bool) else v
            if f is True and self.count == 1:
                self.mode = "sum"
                self.env0 = None
                raise _Switch()
            if isinstance(f, bool) or f is TRUE or f is FALSE:
                return bool(v)
            if C.known(f):
                return True
            if C.known(NOT(f)):
                return False
            if self.count > 1:
                return bool(v)
            self.mode = "sum"
            self.env0 = None
            raise _Switch()
        return bool(v)

    def step(self, loc):
        C.tick()
        if self.done:
            return False
        if self.mode == "native":
            if self.flag is not None:
                self.flag = None
                self.done = True
                return False
            if self.pos >= len(self.items):
                self.done = True
                return False
            self.cur = self.items[self.pos]
            self.pos += 1
            self.keep = None
            return True
        if self.mode == "unroll":
            if self.flag is not None:
                self.flag = None
                self.done = True
                return False
            if self.env0 is None:
                self.env0 = {n: unbind(loc.get(n, MISSING)) for n in self.names}
            self.count += 1
            if self.count > 200:
                raise Unsupported("while loop without a known bound")
            return True
        # summary
        if self.env0 is None:
            self.env0 = {n: unbind(loc.get(n, MISSING)) for n in self.names}
        if not self.started:
            self.started = True
            self.changed = {}       # name or cell key -> VarState
            self.solved = {}
            self.final = False
            self.begin_pass()
            self.begin_path()
            return True
        if self.running:
            self.end_path(self.flag or "next", loc)
        return self.advance()

    def advance(self):
        while True:
            if self.todo:
                self.begin_path()
                return True
            if not self.end_pass():
                self.finish()
                return False

    def elem(self):
        if self.mode == "native":
            return self.cur
        return self.seq.get(self.k) if self.guard is not None \
            else self.seq.elem(self.k)

    def native(self):
        return self.mode in ("native", "unroll")

    def get(self, n):
        if n in self.dead:
            return UNBOUND
        if self.mode == "sum" and not self.done:
            return bind(self.envk[n])
        return bind(self.envout[n])

    @property
    def broke(self):
        return self.kind == "break"

    def brk(self, test=False):
        """A break, or (test) the condition of a while loop turned false."""
        self.flag = "end" if test else "break"
        if self.mode in ("native", "unroll"):
            self.kind = self.flag

    def ret(self, v):
        self.flag = "return"
        self.returned = True
        self.value = v

    def exc(self, e, loc):
        if isinstance(e, _Switch):
            return
        if self.mode in ("native", "unroll"):
            raise e
        if isinstance(e, (Unsupported, KeyboardInterrupt, MemoryError,
                          RecursionError)) or not self.running:
            self.abort()
            raise e
        if isinstance(e, Infeasible):
            self.drop_path()
            return
        if getattr(e, "_pv_flow", None) is None and not genuine(e):
            self.abort()
            raise Unsupported(f"engine: {type(e).__name__}: {e}")
        self.flag = "raise"
        self.value = e
        self.end_path("raise", loc)

    # ------------------------------------------------------------- passes
    def begin_pass(self):
        self.paths = []
        self.todo = [[]]
        self.npaths = 0
        self.touched = {}
        self.starts = {}

    def begin_path(self):
        tr = self.todo.pop()
        self.npaths += 1
        C.paths += 1
        if self.npaths > 300:
            raise Unsupported("too many paths of a loop body")
        self.flag = None
        self.returned = False
        self.value = None
        self.frame = Frame(tr)
        C.frames.append(self.frame)
        self.base = len(C.pc)
        C.pc.append(LE(ZERO, self.k))
        if self.n is not None:
            C.pc.append(LT(self.k, self.n))
        if self.guard is not None:
            C.pc.append(self.guard(self.k))
        for f in self.extra_facts():
            C.pc.append(f)
        self.journal = Journal()
        C.journals.append(self.journal)
        # state at the start of iteration k
        self.envk = {}
        for n in self.names:
            st = self.changed.get(n)
            if st is None:
                self.envk[n] = self.env0[n]
                continue
            # the same on all paths of a pass
            v = self.starts.get(n, self)
            if v is self:
                v = st.start(self)
                if plain(v):
                    self.starts[n] = v
            self.envk[n] = v
        for key, st in list(self.changed.items()):
            if isinstance(key, tuple):
                self.journal.touch(st.obj) if st.kind != "attr" else \
                    self.journal.touch_attr(st.obj.obj, st.obj.name)
                st.install(self)
        self.running = True

    def extra_facts(self):
        out = []
        for st in self.changed.values():
            out += st.facts(self)
        return out

    def end_path(self, kind, loc):
        self.running = False
        env = {n: unbind(loc.get(n, MISSING)) for n in self.names}
        cells = {}
        for key, (obj, old) in self.journal.old.items():
            cells[key] = (obj, obj.snap())
            if key not in self.changed:
                self.touched[key] = obj
        cond = AND(*self.frame.decided)
        if self.guard is not None:
            cond = AND(self.guard(self.k), cond)
        # facts assumed while the body ran
        facts = list(self.journal.facts)
        val = self.value
        self.paths.append(Path(cond, kind, env, cells, facts, val))
        self.close_path()

    def drop_path(self):
        self.running = False
        self.close_path()

    def close_path(self):
        self.journal.undo()
        while C.journals and C.journals[-1] is not self.journal:
            C.journals.pop()
        C.journals.pop()
        while C.frames[-1] is not self.frame:
            C.frames.pop()
        C.frames.pop()
        del C.pc[self.base:]
        self.todo += self.frame.alts
        self.flag = None

    def abort(self):
        if getattr(self, "running", False):
            self.running = False
            self.todo = []
            self.close_path()

    def end_pass(self):
        """Returns True when another pass has started."""
        again = False
        for key, obj in self.touched.items():
            if key not in self.changed:
                self.changed[key] = CellState(self, key, obj)
                again = True
        go = [p for p in self.paths if p.kind == "next"]
        for n in self.names:
            if n in self.changed:
                continue
            x0 = self.env0[n]
            if any(not same(p.env[n], x0) for p in go):
                self.changed[n] = NameState(
                    self, n, x0, [p.env[n] for p in go])
                again = True
        if again:
            self.begin_pass()
            return True
        if self.final:
            self.verify(go)
            return False
        # read closed forms off the transition
        new = False
        self.unsolved = {st.sym for st in self.changed.values()
                         if st.sol is None}
        for key, st in self.changed.items():
            if st.sol is None and not st.hopeless:
                if st.recognise(self, go):
                    new = True
        if new:
            for st in self.changed.values():
                st.hopeless = False
            self.begin_pass()
            return True
        # what has no closed form stays the sequence of its own values
        seqs = [st for st in self.changed.values() if st.sol is None
                and not st.opaque and st.kind in ("num", "bool", "arr",
                                                  "buf")]
        if seqs:
            # those that would have one, were the others sequences, wait
            self.alone = True
            own = []
            for st in seqs:
                if not st.recognise(self, go):
                    own.append(st)
                st.sol = st.over = None
            self.alone = False
            for st in own or seqs:
                st.opaque = True
            for st in self.changed.values():
                st.hopeless = False
            again = False
            for st in self.changed.values():
                if st.sol is None and not st.opaque and not st.hopeless:
                    again = st.recognise(self, go) or again
            if again:
                for st in self.changed.values():
                    st.hopeless = False
                self.begin_pass()
                return True
        if self.array_invariants(go):
            return True
        for st in self.changed.values():
            if st.sol is None:
                st.give_up(self, go)
        self.houdini(go)
        self.final = True
        self.begin_pass()
        return True

    def houdini(self, go):
        """Inductive bounds of the states without a closed form: those of the
        candidates that hold at first and that every iteration preserves."""
        sts = [st for st in self.changed.values() if isinstance(st, NameState)
               and st.sol is None and st.kind == "num" and st.t != "c"
               and getattr(st, "trans", None) is not None]
        if not sts or not go:
            return
        cand = []
        for st in sts:
            x0 = num_e(st.x0)
            for f in (lambda x, x0=x0: LE(x0, x), lambda x, x0=x0: LE(x, x0),
                      lambda x: LE(ZERO, x), lambda x: LE(ONE, x)):
                r = P.Prover(2000, 4).prove(C.pc, f(x0))
                if r == "proved":
                    cand.append((st, f))
        while cand:
            hyp = [f(num_e(st.value_at(self, self.k))) for st, f in cand]
            keep = []
            for st, f in cand:
                ok = True
                for p in go:
                    pc = C.pc + [LE(ZERO, self.k)] + hyp + [p.cond] + list(
                        p.facts)
                    if self.n is not None:
                        pc.append(LT(self.k, self.n))
                    if P.Prover(2000, 4).prove(
                            pc, f(num_e(p.env[st.name]))) != "proved":
                        ok = False
                        break
                if ok:
                    keep.append((st, f))
            if len(keep) == len(cand):
                break
            cand = keep
        for st, f in cand:
            st.inv = getattr(st, "inv", []) + [f]
        if cand:
            C.oblig.append((f"loop bounds of {', '.join(sorted({st.name for st, _ in cand}))}",
                            ("z3",)))

    def array_invariants(self, go):
        """An array without a closed form keeps its first values where they
        are not NaN, if every iteration preserves that (and the candidates of
        ARRAY_INV); returns True when another pass has started."""
        arrs = [st for st in self.changed.values() if isinstance(
            st, NameState) and st.sol is None and st.kind == "arr"
            and st.hasnan]
        new = [st for st in arrs if st.keep is None]
        if new:
            for st in new:
                st.keep = "trial"
                st.inv = [f for f in ARRAY_INV if st.holds(
                    self, f, st.x0, [])]
            self.begin_pass()
            return True
        trial = [st for st in arrs if st.keep == "trial"]
        again = False
        for st in trial:
            for p in go:
                pc = [LE(ZERO, self.k), p.cond] + list(p.facts)
                if self.n is not None:
                    pc.append(LT(self.k, self.n))
                pc += [f for s2 in self.changed.values()
                       for f in s2.facts(self)]
                x = p.env[st.name]
                if not st.holds(self, kept_where_defined, x, pc):
                    st.keep = False
                    st.inv = []
                    again = True
                    break
                ok = [f for f in st.inv if st.holds(self, f, x, pc)]
                if len(ok) < len(st.inv):
                    st.inv = ok
                    again = True
        if again:
            self.begin_pass()
            return True
        for st in trial:
            st.keep = True
            C.oblig.append((f"loop invariant of {st.name}", ("z3",)))
        return False

    def others(self, st):
        """Function symbols of the other states without a closed form."""
        if self.alone:
            return set()
        return {x.sym for x in self.changed.values()
                if x is not st and not x.opaque and (
                    x.sol is None or x.sym in self.unsolved)}

    def merge(self, go, pick):
        """The value after one iteration, over the paths that continue."""
        out = None
        for p in reversed(go):
            v = pick(p)
            out = v if out is None else vite(p.cond, v, out)
        return out

    def verify(self, go):
        for st in self.changed.values():
            if st.sol is None:
                continue
            for p in go:
                st.verify(self, p)

    # ---------------------------------------------------------- the result
    def finish(self):
        self.done = True
        exits = [p for p in self.paths if p.kind != "next"]
        go = [p for p in self.paths if p.kind == "next"]
        k = self.k
        # what the body assumed holds in every iteration that ran
        def learn(n):
            for p in self.paths:
                for f in p.facts:
                    g = OR(NOT(p.cond), f)
                    if g is not TRUE:
                        C.assume(BALL(ZERO, n, k, g))
        if not exits:
            if self.n is None:
                raise Infeasible      # never ends: nothing to show
            learn(self.n)
            self.leave(self.n)
            return
        ex = OR(*[p.cond for p in exits])
        va = k.single()
        if self.n is not None:
            ind = BEX(ZERO, self.n, k, ex)
            if not C.decide(ind):
                learn(self.n)
                self.leave(self.n)
                return
            # the first iteration that leaves
            K = mk_op("first", ((self.n,),), [k], ite(ex, ONE, ZERO), (),
                      "int", linear=False)
            C.assume(LT(K, self.n))
        else:
            K = mk_op("first", (), [k], ite(ex, ONE, ZERO), (), "int",
                      linear=False)
        C.assume(LE(ZERO, K))
        C.assume(subst(ex, {va: K}))
        C.assume(BALL(ZERO, K, k, NOT(ex)))
        for st in self.changed.values():
            for f in st.facts(self):
                C.assume(subst(f, {va: K}))
                C.assume(BALL(ZERO, K, k, f))
        self.recur(K)
        learn(K)
        for i, p in enumerate(exits):
            if i == len(exits) - 1 or C.decide(subst(p.cond, {va: K})):
                break
        C.assume(subst(p.cond, {va: K}))
        for f in p.facts:
            C.assume(subst(f, {va: K}))
        mp = {va: K}
        self.envout = {}
        for n in self.names:
            v = p.env[n]
            self.envout[n] = self.env0[n] if v is self.env0[n] \
                else vsubst_soft(v, mp)
        for key, st in self.changed.items():
            if isinstance(key, tuple):
                if key in p.cells:
                    st.set_from(self, p.cells[key][1], mp)
                else:
                    st.set_at(self, K)
        self.kind = p.kind
        if p.kind == "return":
            self.returned = True
            self.value = vsubst_soft(p.value, mp)
        elif p.kind == "raise":
            raise p.value

    def recur(self, n):
        for st in self.changed.values():
            if st.sol is None and getattr(st, "trans", None) is not None:
                C.assume(st.first)
                C.assume(BALL(ZERO, n, self.k, st.trans))

    def leave(self, n):
        self.recur(n)
        va = self.k.single()
        for st in self.changed.values():
            for f in st.facts(self):
                C.assume(subst(f, {va: n}))
                C.assume(BALL(ZERO, n, self.k, f))
        self.returned = False
        self.envout = {}
        for nm in self.names:
            st = self.changed.get(nm)
            self.envout[nm] = self.env0[nm] if st is None else \
                st.value_at(self, n)
        for key, st in self.changed.items():
            if isinstance(key, tuple):
                st.set_at(self, n)


class _Switch(BaseException):
    _pv_flow = True


def vsubst_soft(v, mp):
    try:
        return vsubst(v, mp)
    except Unsupported as e:
        return Poison(str(e))


ENGINE_DIR = __file__.rsplit("/", 1)[0]


def genuine(e):
    """Was the exception raised by the repository's code (or by a shim on
    behalf of the library), not by a failure of this engine?"""
    if getattr(e, "_pv", False):
        return True
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    return not fn.startswith(ENGINE_DIR) and "<pv:" in fn


# ------------------------------------------------------------------- states
class State:
    sol = None
    opaque = False
    hopeless = False

    def facts(self, lp):
        return []


class NameState(State):
    """A local variable the body rebinds."""

    def __init__(self, lp, name, x0, finals):
        self.name, self.x0 = name, x0
        self.sym = f"{lp.tag}_{name}"
        self.kind = "other"
        vals = [x0] + finals
        if all(is_num(v) for v in vals):
            self.kind = "num"
            t = "i"
            for v in vals:
                t = join(t, kind_of(v))
            self.t = t
        elif all(is_bool(v) for v in vals):
            self.kind = "bool"
        elif all(isinstance(v, SArr) for v in vals) and len(
                {len(v.shape_e) for v in vals}) == 1 and all(
                    s == s2 or C.known(EQ(s, s2)) for v in vals[1:]
                    for s, s2 in zip(x0.shape_e, v.shape_e)):
            self.kind = "arr"
            self.shape = x0.shape_e
            t = x0.dtype_
            for v in vals:
                t = join(t, v.dtype_)
            self.t = t
            self.hasnan = any(v.ngetter() for v in vals)
        elif isinstance(x0, PList) and all(v is x0 for v in finals):
            self.kind = "other"
        self.over = None

    # value at the start of iteration k
    def start(self, lp):
        return self.value_at(lp, lp.k)

    def value_at(self, lp, k):
        if self.sol is not None:
            return self.sol(k)
        if self.kind == "num":
            return mk(app(self.sym, (k,), {"i": "int", "c": "cplx"}.get(
                self.t, "real")), self.t)
        if self.kind == "bool":
            return bool_of(BAPP(self.sym, k))
        if self.kind == "arr":
            sym, b = self.sym, self.t == "b"
            s = {"i": "int", "c": "cplx"}.get(self.t, "real")
            if self.keep and not b:
                x0 = self.x0
                return SArr.of(self.shape, lambda i: ite(x0.nan_at(i), app(
                    sym, (k,) + tuple(i), s), num(x0.at(i))), self.t,
                    lambda i: AND(x0.nan_at(i), BAPP(sym + "_nan", k, *i)))
            return SArr.of(self.shape, lambda i: BAPP(sym, k, *i) if b else
                           app(sym, (k,) + tuple(i), s), self.t,
                           (lambda i: BAPP(sym + "_nan", k, *i))
                           if self.hasnan else None)
        return Poison(f"{self.name}: a value carried around a loop")

    def recognise(self, lp, go):
        self.hopeless = True
        bad = lp.others(self)
        own = {self.sym, self.sym + "_nan"}
        if not go:
            x0 = self.x0
            self.sol = lambda k: x0
            return True
        finals = [p.env[self.name] for p in go]
        conds = [p.cond for p in go]
        if any(mentions(c, own | bad) for c in conds):
            # the same step on every path that goes on needs no condition
            if self.kind == "num" and all(is_num(v) for v in finals):
                x = app(self.sym, (lp.k,), {"i": "int", "c": "cplx"}.get(
                    self.t, "real"))
                ds = [num_e(v) - x for v in finals]
                if all(d == ds[0] for d in ds) and \
                        not mentions(ds[0], own | bad):
                    d, x0, t = ds[0], num_e(self.x0), self.t
                    v0 = lp.k.single()

                    def sol(k):
                        j = fresh("j")
                        return mk(x0 + mk_sum(ZERO, k, j, subst(d, {
                            v0: j})), t)
                    self.sol = sol
                    self.step_e = d
                    return True
            return self.try_skip(lp, go)
        ts = [t for v in finals for t in value_terms(v)]
        if any(mentions(t, bad) for t in ts):
            return False
        va = lp.k.single()
        if not any(mentions(t, own) for t in ts) and not any(
                isinstance(v, Poison) or v is MISSING for v in finals):
            # overwritten in every iteration
            r = lp.merge(go, lambda p: p.env[self.name])
            if isinstance(r, Poison):
                return False
            if lp.guard is not None:
                return False
            x0 = self.x0

            def sol(k):
                c = LT(ZERO, k)
                if C.known(c):
                    return vsubst(r, {va: k - 1})
                if C.known(EQ(k, ZERO)):
                    return x0
                prev = vsubst(r, {va: k - 1})
                if x0 is MISSING:
                    return Poison(f"{self.name} before its assignment") \
                        if k is lp.k else prev_or(c, prev, self.name)
                v = vite(c, prev, x0)
                if isinstance(v, Poison):
                    return prev if C.decide(c) else x0
                return v
            self.sol = sol
            self.over = r
            return True
        if self.kind == "num":
            x = app(self.sym, (lp.k,), {"i": "int", "c": "cplx"}.get(
                self.t, "real"))
            d = merge_e(lp, go, lambda p: num_e(p.env[self.name]) - x)
            if d is None or mentions(d, own):
                return False
            x0, t = num_e(self.x0), self.t

            def sol(k):
                j = fresh("j")
                return mk(x0 + mk_sum(ZERO, k, j, subst(d, {
                    va: j})), t)
            self.sol = sol
            self.step_e = d
            return True
        if self.kind == "bool":
            v = merge_b(lp, go, lambda p: form(p.env[self.name]))
            s = solve_bool(lp, v, BAPP(self.sym, lp.k), own, form(self.x0))
            if s is None:
                return False
            self.sol = lambda k: bool_of(s(k))
            return True
        if self.kind == "arr":
            return self.recognise_arr(lp, go, own)
        return False

    def recognise_arr(self, lp, go, own):
        x0 = self.x0
        ts = tuple(fresh("t") for _ in self.shape)
        get = elem_solution(
            lp, go, ts, lambda p: p.env[self.name].at(ts),
            BAPP(self.sym, lp.k, *ts) if self.t == "b" else
            app(self.sym, (lp.k,) + ts, {"i": "int", "c": "cplx"}.get(
                self.t, "real")), own, x0.at(ts), self.t)
        if get is None or self.hasnan:
            return False
        shape, t = self.shape, self.t

        def sol(k):
            e = get(k)
            return SArr.of(shape, lambda i: subst(e, {
                a.single(): b for a, b in zip(ts, i)}), t)
        self.sol = sol
        return True

    def try_skip(self, lp, go):
        return False

    trans = None

    def give_up(self, lp, go):
        """No closed form: the state is the sequence itself, known by its
        first value and its recurrence."""
        if self.kind == "num" and all(is_num(p.env[self.name]) for p in go):
            self.trans = EQ(
                num_e(self.value_at(lp, lp.k + 1)),
                merge_e(lp, go, lambda p: num_e(p.env[self.name])))
            self.first = EQ(num_e(self.value_at(lp, ZERO)), num_e(self.x0))
        elif self.kind == "bool":
            self.trans = IFF(
                form(self.value_at(lp, lp.k + 1)),
                merge_b(lp, go, lambda p: form(p.env[self.name])))
            self.first = IFF(form(self.value_at(lp, ZERO)), form(self.x0))

    keep = None

    def holds(self, lp, f, x, pc):
        """Does the array x (a final value, or the first) satisfy f
        everywhere?"""
        if not isinstance(x, SArr):
            return False
        t = tuple(fresh("t") for _ in self.shape)
        pc = C.pc + list(pc) + [g for v, s in zip(t, self.shape)
                                for g in (LE(ZERO, v), LT(v, s))]
        return P.Prover(2000, 6).prove(pc, f(self.x0, x, t)) == "proved"

    def facts(self, lp):
        if self.sol is None and self.kind == "arr" and self.keep:
            out = []
            for f in getattr(self, "inv", []):
                t = tuple(fresh("t") for _ in self.shape)
                b = f(self.x0, self.value_at(lp, lp.k), t)
                for v, s in reversed(list(zip(t, self.shape))):
                    b = BALL(ZERO, s, v, b)
                out.append(b)
            return out
        if self.sol is not None or self.kind not in ("num", "bool"):
            return []
        return template_facts(self, lp)

    def verify(self, lp, p):
        if self.over is not None or self.name not in p.env:
            return
        want = self.sol(lp.k + 1)
        got = p.env[self.name]
        prove_same(lp, p, got, want, lp.k, self.name)


def prev_or(c, prev, name):
    if C.decide(c):
        return prev
    return Poison(f"{name} is unbound")


def template_facts(st, lp):
    return [f(num_e(st.value_at(lp, lp.k))) for f in getattr(st, "inv", [])]


class CellState(State):
    """A heap object the body changes."""

    def __init__(self, lp, key, obj):
        self.obj = obj
        self.key = key
        self.name = key[-1] if isinstance(key[-1], str) else \
            f"the {type(obj).__name__.lower()} it changes"
        self.sym = f"{lp.tag}_c{len(lp.changed)}"
        self.over = None
        if isinstance(obj, Buffer):
            self.kind = "buf"
            self.fn0, self.nan0 = obj.snap()
            self.dt = getattr(obj, "dt", None)
        elif isinstance(obj, PList):
            self.kind = "list"
            self.st0 = obj.snap()
        elif isinstance(obj, AttrCell):
            self.kind = "attr"
            self.ns = None
            self.v0 = obj.snap()
        else:
            self.kind = "custom"
            raise Unsupported(f"loop that changes a {type(obj).__name__}")

    # -- installing the state of the start of iteration k
    def install(self, lp):
        self.set_at(lp, lp.k, True)

    def set_at(self, lp, k, in_pass=False):
        o = self.obj
        if self.kind == "buf":
            o.touch()
            if self.sol is not None:
                o.restore(self.sol(k))
                return
            sym = self.sym
            t0 = tuple(fresh("t") for _ in o.shape)
            v0 = self.fn0(t0)
            if isinstance(v0, B):
                f = lambda i: BAPP(sym, k, *i)      # noqa: E731
            else:
                s = "cplx"
                f = lambda i: app(sym, (k,) + tuple(i), s)  # noqa: E731
                if self.sort(lp) != "cplx":
                    s2 = self.sort(lp)
                    f = lambda i: app(sym, (k,) + tuple(i), s2)  # noqa: E731
            o.restore((f, None if self.nan0 is None else
                       (lambda i: BAPP(sym + "_nan", k, *i))))
        elif self.kind == "list":
            o.touch()
            if self.sol is not None:
                o.items, o.n, o.get, o.guard, o.tail = self.sol(k)
                return
            o.items, o.guard, o.tail = None, None, []
            o.n = app(self.sym, (k,), "int")
            why = f"element of a list built in a loop ({self.name})"
            o.get = lambda j: Poison(why)
            self.hav = o.n
        elif self.kind == "attr":
            from .core import touch_attr

            touch_attr(o.obj, o.name)
            v = self.sol(k) if self.sol is not None else \
                (self.ns.value_at(lp, k) if self.ns is not None else
                 Poison(f"attribute {o.name} changed in a loop"))
            if v is MISSING:
                o.obj.__dict__.pop(o.name, None)
            else:
                o.obj.__dict__[o.name] = v

    def sort(self, lp):
        return getattr(self.obj, "sort", None) or "cplx"

    def set_from(self, lp, st, mp):
        o = self.obj
        if self.kind == "buf":
            o.touch()
            f, n = st
            o.restore((lambda i: at_subst(f, i, mp),
                       None if n is None else
                       (lambda i: at_subst(n, i, mp))))
        elif self.kind == "list":
            o.touch()
            c = PList()
            c.items, c.n, c.get, c.guard, c.tail = st
            d = c.vsubst(mp)
            o.items, o.n, o.get, o.guard, o.tail = (d.items, d.n, d.get,
                                                    d.guard, d.tail)
        elif self.kind == "attr":
            from .core import touch_attr

            touch_attr(o.obj, o.name)
            if st is MISSING:
                o.obj.__dict__.pop(o.name, None)
            else:
                o.obj.__dict__[o.name] = vsubst_soft(st, mp)

    def value_at(self, lp, k):
        raise Unsupported("cell as a value")

    def recognise(self, lp, go):
        self.hopeless = True
        bad = lp.others(self)
        own = {self.sym, self.sym + "_nan"}
        conds = [p.cond for p in go]
        if not go:
            if self.kind == "buf":
                s0 = (self.fn0, self.nan0)
                self.sol = lambda k: s0
                return True
            return False
        if any(mentions(c, own | bad) for c in conds):
            return False
        if self.kind == "buf":
            ts = tuple(fresh("t") for _ in self.obj.shape)

            def pick(p):
                st = p.cells[self.key][1]
                return st[0](ts)
            if any(mentions(pick(p), bad) for p in go):
                return False
            v0 = self.fn0(ts)
            if isinstance(v0, B):
                h = BAPP(self.sym, lp.k, *ts)
            else:
                h = app(self.sym, (lp.k,) + ts, self.sort(lp))
            for p in go:
                n = p.cells[self.key][1][1]
                if n is not None and not (self.nan0 is None and
                                          n(ts) is FALSE):
                    return False
            get = elem_solution(lp, go, ts, pick, h, own, v0, None)
            if get is None:
                return False

            def sol(k):
                e = get(k)
                return (lambda i: subst(e, {
                    a.single(): b for a, b in zip(ts, i)})), None
            self.sol = sol
            return True
        if self.kind == "list":
            return self.recognise_list(lp, go, own, bad)
        if self.kind == "attr":
            ns = NameState(lp, self.name, self.v0,
                           [p.cells[self.key][1] for p in go])
            ns.sym = self.sym
            first = self.ns is None
            self.ns = ns
            if first and ns.kind != "other":
                self.hopeless = False
                return True       # run again from a typed arbitrary value
            fake = [Path(p.cond, p.kind, {self.name: p.cells[self.key][1]},
                         {}, p.facts) for p in go]
            if ns.recognise(lp, fake):
                self.sol = ns.sol
                self.over = ns.over
                return True
        return False

    def recognise_list(self, lp, go, own, bad):
        items0, n0, get0, guard0, tail0 = self.st0
        if items0 is None and tail0:
            return False
        per = []
        for p in go:
            it, n, get, guard, tail = p.cells[self.key][1]
            if it is not None or n != app(self.sym, (lp.k,), "int") or \
                    guard is not None:
                return False
            if len(tail) > 1:
                return False
            for v in tail:
                if any(mentions(t, own | bad) for t in value_terms(v)):
                    return False
            per.append(tail)
        va = lp.k.single()
        add = [t for t, in [x for x in per if x]]
        if not add:
            return False
        always = all(per) and lp.guard is None
        item = None
        for p, t in reversed(list(zip(go, per))):
            if t:
                item = t[0] if item is None else vite(p.cond, t[0], item)
        if isinstance(item, Poison):
            return False
        base = len(items0) if items0 is not None else None
        if guard0 is not None:
            return False

        def elem(j):
            return vsubst(item, {va: j})
        if always:
            if base == 0:
                self.sol = lambda k: (None, k, elem, None, [])
                return True
            old = PList()
            old.items, old.n, old.get, old.guard, old.tail = self.st0
            b = old.length()

            def get(j):
                if C.known(LE(b, j)):
                    return elem(j - b)
                if C.known(LT(j, b)):
                    return old.elem(j)
                return vite(LT(j, b), old.elem(j), elem(j - b))
            self.sol = lambda k: (None, b + k, get, None, [])
            return True
        if base != 0:
            return False
        cond = OR(*[p.cond for p, t in zip(go, per) if t])

        def guard(j):
            return subst(cond, {va: j})
        self.sol = lambda k: (None, k, elem, guard, [])
        self.filtered = True
        return True

    def give_up(self, lp, go):
        pass

    def verify(self, lp, p):
        if self.kind == "buf":
            f, n = p.cells[self.key][1]
            g, m = self.sol(lp.k + 1)
            ts = tuple(fresh("t") for _ in self.obj.shape)
            check(lp, p, f(ts), g(ts), self.name, [
                x for t, s in zip(ts, self.obj.shape)
                for x in (LE(ZERO, t), LT(t, s))])
        elif self.kind == "attr" and self.over is None:
            prove_same(lp, p, p.cells[self.key][1], self.sol(lp.k + 1), lp.k,
                       self.name)
        elif self.kind == "list" and not getattr(self, "filtered", False):
            it, n, get, guard, tail = p.cells[self.key][1]
            if len(tail) != 1 or it is not None:
                raise Unsupported("list invariant")


def vanishes(lp, d):
    """Is the change d zero in the iterations the guard skips?  (Sums over
    runs that are then empty.)"""
    if not d.terms:
        return True
    va = lp.k.single()
    pc = C.pc + [LE(ZERO, lp.k), LT(lp.k, lp.n), NOT(lp.guard(lp.k))]
    rest = dict(d.terms)
    for m in list(rest):
        if m not in rest:
            continue
        c = rest[m]
        for a, e in m:
            if a.kind != "sum" or e != 1:
                continue
            mate = None
            for m2 in rest:
                if rest[m2] != -c or len(m2) != len(m):
                    continue
                x = [f for f in m if f not in m2]
                y = [f for f in m2 if f not in m]
                if len(x) == len(y) == 1 and x[0][0] is a and \
                        y[0][0].kind == "sum" and y[0][1] == 1:
                    l1, h1, v1, b1 = a.args
                    l2, h2, v2, b2 = y[0][0].args
                    if l1 == l2 and subst(b2, {v2.single(): v1}) == b1 and \
                            P.Prover(1500, 3).prove(pc, EQ(h1, h2)) == \
                            "proved":
                        mate = m2
                        break
            if mate is not None:
                del rest[m], rest[mate]
                break
    return not rest


def merge_e(lp, go, pick):
    out = None
    for p in reversed(go):
        v = pick(p)
        out = v if out is None else ite(p.cond, v, out)
    if lp.guard is not None and not vanishes(lp, out):
        out = ite(lp.guard(lp.k), out, ZERO)
    return out


def merge_v(lp, go, pick, h):
    """The element after one iteration (skipped ones keep it)."""
    out = None
    for p in reversed(go):
        v = pick(p)
        if out is None:
            out = v
        elif isinstance(v, B) or isinstance(out, B):
            out = BITE(p.cond, v, out)
        else:
            out = ite(p.cond, v, out)
    if lp.guard is not None:
        g = lp.guard(lp.k)
        if isinstance(out, B):
            return BITE(g, out, h)
        if not vanishes(lp, out - h):
            out = ite(g, out, h)
    return out


def merge_b(lp, go, pick):
    out = None
    for p in reversed(go):
        v = pick(p)
        out = v if out is None else BITE(p.cond, v, out)
    if lp.guard is not None:
        raise Unsupported("boolean state of a filtered loop")
    return out


def cofactor(v, h, val):
    return P.assume(v, h, val)


def solve_bool(lp, v, h, own, v0):
    """Closed form of a boolean state from its transition."""
    v1, v0_ = cofactor(v, h, TRUE), cofactor(v, h, FALSE)
    if mentions(v1, own) or mentions(v0_, own):
        return None
    va = lp.k.single()
    if v1 is v0_:
        return lambda k: BITE(LT(ZERO, k), subst(v1, {va: k - 1}), v0)
    if v1 is TRUE:
        def sol(k):
            j = fresh("j")
            return OR(v0, BEX(ZERO, k, j, subst(v0_, {va: j})))
        return sol
    if v0_ is FALSE:
        def sol(k):
            j = fresh("j")
            return AND(v0, BALL(ZERO, k, j, subst(v1, {va: j})))
        return sol
    c = IFF(v1, v0_)
    return last_write(lp, c, v0_, v0)


def split(v, h):
    """(condition, value) when v is `value where condition else h`."""
    if v == h:
        return FALSE, None
    ha = h.single()
    if not has_atom(v, ha):
        return TRUE, v
    s = v.single() if len(v.terms) == 1 else None
    if s is not None and s.kind == "ite" and v == core.atom_e(s):
        c, a, b = s.args
        if has_atom(c, ha):
            return None
        x, y = split(a, h), split(b, h)
        if x is None or y is None:
            return None
        cc = OR(AND(c, x[0]), AND(NOT(c), y[0]))
        if x[1] is None:
            return cc, y[1]
        if y[1] is None:
            return cc, x[1]
        return cc, ite(c, x[1], y[1])
    return None


def has_atom(v, a):
    return mentions(v, {a.args[0]}) if a.kind == "app" else True


def delta(v, h):
    """v - h when that does not mention h."""
    d = v - h
    ha = h.single()
    if not has_atom(d, ha):
        return d
    s = v.single() if len(v.terms) == 1 else None
    if s is not None and s.kind == "ite" and v == core.atom_e(s):
        c, a, b = s.args
        if has_atom(c, ha):
            return None
        x, y = delta(a, h), delta(b, h)
        if x is None:
            x = delta_at(c, a, h)
        if x is None or y is None:
            return None
        return ite(c, x, y)
    return None


def delta_at(c, a, h):
    """a - h where the condition c fixes an index of the element h."""
    ha = h.single()
    d = a - h
    for x in (c.args if c.kind == "and" else (c,)):
        if x.kind != "eq":
            continue
        for i in ha.args[1:]:
            v = i.single() if isinstance(i, E) else None
            if v is None or v.kind != "var" or i != core.atom_e(v):
                continue
            t = core_solve(x, v)
            if t is not None:
                d2 = subst(d, {v: t})
                if not mentions(d2, {ha.args[0]}):
                    return d2
    return None


def solve_index(c, va):
    """t when the condition implies va == t."""
    if c.kind == "eq":
        return core_solve(c, va)
    if c.kind == "and":
        for x in c.args:
            t = core_solve(x, va)
            if t is not None:
                return t
    if c.kind == "or":
        ts = [solve_index(x, va) for x in c.args]
        if all(t is not None and t == ts[0] for t in ts):
            return ts[0]
    return None


def clauses(c, limit=12):
    """The disjunctive normal form of a condition (to a limit)."""
    if c.kind == "or":
        return [y for x in c.args for y in clauses(x, limit)]
    if c.kind == "and":
        out = [TRUE]
        for x in c.args:
            out = [AND(a, b) for a in out for b in clauses(x, limit)]
            if len(out) > limit:
                return [c]
        return [x for x in out if x is not FALSE]
    return [c]


def core_solve(b, va):
    from .expr import solve_eq
    return solve_eq(b, va)


def last_write(lp, c, f, v0):
    """Closed form of `f where c(k) else unchanged`."""
    va = lp.k.single()
    isb = isinstance(v0, B)
    sel = BITE if isb else ite
    if c is FALSE:
        return lambda k: v0
    if c is TRUE:
        return lambda k: sel(LT(ZERO, k), subst(f, {va: k - 1}), v0)
    t = solve_index(c, va)
    if t is not None:
        cc, ff = subst(c, {va: t}), subst(f, {va: t})
        return lambda k: sel(AND(LE(ZERO, t), LT(t, k), cc), ff, v0)
    cl = clauses(c)
    ts = [solve_index(x, va) for x in cl]
    if len(cl) <= 6 and all(t is not None for t in ts):
        # each clause holds in one iteration at most; the latest one counts
        def sol(k):
            hit = [AND(LE(ZERO, t), LT(t, k), subst(x, {va: t}))
                   for x, t in zip(cl, ts)]
            out = v0
            for m, (h, t) in enumerate(zip(hit, ts)):
                g = AND(h, *[OR(NOT(h2), LE(t2, t)) for n, (h2, t2) in
                             enumerate(zip(hit, ts)) if n != m])
                out = sel(g, subst(f, {va: t}), out)
            return out
        return sol
    if va not in f.vars():
        def sol(k):
            j = fresh("j")
            return sel(BEX(ZERO, k, j, subst(c, {va: j})), f, v0)
        return sol

    def sol(k):
        j = fresh("j")
        cj = subst(c, {va: j})
        ell = mk_op("last", ((k,),), [j], ite(cj, ONE, ZERO), (), "int",
                    linear=False)
        return sel(BEX(ZERO, k, j, cj), subst(f, {va: ell}), v0)
    return sol


def elem_solution(lp, go, ts, pick, h, own, v0, t):
    """k -> element at the indices ts after k iterations."""
    v = merge_v(lp, go, pick, h)
    va = lp.k.single()
    if isinstance(h, B):
        if not isinstance(v, B):
            v = NOT(EQ(v, ZERO))
        return solve_bool(lp, v, h, own, v0)
    if isinstance(v, B):
        v = num(v)
    d = delta(v, h)
    if d is not None and not mentions(d, own):
        def sol(k):
            j = fresh("j")
            return v0 + mk_sum(ZERO, k, j, subst(d, {va: j}))
        return sol
    s = split(v, h)
    if s is None or s[1] is None:
        return None
    if mentions(s[0], own) or mentions(s[1], own):
        return None
    return last_write(lp, s[0], s[1], v0)


def prove_same(lp, p, got, want, k, name):
    if is_num(got) and is_num(want):
        check(lp, p, num_e(got), num_e(want), name)
    elif is_bool(got) and is_bool(want):
        check(lp, p, form(got), form(want), name)
    elif isinstance(got, SArr) and isinstance(want, SArr):
        ts = tuple(fresh("t") for _ in got.shape_e)
        check(lp, p, got.at(ts), want.at(ts), name,
              [x for t, s in zip(ts, got.shape_e)
               for x in (LE(ZERO, t), LT(t, s))])
    else:
        raise Unsupported(f"loop invariant of {name}")


def check(lp, p, got, want, name, extra=()):
    """The closed form is preserved by an iteration along this path."""
    pc = C.pc + [LE(ZERO, lp.k)] + list(extra) + [p.cond] + list(p.facts)
    if lp.n is not None:
        pc.append(LT(lp.k, lp.n))
    for st in lp.changed.values():
        pc += st.facts(lp)
    pr = P.Prover(4000, 30)
    got, want = unroll(got, lp.k), unroll(want, lp.k)
    if isinstance(got, B):
        if not isinstance(want, B):
            want = NOT(EQ(want, ZERO))
        r = pr.prove(pc, OR(NOT(got), want))
        if r == "proved":
            r = pr.prove(pc, OR(NOT(want), got))
    else:
        if isinstance(want, B):
            want = num(want)
        g = EQ(got, want)
        if g is not TRUE and not core.heavy(g) and branching(got, want) and \
                P.entails(pc, g, 500):
            pr.by.add("z3")
            r = "proved"
        else:
            r = pr.prove(pc, g)
    if r != "proved":
        raise Unsupported(f"loop invariant of {name} not re-established: "
                          f"{pr.detail[:400]}")
    C.oblig.append((f"loop invariant of {name}", tuple(sorted(pr.by))))


def unroll(x, k):
    """Sums and quantifiers up to k + 1 written as up to k and the last."""
    k1 = k + 1

    def fb(f):
        if f.kind == "bex" and f.args[1] == k1:
            lo, hi, v, b = f.args
            t = fresh("bv")
            bt = subst(b, {v.single(): t})
            return OR(BEX(lo, k, t, bt), AND(LE(lo, k), subst(
                bt, {t.single(): k})))
        return None

    def go(y):
        if isinstance(y, B):
            return P.rewrite(y, fb)
        out = ZERO
        for m, c in y.terms.items():
            t = lift(c)
            for a, e in m:
                if a.kind == "sum" and a.args[1] == k1:
                    lo, hi, v, b = a.args
                    s = mk_sum(lo, k, v, b) + subst(b, {v.single(): k})
                    t = t * s ** e
                elif a.kind == "ite":
                    c2, p, q = a.args
                    t = t * ite(P.rewrite(c2, fb), go(p), go(q)) ** e
                else:
                    t = t * core.atom_e(a) ** e
            out = out + t
        return out
    if has_last(x, k1, set()):
        # the last index below k + 1 is k, or the last below k
        def keep(f):
            return None

        def last(a):
            name, params, bv, body, idx = a.args
            if name != "last" or params[0][0] != k1:
                return None
            c = NOT(EQ(subst(body, {bv[0].single(): k}), ZERO))
            return ite(c, k, mk_op(name, ((k,),), list(bv), body, idx, "int",
                                   linear=False))
        keep.op = last
        x = P.rewrite(x, keep)
    return go(x)


def branching(*xs):
    """Terms of several cases."""
    return any(a.kind == "ite" for x in xs for m in x.terms for a, _ in m)


def has_last(x, k, seen):
    if isinstance(x, tuple):
        return any(has_last(y, k, seen) for y in x)
    if not isinstance(x, (E, B, Atom)) or x in seen:
        return False
    seen.add(x)
    if isinstance(x, E):
        return any(has_last(a, k, seen) for m in x.terms for a, _ in m)
    if isinstance(x, Atom) and x.kind == "op" and x.args[0] == "last" and \
            x.args[1][0][0] == k:
        return True
    return has_last(tuple(x.args), k, seen)

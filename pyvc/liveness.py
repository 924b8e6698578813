"""Local variables a loop does not carry: neither read in an iteration before
that iteration assigns them, nor read after the loop.  Their value at the head
of the loop is never used, so the engine does not follow it (reading such a
variable all the same gives a Poison value, i.e. no verdict: a mistake in this
analysis cannot make a proof succeed)."""
import ast


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
            and not isinstance(x.ctx, ast.Store)}


def stores(t):
    """Names assigned as a whole by a target."""
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*map(stores, t.elts)) if t.elts else set()
    if isinstance(t, ast.Starred):
        return stores(t.value)
    return set()


class Live:
    def __init__(self, fn):
        self.live = []
        self.always = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (
                    ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                    ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp,
                    ast.GeneratorExp)):
                if not isinstance(x, (ast.ListComp, ast.SetComp,
                                      ast.DictComp, ast.GeneratorExp)):
                    self.always |= loads(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        self.block(fn.body, set(), set(), set(), set())

    def block(self, ss, out, brk, cont, exc):
        for s in reversed(ss):
            out = self.stmt(s, out, brk, cont, exc) | exc
        return set(out)

    def stmt(self, s, out, brk, cont, exc):
        if isinstance(s, ast.Assign):
            kill = set().union(*map(stores, s.targets))
            return (out - kill) | loads(s)
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return (out - stores(s.target)) | loads(s)
        if isinstance(s, ast.AugAssign):
            return out | loads(s) | stores(s.target)
        if isinstance(s, ast.If):
            return loads(s.test) | self.block(s.body, out, brk, cont, exc) | \
                self.block(s.orelse, out, brk, cont, exc)
        if isinstance(s, (ast.For, ast.While)):
            done = self.block(s.orelse, out, brk, cont, exc)
            head = set(done)
            if isinstance(s, ast.While):
                head |= loads(s.test)
            while True:
                b = self.block(s.body, head, out, head, exc)
                if isinstance(s, ast.For):
                    b = (b - stores(s.target)) | loads(s.target)
                if b <= head:
                    break
                head |= b
            self.live.append((s, head | exc))
            return (loads(s.iter) | head) if isinstance(s, ast.For) else head
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            fin = self.block(s.finalbody, out, brk, cont, exc)
            # a final block runs whatever leaves the statement
            pre = fin if s.finalbody else set()
            hs = set()
            for h in s.handlers:
                hs |= self.block(h.body, fin, brk | pre, cont | pre,
                                 exc | pre)
                hs |= loads(h.type) if h.type is not None else set()
            els = self.block(s.orelse, fin, brk | pre, cont | pre, exc | pre)
            return self.block(s.body, els, brk | pre, cont | pre,
                              exc | hs | pre)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            o = self.block(s.body, out, brk, cont, exc)
            for i in s.items:
                o |= loads(i.context_expr)
                if i.optional_vars is not None:
                    o |= loads(i.optional_vars)
            return o
        if isinstance(s, ast.Return):
            return (loads(s) | exc) if s.value is not None else set(exc)
        if isinstance(s, ast.Raise):
            return loads(s) | exc
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        return out | loads(s)


def mark(fn):
    """Note on every loop the names live at its head."""
    v = Live(fn)
    for s, h in v.live:
        s._pv_live = h | v.always | getattr(s, "_pv_live", set())

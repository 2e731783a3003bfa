"""Forward typestate walk over the structured syntax of a function.

A subclass gives the abstract state (copy, join, alive) and the effect of expressions, assignments,
conditions and with-statements; this class does branches, loops (to a fixpoint), try, with and returns,
running pending finally blocks and with-exits on every way out."""
import ast


class Unsupported(Exception):
    pass


def join(a, b):
    if a is None or not a.alive:
        return b.copy() if b is not None else None
    if b is None or not b.alive:
        return a.copy()
    return a.join(b)


class Walk:
    def __init__(self):
        self.rets, self.loops, self.pend, self.tries = [], [], [], []

    # hooks
    def expr(self, n, s):
        return None

    def assign(self, target, value, n, s):
        pass

    def refine(self, test, s, taken):
        pass

    def cond(self, test, s):
        return None

    def enter(self, item, s):
        """-> function(state) run on leaving the with-statement, or None"""
        self.expr(item.context_expr, s)
        return None

    def other(self, n, s):
        pass

    # driver
    def block(self, body, s):
        for n in body:
            if not s.alive:
                return
            self.stmt(n, s)
            if self.tries and s.alive:
                self.tries[-1].append(s.copy())

    def become(self, s, o):
        if o is None or not o.alive:
            s.alive = False
            return
        s.__dict__.update(o.copy().__dict__)

    def leave(self, s, depth):
        todo = self.pend[depth:]
        saved = list(self.pend)
        for i, f in reversed(list(enumerate(todo))):
            self.pend = saved[:depth + i]
            f(s)
        self.pend = saved

    def stmt(self, n, s):
        if isinstance(n, ast.Assign):
            v = self.expr(n.value, s)
            for t in n.targets:
                self.assign(t, v, n, s)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.expr(n.value, s), n, s)
        elif isinstance(n, ast.AugAssign):
            self.expr(n.value, s)
            self.assign(n.target, None, n, s)
        elif isinstance(n, ast.Expr):
            self.expr(n.value, s)
        elif isinstance(n, ast.Return):
            v = self.expr(n.value, s) if n.value is not None else None
            self.leave(s, 0)
            self.rets.append((v, s.copy(), n.lineno))
            s.alive = False
        elif isinstance(n, ast.Raise):
            if n.exc is not None:
                self.expr(n.exc, s)
            if self.tries:
                self.tries[-1].append(s.copy())
            s.alive = False
        elif isinstance(n, ast.If):
            c = self.cond(n.test, s)
            self.expr(n.test, s)
            a, b = s.copy(), s.copy()
            self.refine(n.test, a, True)
            self.refine(n.test, b, False)
            if c is not False:
                self.block(n.body, a)
            else:
                a.alive = False
            if c is not True:
                self.block(n.orelse, b)
            else:
                b.alive = False
            self.become(s, join(a, b))
        elif isinstance(n, (ast.While, ast.For)):
            self.loop(n, s)
        elif isinstance(n, ast.Break):
            br, co, depth = self.loops[-1]
            self.leave(s, depth)
            br.append(s.copy())
            s.alive = False
        elif isinstance(n, ast.Continue):
            br, co, depth = self.loops[-1]
            self.leave(s, depth)
            co.append(s.copy())
            s.alive = False
        elif isinstance(n, ast.With):
            exits = []
            for it in n.items:
                f = self.enter(it, s)
                if f is not None:
                    exits.append(f)
                    self.pend.append(f)
            self.block(n.body, s)
            for f in reversed(exits):
                self.pend.pop()
                if s.alive:
                    f(s)
        elif isinstance(n, ast.Try):
            self.do_try(n, s)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            self.other(n, s)
        else:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.expr(c, s)
            self.other(n, s)

    def do_try(self, n, s):
        if n.finalbody:
            self.pend.append(lambda st: self.block(n.finalbody, st))
        self.tries.append([s.copy()])
        self.block(n.body, s)
        points = self.tries.pop()
        if s.alive:
            self.block(n.orelse, s)
        out = s.copy() if s.alive else None
        if n.handlers:
            h0 = None
            for p in points:
                h0 = join(h0, p)
            for h in n.handlers:
                hs = h0.copy()
                hs.alive = True
                self.block(h.body, hs)
                out = join(out, hs if hs.alive else None)
        elif self.tries:
            self.tries[-1].extend(points)
        if n.finalbody:
            self.pend.pop()
            if out is not None and out.alive:
                self.block(n.finalbody, out)
        self.become(s, out)

    def loop(self, n, s):
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Tuple, ast.List)) and len(n.iter.elts) <= 12 and \
                not any(isinstance(x, (ast.Break, ast.Continue, ast.Starred)) for b in n.body + n.iter.elts for x in ast.walk(b)):
            for e in n.iter.elts:
                if not s.alive:
                    return
                self.assign(n.target, self.expr(e, s), n, s)
                self.block(n.body, s)
            if s.alive:
                self.block(n.orelse, s)
            return
        head, const = s.copy(), False
        if isinstance(n, ast.For):
            self.expr(n.iter, s)
            head = s.copy()
        else:
            const = isinstance(n.test, ast.Constant) and bool(n.test.value)
        first, nrets = s.copy(), len(self.rets)
        breaks = []
        for _ in range(8):
            del self.rets[nrets:]
            self.loops.append(([], [], len(self.pend)))
            b = head.copy()
            if isinstance(n, ast.For):
                self.assign(n.target, None, n, b)
            else:
                self.expr(n.test, b)
                self.refine(n.test, b, True)
            self.block(n.body, b)
            breaks, conts, _d = self.loops.pop()
            new = join(first, b if b.alive else None)
            for c in conts:
                new = join(new, c)
            if new.same(head):
                head = new
                break
            head = new
        out = None
        if not const:
            out = head.copy()
            if isinstance(n, ast.While):
                self.refine(n.test, out, False)
            self.block(n.orelse, out)
        for b in breaks:
            out = join(out, b)
        self.become(s, out)

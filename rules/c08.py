import ast

from vsa import query
from vsa.rulekit import SIM
from rules.c10 import RND, UPD

TITLE = "The random-number generator by typestate analysis, the other random sources by a package-wide query, its users by value numbering."
RULES = ["C08.generator: on every path through the generator each returned array passed the test |x| <= |cut_off| after its last draw (typestate drawn/checked), "
         "and out-of-range numbers are drawn again, not altered.",
         "C08.source: no function outside the generator refers to another random source.",
         "C08.seed: nothing seeds or replaces the global random state.",
         "C08.cutoff: a registered [value, cut-off] pair uses its own cut-off, any other uncertainty the one of the call, one number per component.",
         "C08.apply: apply_errors draws every error with the cut-off of its uncertainty or of the call, one number per component."]

STATE = {"seed", "set_state", "RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937", "bit_generator", "set_bit_generator",
         "setstate", "Random", "SystemRandom"}
SOURCES = ("numpy.random.", "random.", "secrets.", "uuid.", "os.urandom", "scipy.stats.", "at.beam", "at.tracking.particles.beam", "at.physics.harmonic")


def is_source(d):
    if d.startswith("scipy.stats."):
        return d.rsplit(".", 1)[1] in ("rvs", "qmc")
    return any(d.startswith(s) if s.endswith(".") else d == s or d.startswith(s + ".") for s in SOURCES)


def check(ctx):
    ctx.section(sources)
    ctx.section(generator)
    if ctx.prog.func("utils.classdef_tools:randn_cutoff") is not None:
        f = ctx.func("utils.classdef_tools:randn_cutoff")
        if len(f.params()) == 2:
            from vsa.terms import T
            args = {f.params()[0]: T("param", "sigma"), f.params()[1]: T("param", "default")}
            ctx.same_return("C08.cutoff", "utils.classdef_tools:randn_cutoff", ("errors", "drawn"), args=args, prims=[RND], label="any uncertainty")
    P = [RND] + UPD
    ctx.same_effects("C08.apply", SIM + "apply_errors", ("errors", "apply_errors"), prims=P, floor=1)


def sources(ctx):
    graph = query.call_graph(ctx.prog)
    inside = query.reachable(graph, ctx.qual(RND))
    for q, m, n, kind, d, rest in query.references(ctx.prog):
        ctx.count("references resolved")
        if kind != "ext":
            continue
        where = f"{m.path}:{n.lineno}"
        if d.startswith(("numpy.random.", "random.")) and d.split(".")[-1] in STATE:
            ctx.violation("C08.seed", f"{q}:{d}", f"{q} uses {d}, which seeds or replaces the random state", where)
        elif is_source(d):
            ctx.count("random sources found")
            if q not in inside:
                ctx.violation("C08.source", f"{q}:{d}", f"{q} draws from {d} instead of the truncated generator", where)
        if isinstance(n.ctx, ast.Store) and d.startswith(("numpy.random", "random.")) and "." in d:
            ctx.violation("C08.seed", f"{q}:{d}:store", f"{q} replaces {d}", where)


# ------------------------------------------------------------- generator
class Arr:
    """An array of the generator: its state is kept in the flow state."""
    def __init__(self, i, line):
        self.i, self.line = i, line


class Bounds:
    """A mask or a number derived from one: kind 'mask' (true where out of range), 'okmask', 'some' (truthy if any is
    out of range), 'none' (truthy if all are in range), 'absmax'."""
    def __init__(self, kind, arr):
        self.kind, self.arr = kind, arr


class Give(Exception):
    pass


class St:
    def __init__(self):
        self.env, self.ok, self.alive = {}, set(), True
        self.fresh = set()           # Bounds objects that describe the present content

    def copy(self):
        s = St()
        s.env, s.ok, s.alive, s.fresh = dict(self.env), set(self.ok), self.alive, set(self.fresh)
        return s


def join(a, b):
    if a is None or not a.alive:
        return b
    if b is None or not b.alive:
        return a
    s = St()
    s.ok, s.fresh = a.ok & b.ok, a.fresh & b.fresh
    for k in a.env:
        x, y = a.env[k], b.env.get(k)
        if x is y:
            s.env[k] = x
        elif isinstance(x, Bounds) and isinstance(y, Bounds) and x.kind == y.kind and x.arr is y.arr:
            s.env[k] = x
            if x in a.fresh and y in b.fresh:
                s.fresh.add(x)
        elif isinstance(x, Arr) and isinstance(y, Arr):
            z = Arr(("join", x.i, y.i), y.line)
            if x.i in a.ok and y.i in b.ok:
                s.ok.add(z.i)
            s.env[k] = z
    return s


class Flow:
    def __init__(self, ctx, f):
        self.ctx, self.f, self.prog = ctx, f, ctx.prog
        self.rets, self.loops, self.depth, self.nodes = [], [], 0, {}
        self.cut, self.cutnames, self.unknown = set(), set(), []

    def arr(self, node, key=""):
        k = (id(node), key)
        if k not in self.nodes:
            self.nodes[k] = Arr(k, getattr(node, "lineno", 0))
        return self.nodes[k]

    # ---- expressions
    def dotted(self, n):
        r = self.prog.resolve_expr(self.f.module, n)
        return r[1] if r is not None and r[0] == "ext" else None

    def ev(self, n, s):
        if isinstance(n, ast.Name):
            return s.env.get(n.id)
        if isinstance(n, ast.Constant):
            return n.value
        b = self.bounds(n, s)
        if b is not None:
            return b
        if isinstance(n, ast.Call):
            return self.call(n, s)
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, s)
            return v if isinstance(v, (Arr, tuple)) or isinstance(v, Bounds) and v.kind == "index" else None
        if isinstance(n, ast.IfExp):
            s1, s2 = s.copy(), s.copy()
            x, y = self.ev(n.body, s1), self.ev(n.orelse, s2)
            if isinstance(x, Arr) and isinstance(y, Arr):
                z = self.arr(n)
                (s.ok.add if x.i in s.ok and y.i in s.ok else s.ok.discard)(z.i)
                return z
            return x if isinstance(x, Arr) else y if isinstance(y, Arr) else None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return self.ev(n.operand, s)        # the distribution is symmetric
        if isinstance(n, ast.BinOp):
            x, y = self.ev(n.left, s), self.ev(n.right, s)
            if isinstance(x, Arr) or isinstance(y, Arr):
                return ("altered", n)
        return None

    def call(self, n, s):
        d = self.dotted(n.func)
        if d is not None and is_source(d):
            if d.split(".")[-1] not in ("randn", "standard_normal", "normal", "gauss", "normalvariate"):
                raise Give(f"draws with {d}")
            a = self.arr(n)
            self.touch(a, s)
            self.ctx.count("draws")
            return a
        args = [self.ev(a, s) for a in n.args if not isinstance(a, ast.Starred)]
        arrs = [x for x in args if isinstance(x, Arr)]
        r = self.prog.resolve_expr(self.f.module, n.func)
        if r is not None and r[0] == "func":
            if r[1] is self.f or r[1].qual == self.ctx.qual(RND):
                a = self.arr(n)
                s.ok.add(a.i)
                return a
            if self.depth > 3:
                raise Give("call depth")
            return self.inline(r[1], n, args, s)
        if isinstance(n.func, ast.Attribute) and d is None:
            base = self.ev(n.func.value, s)
            if isinstance(base, tuple):
                return base
            if isinstance(base, Arr):
                if n.func.attr in ("reshape", "ravel", "flatten", "copy", "item", "squeeze", "astype", "tolist", "view"):
                    return base
                if n.func.attr == "clip":
                    return ("altered", n)
                raise Give(f"method {n.func.attr}")
            return None
        if d in ("numpy.reshape", "numpy.ravel", "numpy.array", "numpy.asarray", "numpy.copy", "numpy.squeeze", "float", "numpy.atleast_1d", "numpy.float64") and arrs:
            return arrs[0]
        if d in ("numpy.clip", "numpy.minimum", "numpy.maximum", "numpy.fmod", "numpy.sign", "numpy.remainder", "numpy.mod", "numpy.tanh", "numpy.copysign") and arrs:
            return ("altered", n)
        if d == "numpy.where" and len(args) == 3 and any(isinstance(x, Arr) for x in args[1:]):
            if all(isinstance(x, Arr) for x in args[1:]):
                a = self.arr(n)
                old = [x for x in args[1:] if x.i in s.ok]
                self.touch(a, s)
                if len(old) == 2:
                    s.ok.add(a.i)
                return a
            return ("altered", n)
        if d in ("numpy.concatenate", "numpy.append", "numpy.hstack", "numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.fromiter"):
            if d in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"):
                raise Give(d)
            raise Give(d)
        if arrs and d is not None and d not in ("len", "numpy.sum", "numpy.size", "numpy.shape", "numpy.any", "numpy.all", "numpy.max", "numpy.min", "numpy.abs", "abs",
                                                "numpy.count_nonzero", "print"):
            raise Give(f"{d} of the drawn numbers")
        return None

    def inline(self, f, n, args, s):
        sub = Flow(self.ctx, f)
        sub.depth, sub.nodes, sub.unknown = self.depth + 1, self.nodes, self.unknown
        t = s.copy()
        t.env = dict(zip(f.params(), args))
        for k in n.keywords:
            if k.arg:
                t.env[k.arg] = self.ev(k.value, s)
        given = dict(zip(f.params(), n.args)) | {k.arg: k.value for k in n.keywords if k.arg}
        sub.cut = {p for p, a in given.items() if self.is_cut(a, s)}
        sub.block(f.node.body, t)
        if t.alive:
            sub.rets.append((None, t.copy(), n.lineno))
        out = None
        for i, (v, u, ln) in enumerate(sub.rets):
            if i == 0:
                out, ok, fresh = v, set(u.ok), set(u.fresh)
                continue
            ok, fresh = ok & u.ok, fresh & u.fresh
            if isinstance(v, Arr) and isinstance(out, Arr) and v.i != out.i:
                z = self.arr(n)
                (ok.add if v.i in u.ok and out.i in ok else ok.discard)(z.i)
                out = z
            elif v is not out:
                self.unknown.append(f"results of {f.name}")
        if sub.rets:
            s.ok, s.fresh = ok, fresh
        self.ctx.functions.add(f.qual)
        return out

    def touch(self, a, s):
        s.ok.discard(a.i)
        s.fresh = {b for b in s.fresh if b.arr is not a}

    def is_cut(self, a, s):
        try:
            return all(abs(self.scalar(a, None, 0.0, c, s)) == c for c in (0.5, 2.0))
        except Exception:
            return False

    # ---- bound tests: case analysis over the orderings of x, -c and c
    CASES = [(x, c) for c in (0.5, 2.0) for x in (-9.0, -c - 0.25, c + 0.25, 9.0)]
    INSIDE = [(x, c) for c in (0.5, 2.0) for x in (-c + 0.25, 0.0, c - 0.25)]

    def bounds(self, n, s):
        sizes = {id(x.args[0]) for x in ast.walk(n) if isinstance(x, ast.Call) and len(x.args) == 1 and ast.unparse(x.func).split(".")[-1] in ("len", "size", "shape", "ndim")} | \
            {id(x.value) for x in ast.walk(n) if isinstance(x, ast.Attribute) and x.attr in ("size", "shape", "ndim")}
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(s.env.get(x.id), Arr) and id(x) not in sizes}
        masks = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(s.env.get(x.id), Bounds)}
        if isinstance(n, ast.Name):
            return None
        if isinstance(n, (ast.Compare, ast.BoolOp)) or isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd)) or \
                isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)) or isinstance(n, ast.Call):
            kind = self.reduce(n, s)
            if kind is not None:
                return kind
        if len(names) == 1 and not masks and isinstance(n, (ast.Compare, ast.BinOp, ast.UnaryOp, ast.Call, ast.BoolOp)):
            name = names.pop()
            try:
                out = [bool(self.scalar(n, name, x, c, s)) for x, c in self.CASES]
                ins = [bool(self.scalar(n, name, x, c, s)) for x, c in self.INSIDE]
            except Exception:
                if self.is_bool(n):
                    self.unknown.append(ast.unparse(n))
                return None
            if not self.is_bool(n):
                return None
            a = s.env[name]
            if all(out) and not all(ins):
                b = Bounds("mask", a)
            elif not any(out) and any(ins):
                b = Bounds("okmask", a)
            else:
                b = Bounds("partial", a)
            s.fresh.add(b)
            return b
        return None

    def is_bool(self, n):
        if isinstance(n, ast.Compare):
            return True
        if isinstance(n, ast.BinOp):
            return isinstance(n.op, (ast.BitOr, ast.BitAnd)) and self.is_bool(n.left)
        if isinstance(n, ast.UnaryOp):
            return isinstance(n.op, (ast.Invert, ast.Not))
        if isinstance(n, ast.BoolOp):
            return True
        return isinstance(n, ast.Call) and (self.dotted(n.func) or "").split(".")[-1] in (
            "logical_or", "logical_and", "logical_not", "greater", "less", "greater_equal", "less_equal")

    def scalar(self, n, name, x, c, s):
        ev = lambda m: self.scalar(m, name, x, c, s)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id == name:
                return x
            if n.id in self.cut or n.id in self.cutnames:
                return c
            raise Give(n.id)
        if isinstance(n, ast.UnaryOp):
            v = ev(n.operand)
            return -v if isinstance(n.op, ast.USub) else (not v) if isinstance(n.op, (ast.Invert, ast.Not)) else v
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            t = type(n.op)
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b,
                    ast.BitOr: lambda: bool(a) or bool(b), ast.BitAnd: lambda: bool(a) and bool(b)}[t]()
        if isinstance(n, ast.BoolOp):
            vs = [ev(v) for v in n.values]
            return all(vs) if isinstance(n.op, ast.And) else any(vs)
        if isinstance(n, ast.Compare):
            left, ok = ev(n.left), True
            for o, r in zip(n.ops, n.comparators):
                r = ev(r)
                ok = ok and {ast.Lt: left < r, ast.LtE: left <= r, ast.Gt: left > r, ast.GtE: left >= r, ast.Eq: left == r, ast.NotEq: left != r}[type(o)]
                left = r
            return ok
        if isinstance(n, ast.Call):
            d = (self.dotted(n.func) or "").split(".")[-1]
            v = [ev(a) for a in n.args]
            return {"abs": lambda: abs(v[0]), "absolute": lambda: abs(v[0]), "fabs": lambda: abs(v[0]), "logical_or": lambda: v[0] or v[1],
                    "logical_and": lambda: v[0] and v[1], "logical_not": lambda: not v[0], "greater": lambda: v[0] > v[1], "less": lambda: v[0] < v[1],
                    "greater_equal": lambda: v[0] >= v[1], "less_equal": lambda: v[0] <= v[1], "square": lambda: v[0] ** 2, "float": lambda: float(v[0]),
                    "max": lambda: v[0], "amax": lambda: v[0], "min": lambda: v[0], "any": lambda: bool(v[0]), "all": lambda: bool(v[0])}[d]()
        raise Give(type(n).__name__)

    def reduce(self, n, s):
        """any/sum/count of a mask, its negation and comparisons of it with zero."""
        def new(kind, b):
            r = Bounds(kind, b.arr)
            if b in s.fresh:
                s.fresh.add(r)
            return r
        neg = {"mask": "okmask", "okmask": "mask", "some": "none", "none": "some", "partial": "partial"}
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)):
            b = self.ev(n.operand, s)
            if isinstance(b, Bounds) and b.kind in neg:
                return new(neg[b.kind], b)
            return None
        if isinstance(n, ast.Call):
            d = self.dotted(n.func)
            arg = n.args[0] if n.args else None
            if d is None and isinstance(n.func, ast.Attribute):
                d, arg = n.func.attr, n.func.value
            d = d.split(".")[-1] if d else ""
            if arg is None:
                return None
            if d in ("logical_not", "invert"):
                b = self.ev(arg, s)
                return new(neg[b.kind], b) if isinstance(b, Bounds) and b.kind in neg else None
            if d in ("sum", "any", "count_nonzero", "nonzero", "flatnonzero", "where", "argwhere", "len", "max", "size", "bool", "int"):
                if d in ("where",) and len(n.args) > 1:
                    return None
                b = self.ev(arg.value if isinstance(arg, ast.Subscript) and isinstance(arg.slice, ast.Constant) else arg, s)
                if isinstance(b, Bounds):
                    if b.kind == "mask":
                        return new("index" if d in ("nonzero", "flatnonzero", "where", "argwhere") else "some", b)
                    if b.kind in ("some", "none", "partial"):
                        return b
                    if b.kind == "index" and d in ("len", "size"):
                        return new("some", b)
                    if b.kind == "okmask":
                        return new("partial", b)
            if d in ("all", "min"):
                b = self.ev(arg, s)
                if isinstance(b, Bounds):
                    return new({"okmask": "none", "mask": "partial"}.get(b.kind, "partial"), b)
            return None
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            b, c = self.ev(n.left, s), self.ev(n.comparators[0], s)
            if isinstance(b, Bounds) and b.kind == "index" and isinstance(n.left, ast.Attribute):
                b = new("some", b)
            if isinstance(b, Bounds) and b.kind in ("some", "none") and isinstance(c, (int, float, bool)):
                op = type(n.ops[0])
                t = {ast.Gt: c == 0, ast.NotEq: c == 0, ast.GtE: c == 1}.get(op)
                f = {ast.Eq: c == 0, ast.Lt: c == 1, ast.LtE: c == 0}.get(op)
                if t:
                    return b
                if f:
                    return new("none" if b.kind == "some" else "some", b)
                return new("partial", b)
        return None

    # ---- statements
    def refine(self, test, s, taken):
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and taken or isinstance(test.op, ast.Or) and not taken:
                for v in test.values:
                    self.refine(v, s, taken)
            return
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, s, not taken)
        b = self.ev(test, s)
        if isinstance(b, Bounds) and b in s.fresh:
            if b.kind in ("some", "mask") and not taken or b.kind in ("none", "okmask") and taken:
                s.ok.add(b.arr.i)

    def block(self, body, s):
        for n in body:
            if not s.alive:
                return
            self.stmt(n, s)

    def become(self, s, o):
        if o is None:
            s.alive = False
            return
        s.env, s.ok, s.alive, s.fresh = o.env, o.ok, o.alive, o.fresh

    def stmt(self, n, s):
        if isinstance(n, ast.Assign):
            v = self.ev(n.value, s)
            for t in n.targets:
                self.store(t, v, n, s)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            self.store(n.target, self.ev(n.value, s), n, s)
        elif isinstance(n, ast.AugAssign):
            t = n.target
            v = s.env.get(t.id) if isinstance(t, ast.Name) else self.ev(t.value, s) if isinstance(t, ast.Subscript) else None
            if isinstance(v, Arr):
                self.store(t, ("altered", n), n, s)
        elif isinstance(n, ast.Expr):
            self.ev(n.value, s)
        elif isinstance(n, ast.Return):
            self.rets.append((self.ev(n.value, s) if n.value is not None else None, s.copy(), n.lineno))
            s.alive = False
        elif isinstance(n, ast.Raise):
            s.alive = False
        elif isinstance(n, ast.If):
            a, b = s.copy(), s.copy()
            self.refine(n.test, a, True)
            self.refine(n.test, b, False)
            self.block(n.body, a)
            self.block(n.orelse, b)
            self.become(s, join(a if a.alive else None, b if b.alive else None))
        elif isinstance(n, (ast.While, ast.For)):
            self.loop(n, s)
        elif isinstance(n, ast.Break):
            self.loops[-1][0].append(s.copy())
            s.alive = False
        elif isinstance(n, ast.Continue):
            self.loops[-1][1].append(s.copy())
            s.alive = False
        elif isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)):
            if isinstance(n, ast.Assert):
                raise Give("assert")
        else:
            raise Give(type(n).__name__)

    def loop(self, n, s):
        head = s.copy()
        const = isinstance(n, ast.While) and isinstance(n.test, ast.Constant)
        nrets = len(self.rets)
        for _ in range(6):
            del self.rets[nrets:]
            self.loops.append(([], []))
            b = head.copy()
            if isinstance(n, ast.While):
                self.refine(n.test, b, True)
            self.block(n.body, b)
            breaks, conts = self.loops.pop()
            new = join(s.copy(), b if b.alive else None)
            for c in conts:
                new = join(new, c)
            done = new.ok == head.ok and {k: v for k, v in new.env.items() if isinstance(v, (Arr, Bounds))}.keys() == \
                {k: v for k, v in head.env.items() if isinstance(v, (Arr, Bounds))}.keys() and \
                {k for k, v in new.env.items() if v in new.fresh} == {k for k, v in head.env.items() if v in head.fresh}
            head = new
            if done:
                break
        out = None
        if not (const and n.test.value):
            out = head.copy()
            if isinstance(n, ast.While):
                self.refine(n.test, out, False)
            self.block(n.orelse, out)
            if not out.alive:
                out = None
        for b in breaks:
            out = join(out, b)
        self.become(s, out)

    def store(self, t, v, n, s):
        if isinstance(t, ast.Name):
            if isinstance(v, tuple) and v and v[0] == "altered":
                s.env[t.id] = v
                return
            s.env[t.id] = v
            if t.id in self.cutnames:
                self.cutnames.discard(t.id)
            if v is None and any(isinstance(x, ast.Name) and (x.id in self.cut or x.id in self.cutnames) for x in ast.walk(n.value)) and \
                    isinstance(n.value, ast.Call) and (self.dotted(n.value.func) or "").split(".")[-1] in ("abs", "fabs", "absolute", "float"):
                self.cutnames.add(t.id)
        elif isinstance(t, ast.Subscript):
            a = self.ev(t.value, s) if not isinstance(t.value, ast.Name) else s.env.get(t.value.id)
            if isinstance(a, Bounds):
                self.unknown.append(ast.unparse(n))
            if not isinstance(a, Arr):
                return
            key = self.ev(t.slice, s)
            whole = isinstance(key, Bounds) and key.kind in ("mask", "index") and key in s.fresh and key.arr is a
            good = isinstance(v, Arr) and v.i in s.ok
            if isinstance(v, tuple) and v and v[0] == "altered" or not isinstance(v, Arr):
                self.touch(a, s)
                s.env["#altered"] = n
                raise Altered(n)
            was = a.i in s.ok
            self.touch(a, s)
            if good and (whole or was):
                s.ok.add(a.i)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, None, n, s)


class Altered(Exception):
    def __init__(self, n):
        self.n = n


def generator(ctx):
    f = ctx.func(RND)
    ctx.functions.add(f.qual)
    fl = Flow(ctx, f)
    fl.cut = {f.params()[0]}
    try:
        fl.block(f.node.body, St())
    except Altered as e:
        ctx.violation("C08.generator", f"{f.qual}:altered", f"{f.qual} stores something other than a new random number into the drawn array", f"{f.module.path}:{e.n.lineno}")
        return
    except Give as e:
        ctx.undecide(f"generator: {e}")
        return
    for v, s, line in fl.rets:
        where = f"{f.module.path}:{line}"
        ctx.count("return paths of the generator")
        if isinstance(v, tuple) and v and v[0] == "altered":
            ctx.violation("C08.generator", f"{f.qual}:altered", f"{f.qual} returns altered numbers: out-of-range numbers have to be drawn again", where)
        elif isinstance(v, Arr):
            if v.i not in s.ok and fl.unknown:
                ctx.undecide(f"generator: {fl.unknown[0]}")
            elif v.i not in s.ok:
                ctx.violation("C08.generator", f"{f.qual}:unchecked", f"{f.qual} can return numbers drawn at line {v.line} that were not tested against the cut-off after their last draw", where)
        else:
            ctx.undecide(f"generator: returned value at {where}")

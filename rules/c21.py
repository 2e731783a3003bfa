import ast

from vsa import query
from vsa.flow import Walk

TITLE = "Process-wide settings by a typestate walk (unchanged, changed, restored) through every function that touches one."
RULES = ["C21.plot: on every path on which a function returns, each plotting parameter it (or a function it calls) changed holds the value it had at entry.",
         "C21.setting: no function changes the numpy error state or print options, warning filters, working directory, environment, module search path, locale, "
         "plotting style or backend, recursion limit or logging configuration without restoring it.",
         "C21.global: no function rebinds or modifies a module-level name.",
         "C21.debug: leaving the debug context restores the level read before it was changed and removes each handler that was added."]

ONEWAY = {"os.putenv", "os.unsetenv", "os.environ.update", "os.environ.setdefault", "os.environ.pop", "sys.path.insert", "sys.path.append",
          "sys.setrecursionlimit", "locale.setlocale", "matplotlib.use", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.style.use", "matplotlib.style.use",
          "matplotlib.pyplot.rcdefaults", "matplotlib.rcdefaults", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff", "logging.basicConfig", "logging.disable",
          "logging.captureWarnings", "matplotlib.interactive", "warnings.resetwarnings", "numpy.seterrcall", "numpy.setbufsize", "gc.disable", "signal.signal",
          "os.umask", "socket.setdefaulttimeout", "at.set_shared_param"}
PAIRED = {"numpy.seterr": "err", "numpy.set_printoptions": "print", "os.chdir": "cwd", "numpy.random.set_state": "random", "numpy.random.seed": "random",
          "random.seed": "random", "random.setstate": "random"}
READERS = {"numpy.geterr": "err", "numpy.get_printoptions": "print", "os.getcwd": "cwd", "numpy.random.get_state": "random", "random.getstate": "random",
           "os.path.abspath": None}
FILTERS = {"warnings.filterwarnings", "warnings.simplefilter"}
CONTEXTS = {"matplotlib.pyplot.rc_context": "rc", "matplotlib.rc_context": "rc", "numpy.errstate": "err", "numpy.printoptions": "print",
            "warnings.catch_warnings": "warn", "matplotlib.pyplot.style.context": "rc", "contextlib.chdir": "cwd", "matplotlib.style.context": "rc"}
RC = ("matplotlib.pyplot.rcParams", "matplotlib.rcParams")


class Saved:
    """A value read from a setting while it was unchanged."""
    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Saved) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class State:
    def __init__(self):
        self.env, self.changed, self.alive = {}, {}, True

    def copy(self):
        s = State()
        s.env, s.changed, s.alive = dict(self.env), dict(self.changed), self.alive
        return s

    def join(self, o):
        s = State()
        s.env = {k: v for k, v in self.env.items() if o.env.get(k) == v}
        s.changed = {**self.changed, **o.changed}
        return s

    def same(self, o):
        return self.env == o.env and self.changed.keys() == o.changed.keys()


class Settings(Walk):
    def __init__(self, ctx, module, node, touching, depth=0, qual=""):
        super().__init__()
        self.ctx, self.m, self.node, self.touching, self.depth, self.qual = ctx, module, node, touching, depth, qual
        self.local = query.local_names(ctx.prog, module, node)
        self.unknown = []
        self.params = set()          # settings given the value of an argument
        self.args = {a.arg for a in node.args.args + node.args.kwonlyargs} if hasattr(node, "args") else set()

    def where(self, n):
        return f"{self.m.path}:{n.lineno}"

    def ext(self, n, s=None):
        r = query.resolve(self.ctx.prog, self.m, n, self.local)
        return r[1] if r is not None and r[0] == "ext" else None

    def name(self, n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            return f"{n.value.id}.{n.attr}"
        return None

    # ---- settings
    def put(self, key, value, n, s):
        self.ctx.count("setting changes")
        if isinstance(value, Saved) and value.key in (key, ("rc", "*") if key[0] == "rc" else None):
            s.changed.pop(key, None)
            if key == ("rc", "*"):
                for k in [k for k in s.changed if k[0] == "rc"]:
                    del s.changed[k]
        else:
            s.changed.setdefault(key, self.where(n))
            if isinstance(value, tuple) and value[:1] == ("ref",) and self.depth == 0 and value[1] in self.args:
                self.params.add(key)

    def entries(self, d, s, n):
        """Keys and values given to rcParams.update / plt.rc."""
        if isinstance(d, ast.Dict):
            for k, v in zip(d.keys, d.values):
                val = self.expr(v, s)
                if k is None:
                    self.entries(v, s, n)
                elif isinstance(k, ast.Constant):
                    self.put(("rc", k.value), val, n, s)
                else:
                    self.put(("rc", ast.unparse(k)), val, n, s)
        elif isinstance(d, ast.Call) and self.ext(d.func) == "dict" and not d.args:
            for k in d.keywords:
                self.put(("rc", k.arg), self.expr(k.value, s), n, s)
        else:
            v = self.expr(d, s)
            if isinstance(v, tuple) and v and v[0] == "dict":
                for k, x in v[1]:
                    self.put(("rc", k), x, n, s)
            elif isinstance(v, Saved):
                self.put(("rc", "*"), v, n, s)
            else:
                self.put(("rc", "*"), None, n, s)

    # ---- expressions
    def expr(self, n, s):
        if n is None:
            return None
        if isinstance(n, (ast.Name, ast.Attribute)):
            nm = self.name(n)
            if nm in s.env:
                return s.env[nm]
            d = self.ext(n)
            if d in RC:
                return ("rcparams",)
            return ("ref", ast.unparse(n))
        if isinstance(n, ast.Constant):
            return ("const", n.value)
        if isinstance(n, ast.Tuple):
            return ("tuple", tuple(self.expr(x, s) for x in n.elts))
        if isinstance(n, ast.Dict):
            out = []
            for k, v in zip(n.keys, n.values):
                out.append((k.value if isinstance(k, ast.Constant) else None, self.expr(v, s)))
            return ("dict", tuple(out))
        if isinstance(n, ast.Subscript):
            b = self.expr(n.value, s)
            k = self.expr(n.slice, s)
            if b == ("rcparams",):
                key = ("rc", k[1] if k and k[0] == "const" else ast.unparse(n.slice))
                return Saved(key) if key not in s.changed and ("rc", "*") not in s.changed else None
            if isinstance(b, Saved) and b.key == ("rc", "*") and k and k[0] == "const":
                return Saved(("rc", k[1]))
            if isinstance(b, tuple) and b and b[0] == "dict" and k and k[0] == "const":
                return dict(x for x in b[1] if x[0] is not None).get(k[1])
            return None
        if isinstance(n, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            # {key: rcParams[key] for key in (...)}
            if isinstance(n, ast.DictComp) and len(n.generators) == 1 and isinstance(n.value, ast.Subscript) and self.expr(n.value.value, s) == ("rcparams",):
                it = n.generators[0].iter
                if isinstance(it, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in it.elts):
                    return ("dict", tuple((x.value, Saved(("rc", x.value)) if ("rc", x.value) not in s.changed else None) for x in it.elts))
                return Saved(("rc", "*")) if not any(k[0] == "rc" for k in s.changed) else None
            for c in ast.walk(n):
                if isinstance(c, ast.Call):
                    self.call(c, s)
            return None
        if isinstance(n, ast.IfExp):
            self.expr(n.test, s)
            a, b = s.copy(), s.copy()
            x, y = self.expr(n.body, a), self.expr(n.orelse, b)
            self.become(s, a.join(b))
            return x if x == y else None
        if isinstance(n, ast.Call):
            return self.call(n, s)
        if isinstance(n, ast.Lambda):
            return None
        if isinstance(n, ast.NamedExpr):
            v = self.expr(n.value, s)
            s.env[n.target.id] = v
            return v
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.expr(c, s)
        return None

    def call(self, n, s):
        d = self.ext(n.func)
        if isinstance(n.func, ast.Attribute):
            base = self.expr(n.func.value, s)
            if base == ("rcparams",):
                if n.func.attr == "update":
                    for a in n.args:
                        self.entries(a, s, n)
                    for k in n.keywords:
                        self.put(("rc", k.arg), self.expr(k.value, s), n, s)
                    return None
                if n.func.attr == "copy":
                    return Saved(("rc", "*")) if not any(k[0] == "rc" for k in s.changed) else None
                if n.func.attr == "get" and n.args and isinstance(n.args[0], ast.Constant):
                    return Saved(("rc", n.args[0].value)) if ("rc", n.args[0].value) not in s.changed and ("rc", "*") not in s.changed else None
                if n.func.attr in ("setdefault", "pop", "popitem", "clear"):
                    self.put(("rc", "*"), None, n, s)
                return None
            if n.func.attr in ("setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter"):
                return self.logger(n, s)
        args = [self.expr(a, s) for a in n.args]
        kws = {k.arg: self.expr(k.value, s) for k in n.keywords}
        if d is None:
            r = query.resolve(self.ctx.prog, self.m, n.func, self.local)
            if r is not None and r[0] == "func" and r[1].qual in self.touching and self.depth < 6:
                return self.inline(r[1], n, args, kws, s)
            return None
        if d in ("dict", "copy.copy", "copy.deepcopy") and len(n.args) == 1 and args[0] == ("rcparams",):
            return Saved(("rc", "*")) if not any(k[0] == "rc" for k in s.changed) else None
        if d in ("matplotlib.pyplot.rc", "matplotlib.rc"):
            g = args[0][1] if args and args[0] and args[0][0] == "const" else "?"
            for k, v in kws.items():
                self.put(("rc", f"{g}.{k}"), v, n, s)
            return None
        if d in READERS and READERS[d]:
            key = (READERS[d],)
            return Saved(key) if key not in s.changed else None
        if d == "os.chdir" or d in PAIRED:
            key = (PAIRED[d],)
            old = Saved(key) if key not in s.changed else None
            given = args[0] if args else kws.get(None)
            self.put(key, given, n, s)
            return old if d == "numpy.seterr" else None
        if d in FILTERS:
            self.put(("warn",), None, n, s)
        elif d in ONEWAY:
            self.put((d,), None, n, s)
        return None

    def logger(self, n, s):
        """Levels and handlers of loggers, tracked inside context classes only."""
        base = self.name(n.func.value) or ast.unparse(n.func.value)
        for a in n.args:
            self.expr(a, s)
        tgt = ast.unparse(n.args[0]) if n.args else "?"
        if n.args and isinstance(n.args[0], ast.Name):
            v = s.env.get(n.args[0].id)
            if isinstance(v, tuple) and v and v[0] == "ref":
                tgt = v[1]
            elif n.func.attr in ("removeHandler", "removeFilter"):
                s.changed = {k: v for k, v in s.changed.items() if k[:2] != ("handler", base)}
        if n.func.attr == "setLevel":
            v = self.expr(n.args[0], s) if n.args else None
            self.put(("level", base), v, n, s)
        elif n.func.attr in ("addHandler", "addFilter"):
            s.changed[("handler", base, tgt)] = self.where(n)
        else:
            s.changed.pop(("handler", base, tgt), None)
        return None

    def inline(self, f, n, args, kws, s):
        sub = Settings(self.ctx, f.module, f.node, self.touching, self.depth + 1, f.qual)
        sub.unknown = self.unknown
        t = s.copy()
        t.env = {**dict(zip(f.params(), args)), **{k: v for k, v in kws.items() if k}}
        sub.block(f.node.body, t)
        out, end = None, t if t.alive else None
        vals = []
        for v, u, _ in sub.rets:
            end = u if end is None else end.join(u)
            vals.append(v)
        if end is None:
            s.alive = False
            return None
        s.changed = dict(end.changed)
        if vals and all(v == vals[0] for v in vals) and not t.alive:
            out = vals[0]
        return out

    def assign(self, t, v, n, s):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if isinstance(v, tuple) and v and v[0] == "tuple" and len(v[1]) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, n, s)
            return
        if isinstance(t, ast.Subscript):
            b = self.expr(t.value, s)
            d = self.ext(t.value)
            if b == ("rcparams",):
                k = self.expr(t.slice, s)
                self.put(("rc", k[1] if k and k[0] == "const" else ast.unparse(t.slice)), v, n, s)
            elif d == "os.environ":
                self.put(("os.environ",), None, n, s)
            return
        nm = self.name(t)
        if nm is not None:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == "level":
                v = Saved(("level", self.name(n.value.value) or ast.unparse(n.value.value)))
                if v.key in s.changed:
                    v = None
            s.env[nm] = v
            if isinstance(t, ast.Attribute):
                d = self.ext(t)
                if d is not None and not d.startswith("self"):
                    self.put((d,), None, n, s)

    def cond(self, test, s):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            v = self.cond(test.operand, s)
            return None if v is None else not v
        if isinstance(test, ast.BoolOp):
            vs = [self.cond(x, s) for x in test.values]
            stop = isinstance(test.op, ast.Or)
            return stop if stop in vs else None if None in vs else not stop
        v = self.expr(test, s.copy())
        if isinstance(v, tuple) and v and v[0] == "const":
            return bool(v[1])
        return None

    def enter(self, item, s):
        e = item.context_expr
        d = self.ext(e.func) if isinstance(e, ast.Call) else None
        if d in CONTEXTS:
            kind = CONTEXTS[d]
            before = {k: v for k, v in s.changed.items() if k[0] == kind}
            for k in [k for k in s.changed if k[0] == kind]:
                del s.changed[k]

            def leave(st):
                st.changed = {k: v for k, v in st.changed.items() if k[0] != kind}
                st.changed.update(before)
            return leave
        v = self.expr(e, s)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, item, s) if isinstance(item.optional_vars, ast.Name) else None
        return None


def settings_used(ctx):
    """Functions that refer to a process-wide setting."""
    names = set(PAIRED) | FILTERS | ONEWAY | {"matplotlib.pyplot.rc", "matplotlib.rc", "os.environ", "os.chdir"} | set(RC)
    out = set()
    for q, m, n, kind, d, rest in query.references(ctx.prog):
        if kind == "ext" and any(d == x or d.startswith(x + ".") for x in names):
            out.add(q)
            ctx.count("references to process-wide settings")
    return out


def describe(key):
    return {"rc": f"plotting parameter {key[-1]!r}", "warn": "the warning filters", "cwd": "the working directory", "err": "the numpy error state",
            "print": "the numpy print options", "random": "the random state", "level": f"the level of {key[-1]}",
            "handler": f"the handlers of {key[1] if len(key) > 1 else ''}"}.get(key[0], key[0])


def check(ctx):
    used = settings_used(ctx)
    graph = query.call_graph(ctx.prog)
    touching = {q for q in graph if query.reachable(graph, q) & used} | used
    called = {y for x, ys in graph.items() for y in ys if x != y and not x.startswith("pySC.matlab_index:")}
    todo = [(q, node, m) for q, node, m in query.functions(ctx.prog) if not q.endswith(":")]
    for q, node, m in todo:
        ctx.count("functions walked")
        ctx.section(one, q, node, m, touching, called)
    for c in ctx.prog.classes.values():
        if "__exit__" in c.methods and not c.qual.startswith("spec."):
            ctx.section(context_class, c, touching)
    ctx.section(module_names)


def saved(v):
    if isinstance(v, Saved):
        return {v.key}
    if isinstance(v, tuple):
        return set().union(*[saved(x[1] if isinstance(x, tuple) and len(x) == 2 else x) for x in v[1]]) if v[:1] in (("tuple",), ("dict",)) else set()
    return set()


def one(ctx, q, node, m, touching, called):
    loggers = [n for n in query.own(node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
               n.func.attr in ("setLevel", "addHandler", "removeHandler")]
    if q not in touching and not loggers:
        return
    cls = ctx.prog.classes.get(q.rsplit(".", 1)[0])
    ctx.functions.add(q)
    w = Settings(ctx, m, node, touching, 0, q)
    s = State()
    w.block(node.body, s)
    ends = list(w.rets) + ([(None, s, node.body[-1].lineno)] if s.alive else [])
    helper = q in called and (q.split(".")[-1].split(":")[-1].startswith("_"))
    for v, u, line in ends:
        ctx.count("return paths walked")
        for key, where in u.changed.items():
            if key[0] in ("level", "handler") and (m.name.endswith("logging_tools") or cls is not None):
                continue
            if helper or q in called and (key in w.params or key in saved(v)):
                continue        # one half of a save/restore pair: judged in its callers
            rule = "C21.plot" if key[0] == "rc" else "C21.setting"
            ctx.violation(rule, f"{q}:{key}", f"{q} can return (line {line}) with {describe(key)} changed at {where} and not restored", where)


def context_class(ctx, c, touching):
    params = [p for p in (c.methods["__init__"].params()[1:] if "__init__" in c.methods else [])]
    for flag in (True, False):
        s = State()
        for p in params[:1]:
            s.env[p] = ("const", flag)
        ctx.functions.add(c.qual)
        for name in ("__init__", "__enter__", "__exit__"):
            if name not in c.methods:
                continue
            f = c.methods[name]
            w = Settings(ctx, f.module, f.node, touching, 0, f.qual)
            if name != "__init__":
                s.env = {k: v for k, v in s.env.items() if k.startswith("self.")}
            w.block(f.node.body, s)
            end = s if s.alive else None
            for _, u, _ in w.rets:
                end = u if end is None else end.join(u)
            if end is None:
                return
            s = end.copy()
        ctx.count("context classes walked")
        for key, where in s.changed.items():
            ctx.violation("C21.debug", f"{c.qual}:{key}", f"leaving {c.qual} does not restore {describe(key)}, changed at {where}", where)


def module_names(ctx):
    """Rebinding or modifying a module-level name inside a function."""
    nested = {}
    for q, node, m in query.functions(ctx.prog):
        if not q.endswith(":"):
            nested.setdefault(m.name, []).append((q, node))
    for q, node, m in query.functions(ctx.prog):
        if q.endswith(":"):
            continue
        local = query.local_names(ctx.prog, m, node)
        glob = {x for n in query.own(node) if isinstance(n, ast.Global) for x in n.names}

        def is_global(x):
            if isinstance(x, ast.Name):
                if x.id in glob:
                    return True
                return x.id not in local and m.names.get(x.id, ("",))[0] in ("assign", "from") and outer(q, x.id)
            if isinstance(x, ast.Attribute):
                r = query.resolve(ctx.prog, m, x, local)
                return r is not None and r[0] == "assign"
            return False

        def outer(q, name):
            # a name of an enclosing function hides the module's one
            for q2, n2 in nested.get(m.name, ()):
                if q.startswith(q2 + ".") and name in query.local_names(ctx.prog, m, n2):
                    return False
            e = m.names.get(name)
            if e[0] == "from":
                r = ctx.prog.resolve_name(m, name)
                return r is not None and r[0] == "assign"
            return True
        for n in query.own(node):
            tgts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else n.targets if isinstance(n, ast.Delete) else []
            for t in tgts:
                for x in ast.walk(t) if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    if isinstance(x, ast.Name) and x.id in glob:
                        ctx.violation("C21.global", f"{q}:{x.id}", f"{q} rebinds the module-level name {x.id}", f"{m.path}:{n.lineno}")
                    elif isinstance(x, (ast.Subscript, ast.Attribute)):
                        b = x.value
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        ctx.count("stores checked")
                        r = query.resolve(ctx.prog, m, x, local) if isinstance(x, ast.Attribute) else None
                        if is_global(b) or r is not None and r[0] == "assign":
                            ctx.violation("C21.global", f"{q}:{ast.unparse(x)}", f"{q} modifies the module-level {ast.unparse(x)}", f"{m.path}:{n.lineno}")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse", "fill", "add", "discard", "popitem"):
                ctx.count("mutating calls checked")
                if is_global(n.func.value):
                    ctx.violation("C21.global", f"{q}:{ast.unparse(n.func)}", f"{q} modifies the module-level {ast.unparse(n.func.value)}", f"{m.path}:{n.lineno}")


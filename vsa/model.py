"""Resolved program model of the pySC package: modules, imports, classes, functions."""
import ast
import os
import builtins


KNOWN_TYPES = {"RING": "at:Lattice", "IDEALRING": "at:Lattice", "INJ": "Injection", "SIG": "Sigmas", "ORD": "Indices"}


class Func:
    def __init__(self, qual, name, node, module, cls=None, outer=None):
        self.qual, self.name, self.node, self.module, self.cls, self.outer = qual, name, node, module, cls, outer
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(ast.unparse(d))

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(d == "property" or d.endswith("cached_property") for d in self.decorators)

    @property
    def setter_of(self):
        for d in self.decorators:
            if d.endswith(".setter"):
                return d[:-7]
        return None

    @property
    def public(self):
        return not self.name.startswith("_")

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    def all_params(self):
        return self.params() + self.kwonly()

    def defaults(self):
        """name -> default expression node"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        d = {}
        for p, e in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = e
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[p.arg] = e
        return d

    def annotation(self, name):
        a = self.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == name and p.annotation is not None:
                return ast.unparse(p.annotation)
        return None

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    def __init__(self, qual, name, node, module):
        self.qual, self.name, self.node, self.module = qual, name, node, module
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.bases = [ast.unparse(b) for b in node.bases]
        self.attrs = {}      # class level assignments name -> expr
        self.attr_types = {}  # instance attribute name -> type name


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}   # name -> ('import', dotted) | ('from', mod, attr) | ('func', Func) | ('class', Class) | ('assign', [expr nodes])
        self.is_pkg = path.endswith("__init__.py")


def leaves(body):
    """Does the block always end in return, raise, break or continue?"""
    last = body[-1] if body else None
    if isinstance(last, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
        return True
    return isinstance(last, ast.If) and bool(last.orelse) and leaves(last.body) and leaves(last.orelse)


def raises(body):
    """Does the block always end in raise?"""
    last = body[-1] if body else None
    if isinstance(last, ast.Raise):
        return not any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for s in body for x in ast.walk(s))
    return isinstance(last, ast.If) and bool(last.orelse) and raises(last.body) and raises(last.orelse)


def flattened(tree):
    """`if c: ... raise/return else: rest` as `if c: ... raise/return` followed by rest (same control flow)."""
    def block(body):
        out = []
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, f, block(b))
            for h in getattr(s, "handlers", []):
                h.body = block(h.body)
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and raises(s.orelse) and not raises(s.body):
                rest, s.body, s.orelse = s.body, s.orelse, []
                s.test = ast.copy_location(ast.UnaryOp(ast.Not(), s.test), s.test)
                out += rest
            elif isinstance(s, ast.If) and s.orelse and leaves(s.body):
                rest, s.orelse = s.orelse, []
                out += rest
            elif isinstance(s, ast.If) and s.orelse and leaves(s.orelse):
                rest, s.body, s.orelse = s.body, s.orelse, []
                s.test = ast.copy_location(ast.UnaryOp(ast.Not(), s.test), s.test)
                out += rest
        for i, s in enumerate(out[:-1]):
            # `if ok: ... return` followed by a rejection
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and not raises(s.body) and raises(out[i + 1:]):
                rest, s.body = s.body, out[i + 1:]
                s.test = ast.copy_location(ast.UnaryOp(ast.Not(), s.test), s.test)
                return out[:i + 1] + rest
        return out
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n.body = block(n.body)
    return tree


class Program:
    def __init__(self, root, package="pySC"):
        self.root, self.package = root, package
        self.modules, self._scopes = {}, {}
        self.funcs = {}
        self.classes = {}
        self.errors = []
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src)
                except SyntaxError as e:
                    self.errors.append(f"{rel}: {e}")
                    continue
                m = Module(name, rel, flattened(tree), src)
                self.modules[name] = m
                self._scan(m)
        for c in self.classes.values():
            self._attr_types(c)

    def add_source(self, name, path):
        """Parse a reference (specification) module into the program."""
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        m = Module(name, path, flattened(ast.parse(src)), src)
        self.modules[name] = m
        self._scan(m)
        return m

    # ------------------------------------------------------------ scanning
    def _scan(self, m):
        self._scan_body(m, m.tree.body)

    def _scan_body(self, m, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = ("import", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    mod = ".".join(parts + ([mod] if mod else []))
                for a in n.names:
                    m.names[a.asname or a.name] = ("from", mod, a.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{m.name}:{n.name}", n.name, n, m)
                self.funcs[f.qual] = f
                m.names[n.name] = ("func", f)
            elif isinstance(n, ast.ClassDef):
                c = Class(f"{m.name}:{n.name}", n.name, n, m)
                self.classes[c.qual] = c
                m.names[n.name] = ("class", c)
                for b in n.body:
                    if isinstance(b, ast.FunctionDef):
                        f = Func(f"{m.name}:{n.name}.{b.name}", b.name, b, m, cls=c)
                        if f.setter_of:
                            c.setters[f.setter_of] = f
                            self.funcs[f.qual + ".setter"] = f
                            f.qual += ".setter"
                        elif f.is_property:
                            c.props[b.name] = f
                            self.funcs[f.qual] = f
                        else:
                            c.methods[b.name] = f
                            self.funcs[f.qual] = f
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = b.value
                    elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value is not None:
                        c.attrs[b.target.id] = b.value
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._assign_names(m, t, n.value)
            elif isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    self._assign_names(m, n.target, n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan_body(m, n.body)
                for h in getattr(n, "handlers", []):
                    self._scan_body(m, h.body)
                self._scan_body(m, n.orelse)

    def _assign_names(self, m, t, value):
        if isinstance(t, ast.Name):
            m.names[t.id] = ("assign", value)
        elif isinstance(t, ast.Tuple):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Name):
                    m.names[x.id] = ("assign", ast.Subscript(value=value, slice=ast.Constant(i), ctx=ast.Load()))

    def scopes(self, cls, name):
        """(module, function node, name of the object in it) of a method and of the functions it hands its object to."""
        key = (cls.qual, name)
        if key in self._scopes:
            return self._scopes[key]
        out, seen = self._scopes.setdefault(key, []), set()
        first = cls.methods.get(name)
        work = [(first, 0)] if first is not None else []
        while work:
            f, pos = work.pop()
            a = f.node.args
            params = [x.arg for x in a.posonlyargs + a.args]
            if isinstance(pos, int):
                if pos >= len(params):
                    continue
                pos = params[pos]
            if (f.qual, pos) in seen or pos not in params + [x.arg for x in a.kwonlyargs]:
                continue
            seen.add((f.qual, pos))
            out.append((f.module, f.node, pos))
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                fn = n.func
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == pos:
                    g = self.find_method(cls, fn.attr)
                    if g is not None:
                        work.append((g, 0))
                    continue
                given = [i for i, x in enumerate(n.args) if isinstance(x, ast.Name) and x.id == pos]
                given += [k.arg for k in n.keywords if isinstance(k.value, ast.Name) and k.value.id == pos and k.arg]
                r = self.resolve_expr(f.module, fn) if given else None
                if r and r[0] == "func" and r[1].qual.startswith("pySC."):
                    work += [(r[1], x) for x in given]
        return out

    def _attr_types(self, c):
        for m, node, me in self.scopes(c, "__init__"):
            self._attr_types_in(c, m, node, me)

    def _attr_types_in(self, c, module, node, me):
        for n in ast.walk(node):
            tgt = ann = val = None
            if isinstance(n, ast.AnnAssign):
                tgt, ann, val = n.target, n.annotation, n.value
            elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                tgt, val = n.targets[0], n.value
                if isinstance(tgt, ast.Tuple):
                    for t in tgt.elts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and KNOWN_TYPES.get(t.attr, "").startswith("at:"):
                            c.attr_types.setdefault(t.attr, KNOWN_TYPES[t.attr])
            if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == me):
                continue
            typ = None
            if isinstance(val, ast.Call):
                r = self.resolve_expr(module, val.func)
                if r and r[0] == "class":
                    typ = r[1].qual
            if typ is None and ann is not None:
                typ = self.ann_type(module, ast.unparse(ann))
            if typ:
                c.attr_types[tgt.attr] = typ
            elif tgt.attr in KNOWN_TYPES:                     # documented attribute assigned through a local name or a helper
                t = KNOWN_TYPES[tgt.attr]
                r = self.resolve_name(module, t) if ":" not in t else None
                if ":" in t or r and r[0] == "class":
                    c.attr_types.setdefault(tgt.attr, t if ":" in t else r[1].qual)

    def ann_type(self, module, text):
        text = text.strip("'\"")
        r = self.resolve_name(module, text) if text.isidentifier() else None
        if r and r[0] == "class":
            return r[1].qual
        if text in ("Lattice", "at.Lattice"):
            return "at:Lattice"
        if text in ("ndarray", "np.ndarray"):
            return "numpy:ndarray"
        if text in ("dict", "Dict"):
            return "dict"
        if text in ("int", "float", "bool", "str"):
            return text
        return None

    # ----------------------------------------------------------- resolution
    def resolve_name(self, module, name):
        """-> ('func',Func)|('class',Class)|('module',Module)|('ext',dotted)|('assign',module,expr)|None"""
        e = module.names.get(name)
        if e is None:
            sub = self.modules.get(f"{module.name}.{name}")
            if sub is not None and module.is_pkg:
                return ("module", sub)
            if hasattr(builtins, name):
                return ("ext", name)
            return None
        if e[0] in ("func", "class"):
            return e
        if e[0] == "assign":
            return ("assign", module, e[1])
        if e[0] == "import":
            if e[1] in self.modules:
                return ("module", self.modules[e[1]])
            return ("ext", e[1])
        mod, attr = e[1], e[2]
        if f"{mod}.{attr}" in self.modules and (mod not in self.modules or attr not in self.modules[mod].names):
            return ("module", self.modules[f"{mod}.{attr}"])
        if mod in self.modules:
            return self.resolve_name(self.modules[mod], attr)
        return ("ext", f"{mod}.{attr}")

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if b is None:
                return None
            return self.resolve_attr(b, node.attr)
        return None

    def resolve_attr(self, b, attr):
        if b[0] == "module":
            return self.resolve_name(b[1], attr)
        if b[0] == "ext":
            return ("ext", f"{b[1]}.{attr}")
        if b[0] == "class":
            f = self.find_method(b[1], attr)
            if f:
                return ("func", f)
        return None

    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            r = self.resolve_expr(cls.module, b)
            if r and r[0] == "class":
                out += [x for x in self.mro(r[1]) if x not in out]
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_prop(self, cls, name):
        for c in self.mro(cls):
            if name in c.props:
                return c.props[name]
        return None

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if name in c.setters:
                return c.setters[name]
        return None

    def is_dictlike(self, cls):
        return any("dict" in c.bases or "Dict" in c.bases for c in self.mro(cls))

    # ---------------------------------------------------------------- lookup
    def func(self, dotted):
        """'core.beam:bpm_reading' -> Func; falls back to a unique function of that name."""
        q = f"{self.package}.{dotted}"
        if q in self.funcs:
            return self.funcs[q]
        mod, _, name = dotted.partition(":")
        # re-exported from the module?
        m = self.modules.get(f"{self.package}.{mod}")
        if m is not None and "." not in name:
            r = self.resolve_name(m, name)
            if r and r[0] == "func":
                return r[1]
        cands = [f for k, f in self.funcs.items() if k.split(":")[1] == name]
        if len(cands) == 1:
            return cands[0]
        if "." in name:   # inherited method moved to a base class
            cname, mname = name.split(".")
            for c in self.classes.values():
                if c.name == cname:
                    f = self.find_method(c, mname) or self.find_prop(c, mname)
                    if f:
                        return f
        return None

    def cls(self, name):
        for c in self.classes.values():
            if c.name == name:
                return c
        return None

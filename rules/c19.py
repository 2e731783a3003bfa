"""C19: functions of the package call each other with arguments they accept."""
import ast
import builtins
import re

from vsa.calltypes import Types, bind, RING, ELEM
from vsa.query import own, resolve
from vsa.flow import Walk

TITLE = "Functions of the package call each other with arguments they accept."
RULES = ["R1 every call that resolves to a function, method or class of the package binds to its signature",
         "R2 a result is unpacked into as many names as the callee returns, and only tuples of that size are subscripted",
         "R3 the result of a function that returns nothing is never used as a value",
         "R4 options are read only under names that were defined in the option table",
         "R5 lattice elements are used through attributes, never subscripted",
         "R6 every name, module attribute and attribute of the package's own classes that is read is defined"]

# attributes of AT lattice elements that the package does not define itself
AT_ATTRS = {"FamName", "Length", "PassMethod", "BendingAngle", "EntranceAngle", "ExitAngle", "FullGap", "FringeInt1", "FringeInt2", "K", "H",
            "PolynomA", "PolynomB", "MaxOrder", "NumIntSteps", "KickAngle", "T1", "T2", "R1", "R2", "EApertures", "RApertures", "Frequency", "Voltage",
            "HarmNumber", "HarmonicNumber", "Energy", "TimeLag", "PhaseLag", "Class", "to_dict", "update", "copy", "deepcopy", "definition", "items", "keys",
            "divide", "insert", "is_compatible", "merge", "equals", "track", "to_file", "longt_motion", "Limits", "Offset", "GCR", "Index", "Periodicity",
            "fringequadentrance", "fringequadexit", "FringeQuadEntrance", "FringeQuadExit", "swap_faces", "strip"}


def check(ctx):
    t = Types(ctx.prog)
    W = World(ctx, t)
    for q, node, m in t.fnodes:
        if not q.endswith(":"):
            ctx.functions.add(q)
        for part in (W.calls, W.unpacked, W.unused, W.elements, W.names, W.attributes, W.unbound):
            ctx.section(lambda c, part=part: part(q, node, m))
    ctx.section(lambda c: W.options())
    ctx.floor("calls between package functions", 60)
    ctx.floor("names read", 400)


class World:
    def __init__(self, ctx, t):
        self.ctx, self.t, self.prog = ctx, t, ctx.prog
        self.strings, self.stored, self.patterns = set(), set(), []
        for m in ctx.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 60:
                    self.strings.add(n.value)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.keyword) and n.arg:
                    self.strings.add(n.arg)
        words = self.strings | self.stored | AT_ATTRS
        for m in ctx.prog.modules.values():
            for n in ast.walk(m.tree):
                parts = composed(n)
                if parts and len(parts) <= 4 and None in parts and any(parts) and all(re.fullmatch(r"\w*", x) for x in parts if x is not None):
                    self.patterns.append(re.compile("".join("(.*)" if x is None else re.escape(x) for x in parts)))
        self.words = words

    def defined(self, attr):
        """The attribute name occurs in the package, or is formed by a format string from names that occur."""
        if attr in self.words:
            return True
        for p in self.patterns:
            z = p.fullmatch(attr)
            if z and all(g in self.words or len(g) <= 1 for g in z.groups()):
                return True
        return False

    def where(self, m, n):
        return f"{m.path}:{n.lineno}"

    # ---------------------------------------------------------------- R1
    def calls(self, q, node, m):
        for n in own(node):
            if not isinstance(n, ast.Call):
                continue
            r = self.t.callee(n, node)
            if r is None:
                continue
            sig = self.t.signature(r)
            if sig is None:
                continue
            b = bind(sig, n)
            self.ctx.count("calls between package functions")
            name = ast.unparse(n.func)
            self.ctx.sample(f"{q}: call of {name} binds to the signature of {target(r)}")
            if b.problem:
                self.ctx.violation("R1", f"{q}:{name}", f"{q} calls {target(r)}, but {b.problem}", self.where(m, n))

    # ---------------------------------------------------------------- R2
    def unpacked(self, q, node, m):
        for n in own(node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                t = self.t.typ(n.value, node)
                for x in n.targets:
                    if isinstance(x, (ast.Tuple, ast.List)):
                        k = len(x.elts)
                        star = any(isinstance(z, ast.Starred) for z in x.elts)
                        self.ctx.count("results unpacked")
                        if t is not None and (t[0] in ("none", "obj") or t[0] == "tuple" and (t[1] != k if not star else t[1] < k - 1)):
                            self.ctx.violation("R2", f"{q}:{ast.unparse(n.value.func)}", f"{q} unpacks the result of {ast.unparse(n.value.func)} into {k} names, "
                                               f"but it returns {shown(t)}", self.where(m, n))
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call):
                t = self.t.typ(n.value, node)
                i = n.slice.value if isinstance(n.slice, ast.Constant) else None
                if t is not None and t[0] == "tuple" and (isinstance(i, int) and not -t[1] <= i < t[1] or isinstance(i, str)):
                    self.ctx.violation("R2", f"{q}:{ast.unparse(n.value.func)}", f"{q} takes result {i!r} of {ast.unparse(n.value.func)}, which returns {shown(t)}", self.where(m, n))
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call):
                t = self.t.typ(n.value, node)
                if t is not None and t[0] == "tuple" and n.attr not in ("count", "index"):
                    self.ctx.violation("R2", f"{q}:{ast.unparse(n.value.func)}", f"{q} reads attribute {n.attr} of the result of {ast.unparse(n.value.func)}, "
                                       f"which returns {shown(t)}", self.where(m, n))

    # ---------------------------------------------------------------- R3
    def unused(self, q, node, m):
        parent = {}
        for n in own(node):
            for c in ast.iter_child_nodes(n):
                parent[id(c)] = n
        machine = set()
        if not isinstance(node, ast.Module):
            for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
                k = self.t.kind(a.annotation, m)
                if a.arg == "SC" or k is not None and k[0] in ("obj", "ring"):
                    machine.add(a.arg)
        for n in own(node):
            if not isinstance(n, ast.Call):
                continue
            r = self.t.callee(n, node)
            if r is None or r[0] == "class":
                continue
            t = self.t.typ(n, node)
            if t is None or t[0] not in ("none", "tuple"):
                continue
            self.ctx.count("results of functions without a value" if t[0] == "none" else "tuple results")
            p = parent.get(id(n))
            if p is None or isinstance(p, (ast.Expr, ast.Return, ast.Lambda)):
                continue
            name = ast.unparse(n.func)
            if isinstance(p, ast.Assign) and p.value is n:
                for x in p.targets:
                    if isinstance(x, ast.Name):
                        use = self.next_use(node, p, x.id, parent)
                        if use is not None and (self.misuse(use, parent, t) or t[0] == "none" and x.id in machine):
                            self.ctx.violation("R3", f"{q}:{name}", f"{q} uses {x.id}, but {name} returned {shown(t)}", self.where(m, use))
                    elif t[0] == "none" and isinstance(x, (ast.Attribute, ast.Subscript)):
                        self.ctx.violation("R3", f"{q}:{name}", f"{q} stores the result of {name} in {ast.unparse(x)}, but it returns nothing", self.where(m, n))
            elif t[0] == "none" and (isinstance(p, (ast.Attribute, ast.Subscript, ast.BinOp, ast.For, ast.Starred, ast.keyword, ast.Call, ast.Compare, ast.BoolOp, ast.If, ast.While, ast.UnaryOp))):
                if isinstance(p, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in p.ops):
                    continue
                self.ctx.violation("R3", f"{q}:{name}", f"{q} uses the result of {name}, but it returns nothing", self.where(m, n))

    def next_use(self, node, p, name, parent):
        """First read of a name after its assignment with no other assignment in between (by position)."""
        names = sorted((x for x in own(node) if isinstance(x, ast.Name) and x.id == name), key=lambda x: (x.lineno, x.col_offset))
        end = (p.end_lineno, p.end_col_offset)
        # statements that cannot follow the assignment: other branches of the conditions around it
        others = set()
        c = p
        while id(c) in parent:
            up = parent[id(c)]
            if isinstance(up, ast.If):
                br = up.orelse if c in up.body else up.body
                for s in br:
                    others |= {id(z) for z in ast.walk(s)}
                if not _completes(up.body if c in up.body else up.orelse):
                    # nothing after the condition follows the assignment
                    for z in own(node):
                        if hasattr(z, "lineno") and (z.lineno, z.col_offset) > (up.end_lineno, up.end_col_offset):
                            others.add(id(z))
            c = up
        for x in names:
            if (x.lineno, x.col_offset) < end or id(x) in others:
                continue
            if isinstance(x.ctx, ast.Load):
                return x
            st = parent.get(id(x))
            if isinstance(st, ast.Assign):
                inner = [z for z in ast.walk(st.value) if isinstance(z, ast.Name) and z.id == name]
                if inner:
                    return inner[0]
            return None
        return None

    def misuse(self, use, parent, t):
        p = parent.get(id(use))
        if p is None or isinstance(p, (ast.Expr, ast.Return, ast.Tuple, ast.Compare, ast.FormattedValue)):
            return False
        if t[0] == "none":
            return isinstance(p, (ast.Attribute, ast.Subscript, ast.BinOp, ast.For, ast.Starred)) or isinstance(p, ast.Call) and use in p.args and p.func is not use and self.strict(p)
        return isinstance(p, ast.Attribute) and p.attr not in ("count", "index") or isinstance(p, ast.BinOp) and isinstance(p.op, (ast.Sub, ast.Div, ast.Pow))

    def strict(self, call):
        return True

    # ---------------------------------------------------------------- R5
    def elements(self, q, node, m):
        for n in own(node):
            if isinstance(n, ast.Subscript):
                b = self.t.typ(n.value, node)
                if b is None or b[0] not in ("elem", "ring"):
                    continue
                self.ctx.count("subscripts of lattices and elements")
                if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) or isinstance(n.slice, ast.JoinedStr):
                    self.ctx.violation("R5", f"{q}:{ast.unparse(n)}", f"{q} subscripts a lattice element by name: {ast.unparse(n)}", self.where(m, n))
                elif b == ELEM and single(n.value):
                    self.ctx.violation("R5", f"{q}:{ast.unparse(n)}", f"{q} subscripts a lattice element: {ast.unparse(n)}", self.where(m, n))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                b = self.t.typ(n.value, node)
                if b == ELEM:
                    self.ctx.count("element attributes read")
                    if not self.defined(n.attr) and not n.attr.startswith("__"):
                        self.ctx.violation("R6", f"{q}:{ast.unparse(n)}", f"{q} reads {ast.unparse(n)}, but no element attribute {n.attr} is ever defined", self.where(m, n))

    # ---------------------------------------------------------------- R6
    def names(self, q, node, m):
        if isinstance(node, ast.Module):
            known = {}
        else:
            known = self.t.locals(node)
        glob = set(m.names) | {x.id for x in own(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {"__file__", "__name__", "__doc__", "__path__", "__package__"}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                glob |= set(x.names)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and isinstance(node, ast.Module):
                glob.add(x.name)
        extra = set()
        for n in own(node):
            if isinstance(n, ast.ExceptHandler) and n.name:
                extra.add(n.name)
            elif isinstance(n, ast.Lambda):
                a = n.args
                extra |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]}
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                extra |= {(z.asname or z.name.split(".")[0]) for z in n.names}
                if any(z.name == "*" for z in n.names):
                    return
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                extra.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                extra.add(n.name)
        up = self.t.parents.get(id(node))
        while up is not None:
            for n in own(up[0]):
                if isinstance(n, ast.ExceptHandler) and n.name:
                    extra.add(n.name)
                elif isinstance(n, ast.Lambda):
                    extra |= {x.arg for x in n.args.args}
            up = self.t.parents.get(id(up[0]))
        if any(isinstance(n, ast.ImportFrom) and any(z.name == "*" for z in n.names) for n in ast.walk(m.tree)):
            return
        outside = set()
        if not isinstance(node, ast.Module):
            a = node.args
            for d in node.decorator_list + a.defaults + [x for x in a.kw_defaults if x] + [x.annotation for x in a.args + a.kwonlyargs + a.posonlyargs if x.annotation] + [x for x in [node.returns] if x]:
                outside |= {id(z) for z in ast.walk(d)}
        for n in own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in outside:
                self.ctx.count("names read")
                if n.id in known or n.id in extra or n.id in glob or hasattr(builtins, n.id):
                    continue
                if isinstance(node, ast.Module) and any(isinstance(c, ast.ClassDef) for c in node.body):
                    continue
                self.ctx.violation("R6", f"{q}:{n.id}", f"{q} reads the name {n.id}, which is not defined", self.where(m, n))

    def unbound(self, q, node, m):
        """Local names read where no path has assigned them."""
        if isinstance(node, ast.Module):
            return
        inner = set()
        for n in own(node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
                inner |= {id(z) for z in ast.walk(n)}
        params = {x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [z for z in (node.args.vararg, node.args.kwarg) if z]}
        names, skip = set(), set(params)
        for n in own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in inner:
                names.add(n.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
                skip.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                skip.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                skip |= {(z.asname or z.name.split(".")[0]) for z in n.names}
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                skip.add(n.name)
            elif isinstance(n, (ast.Match, ast.AsyncFor, ast.AsyncWith)):
                return
        names -= skip
        if not names:
            return
        w = Unbound(names, inner)
        w.block(node.body, Names(names))
        self.ctx.count("local names tracked", len(names))
        for name, n in w.bad:
            self.ctx.violation("R6", f"{q}:{name}", f"{q} reads {name}, which no path has assigned", self.where(m, n))

    def attributes(self, q, node, m):
        local = self.t.locals(node) if not isinstance(node, ast.Module) else {}
        for n in own(node):
            if not isinstance(n, ast.Attribute):
                continue
            b = resolve(self.prog, m, n.value, local)
            if b is not None and b[0] == "module":
                self.ctx.count("module attributes read")
                if self.prog.resolve_name(b[1], n.attr) is None and self.prog.modules.get(f"{b[1].name}.{n.attr}") is None and n.attr not in b[1].names and not n.attr.startswith("__"):
                    self.ctx.violation("R6", f"{q}:{ast.unparse(n)}", f"{q} uses {ast.unparse(n)}, but module {b[1].name} does not define {n.attr}", self.where(m, n))
                continue
            o = self.t.typ(n.value, node)
            if o is None or o[0] != "obj" or n.attr.startswith("__"):
                continue
            known = self.members(o[1])
            if known is None:
                continue
            self.ctx.count("object attributes used")
            if n.attr in known or isinstance(n.ctx, ast.Store) and False:
                continue
            if self.prog.is_dictlike(o[1]) and (n.attr in self.strings or hasattr(dict, n.attr) or not {x for x in o[1].methods if not x.startswith("_")} - {"deepcopy"} and o[1].name == "DotDict"):
                continue
            self.ctx.violation("R6", f"{q}:{ast.unparse(n)}", f"{q} uses {ast.unparse(n)}, but {o[1].name} has no attribute {n.attr}", self.where(m, n))

    def members(self, cls):
        key = ("members", cls.qual)
        if key in self.ctx.cache:
            return self.ctx.cache[key]
        out = set()
        for c in self.prog.mro(cls):
            out |= set(c.methods) | set(c.props) | set(c.setters) | set(c.attrs)
            for b in c.node.bases:
                r = self.prog.resolve_expr(c.module, b)
                if not (r and r[0] == "class") and ast.unparse(b) not in ("object", "dict", "Dict"):
                    self.ctx.cache[key] = None
                    return None
            for f, me in [(x, "self") for x in c.node.body if isinstance(x, ast.FunctionDef)] + [(x, y) for name in c.methods for _, x, y in self.prog.scopes(c, name)]:
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        if not (len(n.args) > 1 and isinstance(n.args[1], ast.Constant)):
                            self.ctx.cache[key] = None
                            return None
                        out.add(n.args[1].value)
                if f.name in ("__getattr__", "__getattribute__") and not self.prog.is_dictlike(cls):
                    self.ctx.cache[key] = None
                    return None
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    out.add(s.target.id)
        # attributes added from outside, by any function of the package
        for q, node, m in self.t.fnodes:
            for n in own(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and self.t.typ(n.value, node) == ("obj", cls):
                    if not (cls.name in ("SimulatedCommissioning", "Injection") and not self.declared(cls, n.attr)):
                        out.add(n.attr)
        self.ctx.cache[key] = out
        return out

    def declared(self, cls, attr):
        return False

    # ---------------------------------------------------------------- R4
    def options(self):
        """Tables created with all their keys, followed through private helpers."""
        tables = {}   # id(function node) -> {name: (keys, where)}
        todo = []
        for q, node, m in self.t.fnodes:
            for n in own(node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    pairs = []
                    for x in tgts:
                        if isinstance(x, ast.Name):
                            pairs.append((x.id, n.value))
                        elif isinstance(x, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(x.elts) == len(n.value.elts):
                            pairs += [(y.id, v) for y, v in zip(x.elts, n.value.elts) if isinstance(y, ast.Name)]
                    for name, v in pairs:
                        ks = self.keys(v, m)
                        if ks is not None:
                            tables.setdefault(id(node), {}).setdefault(name, []).append(set(ks))
        nodes = {id(node): (q, node, m) for q, node, m in self.t.fnodes}
        for k in list(tables):
            for name, sets in list(tables[k].items()):
                x = self.assigned(nodes[k][1], name)
                if x is None:
                    del tables[k][name]
                else:
                    tables[k][name] = set().union(*sets) | x
        # propagate to parameters of functions that receive a table at all their call sites
        for _ in range(4):
            sites = {}
            for q, node, m in self.t.fnodes:
                for n in own(node):
                    if isinstance(n, ast.Call):
                        r = self.t.callee(n, node)
                        if r is None or r[0] not in ("func", "nested", "method"):
                            continue
                        fn = r[1] if r[0] == "nested" else r[1].node
                        b = bind(self.t.signature(r), n)
                        if b is None or b.problem or b.open:
                            continue
                        for p, e in b.args.items():
                            ks = tables.get(id(node), {}).get(e.id) if isinstance(e, ast.Name) else None
                            sites.setdefault((id(fn), p), []).append((ks, q))
            changed = False
            for (fid, p), lst in sites.items():
                if fid not in nodes or not nodes[fid][0].split(".")[-1].split(":")[-1].startswith("_"):
                    continue
                if all(ks is not None for ks, _ in lst) and lst:
                    x = self.assigned(nodes[fid][1], p)
                    if x is None:
                        continue
                    ks = set.intersection(*[set(k) for k, _ in lst]) | x
                    if tables.setdefault(fid, {}).get(p) != ks:
                        tables[fid][p] = ks
                        changed = True
            if not changed:
                break
        for fid, tab in tables.items():
            q, node, m = nodes[fid]
            for name, ks in tab.items():
                if self.replaced(node, name, tables, fid):
                    continue
                tested = {z.value for n in ast.walk(node) if isinstance(n, (ast.Compare, ast.Call)) for z in ([n.left] if isinstance(n, ast.Compare) else n.args) if isinstance(z, ast.Constant)}
                for n in ast.walk(node):
                    key = None
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == name:
                        key = n.attr
                        if hasattr(dict, key) or key == "deepcopy":
                            continue
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == name and isinstance(n.slice, ast.Constant):
                        key = n.slice.value
                    if key is None:
                        continue
                    self.ctx.count("options read")
                    if key not in ks and key not in tested:
                        self.ctx.violation("R4", f"{m.name}:option:{key}", f"{q} reads option {name}.{key}, which is not defined (defined: {', '.join(sorted(map(str, ks))) or 'none'})", self.where(m, n))

    def keys(self, v, m):
        """Keys of a DotDict constructor with literal contents."""
        if not isinstance(v, ast.Call):
            return None
        r = self.prog.resolve_expr(m, v.func)
        if not (r and r[0] == "class" and self.prog.is_dictlike(r[1]) and r[1].name == "DotDict"):
            return None
        out = set()
        for k in v.keywords:
            if k.arg is None:
                return None
            out.add(k.arg)
        for a in v.args:
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "dict" and not a.args and all(k.arg for k in a.keywords):
                out |= {k.arg for k in a.keywords}
            elif isinstance(a, ast.Dict) and all(isinstance(k, ast.Constant) for k in a.keys):
                out |= {k.value for k in a.keys}
            else:
                return None
        return out

    def assigned(self, node, name, depth=0):
        """Keys stored in the table called name, here or in functions it is passed to (None: unknown)."""
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
                out.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
                if not isinstance(n.slice, ast.Constant):
                    return None
                out.add(n.slice.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setdefault") and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                out |= {k.arg for k in n.keywords if k.arg}
                for a in n.args:
                    if isinstance(a, ast.Dict):
                        out |= {k.value for k in a.keys if isinstance(k, ast.Constant)}
                    elif isinstance(a, ast.Constant):
                        out.add(a.value)
                    elif n.func.attr == "update" and not (isinstance(a, ast.Name) and a.id == "kwargs"):
                        return None
            elif isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in list(n.args) + [k.value for k in n.keywords]):
                r = self.t.callee(n, self.home(node, n))
                if r is None or r[0] == "class":
                    if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars", "exec"):
                        return None
                    continue
                b = bind(self.t.signature(r), n)
                fn = r[1] if r[0] == "nested" else r[1].node
                if b is None or b.problem or depth > 3:
                    return None
                for p, e in b.args.items():
                    if isinstance(e, ast.Name) and e.id == name and fn is not node:
                        x = self.assigned(fn, p, depth + 1)
                        if x is None:
                            return None
                        out |= x
        return out

    def home(self, node, n):
        return node

    def replaced(self, node, name, tables, fid):
        """The name is rebound to something that is not a known table (nor the same table passed through a helper)."""
        for n in own(node):
            if isinstance(n, ast.Assign):
                for x in n.targets:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store):
                            v = n.value
                            m = self.t.module_of[id(node)]
                            if isinstance(x, ast.Tuple):
                                continue
                            if self.keys(v, m) is not None:
                                continue
                            if isinstance(v, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in v.args):
                                continue
                            return True
            elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(n.target)):
                return True
        return False


def composed(n):
    """Parts of a string built from constants and values (None): f"..", "..".format(), "..." % .., a + b."""
    if isinstance(n, ast.JoinedStr):
        return [v.value if isinstance(v, ast.Constant) else None for v in n.values]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
        parts = re.split(r"\{[^{}]*\}", n.func.value.value)
    elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
        parts = re.split(r"%[sd]", n.left.value)
    elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        out = []
        for x in (n.left, n.right):
            if isinstance(x, ast.Constant):
                if not isinstance(x.value, str):
                    return None
                out.append(x.value)
            else:
                out += composed(x) or [None]
        return out if any(isinstance(x, str) and x for x in out) else None
    else:
        return None
    out = [parts[0]]
    for x in parts[1:]:
        out += [None, x]
    return [x for x in out if x != ""]


def single(v):
    """RING[i] with an index that can only be one number."""
    return isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Constant) and isinstance(v.slice.value, int)


def _completes(body):
    from vsa.calltypes import completes
    return completes(body)


def target(r):
    if r[0] == "nested":
        return r[1].name
    return r[1].qual


def shown(t):
    return {"none": "nothing", "obj": "a single object", "ring": "a lattice", "elem": "an element"}.get(t[0]) or f"{t[1]} values"


class Names:
    """Names that no path to this point has assigned."""
    def __init__(self, un):
        self.un, self.alive = frozenset(un), True

    def copy(self):
        o = Names(self.un)
        o.alive = self.alive
        return o

    def join(self, o):
        return Names(self.un & o.un)

    def same(self, o):
        return self.un == o.un and self.alive == o.alive


class Unbound(Walk):
    def __init__(self, names, inner):
        super().__init__()
        self.names, self.inner, self.bad = names, inner, []

    def expr(self, n, s):
        for z in ast.walk(n):
            if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load) and id(z) not in self.inner and z.id in s.un:
                self.bad.append((z.id, z))
            elif isinstance(z, ast.NamedExpr):
                s.un = s.un - {z.target.id}
        return None

    def assign(self, target, value, n, s):
        if isinstance(n, ast.AugAssign):
            for z in ast.walk(target):
                if isinstance(z, ast.Name) and z.id in s.un and z is target:
                    self.bad.append((z.id, z))
        for z in ast.walk(target):
            if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load) and z.id in s.un:
                self.bad.append((z.id, z))
        s.un = s.un - {z.id for z in ast.walk(target) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}

    def enter(self, item, s):
        self.expr(item.context_expr, s)
        if item.optional_vars is not None:
            s.un = s.un - {z.id for z in ast.walk(item.optional_vars) if isinstance(z, ast.Name)}
        return None

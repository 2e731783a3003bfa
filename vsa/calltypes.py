"""Flow-insensitive receiver types and callee resolution over the syntax tree."""
import ast

from .query import own, local_names, resolve, functions

RING, ELEM = ("ring",), ("elem",)


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.envs, self.rets, self.busy = {}, {}, set()
        self.by_node = {id(f.node): f for f in prog.funcs.values()}
        self.parents = {}
        self.fnodes = []
        for q, node, m in functions(prog):
            self.fnodes.append((q, node, m))
            for n in own(node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.parents[id(n)] = (node, m)
        self.module_of = {id(node): m for _, node, m in self.fnodes}
        self.qual_of = {id(node): q for q, node, _ in self.fnodes}
        self._locals, self.declared, self._early = {}, {}, {}
        self.sc = next((c for c in prog.classes.values() if c.name == "SimulatedCommissioning"), None)

    # ------------------------------------------------------------- scopes
    def locals(self, node):
        if id(node) not in self._locals:
            m = self.module_of[id(node)]
            d = {}
            up = self.parents.get(id(node))
            if up is not None and not isinstance(up[0], ast.Module):
                d.update(self.locals(up[0]))
            d.update(local_names(self.prog, m, node))
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in own(node):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        d[n.name] = ("nested", n)
            self._locals[id(node)] = d
        return self._locals[id(node)]

    def kind(self, ann, m):
        """Type denoted by an annotation."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            t = ann.value
        else:
            t = ast.unparse(ann)
        r = self.prog.ann_type(m, t)
        if r is None:
            return None
        if r == "at:Lattice":
            return RING
        if r in self.prog.classes:
            return ("obj", self.prog.classes[r])
        return None

    def env(self, node):
        if id(node) in self.envs:
            return self.envs[id(node)]
        m = self.module_of[id(node)]
        e = {}
        up = self.parents.get(id(node))
        if up is not None and not isinstance(up[0], ast.Module):
            e.update(self.env(up[0]))
        self.envs[id(node)] = e
        if isinstance(node, ast.Module):
            return e
        f = self.by_node.get(id(node))
        a = node.args
        for i, p in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            t = self.kind(p.annotation, m)
            if t is None and p.annotation is None:
                if f is not None and f.cls is not None and i == 0 and not f.is_static:
                    t = ("obj", f.cls) if not f.is_classmethod else None
                elif p.arg == "SC" and self.sc is not None:
                    t = ("obj", self.sc)
            e[p.arg] = t
            if t is not None:
                self.declared.setdefault(id(node), {})[p.arg] = t
        # assignments, to a small fixpoint
        for _ in range(3):
            new = {}

            def put(name, t):
                if name in new and new[name] != t:
                    new[name] = None
                else:
                    new[name] = t
            for n in own(node):
                if isinstance(n, ast.Assign):
                    t = self.typ(n.value, node)
                    for x in n.targets:
                        self._bind(x, t, n.value, node, put)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self._bind(n.target, self.kind(n.annotation, m) or self.typ(n.value, node), n.value, node, put)
                elif isinstance(n, ast.AugAssign):
                    self._bind(n.target, None, None, node, put)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self._bind(n.target, self.elements(n.iter, node), None, node, put)
                    if isinstance(n.target, ast.Tuple):
                        for x, t in zip(n.target.elts, self.tuple_elements(n.iter, node)):
                            self._bind(x, t, None, node, put, again=True)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for w in n.items:
                        if w.optional_vars is not None:
                            self._bind(w.optional_vars, None, None, node, put)
                elif isinstance(n, ast.NamedExpr):
                    self._bind(n.target, self.typ(n.value, node), None, node, put)
                elif isinstance(n, ast.Delete):
                    for x in n.targets:
                        self._bind(x, None, None, node, put)
            params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
            changed = False
            for k, t in new.items():
                if k in params and e.get(k) != t:
                    t = None
                if e.get(k) != t:
                    e[k] = t
                    changed = True
            if not changed:
                break
        return e

    def early(self, node, name):
        """Uses of a parameter that no rebinding can precede."""
        key = (id(node), name)
        if key not in self._early:
            out = set()

            def block(body):
                """True when the name may be rebound in the statements"""
                for st in body:
                    stores = any(isinstance(z, ast.Name) and z.id == name and isinstance(z.ctx, (ast.Store, ast.Del)) for z in ast.walk(st))
                    if not stores:
                        out.update(id(z) for z in ast.walk(st))
                    elif isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                        out.update(id(z) for z in ast.walk(st.value))
                        return True
                    elif isinstance(st, ast.If):
                        out.update(id(z) for z in ast.walk(st.test))
                        block(st.body)
                        block(st.orelse)
                        return True
                    elif isinstance(st, ast.With):
                        for w in st.items:
                            out.update(id(z) for z in ast.walk(w.context_expr))
                        block(st.body)
                        return True
                    elif isinstance(st, ast.For):
                        out.update(id(z) for z in ast.walk(st.iter))
                        return True
                    else:
                        return True
                return False
            block(node.body)
            self._early[key] = out
        return self._early[key]

    def _bind(self, x, t, value, node, put, again=False):
        if isinstance(x, ast.Name):
            put(x.id, t)
        elif isinstance(x, (ast.Tuple, ast.List)) and not again:
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(x.elts) and not any(isinstance(z, ast.Starred) for z in list(x.elts) + list(value.elts)):
                for y, v in zip(x.elts, value.elts):
                    self._bind(y, self.typ(v, node), v, node, put)
            elif value is not None:
                for y in x.elts:
                    self._bind(y.value if isinstance(y, ast.Starred) else y, None, None, node, put)
            elif value is None:
                for y in x.elts:
                    if not isinstance(y, ast.Name):
                        self._bind(y, None, None, node, put)

    def elements(self, it, node):
        t = self.typ(it, node)
        return ELEM if t == RING else None

    def tuple_elements(self, it, node):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "enumerate" and it.args:
                return [None, self.elements(it.args[0], node)]
            if it.func.id == "zip":
                return [self.elements(a, node) for a in it.args]
        return [None] * 20

    # -------------------------------------------------------------- types
    def typ(self, n, node):
        """Type of an expression in function node."""
        if isinstance(n, ast.Name):
            t = self.env(node).get(n.id)
            if t is None and n.id in self.declared.get(id(node), {}) and id(n) in self.early(node, n.id):
                return self.declared[id(node)][n.id]
            return t
        if isinstance(n, ast.Attribute):
            b = self.typ(n.value, node)
            if b is not None and b[0] == "obj":
                return self.attr_type(b[1], n.attr)
            return None
        if isinstance(n, ast.Subscript):
            b = self.typ(n.value, node)
            if b == RING and not isinstance(n.slice, ast.Slice):
                return ELEM
            return None
        if isinstance(n, ast.Tuple):
            return None if any(isinstance(x, ast.Starred) for x in n.elts) else ("tuple", len(n.elts))
        if isinstance(n, ast.Constant) and n.value is None:
            return ("none",)
        if isinstance(n, ast.IfExp):
            a, b = self.typ(n.body, node), self.typ(n.orelse, node)
            return a if a == b else None
        if isinstance(n, ast.Call):
            r = self.callee(n, node)
            if r is not None and r[0] == "class":
                return ("obj", r[1])
            if r is not None and r[0] in ("func", "method", "nested"):
                fn = r[1] if r[0] == "nested" else r[1].node
                return self.result(fn, n, r)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("deepcopy", "copy"):
                if n.args and resolve(self.prog, self.module_of[id(node)], n.func, self.locals(node)) in (("ext", "copy.deepcopy"), ("ext", "copy.copy")):
                    return self.typ(n.args[0], node)
                if not n.args:
                    b = self.typ(n.func.value, node)
                    return b if b is not None and b[0] in ("obj", "ring", "elem") else None
        return None

    def attr_type(self, cls, attr):
        for c in self.prog.mro(cls):
            t = c.attr_types.get(attr)
            if t is not None:
                if t == "at:Lattice":
                    return RING
                if t in self.prog.classes:
                    return ("obj", self.prog.classes[t])
                return None
            if attr in c.props:
                return self.kind(c.props[attr].node.returns, c.module)
        return None

    def callee(self, call, node):
        """('func'|'method'|'class'|'nested', target) of a call, or None."""
        m = self.module_of[id(node)]
        fx = call.func
        local = self.locals(node)
        if isinstance(fx, ast.Name) and isinstance(local.get(fx.id), tuple) and local[fx.id][0] == "nested":
            stores = [x for x in own(node) if isinstance(x, ast.Name) and x.id == fx.id and isinstance(x.ctx, ast.Store)]
            return ("nested", local[fx.id][1]) if not stores else None
        r = resolve(self.prog, m, fx, local)
        if r is not None and r[0] == "assign":
            r = self.prog.resolve_expr(r[1], r[2])
        if r is not None and r[0] == "func":
            f = r[1]
            if f.cls is not None and not f.is_static:
                return ("func", f)          # Class.method(obj, ...)
            return ("func", f)
        if r is not None and r[0] == "class":
            return ("class", r[1])
        if isinstance(fx, ast.Attribute):
            if isinstance(fx.value, ast.Call) and isinstance(fx.value.func, ast.Name) and fx.value.func.id == "super":
                return None
            b = self.typ(fx.value, node)
            if b is not None and b[0] == "obj":
                f = self.prog.find_method(b[1], fx.attr)
                if f is not None:
                    return ("method", f)
        return None

    # ------------------------------------------------------------ results
    def returns(self, fn):
        """Return statements of a function and whether its end can be reached."""
        rs = [n for n in own(fn) if isinstance(n, ast.Return)]
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))
        return rs, completes(fn.body), gen

    def result(self, fn, call=None, r=None):
        """Type common to every result of fn (for this call): ('none',), ('tuple', n), ... or None."""
        known = self.constants(fn, call, r) if call is not None else {}
        key = (id(fn), tuple(sorted((k, repr(v)) for k, v in known.items())))
        if key in self.rets:
            return self.rets[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            t = self._result(fn, known)
        finally:
            self.busy.discard(key)
        self.rets[key] = t
        return t

    def _result(self, fn, known):
        if isinstance(fn, ast.AsyncFunctionDef) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn)):
            return None
        body = prune(fn.body, known)
        rs = list(returns_in(body))
        ts = [("none",) if x.value is None else self.value_type(x.value, fn) for x in rs]
        if completes(body):
            ts.append(("none",))
        if not ts:
            return None
        return ts[0] if all(t == ts[0] and t is not None for t in ts) else None

    def value_type(self, v, fn):
        if isinstance(v, ast.Name):
            defs = [n for n in own(fn) if isinstance(n, ast.Name) and n.id == v.id and isinstance(n.ctx, ast.Store)]
            if len(defs) > 1:
                return None
        return self.typ(v, fn)

    def constants(self, fn, call, r):
        """Parameters of fn that are constants at this call and never rebound."""
        b = bind(self.signature(r), call)
        if b is None or b.problem or b.open:
            return {}
        stored = {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        out = {}
        for k, e in b.args.items():
            if k not in stored and isinstance(e, ast.Constant):
                out[k] = e.value
        for k, e in b.defaulted.items():
            if k not in stored and isinstance(e, ast.Constant):
                out[k] = e.value
        return out

    def signature(self, r):
        """(argument list, number of leading parameters bound by the receiver)"""
        kind, t = r
        if kind == "nested":
            return t.args, 0
        if kind == "class":
            f = self.prog.find_method(t, "__init__")
            return (f.node.args, 1) if f is not None else None
        if kind == "method":
            return t.node.args, 0 if t.is_static else 1
        if t.is_classmethod:
            return t.node.args, 1
        return t.node.args, 0


class Binding:
    def __init__(self):
        self.args, self.defaulted, self.problem, self.open = {}, {}, "", False


def bind(sig, call):
    """Bind the arguments of a call to a signature."""
    if sig is None:
        return None
    a, skip = sig
    out = Binding()
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    posonly = {x.arg for x in a.posonlyargs}
    kwonly = [x.arg for x in a.kwonlyargs]
    i = 0
    for x in call.args:
        if isinstance(x, ast.Starred):
            if isinstance(x.value, (ast.Tuple, ast.List)):
                vals = x.value.elts
            else:
                out.open = True
                break
        else:
            vals = [x]
        for v in vals:
            if i < len(pos):
                out.args[pos[i]] = v
            elif not a.vararg:
                out.problem = f"it takes {len(pos)} positional arguments, {len(call.args)} are passed"
                return out
            i += 1
    for k in call.keywords:
        if k.arg is None:
            if isinstance(k.value, ast.Dict) and all(isinstance(z, ast.Constant) for z in k.value.keys):
                items = [(z.value, v) for z, v in zip(k.value.keys, k.value.values)]
            else:
                out.open = True
                continue
        else:
            items = [(k.arg, k.value)]
        for name, v in items:
            if name in out.args:
                out.problem = f"its parameter {name} is given twice"
                return out
            if name in pos and name not in posonly or name in kwonly:
                out.args[name] = v
            elif not a.kwarg:
                out.problem = f"it has no parameter {name}" if name not in posonly else f"its parameter {name} is positional only"
                return out
    dfl = a.posonlyargs + a.args
    have = {p.arg: d for p, d in zip(dfl[len(dfl) - len(a.defaults):], a.defaults)}
    have.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    missing = [p for p in pos + kwonly if p not in out.args and p not in have]
    if missing and not out.open:
        out.problem = f"its required parameter {missing[0]} is not given"
    out.defaulted = {k: v for k, v in have.items() if k not in out.args} if not out.open else {}
    return out


def completes(body):
    """Whether control can reach the end of a statement list."""
    for n in body:
        if isinstance(n, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(n, ast.If):
            if n.orelse and not completes(n.body) and not completes(n.orelse):
                return False
        elif isinstance(n, ast.While):
            if isinstance(n.test, ast.Constant) and n.test.value and not any(isinstance(x, ast.Break) for x in _own_loop(n)):
                return False
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            if not completes(n.body):
                return False
        elif isinstance(n, ast.Try):
            if n.finalbody and not completes(n.finalbody):
                return False
            if not completes(n.body + n.orelse) and all(not completes(h.body) for h in n.handlers):
                return False
        elif isinstance(n, ast.Match):
            if any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in n.cases) and all(not completes(c.body) for c in n.cases):
                return False
    return True


def _own_loop(loop):
    stack = list(loop.body)
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))


def returns_in(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Return):
            yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))


def truth(test, known):
    """True/False when the condition is decided by the known parameter values, else None."""
    if isinstance(test, ast.Name) and test.id in known:
        return bool(known[test.id])
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        t = truth(test.operand, known)
        return None if t is None else not t
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        a, b = test.left, test.comparators[0]
        if isinstance(a, ast.Name) and a.id in known and isinstance(b, ast.Constant):
            x, y, op = known[a.id], b.value, test.ops[0]
            if isinstance(op, (ast.Is, ast.Eq)):
                return x == y and type(x) is type(y) or (isinstance(op, ast.Eq) and x == y)
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                return not (x == y and type(x) is type(y) or (isinstance(op, ast.NotEq) and x == y))
    if isinstance(test, ast.BoolOp):
        ts = [truth(v, known) for v in test.values]
        if isinstance(test.op, ast.And):
            return False if False in ts else (True if all(t is True for t in ts) else None)
        return True if True in ts else (False if all(t is False for t in ts) else None)
    return None


def prune(body, known):
    """Statements that can run when the known parameters have their values."""
    if not known:
        return body
    out = []
    for n in body:
        if isinstance(n, ast.If):
            t = truth(n.test, known)
            if t is True:
                out += prune(n.body, known)
            elif t is False:
                out += prune(n.orelse, known)
            else:
                out.append(ast.If(test=n.test, body=prune(n.body, known) or [ast.Pass()], orelse=prune(n.orelse, known)))
        else:
            out.append(n)
        if not completes([n]) or (out and not completes(out)):
            break
    return out

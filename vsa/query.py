"""Package-wide queries over the resolved syntax tree."""
import ast


def functions(prog):
    """(qual, node, module) of every function, method, nested function, and of every module body."""
    for m in prog.modules.values():
        if m.name.startswith("spec."):
            continue
        yield m.name + ":", m.tree, m
        stack = [(m.name + ":", m.tree)]
        while stack:
            pre, n = stack.pop()
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield pre + c.name, c, m
                    stack.append((pre + c.name + ".", c))
                elif isinstance(c, ast.ClassDef):
                    stack.append((pre + c.name + ".", c))
                elif not isinstance(c, ast.expr):
                    stack.append((pre, c))


def own(node):
    """Nodes of a function without those of nested functions and classes."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


def local_names(prog, m, node):
    """Names bound inside a function: imports resolve, everything else hides the module's name."""
    out = {}
    if isinstance(node, ast.Module):
        return out
    for a in (node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]):
        out[a.arg] = None
    aliases = []
    for n in own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out[n.id] = None
        elif isinstance(n, ast.Import):
            for a in n.names:
                d = a.name if a.asname else a.name.split(".")[0]
                out[a.asname or d] = ("module", prog.modules[d]) if d in prog.modules else ("ext", d)
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                mod = prog.modules.get(n.module)
                out[a.asname or a.name] = prog.resolve_name(mod, a.name) if mod else ("ext", f"{n.module}.{a.name}")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            aliases.append((n.targets[0].id, n.value))
    stores = {}
    for n in own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stores[n.id] = stores.get(n.id, 0) + 1
    for name, v in aliases:
        if stores.get(name) == 1 and isinstance(v, (ast.Attribute, ast.Name)):
            r = resolve(prog, m, v, {k: x for k, x in out.items() if k != name})
            if r is not None:
                out[name] = r
    return out


def resolve(prog, m, node, local):
    if isinstance(node, ast.Name):
        if node.id in local:
            return local[node.id]
        return prog.resolve_name(m, node.id)
    if isinstance(node, ast.Attribute):
        b = resolve(prog, m, node.value, local)
        return None if b is None else prog.resolve_attr(b, node.attr)
    return None


def references(prog):
    """(qual, module, node, kind, target): every maximal name or attribute chain that resolves outside or to a function."""
    for q, node, m in functions(prog):
        local = local_names(prog, m, node)
        inner = set()
        for n in own(node):
            if isinstance(n, ast.Attribute):
                inner.add(id(n.value))
        for n in own(node):
            if isinstance(n, (ast.Attribute, ast.Name)) and id(n) not in inner:
                r, x, rest = resolve(prog, m, n, local), n, 0
                while r is None and isinstance(x, ast.Attribute):
                    x = x.value
                    rest += 1
                    r = resolve(prog, m, x, local)
                if r is not None and r[0] == "assign":
                    r = prog.resolve_expr(r[1], r[2]) or r
                if r is not None and r[0] in ("ext", "func"):
                    yield q, m, n, r[0], r[1], rest


def call_graph(prog):
    """Function name -> package functions it refers to (methods by name)."""
    by_name = {}
    for q in prog.funcs:
        if not q.startswith("spec."):
            by_name.setdefault(q.split(":")[1].split(".")[-1], set()).add(q)
    g = {}
    for q, node, m in functions(prog):
        if q.endswith(":"):
            continue
        local = local_names(prog, m, node)
        out = g.setdefault(q, set())
        for n in own(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.add(q + "." + n.name)
            if isinstance(n, (ast.Attribute, ast.Name)):
                r = resolve(prog, m, n, local)
                if r is not None and r[0] == "func":
                    out.add(r[1].qual)
                elif r is None and isinstance(n, ast.Attribute) and n.attr in by_name and all("." in x.split(":")[1] for x in by_name[n.attr]):
                    out |= by_name[n.attr]
    return g


def reachable(g, start):
    seen, todo = set(), [start]
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        todo.extend(g.get(q, ()))
    return seen

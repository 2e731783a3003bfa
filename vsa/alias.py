"""Which objects of the caller may a written object belong to: access paths followed through views, shallow copies, containers and loops."""
from .terms import T, Term

SHALLOW_CALLS = {"list", "tuple", "sorted", "reversed", "filter", "iter", "set", "enumerate", "zip", ".copy", "copy.copy", "dict", "itertools.chain", "numpy.nditer"}
LOOPS = 6


class Source:
    """A root (usually a parameter) and the steps from it to the object."""
    __slots__ = ("root", "path")

    def __init__(self, root, path):
        self.root, self.path = root, path

    def key(self):
        return self.root, self.path


def sources(t, I, path=(), seen=None, depth=0, at=None):
    """Every object of the caller that t may be (part of): list of Source; [] when t was created by the analysed code."""
    seen = seen if seen is not None else set()
    if not isinstance(t, Term) or depth > 40:
        return []
    op = t.op
    if op in ("attr", "item"):
        step = (op, t.args[1] if isinstance(t.args[1], (str, Term)) else None)
        return sources(t.args[0], I, (step,) + path, seen, depth + 1, at)
    if op in ("view", "version"):
        return sources(t.args[0], I, path, seen, depth + 1, at)
    if op == "ite":
        return sources(t.args[1], I, path, seen, depth + 1, at) + sources(t.args[2], I, path, seen, depth + 1, at)
    if op in ("param", "glob"):
        return [Source(t, path)]
    if op in ("mu", "eta"):
        k = (t, len(path))
        if k in seen:
            return []
        seen.add(k)
        out = []
        L, name = t.args[0], t.args[1]
        st = I.loopstate.get(L)
        if isinstance(name, str) and st is not None and name in st.env:
            out += sources(st.env[name], I, path, seen, depth + 1, at)
        for x in t.args[1:]:
            if isinstance(x, Term) and x.op != "loc":
                out += sources(x, I, path, seen, depth + 1, at)
        return out
    if op == "cell":
        info = I.cellinfo.get(t, {})
        src = info.get("src")
        out = []
        for r, n in I.zero.get(t, ()):
            if at is not None and n <= at and (t, n, len(path)) not in seen:
                seen.add((t, n, len(path)))
                out += sources(r, I, path, seen, depth + 1, at)
        if out:
            return out
        inner = any(s[0] == "attr" for s in path)          # the copy holds the same member objects
        if src is not None and isinstance(src, Term):
            if info.get("copy") == "shallow" and path:
                if path[0][0] == "item" and replaced(t, I, at):
                    return []
                return sources(src, I, path, seen, depth + 1, at)
            if info.get("copy") == "array" and inner and path[0][0] == "item":
                return sources(src, I, path, seen, depth + 1, at)
            if info.get("copy") == "array" and len(path) >= 2 and path[0][0] == "attr":
                return sources(src, I, path, seen, depth + 1, at)
        return []
    if op == "call" and t.args and t.args[0] in SHALLOW_CALLS and any(s[0] == "attr" for s in path):
        out = []
        for x in t.args[1:]:
            if isinstance(x, Term):
                out += sources(x, I, path if t.args[0] not in ("enumerate", "zip") else path[1:], seen, depth + 1, at)
        return out
    return []


def replaced(t, I, at):
    """Does a loop replace the items of a shallow copy by objects of its own?"""
    for e in I.events:
        if at is not None and e.n >= at:
            break
        if e.kind == "write" and e.sort == "item" and e.base is t and e.loops and isinstance(e.value, Term) and not sources(e.ref if isinstance(e.ref, Term) else e.value, I, at=e.n):
            return True
    return False


def method_calls(e):
    """(receiver, method, keywords) of a call of a method of an object that the package does not define"""
    if e.kind == "mcall" and isinstance(e.recv, Term):
        return e.recv, e.meth, e.kw
    if e.kind == "ucall" and isinstance(e.func, Term) and e.func.op == "attr" and isinstance(e.func.args[1], str):
        return e.func.args[0], e.func.args[1], e.kw
    return None


def shown(src):
    from .terms import show
    s = show(src.root, 4)
    for k, n in src.path:
        s += "." + str(n) if k == "attr" and isinstance(n, str) else "[...]"
    return s

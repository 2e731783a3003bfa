from vsa.alias import sources, shown, method_calls
from vsa.effects import Effects
from vsa.rulekit import SIM
from vsa.terms import T, Term, show, is_const, const_value
from rules.c02 import AT_METH, PRIMS, changed_arguments, public, back

TITLE = "Alias analysis of construction and deep copy; no write of any function reaches the design lattice."
RULES = ["C01.init: every position of the working and of the design lattice holds its own deep copy of the given element at that position.",
         "C01.copy: the deep copy shares no object with the original, and its lattices are copies of the corresponding ones.",
         "C01.ideal: no function writes to the design lattice or its elements, replaces it, or puts its elements or arrays into the working lattice."]
MACHINE = {"SC", "self", "sc"}
LATTICES = ("RING", "IDEALRING")
PARTS = {"INJ": ("Z0", "Z0ideal", "beamSize", "randomInjectionZ", "staticInjectionZ"), "SIG": ("BPM", "Magnet", "RF", "Support", "randomInjectionZ", "staticInjectionZ"),
         "ORD": ("BPM", "RF", "Magnet", "SkewQuad", "HCM", "VCM", "CM", "Girder", "Plinth", "Section")}
ARRAYS = {"PolynomA", "PolynomB", "KickAngle", "T1", "T2", "R1", "R2", "SetPointA", "SetPointB", "NomPolynomA", "NomPolynomB", "CalErrorA", "CalErrorB",
          "EApertures", "RApertures", "PolynomAOffset", "PolynomBOffset", "MagnetOffset", "SupportOffset", "CMlimit"}
K = T("param", "position")


def check(ctx):
    seen = construct(ctx)
    deep(ctx)
    for q, f in every(ctx.prog):
        if not q.endswith(SIM + "__init__") and q not in seen:
            seen |= ideal(ctx, q, f)
    ctx.floor("entry points analysed", 60)


# ------------------------------------------------------------------ construction and copy
def construct(ctx):
    f = ctx.func(SIM + "__init__")
    I = ctx.run(f, None, [], (), {})
    self, st = T("param", "self"), I.final
    given = [T("param", p) for p in f.params() if p != "self"]
    for e in I.events:
        t = e.base if e.kind == "write" else method_calls(e)[0] if e.kind in ("mcall", "ucall") and method_calls(e) and method_calls(e)[1] in AT_METH else None
        hit = [x for x in sources(t, I, at=e.n) if x.root in given] if isinstance(t, Term) else []
        if hit:
            ctx.violation("C01.init", "given", f"the constructor changes the given lattice ({shown(hit[0])})", e.where)
    lattices(ctx, "C01.init", I, self, st, {"RING": given[0], "IDEALRING": given[0]} if given else {}, "the given lattice", own=True)
    return set(I.inlined)


def deep(ctx):
    f = ctx.func(SIM + "very_deep_copy")
    I = ctx.run(f, None, [], (), {})
    self, st = T("param", "self"), I.final
    for e in (e for e in I.events if e.kind == "return" and len(e.stack) <= 1):
        ctx.count("returned copies")
    ref = I.result
    if not isinstance(ref, Term):
        ctx.undecide("very_deep_copy returns no object")
        return
    if sources(ref, I):
        ctx.violation("C01.copy", "object", f"very_deep_copy returns {show(I.val(ref, st), 4)} itself", f.node.lineno and f"{f.module.path}:{f.node.lineno}")
        return
    for part, names in PARTS.items():
        r = I.read_attr(ref, part, st)
        for x in [r] + [I.read_attr(r, n, st) for n in names]:
            s = sources(x, I)
            if s:
                ctx.violation("C01.copy", f"{part}", f"the copy shares {shown(s[0])} with the original", f"{f.module.path}:{f.node.lineno}")
                break
        ctx.count("parts of the copy")
    lattices(ctx, "C01.copy", I, ref, st, {x: T("attr", self, x) for x in LATTICES}, "the original", own=False)


def lattices(ctx, rule, I, owner, st, origin, what, own):
    held = {}
    for name in LATTICES:
        X = I.read_attr(owner, name, st)
        where = next((e.where for e in reversed(I.events) if e.kind == "write" and e.sort == "attr" and e.key == name), None)
        s = sources(X, I)
        if s:
            ctx.violation(rule, f"{name}:lattice", f"{name} is {shown(s[0])} of {what} and not a copy", where)
            continue
        s = sources(member(I, X, st), I)
        if s:
            ctx.violation(rule, f"{name}:elements", f"the elements of {name} are those of {what} ({shown(s[0])})", where)
        ws = [e for e in I.events if e.kind == "write" and e.sort == "item" and e.base is X and isinstance(e.key, Term) and isinstance(e.ref, Term)]
        held[name] = X, ws, where
        info = I.cellinfo.get(X, {})
        src = origin.get(name)
        ctx.count("lattices analysed")
        for e in ws:
            s = sources(e.ref, I, at=e.n)
            if s:
                ctx.violation(rule, f"{name}:elements", f"{name} gets the element {shown(s[0])} of {what} and not a copy", e.where)
            shallow = I.cellinfo.get(e.ref, {}).get("copy") in ("shallow", "array") and sources(T("item", T("attr", e.ref, "PolynomB"), K), I, at=e.n)
            if not s and shallow:
                ctx.violation(rule, f"{name}:arrays", f"{name} gets a shallow copy that shares the arrays of an element of {what}", e.where)
            v = e.value
            if src is not None and isinstance(v, Term) and v.op == "item" and plain(v) and (v.args[0] is not src or v.args[1] is not e.key and e.key.op == v.args[1].op == "idx"):
                ctx.violation(rule, f"{name}:source", f"position {show(e.key, 3)} of {name} gets a copy of {show(v, 4)}", e.where)
        if src is not None and not ws and info.get("copy") in ("deep", "shallow") and isinstance(info.get("src"), Term) and plain(info["src"]) and info["src"] is not src:
            ctx.violation(rule, f"{name}:source", f"{name} is a copy of {show(info['src'], 4)}", where)
        if own and not ws and info.get("copy") == "deep" and not sources(X, I):
            ctx.violation(rule, f"{name}:own", f"{name} is copied as a whole: positions that hold the same element in {what} still share one object", where)
    if len(held) == 2:
        (a, wa, la), (b, wb, lb) = held["RING"], held["IDEALRING"]
        ra = {a, member(I, a, st)} | {e.ref for e in wa}
        rb = {b, member(I, b, st)} | {e.ref for e in wb}
        ca, cb = {root(x) for x in ra}, {root(x) for x in rb}
        both = {x for x in (ca & cb) if x is not None}
        if both:
            ctx.violation(rule, "shared", "RING and IDEALRING hold the same objects", (wb[-1].where if wb else lb))


def member(I, X, st):
    """An element of the lattice"""
    return T("item", X, K) if I.cellinfo.get(X, {}).get("copy") == "deep" else I.read_item(X, K, st)


def root(t):
    while isinstance(t, Term) and t.op in ("item", "view", "version"):
        t = t.args[0]
    return t if isinstance(t, Term) and t.op == "cell" else None


def plain(t):
    while isinstance(t, Term) and t.op in ("attr", "item"):
        t = t.args[0]
    return isinstance(t, Term) and t.op == "param"


# ------------------------------------------------------------------ later operations
def every(prog):
    """Public functions first, then module-level helpers (which may be handed to an optimiser)."""
    names = {q for q, _ in public(prog)}
    yield from public(prog)
    for q, f in sorted(prog.funcs.items()):
        if q not in names and q.startswith("pySC.") and "<locals>" not in q and "." not in q.split(":")[1] and not q.split(":")[0].endswith(".example"):
            yield q, f


def ideal(ctx, q, f):
    short = q.split(".", 1)[1]
    try:
        I = ctx.run(f, None, [p for p in PRIMS if not q.endswith(p)], (), {})
    except Exception as e:
        ctx.undecide(f"{q}: {type(e).__name__} {e}")
        return set()

    def design(t, at=None):
        return [s for s in sources(t, I, at=at) if s.root.op == "param" and s.root.args[0] in MACHINE and s.path and s.path[0] == ("attr", "IDEALRING")]

    eff = None
    for e in I.events:
        if e.kind == "write" and isinstance(e.base, Term):
            ctx.count("writes")
            src = design(e.base, e.n)
            if src and not (e.sort == "inplace" and not src[0].path[1:]):
                eff = eff or Effects(I, fresh=lambda t, J: not design(t))
                if back(I, eff, e):
                    ctx.count("temporary changes undone")
                else:
                    ctx.violation("C01.ideal", f"{short}:{e.key if isinstance(e.key, str) else 'item'}", f"{short} changes the design lattice: {show(e.base, 5)}"
                                  f".{e.key if isinstance(e.key, str) else show(e.key, 3)} ({shown(src[0])})", e.where)
                continue
            if e.sort == "attr" and e.key == "IDEALRING" and whole(e.base, I, e):
                ctx.violation("C01.ideal", f"{short}:replaced", f"{short} replaces the design lattice", e.where)
            if isinstance(e.ref, Term) and into_working(e, I):
                src = [s for s in design(e.ref, e.n) if e.sort != "attr" or e.key in ARRAYS and s.path[-1] == ("attr", e.key) or e.key == "RING"]
                if src:
                    ctx.violation("C01.ideal", f"{short}:shared", f"{short} puts {shown(src[0])} of the design lattice into the working lattice", e.where)
                elif e.sort == "attr" and e.key == "RING" and design(I.read_item(e.ref, K, e.state or I.final) if getattr(e, "state", None) is not None else T("item", e.ref, K), e.n):
                    ctx.violation("C01.ideal", f"{short}:shared", f"{short} makes the working lattice hold the elements of the design lattice", e.where)
        elif e.kind == "ecall":
            for _, a in changed_arguments(e):
                src = design(a, e.n) if isinstance(a, Term) else []
                if src:
                    ctx.violation("C01.ideal", f"{short}:{e.name}", f"{short} lets {e.name} change the design lattice", e.where)
        elif e.kind in ("mcall", "ucall") and method_calls(e) is not None:
            recv, meth, kw = method_calls(e)
            c = kw.get("copy")
            if meth in AT_METH and (c is None or is_const(c) and const_value(c) is False):
                src = design(recv, e.n)
                if src:
                    ctx.violation("C01.ideal", f"{short}:{meth}", f"{short} calls .{meth}() on the design lattice", e.where)
    return set(I.inlined)


def whole(base, I, e):
    """Is the object a commissioning object of the caller?"""
    return base.op == "param" and base.args[0] in MACHINE


def into_working(e, I):
    if e.sort == "attr" and e.key == "RING":
        return whole(e.base, I, e)
    return any(s.root.op == "param" and s.root.args[0] in MACHINE and s.path and s.path[0] == ("attr", "RING") for s in sources(e.base, I, at=e.n))

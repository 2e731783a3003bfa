from vsa.alias import sources
from vsa.finger import compare, unread
from vsa.rulekit import SIM
from vsa.terms import T, Term, show, is_const, const_value, is_num, num, walk, mentions, subst, and_, or_, not_, truth, TRUE, FALSE, NONE
from vsa.rewrite import padded
from rules.c02 import public, PRIMS
from rules.c04 import group, sizes

TITLE = "Every write of a setpoint, error or misalignment field reaches, on all paths to a return, an update call that covers the written elements."
RULES = ["C05.update: after a write to a setpoint, calibration, offset, roll or bending-angle field of a machine element, an update of the matching kind is called "
         "on every path to a return.",
         "C05.cover: the ordinates given to that update include every element written.",
         "C05.fields: the updates rewrite every tracked field of every registered or given element and of the children of a master magnet (compared with the reference)."]
PAD, SOR = "utils.classdef_tools:add_padded", SIM + "support_offset_and_roll"
API = [SIM + x for x in ("apply_errors", "set_cm_setpoints", "set_magnet_setpoints", "set_cavity_setpoints")]
UPD = {SIM + "update_magnets": "magnets", SIM + "update_cavities": "cavities", SIM + "update_supports": "supports"}
LATER = ("register_", "set_systematic_multipole_errors", "set_random_multipole_errors", "update_", "__init__", "SCregister", "SCsetMultipoles", "SCupdate", "very_deep_copy")
MAGNET = {"SetPointA", "SetPointB", "CalErrorA", "CalErrorB", "PolynomAOffset", "PolynomBOffset", "BendingAngleError"}
SUPPORT = {"MagnetOffset", "MagnetRoll"} | {s + f for s in ("Section", "Plinth", "Girder") for f in ("Offset", "Roll")}
CAVITY = {c + f for c in ("Voltage", "Frequency", "TimeLag") for f in ("SetPoint", "Offset", "CalError")}
MACHINE = {"SC", "self", "sc"}


def check(ctx):
    runs, inlined = {}, set()
    for q, f in public(ctx.prog):
        if ".matlab_index" in q:
            continue                                       # forwards to the functions below (C17)
        prims = [p for p in PRIMS if not q.endswith(p)]
        try:
            I = ctx.run(f, None, prims, (), {})
        except Exception as e:
            ctx.undecide(f"{q}: {type(e).__name__} {e}")
            continue
        runs[q] = (f, I)
        inlined |= {x if isinstance(x, str) else x.qual for x in I.inlined} - {q}
    for q, (f, I) in runs.items():
        name = q.split(":")[1].split(".")[-1]
        if name.startswith(LATER) or (q in inlined and not any(q.endswith(a) for a in API)):
            continue
        one(ctx, q, I)
    ctx.floor("changed fields", 10)
    for lab, o in (("all", {"ords": NONE}), ("given", {})):
        ctx.same_effects("C05.fields", SIM + "update_cavities", ("fields", "update_cavities"), o, label=lab)
        ctx.same_effects("C05.fields", SIM + "update_magnets", ("fields", "update_magnets"), o, pure=[PAD], label=lab, rewrite=padded)
    ctx.same_effects("C05.fields", SIM + "update_supports", ("supports", "update_supports"), {"offset_bpms": TRUE, "offset_magnets": TRUE}, pure=[SOR], floor=0)


def kinds(e, I):
    """Kinds of update that the field needs"""
    k, b, n = e.key, e.base, e.sort
    if n in ("item", "inplace"):
        while b.op in ("view", "version"):
            b = b.args[0]
        if b.op != "attr" or n == "item" and isinstance(k, str):
            return ()
        b, k = b.args[0], b.args[1]
    if isinstance(k, Term) and is_const(k) and isinstance(const_value(k), str):
        k = const_value(k)
    if isinstance(k, str):
        return ("magnets",) if k in MAGNET else ("supports",) if k in SUPPORT else ("cavities",) if k in CAVITY else ()
    if not isinstance(k, Term):
        return ()
    if k.op in ("fstr", "call") and (k.op == "fstr" or k.args[0] == "fstr"):
        parts = [x for x in k.args if not (isinstance(x, str) and x == "fstr")]
        text = [const_value(x) if isinstance(x, Term) and is_const(x) else x if isinstance(x, str) else None for x in parts]
        if text[:1] == ["SetPoint"]:
            return ("magnets",)
        if text[-1:] == ["SetPoint"]:
            return ("cavities",)
        if text[-1:] not in (["Offset"], ["Roll"], ["CalError"]):
            return ()
    names = {x.args[1] for x in walk(b) if x.op == "attr" and isinstance(x.args[0], Term) and x.args[0].op == "attr" and x.args[0].args[1] == "ORD"}
    if "Magnet" in names:
        return ("magnets", "supports")
    if "RF" in names:
        return ("cavities",)
    if names & {"Section", "Plinth", "Girder"}:
        return ("supports",)
    return ()


def element(t):
    """Ordinate of the element a written object belongs to"""
    while isinstance(t, Term) and t.op in ("attr", "item", "view", "version"):
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "RING":
            return t.args[1]
        t = t.args[0]
    return None


def one(ctx, q, I):
    short = q.split(".", 1)[1]
    calls = [(UPD[u], e) for e in I.events if e.kind == "call" for u in UPD if e.q.endswith(u)]
    for e in I.events:
        if e.kind != "write" or not isinstance(e.base, Term):
            continue
        need = kinds(e, I)
        if not need:
            continue
        if not any(s.root.op == "param" and s.root.args[0] in MACHINE and any(k == "attr" and n == "RING" for k, n in s.path) for s in sources(e.base, I, at=e.n)):
            continue
        ctx.count("changed fields")
        for kind in need:
            obligation(ctx, short, I, e, kind, [c for k, c in calls if k == kind and c.n > e.n])


def obligation(ctx, short, I, e, kind, calls):
    what = f"{show(e.base, 5)}.{e.key if isinstance(e.key, str) else show(e.key, 4)}"
    if not calls:
        ctx.violation("C05.update", f"{short}:{kind}", f"{short} changes {what} and returns without update_{kind}", e.where)
        return
    ok, miss, unknown = [], None, False
    for c in calls:
        cov = covers(c, e, I, kind)
        if cov is False:
            miss = miss or c
        elif cov is None:
            unknown = True
        g = extra(c, e, I)
        if cov is not False:
            if isinstance(cov, Term):
                g = and_(g, cov)
            ok.append(g)
    if not ok:
        ctx.violation("C05.cover", f"{short}:{kind}", f"{short} changes {what} but update_{kind} is called for {arg_shown(miss, I)} only", miss.where)
        return
    cond = or_(*ok)
    ctx.count("obligations")
    if cond is TRUE:
        return
    if clear(cond):
        ctx.violation("C05.update", f"{short}:{kind}", f"{short} changes {what} but calls update_{kind} only if {show(cond, 6)}", calls[0].where)
    else:
        ctx.undecide(f"{short}: update_{kind} depends on {show(cond, 5)}")


def extra(c, e, I):
    """What must hold, besides the condition of the write, for the call to be reached."""
    have = list(e.guards)
    out = []
    for g in c.guards:
        if g.kind == "raise" or any(h is g or h.cond is g.cond for h in have):
            continue
        out.append(g.cond)
    cond = and_(*out) if out else TRUE
    for h in have:                                        # what the write implies
        cond = given(cond, h.cond)
    return nonempty(cond, written_sets(e, I))


def written_sets(e, I):
    """Arrays and mappings whose members the write addresses: they are not empty when it happens."""
    terms = [e.base] + ([e.key] if isinstance(e.key, Term) else [])
    for L in e.loops:
        d = I.loopinfo.get(L, {}).get("domain")
        if isinstance(d, Term):
            terms.append(d)
    terms += [g.cond for g in e.guards]
    return {x for t in terms for x in walk(t) if isinstance(x, Term) and x.op in ("attr", "param", "item")}


def given(cond, fact):
    if cond in (TRUE, FALSE):
        return cond
    facts = fact.args if fact.op == "and" else (fact,)
    m = {}
    for x in facts:
        if isinstance(x, Term) and x not in (TRUE, FALSE):
            m[x] = TRUE
            if x.op == "not":
                m[x.args[0]] = FALSE
            else:
                m[not_(x)] = FALSE
    return subst(cond, m) if m else cond


def nonempty(cond, sets):
    """The written sets have at least one element: a condition on their length that then holds is no restriction."""
    cond = sizes(cond)
    m = {}

    def atoms(x):
        if x.op in ("and", "or", "not"):
            for y in x.args:
                atoms(y)
        elif x.op == "ite":
            for y in x.args:
                atoms(y)
        elif bare(x.args[0] if x.op == "truth" else x) in sets and x.op in ("attr", "item", "param", "truth"):
            m[x] = TRUE
    atoms(cond)
    cond = subst(cond, m) if m else cond
    lens = {x for x in walk(cond) if isinstance(x, Term) and (x.op == "len" or x.op == "call" and x.args[0] in ("len", "numpy.size"))}
    lens = {x for x in lens if bare(x.args[0] if x.op == "len" else x.args[1]) in sets}
    outer = {x for x in lens if not any(x is not y and mentions(y, x) for y in lens)}
    if not outer:
        return cond
    vals = [truth(subst(cond, {x: num(k) for x in outer})) for k in (1, 2, 3, 5)]
    if all(v is vals[0] for v in vals):
        return vals[0]
    return next((v for v in vals if v is not TRUE and v is not FALSE), cond) if any(v is not TRUE and v is not FALSE for v in vals) else cond


def clear(cond):
    """Is the condition a free choice of the caller or of the configuration (and not a computed value)?"""
    if not isinstance(cond, Term):
        return False
    cond = subst(cond, {x: T("param", "length")
                        for x in walk(cond)
                        if isinstance(x, Term) and (x.op == "len" or x.op == "call" and x.args[0] in ("len", "numpy.size"))})
    for x in walk(cond):
        if isinstance(x, Term) and x.op in ("call", "pcall", "mu", "eta", "cell", "rand", "some", "unknown", "comp", "fn", "mapw", "upd", "idx", "hasattr"):
            if x.op == "call" and x.args[0] in ("len", "numpy.size"):
                continue
            return False
    return True


def covers(c, e, I, kind):
    """True, False, None (not known) or the condition under which the update covers the element"""
    if kind == "supports":
        a = c.bound.get("offset_magnets"), c.bound.get("offset_bpms")
        field = e.key if isinstance(e.key, str) else ""
        need = a[:1] if field in ("MagnetOffset", "MagnetRoll") else a
        cond = TRUE
        for x in need:
            if isinstance(x, Term):
                cond = and_(cond, truth(x))
        return False if cond is FALSE else True if cond is TRUE else cond
    a = c.bound.get("ords")
    if a is None or a is NONE:
        return True
    o = element(e.base)
    if o is None:
        return None
    a = plain(a, I, c)
    if any(x.op == "attr" and x.args[1] == ("Magnet" if kind == "magnets" else "RF") and x is a for x in walk(a)):
        return True
    if a.op in ("arr", "list", "tuple"):
        if any(x is o for x in a.args):
            return True
        a1 = [group(x, I) if isinstance(x, Term) else x for x in a.args]
        if any(same(x, group(o, I), I) for x in a1 if isinstance(x, Term)):
            return True
        return None
    g, h = group(o, I), group(a, I)
    if same(g, h, I) or same(o, a, I):
        return True
    if part(c.bound["ords"], g, I, c.state or I.final):
        return False
    lg, lh = leaves(g), leaves(h)
    g, h = bare(g), bare(h)
    if lg and lh and pure(h) and pure(g) and (not (lg & lh) or apart(g, h)):
        return False
    return None


def apart(g, h):
    """Two constant entries of the same container"""
    return g.op == h.op and g.op in ("item", "attr") and g.args[0] is h.args[0] and g.args[1] is not h.args[1] and \
        all(isinstance(x, str) or is_const(x) or is_num(x) for x in (g.args[1], h.args[1]))


def plain(a, I, c):
    while isinstance(a, Term) and (a.op == "view" and a.args[1] in ("ravel", "atleast_1d", "alias") or a.op == "version"):
        a = a.args[0]
    if a.op == "cell":
        info = I.cellinfo.get(a, {})
        v = (c.state.content.get(a) if getattr(c, "state", None) is not None else None) or info.get("src") or a
        a = v if isinstance(v, Term) else a
    return a


def same(a, b, I):
    a, b = bare(a), bare(b)
    if a is b:
        return True
    return not unread([a], [b]) and compare(a, I, b, I).same


def bare(t):
    while isinstance(t, Term):
        if t.op == "call" and t.args[0] in ("flat", "numpy.array", "numpy.asarray", "numpy.ravel", "numpy.atleast_1d", "numpy.unique", "list", "sorted", "set", "numpy.sort", "tuple") \
                and len(t.args) >= 2 and isinstance(t.args[1], Term):
            t = t.args[1]
        elif t.op in ("flat", "version"):
            t = t.args[0]
        elif t.op == "view" and t.args[1] in ("ravel", "atleast_1d", "alias", "flatten"):
            t = t.args[0]
        else:
            return t
    return t


def part(a, g, I, st):
    """Is a an item or slice of g?"""
    while isinstance(a, Term) and a.op in ("item", "view", "version"):
        k = a.args[1] if a.op == "item" else a.args[2] if a.op == "view" and a.args[1] == "slice" else None
        cut = isinstance(k, Term) and all(x.op in ("num", "const", "slice") for x in walk(k) if isinstance(x, Term))
        if cut and same(I.val(a.args[0], st), g, I):
            return True
        a = a.args[0]
    return False


def leaves(t):
    out = set()

    def go(x):
        if not isinstance(x, Term):
            return
        if x.op == "param":
            if x.args[0] not in MACHINE:
                out.add(x)
            return
        if x.op == "attr" and isinstance(x.args[0], Term) and x.args[0].op == "attr" and x.args[0].args[1] == "ORD":
            out.add(x)
            return
        for y in x.args:
            go(y)
    go(t)
    return out


def pure(t):
    return all(x.op in ("param", "attr", "item", "view", "const", "num", "idx", "flat", "version", "slice") for x in walk(t) if isinstance(x, Term))


def arg_shown(c, I):
    a = c.bound.get("ords")
    return show(I.val(a, c.state or I.final), 5) if isinstance(a, Term) else "a part of the elements"

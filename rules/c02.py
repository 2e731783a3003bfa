import ast
from vsa.alias import sources, shown, method_calls
from vsa.effects import Effects
from vsa.finger import compare, unread
from vsa.rulekit import SIM
from vsa.terms import T, Term, show, is_const, const_value

TITLE = "No write of a public function reaches an object that the caller passed as an argument (alias analysis of every write)."
RULES = ["C02.write: the object of each attribute, item and in-place write (through views, shallow copies, containers and loop-carried names) is created by the "
         "function, belongs to the machine, or holds its original value again at every return.",
         "C02.stored: an array of the caller that is kept in the machine without a copy is stored in a field that no operation of the package modifies in place.",
         "C02.external: no argument is handed to a library function or method that changes it in place."]

# documented objects of an operation, and buffers that exist to be filled
OWN = {"core.lattice_setting:switch_cavity_and_radiation": {"ring"}, "core.lattice_setting:switch_rf": {"ring"},
       "utils.sc_tools:scale_circumference": {"RING"}, "utils.sc_tools:update_transformation": {"element"},
       "plotting.plot_apertures:baseplot": {"ring"}, "matlab_index:SCcronoff": {"ring", "RING"}, "matlab_index:SCscaleCircumference": {"RING"}, "matlab_index:SCupdateTransformation": {"element"},
       "utils.classdef_tools:s_interpolation": {"off"}, "lattice_properties.apertures:refine_bounds": {"local_bounds", "ZCO"}}
MACHINE = {"SC", "self", "sc"}
AXES = {"ax", "axes", "fig", "figure"}
PRIMS = [SIM + x for x in ("set_cm_setpoints", "set_magnet_setpoints", "set_cavity_setpoints", "get_cm_setpoints", "update_magnets", "update_cavities",
                           "update_supports", "apply_errors", "verify_structure", "support_offset_and_roll")] + \
        ["core.beam:bpm_reading", "core.beam:beam_transmission", "core.beam:all_elements_reading", "core.beam:generate_bunches",
         "lattice_properties.response_model:SCgetModelRM", "lattice_properties.response_model:SCgetModelDispersion"]
ARRAYS = ("ndarray", "list", "dict", "List", "Dict", "Sequence", "Lattice", "Tuple", "Element", "Iterable")
AT_ARG = {"at.set_value_refpts", "at.set_shift", "at.set_tilt", "at.set_rotation", "at.set_rf_frequency", "at.set_rf_voltage", "at.set_rf_timelag", "at.set_cavity",
          "at.set_cavity_phase", "at.fit_tune", "at.fit_chrom", "at.shift_elem", "at.tilt_elem", "at.rotate_elem", "at.physics.set_rf_frequency"}
AT_METH = {"enable_6d", "disable_6d", "radiation_on", "radiation_off", "set_rf_frequency", "set_rf_voltage", "set_rf_timelag", "set_cavity", "set_cavity_phase",
           "modify_elements", "set_fillpattern", "set_beam_current", "set_longt_motion", "set_shift", "set_tilt", "set_value_refpts"}


def public(prog):
    for q, f in sorted(prog.funcs.items()):
        if q.startswith("spec.") or "<locals>" in q or not q.startswith("pySC."):
            continue
        m, name = q.split(":")
        if m.endswith(".example") or any(p.startswith("_") and p != "__init__" for p in name.split(".")) or name.count(".") > 1:
            continue
        yield q, f


def check(ctx):
    kept, changed = {}, {}
    for q, f in public(ctx.prog):
        one(ctx, q, f, kept, changed)
    for k, (short, p, where) in sorted(kept.items(), key=str):
        ctx.count("fields holding arrays of the caller")
        if k in changed:
            ctx.violation("C02.stored", f"{short}:{p}:{k[1]}", f"{short} keeps the argument '{p}' of the caller in {k[0]}...{k[1]} without a copy, and "
                          f"{changed[k][0]} modifies {k[1]} in place ({changed[k][1]})", where)
    ctx.floor("entry points analysed", 60)


def field(base, name, I):
    for s in sources(base, I):
        if s.root.op == "param" and s.root.args[0] in MACHINE and isinstance(name, str):
            first = next((n for k, n in s.path if k == "attr"), name)
            return first, name
    return None


def one(ctx, q, f, kept, changed):
    own = next((v for k, v in OWN.items() if q.endswith("." + k) or q == k), set())
    pr = [p for p in PRIMS if not q.endswith(p)]
    try:
        I = ctx.run(f, None, pr, (), {})
    except Exception as e:
        ctx.undecide(f"{q}: {type(e).__name__} {e}")
        return
    params = argument_kinds(f)
    short = q.split(".", 1)[1]

    def mine(t, at=None):
        """Parameters of the caller that the object may belong to"""
        out = []
        for s in sources(t, I, at=at):
            if s.root.op != "param" or not isinstance(s.root.args[0], str):
                continue
            p = s.root.args[0]
            k = params.get(p)
            if k is None or p in own or p in MACHINE or p in AXES or k == "machine" or k == "star" and not s.path:
                continue
            out.append(s)
        return out

    fresh = lambda t, J: not mine(t)
    eff = None
    for e in I.events:
        if e.kind == "write":
            if not isinstance(e.base, Term):
                continue
            ctx.count("writes")
            if e.sort == "attr" and not e.aug and isinstance(e.ref, Term) and (e.ref.op in ("param", "view") or e.ref.op == "item" and e.ref.args[0].op == "param"):
                v = [x for x in mine(e.ref, e.n) if x.root.args[0] not in ("state",)]
                k = field(e.base, e.key, I) if v else None
                if k is not None:
                    kept.setdefault(k, (short, v[0].root.args[0], e.where))
            if e.sort in ("item", "inplace"):
                b = e.base
                while b.op == "view":
                    b = b.args[0]
                k = field(b.args[0], b.args[1], I) if b.op == "attr" else None
                if k is not None and k[0] in ("RING", "INJ", "SIG", "ORD"):
                    changed.setdefault(k, (short, e.where))
            src = mine(e.base, e.n)
            if not src:
                continue
            if e.sort == "inplace" and not container(e, src, f):
                continue
            if e.sort in ("attr", "item"):
                eff = eff or Effects(I, fresh=fresh)
                if back(I, eff, e):
                    ctx.count("temporary changes undone")
                    continue
            report(ctx, "C02.write", short, src, e.where, f"{show(e.base, 5)} is modified")
        elif e.kind == "augitem":
            src = [x for x in mine(e.base, e.n) if len(x.path) == 1 and x.path[0][0] == "item" and nested(x.root.args[0], f, I, ctx)]
            if src:
                report(ctx, "C02.write", short, src, e.where, f"a part of {src[0].root.args[0]} is modified")
        elif e.kind == "ecall":
            for i, a in changed_arguments(e):
                src = mine(a) if isinstance(a, Term) else []
                if src:
                    report(ctx, "C02.external", short, src, e.where, f"{e.name} changes its argument")
        elif e.kind in ("mcall", "ucall") and method_calls(e) is not None:
            recv, meth, kw = method_calls(e)
            if meth not in AT_METH:
                continue
            c = kw.get("copy")
            if c is not None and not (is_const(c) and const_value(c) is False):
                continue
            src = mine(recv)
            if src:
                report(ctx, "C02.external", short, src, e.where, f".{meth}() changes the lattice")


def report(ctx, rule, short, src, where, what):
    s = src[0]
    ctx.violation(rule, f"{short}:{s.root.args[0]}", f"{short} modifies the argument '{s.root.args[0]}' of the caller: {what} ({shown(s)})", where)


def changed_arguments(e):
    if e.name in AT_ARG:
        c = e.kw.get("copy")
        if c is None or is_const(c) and const_value(c) is False:
            yield 0, (e.refs[0] if e.refs else e.kwrefs.get("ring"))
    if e.name in ("at.lattice_track", "at.element_track"):
        c = e.kw.get("in_place")
        if c is not None and is_const(c) and const_value(c):
            yield 1, e.kwrefs.get("r_in", e.refs[1] if len(e.refs) > 1 else None)
    if e.name in ("at.internal_lpass", "at.tracking.internal_lpass"):
        yield 1, e.kwrefs.get("r_in", e.refs[1] if len(e.refs) > 1 else None)


def back(I, eff, e):
    """Does the location hold its original value at the end?"""
    if e.sort == "item" and isinstance(e.key, Term) and e.value is T("item", e.base, e.key):
        return True                                          # the same object is put back
    for l in eff.locs.values():
        if e not in l.events:
            continue
        if l.state is None:
            return True
        if l.kind == "attr" and not l.whole:
            return all(same(I, eff.value(l, k), T("item", l.term, k), len(l.events)) for k in l.keys)
        return same(I, eff.value(l), l.term, len(l.events))
    return False


def same(I, a, b, n):
    if a is b:
        return True
    if unread([a], [b]):
        return n > 1                 # written again with a value that the analysis does not interpret
    return compare(a, I, b, I).same


def container(e, src, f):
    """Is the object a list, array or mapping (and not a number that an augmented assignment rebinds)?"""
    if e.aug in ("append", "extend", "insert", "remove", "pop", "sort", "reverse", "fill", "update", "clear") or not isinstance(e.aug, str) or not e.aug.endswith("="):
        return True
    if any(s.path for s in src):
        return True
    if e.base.op == "view":
        return True
    p = src[0].root.args[0]
    a = next((x for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if x.arg == p), None)
    if a is not None and a.annotation is not None:
        return any(x in ast.unparse(a.annotation) for x in ARRAYS)
    d = default_of(f, p)
    if d is not None:
        if isinstance(d, (ast.List, ast.Dict)) or isinstance(d, ast.Call) and not isinstance(d.func, ast.Name):
            return True
        if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str)):
            return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p:
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in ("shape", "size", "T", "dtype", "ndim", "copy"):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "enumerate") and any(isinstance(x, ast.Name) and x.id == p for x in n.args):
            return True
    return False


def default_of(f, p):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == p:
            return d
    return next((d for x, d in zip(a.kwonlyargs, a.kw_defaults) if x.arg == p), None)


LISTS = {"cm_ords", "CMords", "CMOrds", "cm_steps", "mag_ords", "magOrds", "bunches"}


def nested(p, f, I, ctx):
    """Does the argument hold arrays (and not numbers)?"""
    if p in LISTS:
        return True
    is_p = lambda x: isinstance(x, ast.Name) and x.id == p
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript):
            if is_p(n.value) and isinstance(n.slice, ast.Tuple) or isinstance(n.value, ast.Subscript) and is_p(n.value.value):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "enumerate") and \
                any(isinstance(x, ast.Subscript) and is_p(x.value) for x in n.args):
            return True
        if isinstance(n, ast.comprehension) and isinstance(n.iter, ast.Subscript) and is_p(n.iter.value):
            return True
    return False


def argument_kinds(f):
    a = f.node.args
    out = {}
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        ann = ast.unparse(x.annotation) if x.annotation is not None else ""
        out[x.arg] = "machine" if "SimulatedCommissioning" in ann else "value"
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out[x.arg] = "star"
    return out

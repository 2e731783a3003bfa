from vsa.terms import const, T
from vsa.rulekit import SIM, at

TITLE = "Setter results (stored strengths) compared with the reference behaviour for every method, plane and order."
RULES = ["C06.cm: stored corrector strength equals the clipped requested kick in the plane's convention, for abs/rel/add and both planes.",
         "C06.magnet: stored strength equals the requested one, only skew quadrupoles are clipped, dipole compensation uses the clipped strength.",
         "C06.input: ordinates and setpoints are normalised identically for scalars, lists and arrays and never stored into an integer array."]
CHECK = "utils.classdef_tools:check_input_and_setpoints"


def check(ctx):
    upd, cm = SIM + "update_magnets", SIM + "set_cm_setpoints"
    setp = lambda sort, base, key: isinstance(key, str) and key.startswith("SetPoint")
    for sk in (False, True):
        for m in ("abs", "rel", "add"):
            a = dict(skewness=const(sk), method=const(m))
            ctx.same_effects("C06.cm", cm, ("setters", "set_cm_setpoints"), a, prims=[upd], only=setp)
            for dip in (False, True):
                b = dict(a, dipole_compensation=const(dip))
                ctx.same_effects("C06.magnet", SIM + "set_magnet_setpoints", ("setters", "set_magnet_setpoints"), b, prims=[upd, cm], only=setp)
                ctx.same_calls("C06.magnet", SIM + "set_magnet_setpoints", ("setters", "set_magnet_setpoints"), [cm], b, prims=[upd, cm])
    J = T("param", "J")
    for m in ("abs", "rel", "add", "bogus"):
        a = dict(method=const(m))
        if m != "bogus":
            for i in (0, 1):
                ctx.same_return("C06.input", CHECK, ("setters", "check_input_and_setpoints"), a, label=f"method {m}, element {i}",
                                part=lambda v, i=i: at(J)(at(const(i))(v)))
        ctx.same_raises("C06.input", CHECK, ("setters", "check_input_and_setpoints"), a)
    int_arrays(ctx)
    ctx.floor("locations compared", 18)


def int_arrays(ctx):
    """Setpoints are written in place into the normalised array: it has to be a float array."""
    for name, extra in (("set_cm_setpoints", {}), ("set_magnet_setpoints", {}), ("set_cavity_setpoints", {"param": const("Voltage")})):
        for m in ("rel", "add", "abs"):
            code = ctx.run(SIM + name, dict(method=const(m), **({} if name == "set_cavity_setpoints" else {"skewness": const(True)}), **extra),
                           prims=[SIM + "update_magnets", SIM + "update_cavities", SIM + "set_cm_setpoints"] if name != "set_cm_setpoints" else [SIM + "update_magnets"])
            made = {}
            for e in code.events:
                if e.kind == "ecall" and e.name in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.ravel", "numpy.atleast_1d", "numpy.full", "numpy.repeat") or \
                        e.kind == "mcall" and e.meth in ("copy", "astype", "flatten"):
                    if e.result is not None:
                        made[e.result] = e
            for e in code.events:
                if e.kind != "write" or e.sort not in ("item", "inplace") or e.base.op == "attr":
                    continue
                ctx.count("in-place updates of setpoint arrays")
                src = origin(e.base, code, made)
                if src is not None:
                    ctx.violation("C06.input", f"{code.entry_frame.func.qual}:dtype", f"{code.entry_frame.func.qual} stores computed setpoints into the array made at {src.where} "
                                  "from the caller's setpoints without a float type: integer setpoints are truncated", e.where)


def origin(ref, I, made, depth=0):
    """The creation of ref from the caller's setpoints that keeps an integer type, if any."""
    if depth > 8:
        return None
    while ref.op == "view":
        ref = ref.args[0]
    if ref.op == "ite":
        return origin(ref.args[1], I, made, depth + 1) or origin(ref.args[2], I, made, depth + 1)
    if ref.op == "cell":
        e = made.get(ref)
        if e is not None and e.kind == "ecall":
            dt = e.kw.get("dtype") or (e.args[1] if e.name in ("numpy.array", "numpy.asarray") and len(e.args) > 1 else None)
            if dt is not None and any(x in str(dt) for x in ("float", "double", "complex", "'d'", "'f")):
                return None
            vals = e.args[0] if e.args else None
            if e.name in ("numpy.array", "numpy.asarray", "numpy.copy") and vals is not None and from_setpoints(vals):
                return e
        if e is not None and e.kind == "mcall" and e.meth == "astype":
            return None
        info = I.cellinfo.get(ref, {})
        if info.get("src") is not None:
            return origin(info["src"], I, made, depth + 1)
    if ref.op == "call":
        for x in ref.args[1:2]:
            return origin(x, I, made, depth + 1)
    return None


def from_setpoints(v):
    while v.op in ("arr", "list", "tuple") and len(v.args) == 1 or v.op == "call" and v.args[0] == "flat":
        v = v.args[0] if v.op != "call" else v.args[1]
    return v is T("param", "setpoints")

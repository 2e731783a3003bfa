"""Ramping scales every error to the requested fraction of its full value."""
from vsa.rulekit import SIM
from vsa.terms import show, walk

TITLE = "Ramping sets every error to the same fraction of the full machine's error and ends with the full errors."
RULES = ["C28.scale: each scaling function stores fraction times the full machine's value, in the fields and elements of the reference definition (value numbering).",
         "C28.update: the tracked fields are recomputed after the errors are scaled.",
         "C28.retry: when a correction fails the ramp starts again from the saved full machine and its result is returned."]
P = "correction.ramp_errors:"
UPD = [SIM + n for n in ("update_supports", "update_magnets", "update_cavities")]


def one(ctx, name, ref):
    q = P + name
    if ctx.prog.func(q) is None:
        return
    t = {"SC": ctx.sc_type, "SC0": ctx.sc_type}
    ctx.same_effects("C28.scale", q, ("measure", ref), None, prims=UPD, types=t, loose=True)
    ctx.same_calls("C28.update", q, ("measure", ref), UPD, None, prims=UPD, types=t, loose=True)


def check(ctx):
    for name, ref in (("scaleSupport", "scale_supports"), ("scaleMagnets", "scale_magnets"), ("scaleBPMs", "scale_bpms"), ("scaleRF", "scale_rf"),
                      ("scaleInjection", "scale_injection"), ("scaleCircumference", "scale_circumference")):
        ctx.section(one, name, ref)
    ctx.section(ramp)


def ramp(ctx):
    q = P + "SCrampUpErrors"
    prims = UPD + [SIM + "very_deep_copy", "correction.orbit_trajectory:correct", "lattice_properties.response_model:SCgetModelRM", q]
    t = {"SC": ctx.sc_type}
    ctx.same_effects("C28.scale", q, ("measure", "ramp"), None, prims=prims, types=t, loose=True)
    code = ctx.run(q, prims=prims, types=t)
    again = [e for e in code.events if e.kind == "call" and e.q in set(ctx.quals([q]))]
    ctx.same_calls("C28.update", q, ("measure", "ramp"), UPD + prims[-3:-1] + ([q] if again else []), None, prims=prims, types=t, loose=True)
    for e in again:
        ctx.count("calls compared")
        x = e.vals.get("SC")
        if x is not None and not any(y.args and "very_deep_copy" in str(y.args[0]) for y in walk(x)) and any(
                y.op != "const" and y.args and str(y.args[0]).endswith("correct") for y in walk(x)):
            ctx.violation("C28.retry", f"{q}:retry", f"the ramp is started again from {show(x, 3)[:200]}, whose errors are already scaled, instead of the saved full machine", e.where)

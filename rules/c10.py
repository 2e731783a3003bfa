from vsa.rulekit import SIM
from vsa.terms import const, T

TITLE = "Effects of applying errors compared with the reference: every registered uncertainty, static injection, circumference, supports, updates."
RULES = ["C10.apply: every field written by apply_errors, its condition and its value (uncertainty times a random number) equal the reference.",
         "C10.order: the supports, magnets and cavities are updated after the last field of the lattice was written.",
         "C10.scale: scale_circumference scales every drift by the factor that gives the requested circumference; unknown modes are rejected before any change."]
RND = "utils.sc_tools:randnc"
UPD = [SIM + "update_supports", SIM + "update_magnets", SIM + "update_cavities"]
SCALE = "utils.sc_tools:scale_circumference"


def order(ctx, I):
    q = set(ctx.quals(UPD))
    first = next((i for i, e in enumerate(I.events) if e.kind == "call" and e.q in q), None)
    if first is None:
        return
    ctx.count("orderings checked")
    for e in I.events[first:]:
        if e.kind == "write" and e.sort == "attr" and isinstance(e.base, T("x").__class__) and e.base.op == "item" and e.base.args[0].op == "attr" and e.base.args[0].args[1] == "RING":
            ctx.violation("C10.order", "apply_errors:after-update", "a field of a lattice element is written after the supports, magnets or cavities were updated", e.where)


def check(ctx):
    P = [RND] + UPD
    ctx.same_effects("C10.apply", SIM + "apply_errors", ("errors", "apply_errors"), prims=P, floor=1)
    code, _ = ctx.same_calls("C10.apply", SIM + "apply_errors", ("errors", "apply_errors"), P, prims=P)
    if code is not None:
        ctx.section(order, code)
    for m in ("abs", "rel"):
        ctx.same_effects("C10.scale", SCALE, ("errors", "scale_circumference"), args={"mode": const(m)}, types={"RING": "at:Lattice"})
        ctx.same_return("C10.scale", SCALE, ("errors", "scale_circumference"), args={"mode": const(m)}, types={"RING": "at:Lattice"})
    ctx.rejects("C10.scale", SCALE, args={"mode": const("relative")})

from vsa.terms import const, T, NONE, transform, FALSE
from vsa.rulekit import SIM, at
from vsa.rewrite import padded
from rules import c20

TITLE = "Corrector convention of the writer, the reader, the tracked kick angle and the model response."
RULES = ["C07.read: the kick read back is the stored strength times the factor used for writing.",
         "C07.write: the stored strength is the kick divided by that factor.",
         "C07.angle: thin correctors track KickAngle = (PolynomB[0], PolynomA[0]).",
         "C07.model: the model response kicks PolynomB/PolynomA/KickAngle with the same convention."]


def check(ctx):
    J = T("param", "J")
    setp = lambda sort, base, key: isinstance(key, str) and key.startswith("SetPoint")
    for sk in (False, True):
        ctx.same_return("C07.read", SIM + "get_cm_setpoints", ("setters", "get_cm_setpoints"), dict(skewness=const(sk)), part=at(J))
        ctx.same_effects("C07.write", SIM + "set_cm_setpoints", ("setters", "set_cm_setpoints"),
                         dict(skewness=const(sk), method=const("abs")), prims=[SIM + "update_magnets"], only=setp, rewrite=unlimited)
    kick = lambda sort, base, key: key == "KickAngle"
    for lab, o in (("all", {"ords": NONE}), ("given", {})):
        ctx.same_effects("C07.angle", SIM + "update_magnets", ("fields", "update_magnets"), o, pure=["utils.classdef_tools:add_padded"], only=kick,
                         label=lab, floor=2, rewrite=padded)
    c20.response(ctx, "C07.model", None)


def unlimited(t):
    """Correctors without limit: clipping is property C06."""
    return transform(t, lambda x: FALSE if x.op == "hasattr" and x.args[1] in ("CMlimit", const("CMlimit")) else None)

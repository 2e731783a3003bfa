from vsa.terms import const

TITLE = "Model response matrix, model dispersion and model lattice compared with their reference definitions."
RULES = ["C20.column: for every corrector and plane the tracked model differs from the reference model exactly by the requested kick, and the stored column is the difference over the step.",
         "C20.dispersion: all given cavities are shifted by the step, and the result is the difference over the step.",
         "C20.ring: the model lattice takes setpoints with zero dipole components, cavity setpoints and apertures when asked for.",
         "C20.restore: each corrector has its model value back before the next column."]
RM, RING = "lattice_properties.response_model:SCgetModelRM", "lattice_properties.response_model:SCgetModelRING"
DISP = "lattice_properties.response_model:SCgetModelDispersion"
TRACK, ORBIT = "utils.at_wrapper:lattice_track", "utils.at_wrapper:findorbit6"


FIELDS = ("KickAngle", "PolynomA", "PolynomB", "Frequency")


def fields(name):
    return name in FIELDS


def ring_fields(sort, base, key):
    return sort == "attr" and key in FIELDS


def keep(base, I):
    return False


def response(ctx, rule, restore):
    for mode in ("TBT", "ORB"):
        for ideal in (True, False):
            a = dict(trackMode=const(mode), useIdealRing=const(ideal))
            ctx.same_calls(rule, RM, ("response", "SCgetModelRM"), [TRACK, ORBIT], a, prims=[TRACK, ORBIT], pure=[RING], states=fields)
            if restore is None:
                continue
            ctx.same_effects(restore, RM, ("response", "SCgetModelRM"), a, prims=[TRACK, ORBIT], pure=[RING], only=ring_fields, fresh=keep)


def check(ctx):
    response(ctx, "C20.column", "C20.restore")
    for mode in ("TBT", "ORB"):
        for ideal in (True, False):
            a = dict(trackMode=const(mode), useIdealRing=const(ideal))
            ctx.same_return("C20.column", RM, ("response", "SCgetModelRM"), a, prims=[TRACK, ORBIT], pure=[RING])
            ctx.same_calls("C20.dispersion", DISP, ("response", "SCgetModelDispersion"), [TRACK, ORBIT], a, prims=[TRACK, ORBIT], pure=[RING], states=fields)
            ctx.same_return("C20.dispersion", DISP, ("response", "SCgetModelDispersion"), a, prims=[TRACK, ORBIT], pure=[RING])
            ctx.same_effects("C20.dispersion", DISP, ("response", "SCgetModelDispersion"), a, prims=[TRACK, ORBIT], pure=[RING], only=ring_fields, fresh=keep)
    for ap in (True, False):
        a = dict(includeAperture=const(ap))
        ctx.same_effects("C20.ring", RING, ("response", "model_ring"), a, floor=3, fresh=keep, only=lambda s, b, k: s == "attr")
        ctx.same_return("C20.ring", RING, ("response", "model_ring"), a)

from vsa.terms import const, NONE, FALSE, T
from vsa.rulekit import SIM
from vsa.rewrite import padded

TITLE = "Tracked fields after an update compared with the composition formula, for masters and their children."
RULES = ["C11.cavity: Voltage, Frequency, TimeLag = setpoint*(1+calibration)+offset for all registered or the given cavities.",
         "C11.magnet: PolynomA/B, KickAngle and MaxOrder of a magnet and of every child equal the reference composition.",
         "C11.sys: systematic tables are stored per source component and order with the main component zeroed.",
         "C11.random: random multipole offsets accumulate and are drawn once per element."]
PAD, RND = "utils.classdef_tools:add_padded", "utils.sc_tools:randnc"


def check(ctx):
    for lab, o in (("all", {"ords": NONE}), ("given", {})):
        ctx.same_effects("C11.cavity", SIM + "update_cavities", ("fields", "update_cavities"), o, label=lab, floor=3)
        ctx.same_effects("C11.magnet", SIM + "update_magnets", ("fields", "update_magnets"), o, pure=[PAD], label=lab, floor=8, rewrite=padded)
    for sk in (True, False):
        ctx.same_effects("C11.sys", SIM + "set_systematic_multipole_errors", ("fields", "set_systematic_multipole_errors"), dict(skewness=const(sk)), floor=2)
    ctx.same_effects("C11.random", SIM + "set_random_multipole_errors", ("fields", "set_random_multipole_errors"), {}, prims=[RND], pure=[PAD], floor=2, rewrite=padded)

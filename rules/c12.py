from vsa.rulekit import SIM
from vsa.terms import TRUE, FALSE

TITLE = "Effects of the support update and of the element transformation compared with the reference."
RULES = ["C12.update: support offset and roll of every registered magnet and BPM, the transformation and its copies to the children, per update switch.",
         "C12.transform: T1, R1, T2, R2 computed from support plus individual misalignment, length and bending angle.",
         "C12.total: total offset and roll of all support types at the requested positions.",
         "C12.interp: linear interpolation of one support type between start and end points, across the injection point."]
INT = "utils.classdef_tools:s_interpolation"
TR, SOR = "utils.sc_tools:update_transformation", SIM + "support_offset_and_roll"


def check(ctx):
    for b in (TRUE, FALSE):
        for m in (TRUE, FALSE):
            a = {"offset_bpms": b, "offset_magnets": m}
            ctx.same_effects("C12.update", SIM + "update_supports", ("supports", "update_supports"), a, pure=[SOR], floor=0)
            ctx.same_calls("C12.update", SIM + "update_supports", ("supports", "update_supports"), [SOR], a, pure=[SOR])
    ctx.same_effects("C12.transform", TR, ("supports", "update_transformation"))
    ctx.same_return("C12.transform", TR, ("supports", "update_transformation"))
    ctx.same_return("C12.total", SOR, ("supports", "support_offset_and_roll"), pure=[INT], skeleton=True)
    ctx.same_return("C12.interp", INT, ("supports", "s_interpolation"), skeleton=True)

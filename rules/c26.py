"""Measured responses are reading changes per setpoint change that was made."""
from vsa.rulekit import SIM
from vsa.terms import T, num

TITLE = "Measured responses and dispersion: each column is the reading change per setpoint change of its own corrector."
RULES = ["C26.response: the returned matrix equals the reference definition (value numbering).",
         "C26.steps: the corrector and cavity setpoints of the scan are those of the reference definition.",
         "C26.dispersion: the returned dispersion equals the reference definition."]
R = "lattice_properties.response_measurement:"
READ = "core.beam:bpm_reading"
SETS = [SIM + "set_cm_setpoints", SIM + "set_cavity_setpoints"]
PRIMS = [READ, SIM + "get_cm_setpoints"] + SETS


def one(ctx, rule, q, ref, args=None, steps=True):
    if ctx.prog.func(q) is None:
        return
    t = {"SC": ctx.sc_type}
    ctx.same_return(rule, q, ("measure", ref), args, prims=PRIMS, types=t, skeleton=True)
    if steps:
        ctx.same_calls("C26.steps", q, ("measure", ref), SETS, args, prims=PRIMS, types=t, loose=True)


def check(ctx):
    c = lambda v: T("const", v)
    for mode in ("fixedKick", "fixedOffset"):
        ctx.section(one, "C26.response", R + "response_matrix", "response", {"mode": c(mode), "n_steps": num(2)})
    ctx.section(one, "C26.response", R + "response_matrix", "response", {"mode": c("fixedKick"), "n_steps": num(5)})
    ctx.section(one, "C26.dispersion", R + "dispersion", "dispersion", {"n_steps": num(2)})
    ctx.section(one, "C26.dispersion", R + "dispersion", "dispersion", {"n_steps": num(5)})
    ctx.section(one, "C26.response", "correction.loco:measure_closed_orbit_response_matrix", "orbit_response")

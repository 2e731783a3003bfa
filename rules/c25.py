"""Every correction applies the correction it computed, with the sign that reduces the error."""
from vsa.rulekit import SIM
from vsa.terms import T

TITLE = "Each correction applies the negative of the measured error through the inverse of the response, to the right correctors."
RULES = ["C25.orbit: the corrector (and cavity) changes of a correction step are those of the reference definition (value numbering).",
         ]
O = "correction.orbit_trajectory:"
READ = "core.beam:bpm_reading"
PINV = "utils.sc_tools:pinv"
CM, CAV, MAG = SIM + "set_cm_setpoints", SIM + "set_cavity_setpoints", SIM + "set_magnet_setpoints"


def orbit(ctx, name, ref, args=None, label=""):
    q = O + name
    if ctx.prog.func(q) is None:
        return
    ctx.same_calls("C25.orbit", q, ("orbit", ref), [CM, CAV], args, prims=[READ, PINV, CM, CAV], types={"SC": ctx.sc_type}, label=label, loose=True)


def steps(ctx, rule, q, ref, callees, args=None):
    if ctx.prog.func(q) is None:
        return
    ctx.same_calls(rule, q, ("steps", ref), callees, args, prims=[READ, CM, CAV, MAG], types={"SC": ctx.sc_type}, loose=True)

def check(ctx):
    c = lambda v: T("const", v)
    ctx.section(orbit, "first_turn", "first_turn")
    ctx.section(orbit, "stitch", "stitch")
    ctx.section(orbit, "balance", "balance")
    ctx.section(orbit, "correct", "correct", {"scaleDisp": c(0)})
    ctx.section(orbit, "correct", "correct", None)
    off = {"plot_results": c(False), "plot_progress": c(False)}
    ctx.section(steps, "C25.rf", "correction.rf:correct_rf_phase", "rf_phase", [CAV], off)
    ctx.section(steps, "C25.rf", "correction.rf:correct_rf_frequency", "rf_frequency", [CAV], off)
    ctx.section(steps, "C25.tune", "correction.tune:fit_tune", "fit_tune", [MAG])
    ctx.section(steps, "C25.tune", "correction.chroma:fit_chroma", "fit_chroma", [MAG])
    ctx.section(steps, "C25.loco", "correction.loco:set_correction", "loco_set", [MAG])
    ctx.section(injection)


def injection(ctx):
    for name, ref, arg in (("fit_injection_drift", "injection_drift", {}), ("fit_injection_trajectory", "injection_trajectory", {})):
        q = "correction.injection_fit:" + name
        if ctx.prog.func(q) is None:
            continue
        args = {"plot": T("const", False)}
        t = {"SC": ctx.sc_type}
        ctx.same_return("C25.injection", q, ("steps", ref), args, prims=[READ], types=t, skeleton=True)
        ctx.same_effects("C25.injection", q, ("steps", ref), args, prims=[READ], types=t, only=lambda sort, base, key: key == "Z0", floor=0, loose=True)

from vsa.rulekit import SIM
from vsa.terms import const, NONE, T

TITLE = "Invalid options and inconsistent lengths are rejected before anything the caller can see has changed."
RULES = ["C18.option: with a value outside the documented set every path raises, and no lattice element, setpoint, injection setting or registration is written on any path before.",
         "C18.length: under the reference condition (lengths or shapes do not match, required mode or turns not set) every path raises before any write."]
O = "correction.orbit_trajectory:"
R = "lattice_properties.response_model:"
M = "lattice_properties.response_measurement:"
READ, GETCM = "core.beam:bpm_reading", SIM + "get_cm_setpoints"
WRITE = [SIM + x for x in ("set_cm_setpoints", "set_magnet_setpoints", "set_cavity_setpoints", "update_magnets", "update_cavities", "update_supports")]
TRACK = ["utils.at_wrapper:lattice_track", "utils.at_wrapper:findorbit6", "utils.at_wrapper:findorbit4", "utils.at_wrapper:findspos", "core.beam:bpm_reading", "core.beam:beam_transmission",
         "core.beam:generate_bunches", "utils.sc_tools:randnc", "utils.sc_tools:pinv"]
BAD = ("absolute", "ABS", "", "multiply")


def check(ctx):
    sc = ctx.sc_type
    t = {"SC": sc}
    # setting methods and cavity parameters
    for bad in BAD:
        for sk in (False, True):
            ctx.rejects("C18.option", SIM + "set_cm_setpoints", dict(method=const(bad), skewness=const(sk)), label=f"setting method '{bad}'", prims=WRITE)
        ctx.rejects("C18.option", SIM + "set_magnet_setpoints", dict(method=const(bad)), label=f"setting method '{bad}'", prims=WRITE)
        ctx.rejects("C18.option", SIM + "set_cavity_setpoints", dict(method=const(bad)), label=f"setting method '{bad}'", prims=WRITE)
    for bad in ("Volt", "frequency", "VoltageSetPoint", "Phase"):
        for m in ("abs", "rel", "add"):
            ctx.rejects("C18.option", SIM + "set_cavity_setpoints", dict(param=const(bad), method=const(m)), label=f"cavity parameter '{bad}', method {m}", prims=WRITE)
    # tracking modes
    inj = ctx.prog.cls("Injection")
    f = ctx.prog.find_setter(inj, "trackMode") if inj is not None else None
    if f is not None:
        for bad in ("XYZ", "orb", "", "TBTX"):
            ctx.rejects("C18.option", f.qual, {f.params()[1]: const(bad)}, label=f"tracking mode '{bad}'")
    for fn in ("SCgetModelRM", "SCgetModelDispersion"):
        for bad in ("tbt", "PORB", "XYZ"):
            for ideal in (True, False):
                ctx.rejects("C18.option", R + fn, dict(trackMode=const(bad), useIdealRing=const(ideal)), t, f"track mode '{bad}', ideal {ideal}", prims=TRACK)
    # lattice tools
    for bad in ("relative", "", "ABS"):
        ctx.rejects("C18.option", "utils.sc_tools:scale_circumference", dict(mode=const(bad)), {"RING": "at:Lattice"}, f"scaling mode '{bad}'", prims=TRACK)
    for c in (("radiation",), ("cavityoff", "cavity"), ("radiationoff", "cavityONN"), ("",)):
        ctx.rejects("C18.option", "core.lattice_setting:switch_cavity_and_radiation", dict(args=T("tuple", *[const(x) for x in c])), {"ring": "at:Lattice"}, "unknown switch in " + ", ".join(c))
    for bad in ("girder", "Support", "", "BPM"):
        ctx.rejects("C18.option", SIM + "register_supports", dict(support_type=const(bad)), label=f"support type '{bad}'")
    kinds = ("list", "dict", "tuple")
    for bad in ("orb", "PORB", "x"):
        ctx.rejects("C18.option", "matlab_index:SCBBA", dict(kwargs=T("dict", ((const("mode"), const(bad)),))), t, f"BBA mode '{bad}'", prims=["correction.bba:trajectory_bba", "correction.bba:orbit_bba"])
    for bad in ("fit", "drift", ""):
        ctx.rejects("C18.option", "matlab_index:SCfitInjectionZ", dict(mode=const(bad)), t, f"injection fit mode '{bad}'",
                    prims=["correction.injection_fit:fit_injection_drift", "correction.injection_fit:fit_injection_trajectory"])
    # lengths and shapes
    D = dict(reference=NONE, scaleDisp=const(0))

    def has(fn, a):
        ps = ctx.func(fn).params() if ctx.prog.func(fn) is not None else []
        return {k: v for k, v in a.items() if k in ps}

    for fn, two in (("first_turn", False), ("stitch", True), ("balance", True), ("correct", False)):
        pr = TRACK + WRITE + [GETCM]
        g2 = ("two_turns",) if two else ()
        for lab, a in (("default", dict(bpm_ords=NONE, cm_ords=NONE)), ("given", {})):
            x = has(O + fn, dict(D, **a))
            ctx.rejects_if("C18.length", O + fn, ("options", "rows"), x, t, f"rows of the response matrix, {lab} ordinates", prims=pr, given=g2 + ("columns_match",))
            ctx.rejects_if("C18.length", O + fn, ("options", "columns"), x, t, f"columns of the response matrix, {lab} ordinates", prims=pr, given=g2 + ("rows_match",))
        ctx.rejects_if("C18.length", O + fn, ("options", "reference_length"), has(O + fn, dict(scaleDisp=const(0))), t, "length of the reference", prims=pr, given=g2 + ("columns_match", "rows_match"))
        if two:
            ctx.rejects_if("C18.length", O + fn, ("options", "not_two_turns"), has(O + fn, D), t, "other than two turns", prims=pr, given=("columns_match", "rows_match"))
    for m in ("abs", "rel", "add"):
        for fn in ("set_cm_setpoints", "set_magnet_setpoints", "set_cavity_setpoints"):
            for pred in ("lengths", "more_setpoints", "few_setpoints"):
                ctx.rejects_if("C18.length", SIM + fn, ("options", pred), dict(method=const(m), **({"param": const("Voltage")} if fn == "set_cavity_setpoints" else {"skewness": const(False)})),
                               None, f"lengths of ordinates and setpoints ({pred}), method {m}", prims=WRITE)
    for fn in ("set_systematic_multipole_errors", "set_random_multipole_errors"):
        ctx.rejects_if("C18.length", SIM + fn, ("options", "table_of_vectors"), {}, None, "dimensions of the multipole table", prims=TRACK)
        ctx.rejects_if("C18.length", SIM + fn, ("options", "wide_table"), {}, None, "columns of the multipole table", prims=TRACK, given=("table_is_two_dimensional",))
    RM = M + "response_matrix"
    ctx.rejects_if("C18.length", RM, ("options", "amplitude_lengths"), {}, t, "amplitudes per corrector", prims=TRACK + WRITE + [GETCM])
    ctx.rejects_if("C18.length", RM, ("options", "other_first"), {}, t, "amplitudes of the horizontal correctors", prims=TRACK + WRITE + [GETCM], given=("second_plane_match",))
    ctx.rejects_if("C18.length", RM, ("options", "other_second"), {}, t, "amplitudes of the vertical correctors", prims=TRACK + WRITE + [GETCM], given=("first_plane_match",))
    B = "correction.bba:"
    for fn, pred, lab, given in (("trajectory_bba", "bba_shapes", "shapes of BPM and magnet ordinates", ("tbt", "two_turns")), ("orbit_bba", "bba_shapes", "shapes of BPM and magnet ordinates", ()),
                                 ("trajectory_bba", "other_columns", "numbers of BPM and magnet ordinates", ("tbt", "two_turns", "same_planes")),
                                 ("orbit_bba", "other_columns", "numbers of BPM and magnet ordinates", ("same_planes",)),
                                 ("trajectory_bba", "not_tbt", "orbit mode", ("two_turns", "same_shapes")), ("trajectory_bba", "not_two_turns", "other than two turns", ("tbt", "same_shapes")),
                                 ("orbit_bba", "is_tbt", "turn-by-turn mode", ("same_shapes",))):
        ctx.rejects_if("C18.length", B + fn, ("options", pred), dict(kwargs=T("dict", ())), t, lab, prims=TRACK + WRITE + [GETCM], given=given)
    for o in (3, 5):
        for fn in ("trajectory_bba", "orbit_bba"):
            ctx.rejects("C18.option", B + fn, dict(kwargs=T("dict", ((const("fit_order"), const(o)),))), t, f"fit order {o}", prims=TRACK + WRITE + [GETCM])
    F = "correction.rf:"
    for fn in ("correct_rf_phase", "correct_rf_frequency"):
        for pred, lab, given in (("few_turns", "too few turns", ("tbt", "enough_steps")), ("not_tbt", "orbit mode", ("five_turns", "enough_steps")), ("few_steps", "too few steps", ("tbt", "five_turns"))):
            ctx.rejects_if("C18.length", F + fn, ("options", pred), {}, t, lab, prims=TRACK + WRITE, given=given)
    ctx.floor("rejections analysed", 60)

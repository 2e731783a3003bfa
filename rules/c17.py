from vsa.rulekit import SIM
from vsa.terms import const, num, NONE, T

TITLE = "Every MATLAB-style function calls its counterpart with its parameters and returns what the reference forwarding returns."
RULES = ["C17.forward: the counterpart is called with every parameter forwarded to the parameter of the same meaning (one-based numbers translated), and the settings and the result are those of the reference forwarding.",
         "C17.default: the default of a forwarded parameter equals that of the counterpart.",
         "C17.reject: a one-based plane or type other than 1 or 2 raises before anything changes."]
X = "matlab_index:"
O, M, R = "correction.orbit_trajectory:", "lattice_properties.response_measurement:", "lattice_properties.response_model:"
P, U = "plotting.", "utils.sc_tools:"
A = "lattice_properties.apertures:"
RMP = "correction.ramp_errors:SCrampUpErrors"
# name -> (counterparts, {parameter of the name: parameter of the counterpart})
FORWARD = {
    "SCapplyErrors": ([SIM + "apply_errors"], dict(nsigmas="nsigmas")),
    "SCBBA": (["correction.bba:trajectory_bba", "correction.bba:orbit_bba"], {}),
    "SCcronoff": (["core.lattice_setting:switch_cavity_and_radiation"], {}),
    "SCdynamicAperture": ([A + "SCdynamicAperture"], {k: k for k in "bounds nturns thetas accuracy launchOnOrbit centerOnOrbit useOrbit6 auto plot".split()}),
    "SCfeedbackBalance": ([O + "balance"], dict(R0="reference", CMords="cm_ords", BPMords="bpm_ords", eps="eps", maxsteps="maxsteps")),
    "SCfeedbackFirstTurn": ([O + "first_turn"], dict(R0="reference", CMords="cm_ords", BPMords="bpm_ords", maxsteps="maxsteps")),
    "SCfeedbackRun": ([O + "correct"], dict(R0="reference", CMords="cm_ords", BPMords="bpm_ords", eps="eps", target="target", maxsteps="maxsteps", scaleDisp="scaleDisp")),
    "SCfeedbackStitch": ([O + "stitch"], dict(R0="reference", CMords="cm_ords", BPMords="bpm_ords", nBPMs="n_bpms", maxsteps="maxsteps")),
    "SCfitInjectionZ": (["correction.injection_fit:fit_injection_trajectory", "correction.injection_fit:fit_injection_drift"], dict(nDims="n_dims", nBPMs="bpm_inds", plotFlag="plot")),
    "SCgenBunches": (["core.beam:generate_bunches"], {}),
    "SCgetBeamTransmission": (["core.beam:beam_transmission"], dict(nParticles="nParticles", nTurns="nTurns", plotFlag="plot")),
    "SCgetBPMreading": (["core.beam:bpm_reading"], dict(BPMords="bpm_ords")),
    "SCgetCMSetPoints": ([SIM + "get_cm_setpoints"], {}),
    "SCgetCOD": (["lattice_properties.magnet_orbit:SCgetCOD"], dict(ords="ords", plot="plot")),
    "SCgetDispersion": ([M + "dispersion"], dict(BPMords="bpm_ords", CAVords="cav_ords", nSteps="n_steps")),
    "SCgetModelDispersion": ([R + "SCgetModelDispersion"], {k: k for k in "trackMode Z0 nTurns rfStep useIdealRing".split()}),
    "SCgetModelRING": ([R + "SCgetModelRING"], dict(includeAperture="includeAperture")),
    "SCgetModelRM": ([R + "SCgetModelRM"], {k: k for k in "trackMode Z0 nTurns dkick useIdealRing".split()}),
    "SCgetOrds": ([U + "ords_from_regex"], {}),
    "SCgetPinv": ([U + "pinv"], dict(N="num_removed", alpha="alpha", damping="damping", plot="plot")),
    "SCgetRespMat": ([M + "response_matrix"], dict(mode="mode", nSteps="n_steps")),
    "SCgetSupportOffset": ([SIM + "support_offset_and_roll"], {}),
    "SCgetSupportRoll": ([SIM + "support_offset_and_roll"], {}),
    "SCinit": ([], {}),
    "SCmomentumAperture": ([A + "SCmomentumAperture"], dict(nturns="nturns", accuracy="accuracy", stepsize="stepsize", plot="plot")),
    "SCmultipolesRead": ([U + "read_multipoles"], {}),
    "SCplotBPMreading": (["core.beam:bpm_reading"], {}),
    "SCplotCMstrengths": ([P + "plot_lattice:plot_cm_strengths"], {}),
    "SCplotLattice": ([P + "plot_lattice:plot_lattice"], dict(oList="indices", sRange="s_range")),
    "SCplotPhaseSpace": ([P + "plot_phase_space:plot_phase_space"], dict(ord="ords", customBunch="custom_bunch", nParticles="nParticles", nTurns="nTurns", plotCO="plotCO")),
    "SCplotSupport": ([P + "plot_support:plot_support"], dict(fontSize="font_size", xLim="x_lim")),
    "SCpseudoBBA": (["correction.bba:fake_bba"], {}),
    "SCrampUpErrors": ([RMP], {k: k for k in "nStepsRamp eps target alpha maxsteps".split()}),
    "SCrandnc": ([U + "randnc"], dict(cut_off="cut_off", shape="shape")),
    "SCregisterBPMs": ([SIM + "register_bpms"], {}),
    "SCregisterCAVs": ([SIM + "register_cavities"], {}),
    "SCregisterMagnets": ([SIM + "register_magnets"], {}),
    "SCregisterSupport": ([SIM + "register_supports"], {}),
    "SCSanityCheck": ([SIM + "verify_structure"], {}),
    "SCscaleCircumference": ([U + "scale_circumference"], dict(mode="mode")),
    "SCsetCavs2SetPoints": ([SIM + "set_cavity_setpoints"], dict(mode="method")),
    "SCsetCMs2SetPoints": ([SIM + "set_cm_setpoints", SIM + "get_cm_setpoints"], dict(mode="method")),
    "SCsetMags2SetPoints": ([SIM + "set_magnet_setpoints"], dict(method="method", dipCompensation="dipole_compensation")),
    "SCsetMultipoles": ([SIM + "set_random_multipole_errors", SIM + "set_systematic_multipole_errors"], {}),
    "SCsynchEnergyCorrection": (["correction.rf:correct_rf_frequency"], dict(cavOrd="cav_ords", f_range="f_range", nSteps="n_steps", plotResults="plot_results", plotProgress="plot_progress")),
    "SCsynchPhaseCorrection": (["correction.rf:correct_rf_phase"], dict(cavOrd="cav_ords", nSteps="n_steps", plotResults="plot_results", plotProgress="plot_progress")),
    "SCtuneScan": (["correction.tune:tune_scan"], dict(plotFlag="do_plot", nParticles="nParticles", nTurns="nTurns", target="target", fullScan="full_scan")),
    "SCupdateCAVs": ([SIM + "update_cavities"], dict(ords="ords")),
    "SCupdateMagnets": ([SIM + "update_magnets"], dict(ords="ords")),
    "SCupdateSupport": ([SIM + "update_supports"], dict(BPMstructOffset="offset_bpms", MAGstructOffset="offset_magnets")),
}
kw = lambda *ks: T("dict", tuple((const(k), v if v is not None else T("param", "value_of_" + k)) for k, v in ks))
CASES = {
    "SCBBA": [dict(kwargs=kw(("mode", const("TBT")), ("fit_order", None))), dict(kwargs=kw(("mode", const("ORB")), ("fit_order", None)))],
    "SCcronoff": [dict(args=T("tuple", const("cavityon"))), dict(args=T("tuple", const("cavityoff"), const("radiationoff")))],
    "SCregisterBPMs": [dict(kwargs=kw(("Noise", None), ("Roll", None)))],
    "SCregisterCAVs": [dict(kwargs=kw(("VoltageOffset", None)))],
    "SCregisterMagnets": [dict(kwargs=kw(("HCM", None), ("MagnetRoll", None)))],
    "SCregisterSupport": [dict(kwargs=kw(("Offset", None)), support_type=const("Girder"))],
    "SCfitInjectionZ": [dict(mode=const("fitTrajectory")), dict(mode=const("injectionDrift"))],
    "SCgetRespMat": [dict(fit=const("linear")), dict(fit=const("quadratic"))],
    "SCgetCMSetPoints": [dict(nDim=num(1)), dict(nDim=num(2))],
    "SCsetCMs2SetPoints": [dict(nDim=num(1)), dict(nDim=num(2))],
    "SCsetMags2SetPoints": [dict(type=num(t), order=num(o)) for t in (1, 2) for o in (1, 2, 3)] + [dict(type=num(1))],
    "SCsetMultipoles": [dict(method=const("rnd"), type=NONE), dict(method=const("rnd"), type=num(1))] + [dict(method=const("sys"), type=num(t), order=num(o)) for t in (1, 2) for o in (1, 3)],
}


def check(ctx):
    t = {"SC": ctx.sc_type}
    found = 0
    for name, (calls, same) in FORWARD.items():
        if ctx.prog.func(X + name) is None:
            continue                              # (a name that is no longer offered forwards nothing)
        found += 1
        for a in CASES.get(name, [{}]):
            lab = ", ".join(f"{k} specialised" if v.op == "dict" else f"{k}={'/'.join(str(x.args[0]) for x in v.args) if v.op == 'tuple' else v.args[0]}" for k, v in a.items()) or "any arguments"
            if calls:
                ctx.same_calls("C17.forward", X + name, ("matlab", name), calls, args=a, prims=calls, types=t, label=lab,
                               states=lambda n: n in ("nTurns", "plot"))
            ctx.same_return("C17.forward", X + name, ("matlab", name), args=a, prims=calls, types=t, label=lab)
            ctx.same_effects("C17.forward", X + name, ("matlab", name), args=a, prims=calls, types=t, label=lab, floor=0)
        for c in calls:
            for p, q in same.items():
                ctx.same_default("C17.default", X + name, p, c, q)
    for bad in (0, 3, -1):
        ctx.rejects("C17.reject", X + "SCgetCMSetPoints", dict(nDim=num(bad)), t, f"nDim {bad}", prims=FORWARD["SCgetCMSetPoints"][0])
        ctx.rejects("C17.reject", X + "SCsetCMs2SetPoints", dict(nDim=num(bad)), t, f"nDim {bad}", prims=FORWARD["SCsetCMs2SetPoints"][0])
        ctx.rejects("C17.reject", X + "SCsetMags2SetPoints", dict(type=num(bad)), t, f"type {bad}", prims=FORWARD["SCsetMags2SetPoints"][0])
        for m in ("rnd", "sys"):
            ctx.rejects("C17.reject", X + "SCsetMultipoles", dict(type=num(bad), method=const(m)), t, f"type {bad}, method {m}", prims=FORWARD["SCsetMultipoles"][0])
    for m in ("rnd", "sys"):
        ctx.rejects_if("C17.reject", X + "SCsetMultipoles", ("matlab", "not_a_table"), dict(type=num(1), method=const(m)), t, "a table that is not two-dimensional", prims=FORWARD["SCsetMultipoles"][0])
    ctx.count("names analysed", found)
    ctx.floor("names analysed", 30)

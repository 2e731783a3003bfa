from vsa.terms import const, NONE

TITLE = "BPM and all-element readings compared with the BPM error model."
RULES = ["C13.bpm: averaged BPM readings, sums and reading errors equal the reference BPM model for all or selected BPMs in every tracking mode.",
         "C13.all: all-element readings use the same BPM model and mask lost particles."]
B = "core.beam:"
TRACK, ORBIT, RND = "utils.at_wrapper:lattice_track", "utils.at_wrapper:findorbit6", "utils.sc_tools:randnc"
PRIMS = [TRACK, ORBIT, RND]


def check(ctx):
    for err in (False, True):
        for lab, o in (("all BPMs", dict(bpm_ords=NONE)), ("selected BPMs", {})):
            a = dict(o, calculate_errors=const(err))
            ctx.same_return("C13.bpm", B + "bpm_reading", ("beam", "bpm_reading"), a, prims=PRIMS, label=f"{lab}, errors {err}")
            ctx.same_calls("C13.bpm", B + "bpm_reading", ("beam", "bpm_reading"), PRIMS, a, prims=PRIMS, label=f"{lab}, errors {err}")
    ctx.same_return("C13.all", B + "all_elements_reading", ("beam", "all_elements_reading"), prims=PRIMS)
    ctx.same_calls("C13.all", B + "all_elements_reading", ("beam", "all_elements_reading"), PRIMS, prims=PRIMS)

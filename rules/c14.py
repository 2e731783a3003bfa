from vsa.terms import const, NONE

TITLE = "Bunch generation, transmission and the tracking-mode setter compared with their reference definitions."
RULES = ["C14.bunch: injection point + one common jitter + (more than one particle) beam distribution, passed through postFun.",
         "C14.transmission: requested or configured particles and turns tracked to the end of the lattice; surviving fraction and number of turns above threshold.",
         "C14.mode: unknown modes are rejected first, closed-orbit mode sets one turn and one particle."]
B = "core.beam:"
TRACK, RND = "utils.at_wrapper:lattice_track", "utils.sc_tools:randnc"


def check(ctx):
    for lab, n in (("default particles", dict(nParticles=NONE)), ("given particles", {})):
        ctx.same_return("C14.bunch", B + "generate_bunches", ("beam", "generate_bunches"), n, prims=[RND], label=lab)
        ctx.same_calls("C14.bunch", B + "generate_bunches", ("beam", "generate_bunches"), [RND], n, prims=[RND], label=lab)
        for lab2, t in (("default turns", dict(nTurns=NONE)), ("given turns", {})):
            a = dict(n, **t)
            ctx.same_return("C14.transmission", B + "beam_transmission", ("beam", "beam_transmission"), a, prims=[RND, TRACK], label=f"{lab}, {lab2}")
            ctx.same_calls("C14.transmission", B + "beam_transmission", ("beam", "beam_transmission"), [RND, TRACK], a, prims=[RND, TRACK], label=f"{lab}, {lab2}")
    inj = ctx.prog.cls("Injection")
    f = ctx.prog.find_setter(inj, "trackMode") if inj is not None else None
    if f is not None:
        name = f.qual.split(".", 1)[1] if f.qual.startswith("pySC.") else f.qual
        ctx.same_effects("C14.mode", f.qual, ("beam", "trackMode"), floor=3)
        ctx.same_raises("C14.mode", f.qual, ("beam", "trackMode"))
        from vsa.terms import const
        for bad in ("XYZ", "orb", ""):
            ctx.rejects("C14.mode", f.qual, {f.params()[1]: const(bad)}, label=f"unknown mode '{bad}'")
    else:
        ctx.undecide("tracking mode is not a property of the injection settings")

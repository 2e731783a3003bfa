from itertools import combinations
from vsa.terms import const, T

TITLE = "Pass methods after the lattice switches compared with the reference, for every combination of options."
RULES = ["C15.rf: exactly the addressed elements with a frequency get the cavity or identity pass method.",
         "C15.switch: for every combination of options exactly the listed pass methods are replaced by their counterpart, off wins over on, and the given lattice is returned."]
L = "core.lattice_setting:"
OPTS = ('radiationoff', 'radiationon', 'cavityoff', 'cavityon')


def check(ctx):
    t = {"ring": "at:Lattice"}
    for s in (True, False):
        ctx.same_effects("C15.rf", L + "switch_rf", ("lattice", "switch_rf"), dict(state=const(s)), types=t)
        ctx.same_return("C15.rf", L + "switch_rf", ("lattice", "switch_rf"), dict(state=const(s)), types=t)
    for n in range(5):
        for c in combinations(OPTS, n):
            a = dict(args=T("tuple", *[const(x) for x in c]))
            ctx.same_effects("C15.switch", L + "switch_cavity_and_radiation", ("lattice", "switch_cavity_and_radiation"), a, types=t, label=", ".join(c) or "no option", floor=0 if n == 0 else 1)
            ctx.same_return("C15.switch", L + "switch_cavity_and_radiation", ("lattice", "switch_cavity_and_radiation"), a, types=t, label=", ".join(c))
    for c in (("radiation",), ("cavityoff", "cavity"), ("radon", "radiationon"), ("cavityON",)):
        ctx.rejects("C15.switch", L + "switch_cavity_and_radiation", dict(args=T("tuple", *[const(x) for x in c])), types=t, label="unknown option in " + ", ".join(c))

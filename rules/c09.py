from vsa.rulekit import SIM
from vsa.terms import const, T

TITLE = "Effects of registration compared with the reference for every keyword set; unknown keywords rejected before any change."
RULES = ["C09.register: ordinate lists, stored uncertainties and initial element fields written by register_* equal the reference, for every set of keywords of a kind.",
         "C09.reject: with an unknown keyword, unknown support type or malformed ordinates every path raises before anything is written.",
         "C09.empty: a new object starts with empty ordinate lists and no uncertainties."]
BPM = ("Noise", "NoiseCO", "Offset", "Roll", "CalError", "SumError")
RF = tuple(p + f for p in ("Voltage", "Frequency", "TimeLag") for f in ("Offset", "CalError"))
TYPE = ("HCM", "VCM", "CF", "SkewQuad", "MasterOf")
ERR = ("MagnetOffset", "MagnetRoll", "CalErrorA", "CalErrorB", "BendingAngle")
SUP = ("Offset", "Roll")
SUPPORTS = ("Section", "Plinth", "Girder")
WRONG = {"register_bpms": ("noise", "MagnetOffset", "Gain", "SupportOffset"), "register_cavities": ("Voltage", "Offset", "PhaseOffset"),
         "register_magnets": ("Offset", "hcm", "CalError", "Roll"), "register_supports": ("CalError", "MagnetOffset", "offset", "GirderOffset")}


def kw(keys):
    return T("dict", tuple((const(k), T("param", "value_of_" + k)) for k in keys))


def sets(keys):
    return [()] + [(k,) for k in keys] + [keys]


def check(ctx):
    def run(fn, keys, label, **fixed):
        f = ctx.func(SIM + fn)
        name = f.params()[-1] if f.node.args.kwarg is None else f.node.args.kwarg.arg
        a = dict(fixed, kwargs=kw(keys))
        ctx.same_effects("C09.register", SIM + fn, ("registration", fn), args=a, label=label, floor=0 if not keys else 3)
        return name

    for fn, sk in (("register_bpms", sets(BPM)), ("register_cavities", sets(RF)),
                   ("register_magnets", sets(TYPE + ERR) + [("HCM", "VCM"), ("HCM", "CF", "MagnetOffset"), ("SkewQuad", "VCM"), ERR, TYPE])):
        for keys in sk:
            run(fn, keys, "keywords " + ", ".join(keys))
        good = sk[-1][:1]
        for bad in WRONG[fn]:
            for keys in ((bad,), good + (bad,), (bad,) + good):
                ctx.rejects("C09.reject", SIM + fn, dict(kwargs=kw(keys)), label="keywords " + ", ".join(keys))
    for s in SUPPORTS:
        for keys in sets(SUP):
            run("register_supports", keys, s + " with keywords " + ", ".join(keys), support_type=const(s))
        for bad in WRONG["register_supports"]:
            for keys in ((bad,), ("Offset", bad)):
                ctx.rejects("C09.reject", SIM + "register_supports", dict(support_type=const(s), kwargs=kw(keys)), label=s + " with keywords " + ", ".join(keys))
        ctx.rejects_if("C09.reject", SIM + "register_supports", ("registration", "not_two_rows"), dict(support_type=const(s), kwargs=kw(("Offset",))), label=s + " ordinates that are not 2 x n")
    ctx.rejects_if("C09.reject", SIM + "register_magnets", ("registration", "repeated"), dict(kwargs=kw(("MasterOf",))), label="repeated ordinates with MasterOf")
    ctx.same_return("C09.register", "utils.classdef_tools:update_double_ordinates", ("registration", "update_double_ordinates"))
    for cls, spec in (("Indices", "empty_indices"), ("Sigmas", "empty_sigmas")):
        ctx.same_effects("C09.empty", "core.classes:" + cls + ".__init__", ("registration", spec), label="new " + cls)
    ctx.floor("locations compared", 100)
    ctx.floor("rejections analysed", 30)

from rules.c02 import AT_METH, changed_arguments, same
from vsa.alias import sources, shown, method_calls
from vsa.effects import Effects
from vsa.finger import compare, unread
from vsa.rulekit import SIM
from vsa.terms import T, Term, show, is_const, const_value

TITLE = "Every write of a query reaches only objects that the query created, or the location holds its initial value when the query returns."
RULES = ["C03.write: no attribute, item or in-place write of a query (callees inlined, aliases and shallow copies followed) leaves the machine changed at a return.",
         "C03.external: no element or lattice of the machine is handed to a library operation that changes it in place."]
B, P = "core.beam:", "plotting."
OBSERVERS = [B + "bpm_reading", B + "all_elements_reading", B + "beam_transmission", B + "generate_bunches", B + "plot_transmission",
             SIM + "get_cm_setpoints", SIM + "support_offset_and_roll", SIM + "verify_structure", SIM + "very_deep_copy",
             "lattice_properties.response_model:SCgetModelRM", "lattice_properties.response_model:SCgetModelDispersion", "lattice_properties.response_model:SCgetModelRING",
             "lattice_properties.response_model:orbpass", "lattice_properties.magnet_orbit:SCgetCOD", "correction.tune:tune", "correction.rf:phase_and_energy_error",
             "correction.bba:plot_bba_results", "correction.bba:plot_bpm_offsets_from_magnets", "correction.bba:is_bba_errored",
             P + "plot_apertures:plot_data_apertures", P + "plot_apertures:plot_data_beta_disp", P + "plot_lattice:plot_lattice", P + "plot_lattice:plot_cm_strengths",
             P + "plot_phase_space:plot_phase_space", P + "plot_support:plot_support", P + "plot_synoptic:plot_synoptic",
             "utils.sc_tools:ords_from_regex", "utils.sc_tools:pinv", "lattice_properties.apertures:SCdynamicAperture", "lattice_properties.apertures:SCmomentumAperture",
             "correction.loco:model_beta_beat", "correction.tune:plot_scan"]
OBSERVERS += ["matlab_index:" + x for x in (
    "SCdynamicAperture", "SCgenBunches", "SCgetBeamTransmission", "SCgetBPMreading", "SCgetCMSetPoints", "SCgetCOD", "SCgetModelDispersion", "SCgetModelRING",
    "SCgetModelRM", "SCgetOrds", "SCgetPinv", "SCgetSupportOffset", "SCgetSupportRoll", "SCmomentumAperture", "SCplotBPMreading", "SCplotCMstrengths",
    "SCplotLattice", "SCplotPhaseSpace", "SCplotSupport", "SCSanityCheck", "SCcalcLatticeProperties")]
MACHINE = {"SC", "self", "sc"}


def check(ctx):
    for name in OBSERVERS:
        f = ctx.prog.func(name)
        if f is None:
            continue
        ctx.count("queries analysed")
        try:
            I = ctx.run(f)
        except Exception as e:
            ctx.undecide(f"{name}: {type(e).__name__} {e}")
            continue
        one(ctx, name, f, I)
    ctx.floor("queries analysed", 20)


def one(ctx, name, f, I):
    machine = {p for p in f.params() if p in MACHINE} | ({"RING", "ring"} & set(f.params()))

    def mine(t, at=None):
        return [s for s in sources(t, I, at=at) if s.root.op == "param" and s.root.args[0] in machine]

    eff = None
    short = name.split(":")[1]
    for e in I.events:
        if e.kind == "write" and isinstance(e.base, Term):
            ctx.count("writes")
            src = mine(e.base, e.n)
            if not src:
                continue
            if e.sort == "inplace" and e.base.op == "param":
                continue                                     # the parameter is a number or a list of the caller (C02)
            eff = eff or Effects(I, fresh=lambda t, J: not mine(t))
            if undone(I, eff, e):
                ctx.count("temporary changes undone")
                continue
            ctx.violation("C03.write", f"{short}:{field(src[0], e)}", f"{short} leaves {show(e.base, 5)}.{e.key if isinstance(e.key, str) else show(e.key, 4)} of the machine changed "
                          f"({shown(src[0])})", e.where)
        elif e.kind == "ecall":
            for _, a in changed_arguments(e):
                src = mine(a, e.n) if isinstance(a, Term) else []
                if src:
                    ctx.violation("C03.external", f"{short}:{e.name}", f"{short} lets {e.name} change {shown(src[0])} of the machine", e.where)
        elif e.kind in ("mcall", "ucall") and method_calls(e) is not None:
            recv, meth, kw = method_calls(e)
            if meth not in AT_METH:
                continue
            c = kw.get("copy")
            if c is None or is_const(c) and const_value(c) is False:
                src = mine(recv, e.n)
                if src:
                    ctx.violation("C03.external", f"{short}:{meth}", f"{short} calls .{meth}() on {shown(src[0])} of the machine", e.where)


def field(src, e):
    names = [n for k, n in src.path if k == "attr" and isinstance(n, str)]
    return ".".join(names + ([e.key] if isinstance(e.key, str) else []))


def undone(I, eff, e):
    if e.sort == "item" and isinstance(e.key, Term) and e.value is T("item", e.base, e.key):
        return True                                          # the same object is put back
    for l in eff.locs.values():
        if e not in l.events:
            continue
        if l.state is None:
            return True
        n = len(l.events)
        if l.kind == "attr" and not l.whole:
            return all(same(I, eff.value(l, k), T("item", l.term, k), n) for k in l.keys)
        return same(I, eff.value(l), l.term, n)
    return False

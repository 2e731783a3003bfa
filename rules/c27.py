"""Beam-based alignment applies only trusted offsets, to the BPM and plane they were measured for."""
from fractions import Fraction
from vsa.rulekit import SIM
from vsa.terms import T, num

TITLE = "Beam-based alignment changes a BPM offset only where the measured value is trusted, by that value."
RULES = ["C27.trust: an offset counts as failed exactly when it is NaN, an outlier or below its confidence limit (value numbering).",
         "C27.apply: the Offset fields written and the stored values are those of the reference definition.",
         "C27.result: both alignment procedures return the measured offsets and apply them through the same test."]
B = "correction.bba:"


def trust(ctx):
    q = B + "is_bba_errored"
    if ctx.prog.func(q) is not None:
        ctx.same_return("C27.trust", q, ("measure", "untrusted"), skeleton=True)
        ctx.same_return("C27.trust", q, ("measure", "untrusted"), {"bba_offsets": num(Fraction(1, 1000))}, skeleton=True)


def apply(ctx, name, ref, args=None):
    q = B + name
    if ctx.prog.func(q) is None:
        return
    ctx.same_effects("C27.apply", q, ("measure", ref), args, prims=["utils.sc_tools:randnc"], types={"SC": ctx.sc_type}, loose=True)


def check(ctx):
    none = T("const", None)
    ctx.section(trust)
    ctx.section(apply, "apply_bpm_offsets", "apply_offsets")
    ctx.section(apply, "fake_bba", "fake")
    ctx.section(apply, "fake_bba", "fake", {"errors": none})
    ctx.section(apply, "fake_bba", "fake", {"fake_offset": none})

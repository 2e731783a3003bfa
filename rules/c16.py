"""Corrections return only after their success criterion."""
import ast
import builtins

from vsa.finger import Valuation, call_names, compare
from vsa.query import functions, own, local_names, resolve
from vsa.rulekit import SIM
from vsa.terms import Term, T, TRUE, and_, or_, show, walk

TITLE = "Corrections return only under their success criterion evaluated on readings after the last corrector change."
RULES = ["C16.fresh: a return that can follow a corrector or cavity change is guarded by a condition on a reading taken after the last change.",
         "C16.criterion: that condition is the success criterion of the reference definition (value numbering).",
         "C16.steps: the loop that changes correctors runs at most maxsteps times.",
         "C16.nan: a fitted correction is applied or returned only after it was tested not to be NaN.",
         "C16.constructed: an exception that is constructed is raised, returned, stored or passed on."]
O = "correction.orbit_trajectory:"
READ = "core.beam:bpm_reading"
CHANGE = [SIM + "set_cm_setpoints", SIM + "set_cavity_setpoints", SIM + "set_magnet_setpoints"]
PINV = "utils.sc_tools:pinv"


def deps(t, I, seen=None):
    """Readings (the call tokens) a value depends on, through loop-carried variables."""
    seen = set() if seen is None else seen
    out = set()
    for x in walk(t):
        if x in seen:
            continue
        seen.add(x)
        if x.op == "at":
            out.add(x)
        elif x.op == "mu":
            st = I.loopstate.get(x.args[0])
            v = None
            if st is not None:
                v = st.env.get(x.args[1]) if isinstance(x.args[1], str) else st.content.get(x.args[1])
            if isinstance(v, Term) and v not in seen:
                out |= deps(I.val(v, st) if v.op == "cell" else v, I, seen)
    return out


def fresh_readings(I, ret, reads, changes):
    """Readings with no corrector change between them and the return; None when nothing was changed."""
    before = [c.n for c in changes if c.n < ret.n]
    around = [c.n for c in changes if c.n > ret.n and c.loops and ret.loops and c.loops[0] == ret.loops[0]]
    if before:
        last = max(before)
        return [r for r in reads if last < r.n < ret.n]
    if around:
        return [r for r in reads if r.n > max(around) and r.loops and r.loops[0] == ret.loops[0]] + [r for r in reads if r.n < ret.n and r.loops]
    return None


def tokens(events):
    return {x for e in events for x in getattr(e.result, "args", ()) if isinstance(x, Term) and x.op == "at"}


def criterion(I, reads, changes):
    """[(return event, condition on fresh readings or None)]"""
    out = []
    for e in I.events:
        if e.kind != "return" or e.stack and len(e.stack) > 1:
            continue
        fresh = fresh_readings(I, e, reads, changes)
        if fresh is None:
            continue
        tok = tokens(fresh)
        gs = [g for g in e.guards if g.kind in ("if", "raise") and deps(g.cond, I) & tok]
        e.tested = and_(*[g.cond for g in gs if g.kind == "if"])
        out.append((e, and_(*[g.cond for g in gs]) if gs else None))
    return out


def carried(t, I):
    V = Valuation(0, I, names=call_names(I))
    return {V.key(x) for x in walk(t) if x.op in ("mu", "eta", "comp", "extend", "while", "mapw")}


UNFAMILIAR = {"all", "any", "numpy.ptp", "numpy.unique", "numpy.array_equal", "numpy.allclose", "numpy.isclose", "numpy.diff", "set", "numpy.count_nonzero",
              "numpy.nanmax", "numpy.nanmin", "statistics.variance", "statistics.pvariance"}


def calls(t):
    return {x.args[0] for x in walk(t) if x.op in ("call", "pcall") and isinstance(x.args[0], str)}


def strip(c):
    """A condition met in some iteration of a loop is that of the iteration."""
    if c.op == "some":
        return strip(c.args[1])
    if c.op == "and":
        return and_(*[strip(x) for x in c.args])
    return c


def events(ctx, I):
    ch = set(ctx.quals(CHANGE))
    rd = set(ctx.quals([READ]))
    calls = [e for e in I.events if e.kind == "call"]
    return [e for e in calls if e.q in rd], [e for e in calls if e.q in ch]


def loops(ctx, name, ref, args=None, lab="any arguments"):
    t = {"SC": ctx.sc_type}
    if ctx.prog.func(O + name) is None:
        return
    code, spec = ctx.pair(O + name, ("orbit", ref), args, prims=[READ, PINV] + CHANGE, types=t)
    f = ctx.func(O + name)
    reads, changes = events(ctx, code)
    sreads, schanges = events(ctx, spec)
    ctx.count("readings", len(reads))
    ctx.count("corrector changes", len(changes))
    mine = criterion(code, reads, changes)
    ref_ = criterion(spec, sreads, schanges)
    ctx.count("returns analysed", len(mine))
    for e, c in mine:
        if c is None:
            ctx.violation("C16.fresh", f"{f.qual}:return", f"{f.qual} ({lab}) can return without evaluating a success criterion on readings taken after its last corrector change", e.where)
    for depth in sorted({len(e.loops) for e, _ in mine}):
        a = [c for e, c in mine if len(e.loops) == depth and c is not None]
        b = [c for e, c in ref_ if len(e.loops) == depth and c is not None]
        if not b:                               # (the reference returns elsewhere: from within the loop, or after it)
            a = [strip(c) for c in a]
            b = [c for e, c in ref_ if c is not None]
            if compare(or_(*a), code, or_(*[e.tested for e, c in ref_ if c is not None]), spec).same:
                continue
        where = next(e.where for e, _ in mine if len(e.loops) == depth)
        if not a:
            continue
        if not b:
            ctx.undecide(f"{f.qual} {lab}: returns at loop depth {depth}")
            continue
        x, y = or_(*a), or_(*b)
        ctx.count("success criteria compared")
        c = compare(x, code, y, spec)
        if c.valid and not c.same:
            if carried(x, code) - carried(y, spec) or (calls(x) - calls(y)) & UNFAMILIAR:
                ctx.undecide(f"{f.qual} {lab}: criterion {show(x, 5)[:200]}")
            else:
                ctx.violation("C16.criterion", f"{f.qual}:criterion", f"{f.qual} ({lab}) returns when {show(x, 8)[:400]} instead of {show(y, 8)[:400]} {c.detail}", where)
    # bound on the number of steps
    p = f.params()
    if "maxsteps" in p:
        m = T("param", "maxsteps")
        for L in sorted({e.loops[0] for e in changes if e.loops}):
            d = code.loopinfo.get(L, {}).get("domain")
            if d is None or d.op == "while" or any(x.op not in ("num", "poly", "param", "call") for x in walk(d)) or m not in set(walk(d)):
                if d is not None and d.op != "while" and m not in set(walk(d)):
                    continue                    # (a loop of another kind, such as wiggling)
                ctx.undecide(f"{f.qual}: number of steps")
                continue
            c = compare(d, code, m, spec)
            ctx.count("step bounds compared")
            if c.valid and not c.same:
                ctx.violation("C16.steps", f"{f.qual}:steps", f"{f.qual} changes correctors in {show(d, 5)} steps instead of at most maxsteps", code.loopinfo[L].get("path", "") + f":{code.loopinfo[L].get('line')}")


def nan_tests(t, neg=False, out=None):
    """(tested value, True if the condition excludes NaN)"""
    out = [] if out is None else out
    if t.op == "not":
        nan_tests(t.args[0], not neg, out)
    elif t.op == "fn" and t.args[0] in ("isnan", "isfinite"):
        out.append((t.args[1], neg if t.args[0] == "isnan" else not neg))
    else:
        for x in t.args:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, Term):
                    nan_tests(y, neg, out)
    return out


def fits(t):
    return {x.args[0] for x in walk(t) if x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[-1] in
            ("polyfit", "curve_fit", "fsolve", "fmin", "minimize", "lstsq", "least_squares")}


def excluded(ctx, I, f, e, v, what):
    """The guards of the event exclude that the value is NaN."""
    tests = [x for g in e.guards if g.kind in ("if", "raise", "ret") for x in nan_tests(g.cond)]
    ctx.count("applied corrections analysed")
    if not fits(v):
        ctx.undecide(f"{f.qual}: {what} does not come from a fit the analysis knows: {show(v, 4)[:120]}")
        return
    ok = False
    near = False
    for x, good in tests:
        if not fits(x):
            continue
        if good and compare(x, I, v, I).same:
            ok = True
        near = near or good
    if ok:
        return
    if near:
        ctx.undecide(f"{f.qual}: NaN test of another value derived from the fit")
        return
    ctx.violation("C16.nan", f"{f.qual}:{what}", f"{f.qual}: {what} is used without a test that it is a number ({show(v, 5)[:200]})", e.where)


def nan_rf(ctx, name, param):
    q = "correction.rf:" + name
    if ctx.prog.func(q) is None:
        return
    f = ctx.func(q)
    for plot in (True, False):
        I = ctx.run(q, dict(plot_results=T("const", plot)), prims=[READ] + CHANGE, types={"SC": ctx.sc_type})
        _, changes = events(ctx, I)
        last = [e for e in changes if not e.loops]
        for e in last:
            v = e.vals.get(e.func.params()[2])
            if v is not None:
                excluded(ctx, I, f, e, v, "the fitted cavity step")


def nan_injection(ctx, name):
    q = "correction.injection_fit:" + name
    if ctx.prog.func(q) is None:
        return
    f = ctx.func(q)
    I = ctx.run(q, dict(plot=T("const", False)), prims=[READ], types={"SC": ctx.sc_type})
    for e in I.events:
        if e.kind == "return" and len(e.stack) <= 1:
            v = I.val(e.value, e.state) if getattr(e, "state", None) is not None else I.val(e.value, I.final)
            excluded(ctx, I, f, e, v, "the fitted injection change")


def exception_class(prog, r, seen=()):
    if r is None:
        return False
    if r[0] == "ext":
        x = getattr(builtins, r[1].split(".")[-1], None) if r[1].startswith("builtins.") or "." not in r[1] else None
        return isinstance(x, type) and issubclass(x, BaseException)
    return False


def constructed(ctx):
    prog = ctx.prog
    for q, node, m in functions(prog):
        local = local_names(prog, m, node)

        def is_exc(call):
            if not isinstance(call, ast.Call):
                return None
            fn = call.func
            if isinstance(fn, ast.Name) and fn.id not in local:
                r = prog.resolve_name(m, fn.id)
                if (r is None or r[0] == "ext" and r[1].split(".")[0] in ("builtins", fn.id)) and isinstance(getattr(builtins, fn.id, None), type) and \
                        issubclass(getattr(builtins, fn.id), BaseException):
                    return fn.id
            r = resolve(prog, m, fn, local)
            if r is not None and r[0] == "class" and any(isinstance(getattr(builtins, ast.unparse(b).split(".")[-1], None), type) and
                                                          issubclass(getattr(builtins, ast.unparse(b).split(".")[-1]), BaseException) for b in r[1].node.bases):
                return ast.unparse(fn)
            return None
        loads = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        for n in own(node):
            if isinstance(n, ast.Call) and is_exc(n):
                ctx.count("exceptions constructed")
            if isinstance(n, ast.Expr) and is_exc(n.value):
                ctx.violation("C16.constructed", f"{q}:{is_exc(n.value)}", f"{q or m.name} constructs {is_exc(n.value)} without raising it", f"{m.path}:{n.lineno}")
            if isinstance(n, ast.Assign) and is_exc(n.value) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    n.targets[0].id not in loads and not isinstance(node, ast.Module):
                ctx.violation("C16.constructed", f"{q}:{is_exc(n.value)}", f"{q or m.name} constructs {is_exc(n.value)} without raising it", f"{m.path}:{n.lineno}")


def check(ctx):
    for name in ("first_turn", "stitch", "balance", "correct"):
        ctx.section(lambda c, n=name: loops(c, n, n))
    ctx.section(lambda c: loops(c, "_wiggling", "wiggling"))
    ctx.section(lambda c: nan_rf(c, "correct_rf_phase", "TimeLag"))
    ctx.section(lambda c: nan_rf(c, "correct_rf_frequency", "Frequency"))
    ctx.section(lambda c: nan_injection(c, "fit_injection_drift"))
    ctx.section(lambda c: nan_injection(c, "fit_injection_trajectory"))
    constructed(ctx)
    ctx.floor("exceptions constructed", 20)
    ctx.floor("returns analysed", 3)

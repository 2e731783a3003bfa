"""Shared driver of the property checks."""
import ast
import functools
import json
import os
import sys
import time

from .model import Program
from .interp import Interp, AnalysisLimit, Frame, State, UNDEF
from .terms import T, Term, TRUE, FALSE, NONE, and_, or_, not_, const, show, walk, subst
from .effects import Effects, compare_effects, is_fresh, root_of
from .finger import STRUCTURE, compare, unread, Valuation, call_names, _key, opaque

REPO = os.environ.get("VSA_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "core.simulated_commissioning:SimulatedCommissioning."


class Broken(Exception):
    """The analysis cannot be carried out (vanished anchor, too few instances)."""


class Violation:
    def __init__(self, rule, construct, msg, where=""):
        self.rule, self.construct, self.msg, self.where = rule, construct, msg, where

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


def guarded(m):
    """A rule that meets a construct the analysis does not model decides nothing."""
    @functools.wraps(m)
    def f(self, *a, **k):
        try:
            return m(self, *a, **k)
        except Broken:
            raise
        except Exception as e:
            self.undecide(f"{m.__name__} {[x for x in a if isinstance(x, str)][:2]}: {type(e).__name__} {e}")
            if os.environ.get("VSA_DEBUG"):
                raise
            return None, None
    return f


class Ctx:
    def __init__(self, prop, root=None):
        self.prop = prop
        self.root = root or REPO
        self.prog = Program(self.root)
        self.violations, self.notes, self.undecided = [], [], []
        self.counts, self.samples, self.functions = {}, [], set()
        self.rules = {}
        self.cache = {}
        if self.prog.errors:
            raise Broken("; ".join(self.prog.errors))

    # ------------------------------------------------------------ results
    def violation(self, rule, construct, msg, where=""):
        v = Violation(rule, construct, msg, where)
        if v.key not in {x.key for x in self.violations}:
            self.violations.append(v)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, name, n):
        if self.counts.get(name, 0) < n:
            raise Broken(f"only {self.counts.get(name, 0)} instances of '{name}' found, at least {n} confirmed by hand")

    def undecide(self, what):
        self.undecided.append(what)

    # ------------------------------------------------------------ anchors
    def func(self, dotted):
        f = self.prog.func(dotted)
        if f is None:
            raise Broken(f"anchor {dotted} not found")
        return f

    def qual(self, dotted):
        return self.func(dotted).qual

    def quals(self, names):
        """Qualified names of helpers that are kept as named operations (absent ones are inlined by their callers)."""
        out = []
        for x in names:
            f = self.prog.func(x)
            if f is not None:
                out.append(f.qual)
        return tuple(out)

    def spec(self, module):
        name = "spec." + module
        if name not in self.prog.modules:
            self.prog.add_source(name, os.path.join(HERE, "spec", module + ".py"))
        return name

    def specfunc(self, module, name):
        return self.prog.funcs[f"{self.spec(module)}:{name}"]

    @property
    def sc_type(self):
        c = self.prog.cls("SimulatedCommissioning")
        if c is None:
            raise Broken("class SimulatedCommissioning not found")
        return c.qual

    # ------------------------------------------------------------ analysis
    def run(self, func, args=None, prims=(), pure=(), types=None, havoc=None):
        f = func if not isinstance(func, str) else self.func(func)
        pr, pu = self.quals(prims), self.quals(pure)
        key = (f.qual, tuple(sorted((k, v) for k, v in (args or {}).items())) if args else (), pr, pu, tuple(sorted((types or {}).items())))
        key = (f.qual, tuple(sorted(((k, v.id) for k, v in (args or {}).items()))), pr, pu, tuple(sorted((types or {}).items())), havoc)
        if key in self.cache:
            return self.cache[key]
        I = Interp(self.prog, prims=[q for q in pr if q != f.qual], pure_prims=[q for q in pu if q != f.qual], havoc=havoc)
        I.run(f, args=args, types=types or {})
        self.cache[key] = I
        if not f.qual.startswith("spec."):
            self.functions.add(f.qual)
            self.functions |= {q for q in I.inlined if not q.startswith("spec.")}
            self.count("entry points analysed")
            self.count("events", len(I.events))
        return I

    def pair(self, dotted, spec, args=None, prims=(), pure=(), types=None, self_name="self"):
        """Analyse the function and its reference under the same abstraction."""
        code = self.run(dotted, args, prims, pure, types)
        mod, name = spec
        t = dict(types or {})
        f = self.func(dotted)
        sf = self.specfunc(mod, name)
        if f.cls is not None and not f.is_static:
            t.setdefault(sf.params()[0], f.cls.qual)
        if "SC" in sf.params():
            t.setdefault("SC", self.sc_type)
        ref = self.run(sf, args, prims, pure, t)
        return code, ref

    @guarded
    def same_effects(self, rule, dotted, spec, args=None, prims=(), pure=(), types=None, only=None, strict=True, label="", floor=1, rewrite=None, fresh=None, loose=False):
        """loose: locations and values that are built in another form (other loops, comprehensions, array updates) are undecided."""
        code, ref = self.pair(dotted, spec, args, prims, pure, types)
        ec, es = Effects(code, only, fresh), Effects(ref, only, fresh)
        if len(es.locs) < floor:
            raise Broken(f"reference {spec} has only {len(es.locs)} effects")
        diffs, n, und = compare_effects(ec, es, strict, rewrite=rewrite)
        f = self.func(dotted)
        self.count("locations compared", n)
        self.count("configurations analysed")
        lab = label or _lab(args)
        for d in diffs:
            if loose and self._other_form(d, diffs, ec, es):
                self.undecide(f"{f.qual} {lab}: {d.msg[:300]} (other form)")
                continue
            if d.kind == "missing" and (ec.opaque_writes or code.notes):
                self.undecide(f"{f.qual} {lab}: {d.msg}")
                continue
            self.violation(rule, f"{f.qual}:{d.loc.name if isinstance(d.loc.name, str) else show(d.loc.name, 3)}", f"{f.qual} ({lab}): {d.msg}", d.where or f.where)
        if und:
            self.undecide(f"{f.qual} {lab}: {und} values not interpreted")
        for k, l in list(es.locs.items())[:1]:
            self.sample(f"{f.qual} ({lab}): {l.show()} == {show(es.value(l), 6)[:200]}")
        return code, ref

    def _other_form(self, d, diffs, ec, es):
        """The difference may come from writing the same locations or values in another form."""
        stale = lambda v: any(x.op in ("attr", "item") and len(x.args) > 2 for x in walk(v))      # read after writes to unknown names
        if d.kind == "value":
            sl = es.locs.get(next((k for k, l in ec.locs.items() if l is d.loc), None))
            return sl is not None and (structure(ec.value(d.loc)) != structure(es.value(sl)) or stale(ec.value(d.loc)) and not stale(es.value(sl)))
        other = [x for x in diffs if x.kind in ("missing", "extra") and x.kind != d.kind]
        name = lambda l: l.name if isinstance(l.name, str) else None
        near = [x for x in other if name(x.loc) is None or name(d.loc) is None or name(x.loc) == name(d.loc)]
        return any(structure(x.loc.term) != structure(d.loc.term) or stale(x.loc.term) or stale(d.loc.term) for x in near)

    @guarded
    def same_return(self, rule, dotted, spec, args=None, prims=(), pure=(), types=None, label="", positive=None, part=None, skeleton=False):
        code, ref = self.pair(dotted, spec, args, prims, pure, types)
        return self.same_value(rule, dotted, code, ref, label or _lab(args), part, skeleton)

    def same_value(self, rule, dotted, code, ref, label="", part=None, skeleton=False):
        """skeleton: array updates and loops are compared only when both sides are built from the same kinds and
        numbers of them (their order and form is not normalised otherwise)."""
        f = self.func(dotted)
        a, b = retval(code), retval(ref)
        if part:
            a, b = part(a), part(b)
        pa, pb = raise_pre(code), raise_pre(ref)
        c = compare(a, code, b, ref, pa, pb)
        self.count("values compared")
        self.count("configurations analysed")
        self.sample(f"{f.qual} ({label}) returns {show(b, 6)[:220]}")
        if c.valid == 0:
            self.undecide(f"{f.qual} {label}: no valuation")
        elif not c.same:
            oa = unread([a], [b])
            if skeleton and structure(a) != structure(b):
                oa = "other structure"
            if oa:
                self.undecide(f"{f.qual} {label}: result not interpreted ({oa})")
            else:
                self.violation(rule, f.qual + ":return", f"{f.qual} ({label}) returns {show(a, 8)[:500]} instead of {show(b, 8)[:500]} {c.detail}", f.where)
        return code, ref

    @guarded
    def same_calls(self, rule, dotted, spec, callees, args=None, prims=(), pure=(), types=None, label="", drop=(), states=None, rewrite=None, loose=False):
        """Calls of the named callees: same arguments under the same conditions (and, with states,
        the same values of the locations selected by states(name) at the time of the call)."""
        code, ref = self.pair(dotted, spec, args, prims, pure, types)
        f = self.func(dotted)
        quals = set(self.quals(callees))
        a = [e for e in code.events if e.kind == "call" and e.q in quals]
        b = [e for e in ref.events if e.kind == "call" and e.q in quals]
        self.count("calls compared", len(b))
        lab = label or _lab(args)
        used = set()
        for r in b:
            best, form = None, False
            for i, e in enumerate(a):
                if i in used or e.q != r.q:
                    continue
                ok, why, und = self._same_call(e, code, r, ref, drop, loose)
                if ok and states:
                    ok, why, und = self._same_state(e, code, r, ref, states, rewrite)
                if ok:
                    used.add(i)
                    best = None
                    break
                if loose and und:
                    same = [[x for x in y if x.q == r.q] for y in (a, b)]
                    form = form or len(same[0]) != len(same[1]) or same[0].index(e) == same[1].index(r)
                if best is None or len(why) and why.startswith("it is called") < best[1].startswith("it is called"):
                    best = (e, why, und)
            else:
                if best and (best[2] or form):
                    self.undecide(f"{f.qual} {lab}: call of {r.name}")
                    continue
                self.violation(rule, f"{f.qual}:{r.name}", f"{f.qual} ({lab}): {r.name} is not called as required" + (f": {best[1]}" if best else " (no such call)"),
                               best[0].where if best else f.where)
        for i, e in enumerate(a):
            if i not in used and not any(e.q == r.q for r in b):
                self.violation(rule, f"{f.qual}:{e.name}", f"{f.qual} ({lab}): unexpected call of {e.name}", e.where)
        return code, ref

    def _same_call(self, e, code, r, ref, drop, loose=False):
        p1 = and_(*[g.cond for g in e.guards if g.kind == "raise"])
        p2 = and_(*[g.cond for g in r.guards if g.kind == "raise"])
        c1, c2 = e.cond(), r.cond()
        c = compare(c1, code, c2, ref, p1, p2)
        if not c.same:
            return False, f"it is called when {show(c1, 6)[:300]} instead of {show(c2, 6)[:300]}", bool(unread([c1], [c2])) or loose and structure(c1) != structure(c2)
        for k in dict.fromkeys(list(e.vals) + list(r.vals)):
            if k in drop:
                continue
            x, y = e.vals.get(k, NONE), r.vals.get(k, NONE)
            c = compare(x, code, y, ref, and_(p1, c1), and_(p2, c2))
            if not c.same and shortest(code, e) != shortest(ref, r):
                return False, f"{k} is {show(x, 6)[:300]} instead of {show(y, 6)[:300]}", True
            if not c.same:
                return False, f"{k} is {show(x, 6)[:300]} instead of {show(y, 6)[:300]}", bool(unread([x], [y])) or loose and structure(x) != structure(y)
        return True, "", False

    def _same_state(self, e, code, r, ref, states, rewrite):
        lc, ls = written(code, states), written(ref, states)
        pre1 = and_(*[g.cond for g in e.guards])
        pre2 = and_(*[g.cond for g in r.guards])
        for k in dict.fromkeys(list(lc) + list(ls)):
            vals = []
            for locs, I, ev in ((lc, code, e), (ls, ref, r)):
                if k not in locs:
                    vals.append(None)
                    continue
                base, name = locs[k]
                if any(x.op == "idx" and x.args[0] not in ev.loops for x in walk(base)):
                    vals.append("other")
                    continue
                v = I.val(I.read_attr(base, name, ev.state), ev.state)
                vals.append((v, T("attr", base, name)))
            if "other" in vals or vals == [None, None]:
                continue
            (x, y) = vals
            a, A = (x[0], code) if x else (y[1], ref)
            b, B = (y[0], ref) if y else (x[1], code)
            if rewrite:
                a, b = rewrite(a), rewrite(b)
            c = compare(a, A, b, B, pre1 if x else pre2, pre2 if y else pre1)
            if c.valid and not c.same:
                nm = show(T("attr", *(lc.get(k) or ls.get(k))), 6)
                return False, f"{nm} is {show(a, 7)[:300]} at that time instead of {show(b, 7)[:300]}", bool(unread([a], [b]))
        return True, "", False

    @guarded
    def same_raises(self, rule, dotted, spec, args=None, prims=(), pure=(), types=None, label=""):
        code, ref = self.pair(dotted, spec, args, prims, pure, types)
        f = self.func(dotted)
        a, b = raise_cond(code), raise_cond(ref)
        c = compare(a, code, b, ref)
        self.count("raise conditions compared")
        if not c.same:
            if unread([a], [b]):
                self.undecide(f"{f.qual} raise condition")
            else:
                self.violation(rule, f.qual + ":raise", f"{f.qual} ({label or _lab(args)}) raises when {show(a, 7)[:400]} instead of {show(b, 7)[:400]} {c.detail}", f.where)
        return code, ref


    # ------------------------------------------------------- direct rules
    @guarded
    def section(self, fn, *a, **k):
        return fn(self, *a, **k), None

    def defaults(self, dotted):
        """Values of the default arguments of a function."""
        f = self.func(dotted)
        I = Interp(self.prog)
        fr = Frame(f, f.module)
        out = {}
        I.rec = False
        for p, node in f.defaults().items():
            I.frames.append(fr)
            st = State()
            out[p] = I.val(I.eval(node, st), st)
            I.frames.pop()
        return out

    @guarded
    def same_defaults(self, rule, dotted, other, params):
        a, b = self.defaults(dotted), self.defaults(other)
        f = self.func(dotted)
        for p in params:
            if p in a and p in b:
                self.count("defaults compared")
                if a[p] is not b[p]:
                    self.violation(rule, f"{f.qual}:{p}", f"{f.qual}: the default of {p} is {show(a[p], 4)}, that of {other} is {show(b[p], 4)}", f.where)
        return None, None

    @guarded
    def same_default(self, rule, dotted, param, other, oparam):
        """The default of a forwarded parameter equals that of the parameter it is forwarded to."""
        if self.prog.func(dotted) is None or self.prog.func(other) is None:
            return None, None
        a, b = self.defaults(dotted), self.defaults(other)
        if param in a and oparam in b:
            self.count("defaults compared")
            if a[param] is not b[oparam] and not opaque(a[param]) and not opaque(b[oparam]):
                I = Interp(self.prog)
                if not compare(a[param], I, b[oparam], I).same:
                    f = self.func(dotted)
                    self.violation(rule, f"{f.qual}:{param}", f"{f.qual}: the default of {param} is {show(a[param], 4)}, that of {oparam} of {other} is {show(b[oparam], 4)}", f.where)
        return None, None

    @guarded
    def rejects(self, rule, dotted, args=None, types=None, label="", prims=(), pure=(), havoc=None):
        """With these arguments every path raises, and nothing the caller can see is written before."""
        I = self.run(dotted, args, prims, pure, types, havoc)
        f = self.func(dotted)
        lab = label or _lab(args)
        self.count("rejections analysed")
        self.sample(f"{f.qual} ({lab}) raises before any change")
        rc = raise_cond(I)
        if I.result is not None and I.result is not UNDEF:
            c = compare(rc, I, TRUE, I)
            if not c.same:
                if unread([rc], [TRUE]) or opaque(rc):
                    self.undecide(f"{f.qual} {lab}: raise condition {show(rc, 4)[:200]}")
                else:
                    self.violation(rule, f"{f.qual}:{lab}", f"{f.qual} ({lab}) can return normally: it raises only when {show(rc, 6)[:300]}", f.where)
        for e in I.events:
            if e.kind == "write" and visible(e, I) or e.kind == "call" and e.q in self.writers(I, prims):
                if any(opaque(g.cond) for g in e.guards):
                    self.undecide(f"{f.qual} {lab}: condition of a write")
                    continue
                # a write under a condition that excludes the invalid argument is not on a rejected path
                self.violation(rule, f"{f.qual}:{lab}:write", f"{f.qual} ({lab}) changes {wname(e) if e.kind == 'write' else 'the machine (' + e.name + ')'} before the invalid argument is rejected", e.where)
                break
        return I, None


    @guarded
    def rejects_if(self, rule, dotted, pred, args=None, types=None, label="", prims=(), pure=(), havoc=None, given=()):
        """Under the condition computed by the reference predicate every path raises, and nothing visible is written on it."""
        I = self.run(dotted, args, prims, pure, types, havoc)
        mod, name = pred
        f, sf = self.func(dotted), self.specfunc(mod, name)
        t = dict(types or {})
        if "SC" in sf.params():
            t.setdefault("SC", self.sc_type)
        if f.cls is not None and sf.params() and sf.params()[0] == "self":
            t.setdefault("self", f.cls.qual)
        ref = self.run(sf, {k: v for k, v in (args or {}).items() if k in sf.params()}, prims, pure, t, havoc)
        lab = label or name
        m = {}
        for g in given:
            gr = self.run(self.specfunc(mod, g), {k: v for k, v in (args or {}).items() if k in self.specfunc(mod, g).params()}, prims, pure, {k: v for k, v in t.items()}, havoc)
            for pair in retval(gr).args:
                m[pair.args[0]] = subst(pair.args[1], m)
        P = subst(truthy(retval(ref)), m)
        self.count("rejections analysed")
        self.sample(f"{f.qual} raises before any change when {show(P, 5)[:160]}")
        rc = subst(raise_cond(I), m)
        c = compare(rc, I, TRUE, ref, P, P)
        if c.valid == 0:
            self.undecide(f"{f.qual} {lab}: the condition is never met by the valuations")
            return I, ref
        for e in I.events:
            if e.kind == "call" and e.q in self.writers(I, prims) or e.kind == "write" and visible(e, I):
                ch = [subst(g.cond, m) for g in e.guards if g.kind == "raise"]
                pc = subst(and_(*[g.cond for g in e.guards]), m)
                if opaque(pc):
                    if any(opaque(x) and not any(y.op == "pcall" for y in walk(x)) for x in ch):   # (a measurement cannot validate an argument)
                        continue
                    pc = and_(*[x for x in [subst(g.cond, m) for g in e.guards] if not opaque(x)])
                d = compare(pc, I, FALSE, ref, P, P)
                self.count("writes checked against the rejection")
                if d.valid and not d.same:
                    self.violation(rule, f"{f.qual}:{lab}", f"{f.qual} with {lab} changes {wname(e) if e.kind == 'write' else 'the machine (' + e.name + ')'} before the invalid argument is rejected", e.where)
                    return I, ref
        if not c.same:
            if unread([rc], [P]) or opaque(rc):
                self.undecide(f"{f.qual} {lab}: raise condition {show(rc, 4)[:200]}")
            else:
                self.violation(rule, f"{f.qual}:{lab}", f"{f.qual} can return normally with {lab}: it raises only when {show(rc, 6)[:300]}", f.where)
        return I, ref

    def writers(self, I, prims):
        """Operations kept as calls that change the machine."""
        return {q for q in self.quals(prims) if q.split(".")[-1].split(":")[-1].startswith(("set_", "update_", "apply_", "register_"))}


def shortest(I, e):
    """Loops around the event that run over several sequences in parallel (their lengths are taken to be the same)."""
    return sum(1 for L in e.loops for x in ast.walk(getattr(I.loopinfo.get(L, {}).get("node"), "iter", None) or ast.Pass()) if isinstance(x, ast.Name) and x.id == "zip")


def truthy(v):
    from .terms import truth
    return truth(v)


def structure(t):
    """Kinds of operations a value is built from, with the numbers of its loops and array updates."""
    n, names = {}, set()
    for x in walk(t):
        if x.op in STRUCTURE or x.op == "upd":
            n[x.op] = n.get(x.op, 0) + 1
        elif x.op in ("call", "pcall", "view"):
            names.add((x.op, x.args[0] if isinstance(x.args[0], str) else x.args[1]))
    return n, names


def visible(e, I):
    base = e.base
    if not isinstance(base, Term):
        return False
    if e.sort == "attr" and base.op == "cell":
        return False
    return not is_fresh(base, I)


def wname(e):
    if e.sort == "attr":
        return show(T("attr", e.base, e.key), 5)
    if e.sort == "item":
        return show(T("item", e.base, e.key), 5)
    return show(e.base, 5)


def written(I, states):
    """Attributes written in a run, by comparable location key."""
    out = {}
    V = Valuation(0, I, names=call_names(I))
    for e in I.events:
        if e.kind != "write":
            continue
        base, key = e.base, e.key
        if e.sort in ("item", "inplace"):
            while base.op == "view":
                base = base.args[0]
            if base.op != "attr":
                continue
            base, key = base.args[0], base.args[1]
        elif e.sort != "attr":
            continue
        if isinstance(key, str) and states(key) and base.op != "cell":
            out.setdefault((_key(V.ev(base)), key), (base, key))
    return out


def _lab(args):
    return ", ".join(f"{k}={show(v, 3)}" for k, v in (args or {}).items()) or "any arguments"


def retval(I):
    if I.result is None or I.result.op == "undef":
        return T("noreturn")
    return I.val(I.result, I.final)


def at(J):
    """Element J of an array-valued result."""
    def part(v):
        return Interp.item_value(_IV, v, J)
    return part


class _IVal:
    """Value-level subscript without a run."""
    item_value = Interp.item_value
    _getval_elem = Interp._getval_elem


_IV = _IVal()


def raise_pre(I):
    return and_(*[g.cond for g in I.final.guards if g.kind == "raise"])


def raise_cond(I):
    """Condition under which the run raises (loop indices existential)."""
    cs = []
    for e in I.events:
        if e.kind == "raise":
            cs.append(and_(*[g.cond for g in e.guards if g.kind in ("if", "ret", "raise")]))
    return or_(*cs) if cs else FALSE


# ------------------------------------------------------------------ driver
def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: ") and f"property={prop} " in line:
                d = line.split("key=", 1)[1]
                key, _, desc = d.partition(" :: ")
                out.append((key.strip(), desc.strip()))
    return out


def main(prop, check, title, rules):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        ctx = Ctx(prop)
        ctx.tier = tier
        check(ctx)
    except Broken as e:
        print(f"ANALYSIS-BROKEN property={prop} {e}")
        return 2
    known = dict(known_findings(prop))
    new = [v for v in ctx.violations if v.key not in known]
    seen = [v for v in ctx.violations if v.key in known]
    rep = os.path.join(HERE, "evidence", f"{prop}.report.txt")
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, "w") as fh:
        for v in new:
            fh.write(f"{v.where}: [{v.rule}] {v.construct}\n    {v.msg}\n")
        fh.write("\n".join(["", "undecided:"] + ctx.undecided) + "\n")
    ev = dict(
        property=prop, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 3), violations=len(new),
        coverage=dict(
            explanation=f"Static analysis of {len(ctx.prog.modules)} modules of {ctx.root}; {title} Rules: " + " ".join(rules) +
                        " Nothing is executed; obligations that the analysis could not interpret are listed under undecided and raise no alarm.",
            rule="; ".join(rules),
            modules_parsed=len([m for m in ctx.prog.modules if not m.startswith('spec.')]),
            functions_analysed=len(ctx.functions),
            function_names=sorted(ctx.functions)[:80],
            instances=dict(ctx.counts),
            undecided=ctx.undecided[:40], undecided_count=len(ctx.undecided),
            samples=ctx.samples or ["(none)"],
            known_findings=[v.key for v in seen],
        ),
        assumptions=["the numpy, scipy, matplotlib and at libraries behave as documented",
                     "objects are reached through the attribute names used in the package (no monkey patching)"],
    )
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for v in seen:
        print(f"KNOWN-FINDING: property={prop} {known[v.key]}")
    for v in new:
        print(f"{v.where}: [{v.rule}] {v.msg}")
    print(f"{prop}: {json.dumps(ctx.counts)} undecided={len(ctx.undecided)} wall={time.time() - t0:.1f}s")
    if new:
        print(f"VIOLATION property={prop} replay=evidence/{prop}.report.txt")
        return 1
    return 0

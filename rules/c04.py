import ast
from vsa.rulekit import SIM, guarded
from vsa.interp import len_of
from vsa.terms import ite, num, le, eq, rebuild, T, Term, TRUE, NONE, const, and_, not_, or_, walk, show, subst, is_const, const_value
from vsa.finger import compare, opaque, unread
from vsa.effects import Effects, is_fresh

TITLE = "What a measurement changes is back at its initial value when it returns."
RULES = ["C04.restore: a setpoint changed before a reading has its initial value again at every return (reaching definitions over the setter calls; "
         "absolute writes of the initially read value and inverse relative steps restore).",
         "C04.injection: the injection settings changed for a measurement hold their initial value at every return.",
         "C04.plot: the reading's plot switch is what it was."]
RM, DISP = "lattice_properties.response_measurement:response_matrix", "lattice_properties.response_measurement:dispersion"
L, B, RF = "correction.loco:", "correction.bba:", "correction.rf:"
SETTERS = {SIM + "set_cm_setpoints": "cm", SIM + "set_magnet_setpoints": "mag", SIM + "set_cavity_setpoints": "cav"}
GET = SIM + "get_cm_setpoints"
READINGS = ["core.beam:bpm_reading", "core.beam:beam_transmission", "core.beam:simulate_reading", "core.beam:all_elements_reading",
            "core.beam:generate_bunches", "lattice_properties.response_model:SCgetModelRM",
            "lattice_properties.response_model:SCgetModelDispersion", "utils.at_wrapper:findorbit6", "utils.at_wrapper:findorbit4", "utils.at_wrapper:lattice_track",
            "utils.at_wrapper:lattice_pass", "utils.at_wrapper:atpass"]


class Change:
    def __init__(self, ctx, I, e, kind):
        self.e, self.kind, self.I, self.n, self.loops = e, kind, I, e.n, e.loops
        v = {k: x for k, x in e.vals.items()}
        self.ords, self.value = v["ords"], v["setpoints"]
        self.sub = tuple(v[k] for k in ("skewness", "order", "param") if k in v)
        m = v.get("method")
        self.method = const_value(m) if m is not None and is_const(m) else None
        self.guards = [g.cond for g in e.guards if g.kind != "raise"]
        self.where = e.where

    def group(self):
        """The whole set of devices that a complete loop over its elements addresses."""
        return group(self.ords, self.I)


def group(t, I):
    while t.op == "item" and isinstance(t.args[1], Term) and t.args[1].op == "idx":
        L = t.args[1].args[0]
        d = I.loopinfo.get(L, {}).get("domain")
        if d is None:
            break
        full = d is T("len", t.args[0]) or d is t.args[0] or (d.op == "call" and d.args[0] in ("len", "numpy.size") and d.args[1] is t.args[0])
        if not full:
            break
        t = t.args[0]
    return t


def length(t):
    if t.op == "ite":
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    return len_of(t)


def sizes(t):
    """Lengths and sizes of one-dimensional arrays are the same."""
    m = {}
    for x in walk(t):
        if x.op == "attr" and x.args[1] == "size":
            m[x] = length(x.args[0])
        elif x.op == "call" and x.args[0] in ("numpy.size", "sizeof"):
            m[x] = length(x.args[1])
    return subst(t, m) if m else t


def unversioned(t):
    """Setpoints change only through the setters (whose order is followed): other writes do not touch them."""
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x not in memo:
            args = tuple(go(y) for y in x.args)
            if x.op in ("attr", "item") and len(args) > 2:
                args = args[:2]
            if x.op == "version":
                memo[x] = args[0]
            else:
                memo[x] = x if all(p is q for p, q in zip(args, x.args)) and len(args) == len(x.args) else rebuild(x.op, args)
        return memo[x]

    return go(t)


def same(a, I, b):
    return a is b or (not (set(opaque(a)) | set(opaque(b))) and compare(a, I, b, I).same)


def related(a, b):
    """Do the two changes address the same setpoint of (possibly) the same devices?"""
    if a.kind != b.kind or len(a.sub) != len(b.sub):
        return False
    if a.kind != "cm" and not all(same(x, a.I, y) for x, y in zip(a.sub, b.sub)):
        return False
    if a.kind == "cm" and not same_plane(a, b):
        return False
    return same(a.ords, a.I, b.ords) or same(a.group(), a.I, b.group())


def same_plane(a, b):
    x, y = a.sub[0], b.sub[0]
    return same(x, a.I, y) or compare(T("call", "bool", x), a.I, T("call", "bool", y), b.I).same


def excluded(g1, g2):
    """Two points that no execution of one loop iteration visits both."""
    return any(not_(x) in g2 for x in g1)


def common(a, b):
    out = []
    for x, y in zip(a, b):
        if x != y:
            break
        out.append(x)
    return tuple(out)


class Flow:
    def __init__(self, ctx, I):
        self.ctx, self.I = ctx, I
        kinds = self.kinds(ctx)
        self.changes = [Change(ctx, I, e, kinds[e.q]) for e in I.events if e.kind == "call" and e.q in kinds and self.shared(e)]
        rd = set(ctx.quals(READINGS))
        self.readings = [e for e in I.events if e.kind == "call" and e.q in rd]
        self.returns = [e for e in I.events if e.kind == "return" and len(e.stack) == 1]
        self.raises = [e for e in I.events if e.kind == "raise"]
        self.gets = {}
        g = set(ctx.quals([GET]))
        for e in I.events:
            if e.kind == "call" and e.q in g and self.shared(e):
                self.gets[e.result] = e
        self.erased = set()
        self.pairs()

    def shared(self, e):
        """The machine of the caller, not a copy of it"""
        m = e.bound.get("self")
        return m is None or not is_fresh(m, self.I)

    @staticmethod
    def kinds(ctx):
        return {ctx.qual(k): v for k, v in SETTERS.items() if ctx.prog.func(k) is not None}

    def pairs(self):
        """A relative step followed by its inverse leaves the setpoint as it was."""
        live = []
        for c in self.changes:
            prev = next((x for x in reversed(live) if related(x, c)), None)
            if prev is not None and c.method in ("add", "rel") and prev.method == c.method and prev.loops == c.loops and same(prev.ords, self.I, c.ords) \
                    and prev.guards == c.guards[:len(prev.guards)] and not self.extra(c, prev, None):
                op = T("call", "+", prev.value, c.value)
                neutral = self.neutral(c.method, prev.value, c.value)
                if neutral:
                    live.remove(prev)
                    self.erased |= {prev, c}
                    continue
            live.append(c)

    def neutral(self, method, a, b):
        from vsa.interp import binval
        t = binval("+" if method == "add" else "*", a, b)
        return compare(t, self.I, num(0 if method == "add" else 1), self.I).same

    # ------------------------------------------------------------ order
    def reaches(self, c, p):
        """Can the change happen before the point p?"""
        if c.n < p.n:
            k = common(c.loops, p.loops)
            return not (excluded(c.guards, self.g(p)) and (not k or k == c.loops == p.loops)) and not self.terminated(c, p)
        return bool(common(c.loops, p.loops)) and not self.leaves(c)

    def leaves(self, c):
        """A return follows the change in the same iteration under the same conditions."""
        return any(r.n > c.n and r.loops == c.loops and all(x in c.guards for x in self.g(r)) for r in self.returns)

    def terminated(self, c, p):
        """Every execution with c returns before p."""
        return any(c.n < r.n < p.n and r is not p and r.loops == c.loops and all(x in c.guards for x in self.g(r)) for r in self.returns)

    @staticmethod
    def g(e):
        return [g.cond for g in e.guards if g.kind != "raise"]

    def extra(self, r, c, p):
        """Conditions of the later write that neither the change nor the observed point implies."""
        have = list(c.guards) + (self.g(p) if p is not None else [])
        out = [x for x in r.guards if x not in have]
        return [x for x in out if not self.nonempty(x, r) and compare(x, self.I, TRUE, self.I, pre1=and_(*have) if have else TRUE).same is False]

    def nonempty(self, cond, r):
        """'there are devices' - otherwise there is nothing to restore"""
        for t in (r.ords, r.value, r.group()):
            n = length(t)
            cond = sizes(cond)
            if compare(ite(cond, num(1), num(0)), self.I, ite(n, num(1), num(0)), self.I, pre1=le(num(0), n)).same:
                return True
        return False

    def killed(self, c, p):
        """Is the change certainly overridden by a later absolute write before p is reached?"""
        for r in self.changes:
            if r is c or r in self.erased or r.method != "abs" or not related(r, c):
                continue
            if not (r.n > c.n and (r.n < p.n or p.n < c.n) or r.n < p.n < c.n):
                continue
            own = same(r.ords, self.I, c.ords) and r.loops == c.loops[:len(r.loops)]
            whole = same(r.group(), self.I, c.group()) and r.group() is not r.ords
            covers = same(r.ords, self.I, c.group()) and r.loops == c.loops[:len(r.loops)]
            if not (own or whole or covers):
                continue
            if self.extra(r, c, p):
                continue
            return r
        return None

    def unread_restore(self, c, x):
        """Is x a step back whose value, or a restoration whose condition, the analysis does not interpret?"""
        if x.method == c.method and x.method in ("add", "rel") and x.loops == c.loops and unread([x.value], [c.value]):
            return True
        for g in x.guards:
            if g in c.guards:
                continue
            for y in walk(g):
                if y.op in ("call", "pcall") and y.args and isinstance(y.args[0], str) and y.args[0] not in KNOWN and \
                        any(z is x.ords or z is x.value for z in walk(y)):
                    return True
        return False

    def reaching(self, p):
        return [c for c in self.changes if c not in self.erased and self.reaches(c, p) and self.killed(c, p) is None]

    def measured(self, c, p):
        """Is a reading taken between the change and the point p?"""
        for m in self.readings:
            if c.n < m.n < p.n and not excluded(c.guards, self.g(m)):
                if not self.terminated(c, m):
                    return m
            k = common(c.loops, m.loops)
            if k and m.n < c.n and not self.leaves(c) and (p.n > c.n or common(k, p.loops)):
                return m
        return None

    # ------------------------------------------------------------ values
    def clean(self, c, n_event):
        """No change of the same setpoint reaches the point (its own restoration is assumed for earlier iterations)."""
        return not [x for x in self.reaching(n_event) if related(x, c) and not self.initial(x, True)]

    def initial(self, c, deep=False):
        """Does this absolute write put the initially read value back? True / False / None (not known)"""
        if c.method != "abs":
            return False
        v = unversioned(self.strip(c.value))
        exp = self.expected(c)
        got = None
        for x in walk(v):
            if x in self.gets:
                got = self.gets[x]
                break
        if got is not None:
            # the value read by get_cm_setpoints for the same corrector(s) and plane
            if self.matches(v, c, got):
                if deep:
                    return True
                before = [x for x in self.changes if x not in self.erased and related(x, c) and self.reaches(x, got) and self.killed(x, got) is None]
                bad = [x for x in before if self.initial(x, True) is not True]
                return not bad
            return False if not set(opaque(v)) else None
        for e in exp:
            if v is e or (not opaque(v) and compare(v, self.I, e, self.I, pre1=self.boolean(c)).same):
                if deep:
                    return True
                reads = self.reads_of(v, c)
                states = {self.clean(c, x) for x in reads}
                return True if states <= {True} else None if True in states else False
        return False if self.decided(v) else None

    @staticmethod
    def boolean(c):
        if c.kind != "mag" or is_const(c.sub[0]):
            return TRUE
        return or_(eq(c.sub[0], num(0)), eq(c.sub[0], num(1)))

    def reads_of(self, v, c):
        """Where the initial value was read"""
        out = []
        terms = set(walk(v))
        for e in self.I.events:
            if e.n >= c.n:
                break
            if e.kind == "call" and e.result in terms and e.q.endswith(":atgetfieldvalues"):
                out.append(e)
            if e.kind == "read" and any(t.op == "attr" and t.args[0] is unversioned(e.base) for t in terms) and str(e.name).find("SetPoint") >= 0:
                out.append(e)
        return out

    def matches(self, v, c, got):
        o, plane = got.vals["ords"], got.vals.get("skewness")
        if plane is not None and not (same(plane, self.I, c.sub[0]) or compare(T("call", "bool", plane), self.I, T("call", "bool", c.sub[0]), self.I).same):
            return False
        if v is got.result and same(o, self.I, c.ords):
            return True
        if v.op == "item" and v.args[0] is got.result and c.ords.op == "item" and same(c.ords.args[0], self.I, o) and same(v.args[1], self.I, c.ords.args[1]):
            return True
        if v.op == "item" and v.args[0] is got.result and same(o, self.I, c.ords) and v.args[1].op == "num":
            return True                                   # the only element
        return False

    def decided(self, v):
        return not opaque(v) and not any(x.op in ("call", "pcall", "unknown") and x.args and isinstance(x.args[0], str) and x.args[0] not in KNOWN for x in walk(v))

    @staticmethod
    def strip(v):
        while v.op == "view" or v.op == "call" and v.args[0] in ("numpy.copy", "numpy.array", "numpy.asarray", "float", "copy.copy", "copy.deepcopy", "list"):
            v = v.args[0] if v.op == "view" else v.args[1]
        return v

    def expected(self, c):
        sc = T("param", "SC")
        ring = T("attr", c.e.vals.get("self", sc), "RING")
        el = T("item", ring, c.ords)
        out = []
        if c.kind == "cav":
            for p in [const_value(c.sub[0])] if c.sub and is_const(c.sub[0]) else []:
                out.append(T("attr", el, p + "SetPoint"))
                out += self.fields(ring, c.ords, p + "SetPoint", None)
        elif c.kind == "mag":
            sk, order = c.sub
            for val, ab in ((True, "A"), (False, "B")):
                if is_const(sk) and bool(const_value(sk)) is not val:
                    continue
                if is_const(sk):
                    out.append(T("item", T("attr", el, "SetPoint" + ab), order))
                    out += self.fields(ring, c.ords, "SetPoint" + ab, order)
            if not is_const(sk):
                for conv in (sk, T("call", "int", sk), T("call", "bool", sk)):
                    name = ite(conv, const("SetPointA"), const("SetPointB"))
                    out.append(T("item", T("attr", el, name), order))
        return out

    def fields(self, ring, ords, name, index):
        return [x for x in self.fieldreads if self.isfield(x, ring, ords, name, index)]

    @property
    def fieldreads(self):
        out = []
        for e in self.I.events:
            if e.kind == "call" and e.q.endswith(":atgetfieldvalues") and isinstance(e.result, Term):
                out.append(e.result)
        return out

    def isfield(self, t, ring, ords, name, index):
        if t.op != "call" or t.args[0] != "getvals" or t.args[1] is not ring:
            return False
        rest = t.args[2:]
        return same(rest[0], self.I, ords) and rest[1] is const(name) and (index is None and (len(rest) < 3 or rest[2] is NONE) or len(rest) > 2 and rest[2] is index)


KNOWN = {"getvals", "numpy.ones", "numpy.zeros", "numpy.hstack", "numpy.linspace", "len", "numpy.ravel", "fstr", "int", "bool", "float",
         "SimulatedCommissioning.get_cm_setpoints"}


def measurement(ctx, name, args=None, lab="", types=None):
    f = ctx.prog.func(name)
    if f is None:
        return None
    I = ctx.run(name, args, prims=list(SETTERS) + [GET] + READINGS, types=dict({"SC": ctx.sc_type} if "SC" in f.params() else {}, **(types or {})))
    return I


@guarded
def restored(ctx, name, args=None, lab="any arguments", types=None, applies=False):
    I = measurement(ctx, name, args, lab, types)
    if I is None:
        return None, None
    f = ctx.func(name)
    F = Flow(ctx, I)
    ctx.count("setpoint changes followed", len(F.changes))
    ctx.count("readings", len(F.readings))
    for p in F.returns:
        ctx.count("returns analysed")
        for c in F.reaching(p):
            m = F.measured(c, p)
            if m is None and applies:
                continue
            ok = F.initial(c)
            if ok is True:
                continue
            if ok is False and any(F.unread_restore(c, x) for x in F.changes if x is not c and x.n > c.n and related(x, c)):
                ok = None
            what = f"{f.qual} ({lab}): {c.e.name} of {show(c.ords, 4)} ({c.method}, {show(c.value, 5)[:120]}) at {c.where}" + (f" is followed by a reading at {m.where}" if m else "")
            if ok is None:
                ctx.undecide(what)
                continue
            ctx.violation("C04.restore", f"{f.qual}:{c.kind}:{c.where.rsplit(':', 1)[0]}:{c.method}:{show(c.ords, 3)}", what + " reaches the return: the setpoint is not back at its initial value when the function returns", c.where)
    return I, None


INJ_FIELDS = ("Z0", "nTurns", "nParticles", "nShots", "_trackMode", "trackMode", "beamSize", "randomInjectionZ", "Z0ideal", "beamLostAt")


@guarded
def injection(ctx, name, args=None, lab="any arguments", types=None, fields=INJ_FIELDS, holder="INJ", rule="C04.injection", prims=None):
    """The fields hold at the end of the run what they held at its start."""
    f = ctx.prog.func(name)
    if f is None:
        return None, None
    I = measurement(ctx, name, args, lab, types) if prims is None else ctx.run(name, args, prims=prims, types={"SC": ctx.sc_type})
    sc = T("param", "SC")
    base = T("attr", sc, holder) if holder else sc
    if I.final is None:
        return I, None
    ctx.count("fields compared with their initial value", len(fields))
    written = {}
    for e in I.events:
        if e.kind != "write":
            continue
        for k in fields:
            if e.sort == "attr" and e.base is base and e.key == k or any(x.op == "attr" and x.args[0] is base and x.args[1] == k or
                                                                          x.op == "loc" and x.args[1] is base and x.args[2] == k for x in walk(e.base)):
                written.setdefault(k, e)
    for k, e in written.items():
        v = I.val(I.read_attr(base, k, I.final), I.final)
        if v.op == "attr" and len(v.args) > 2 and v.args[0] is base:
            v = unknown(k)
        init = T("attr", base, k)
        ctx.count("temporary changes of injection settings")
        if v is init:
            continue
        if opaque(v):
            v = once(v, I)
            if opaque(v):
                ctx.undecide(f"{f.qual} {lab}: {k} ends as {show(v, 6)[:200]}")
                continue
        if not compare(v, I, init, I).same:
            ctx.violation(rule, f"{f.qual}:{k}", f"{f.qual} ({lab}) changes {show(init)} for the measurement and leaves it at {show(v, 6)[:200]}", e.where)
    live(ctx, I, f, lab, base, fields)
    return I, None


def unknown(k):
    return T("unknown", "aliased", k)


def once(v, I):
    """The value when every loop runs one iteration."""
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x not in memo:
            if x.op == "mu" and len(x.args) > 2:
                memo[x] = go(x.args[2])
            elif x.op == "mu" and isinstance(x.args[1], Term) and x.args[1].op == "loc":
                l = x.args[1]
                memo[x] = T(l.args[0], go(l.args[1]), go(l.args[2]))
            elif x.op == "eta" and len(x.args) > 2:
                memo[x] = go(x.args[1])
            else:
                args = tuple(go(y) for y in x.args)
                memo[x] = x if args == x.args else rebuild(x.op, args)
        return memo[x]

    return go(v)


def live(ctx, I, f, lab, base, fields):
    """A saved array that is put back is not the one that is changed in place afterwards and put back again."""
    for k in fields:
        loc = T("loc", "attr", base, k)
        here = lambda t: t.op == "attr" and t.args[0] is base and t.args[1] == k or t.op == "mu" and t.args[1] is loc
        ws = [e for e in I.events if e.kind == "write"]
        puts = [e for e in ws if e.sort == "attr" and e.base is base and e.key == k and isinstance(e.ref, Term) and e.ref.op == "cell"]
        for p in puts:
            for w in ws:
                if w.sort not in ("item", "inplace") or not isinstance(w.base, Term) or not (w.base is p.ref or here(w.base)):
                    continue
                for L in common(p.loops, w.loops):
                    if w.n < p.n and p.ref in I.loopinfo[L].get("cells", ()) and not any(p.n > q.n > w.n and q is not p for q in ws if q in puts) \
                            and not any(q.n < w.n and q.loops[:1] == w.loops[:1] and L in q.loops and q.ref is not p.ref for q in puts):
                        ctx.violation("C04.injection", f"{f.qual}:{k}:shared", f"{f.qual} ({lab}) puts the saved {show(T('attr', base, k))} itself back at {p.where}: "
                                      f"the next iteration changes it in place at {w.where}, and the initial value is lost", p.where)
                        return


ENTRIES = [(RM, {}), (DISP, {"n_steps": const(2)}), (DISP, {}), (L + "measure_closed_orbit_response_matrix", {}),
           (B + "_data_measurement_tbt", {}), (B + "_data_measurement_orb", {}), (B + "_phase_advance_injection_scan", {}),
           (B + "trajectory_bba", {}), (B + "orbit_bba", {}),
           (RF + "correct_rf_phase", {}), (RF + "correct_rf_frequency", {}), ("correction.tune:tune_scan", {"nParticles": NONE, "nTurns": NONE})]


WORKER = L + "generating_quads_response_matrices"
MORE = [(B + "_scale_injection_to_reach_bpms", {}), ("matlab_index:SCsynchEnergyCorrection", {}), ("matlab_index:SCsynchPhaseCorrection", {})]


def unpacked(ctx, name, fixed):
    """The single tuple argument of a worker function, spelled with the names it is unpacked into."""
    f = ctx.prog.func(name)
    if f is None or len(f.params()) != 1:
        return None
    for n in f.node.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Name) and n.value.id == f.params()[0]:
            names = [x.id for x in n.targets[0].elts if isinstance(x, ast.Name)]
            if len(names) == len(n.targets[0].elts):
                return {f.params()[0]: T("tuple", *[fixed.get(x, T("param", x)) for x in names])}
    return None


def check(ctx):
    for n, a in ENTRIES:
        restored(ctx, n, a, lab=", ".join(f"{k}={show(v)}" for k, v in a.items()) or "any arguments",
                 applies=n.startswith(RF) or n.endswith("tune_scan"))
    for disp in (True, False):
        a = unpacked(ctx, WORKER, {"method": const("add"), "includeDispersion": const(disp)})
        if a is not None:
            restored(ctx, WORKER, a, lab=f"method=add, includeDispersion={disp}", types={"SC": ctx.sc_type})
    for n, a in ENTRIES + MORE:
        injection(ctx, n, a, lab=", ".join(f"{k}={show(v)}" for k, v in a.items()) or "any arguments")
    for n in ("matlab_index:SCplotBPMreading",):
        injection(ctx, n, {}, fields=("plot",), holder=None, rule="C04.plot")
    ctx.floor("setpoint changes followed", 6)

"""Observable effects of an analysed entry point, per memory location."""
from .terms import T, Term, TRUE, NONE, and_, lt, ite, truth, show, walk, mentions, is_num, num, contains, is_const
from .finger import loc_key, compare, unread, _key, Valuation, call_names


def root_of(t):
    while True:
        if t.op in ("attr", "item", "view") or t.op == "version":
            t = t.args[0]
        elif t.op == "mu" and isinstance(t.args[1], Term):
            return t
        else:
            return t


def is_fresh(t, I):
    r = root_of(t)
    if r.op == "ite":
        return is_fresh(r.args[1], I) and is_fresh(r.args[2], I)
    return r.op in ("cell", "call", "pcall", "list", "arr", "poly", "fn", "comp", "rand", "dict", "tuple", "obj", "const", "num", "upd", "mapw")


class Loc:
    def __init__(self, base, name, kind):
        self.base, self.name, self.kind = base, name, kind    # kind: attr | item
        self.keys = []        # constant item keys written (attr arrays)
        self.events = []
        self.L = None
        self.loops = ()
        self.state = None
        self.whole = False

    @property
    def term(self):
        return T(self.kind, self.base, self.name)

    def show(self):
        return show(self.term, 6)


class Effects:
    def __init__(self, I, only=None, fresh=None):
        fresh = fresh or is_fresh
        self.I = I
        self.locs = {}
        self.opaque_writes = []
        for e in I.events:
            if e.kind != "write":
                continue
            if e.sort == "merge" or e.sort == "inplace" and not isinstance(e.base, Term):
                self.opaque_writes.append(e)
                continue
            base, key, sort = e.base, e.key, e.sort
            if sort == "item" and isinstance(e.value, Term) and isinstance(key, Term) and e.value is T("item", base, key):
                continue                     # the same object is put back
            if sort == "inplace":
                if base.op in ("attr",) and not fresh(base, I):
                    sort, base, key = "attr", base.args[0], base.args[1]
                elif base.op == "view" and base.args[0].op == "attr" and not fresh(base, I):
                    b0 = base.args[0]
                    sort, base, key = "attr", b0.args[0], b0.args[1]
                elif not fresh(base, I):
                    self.opaque_writes.append(e)
                    continue
                else:
                    continue
            if fresh(base, I):
                continue
            item = None
            if sort == "item" and base.op == "attr":
                item = key
                base, key, sort = base.args[0], base.args[1], "attr"
            elif sort == "item" and base.op == "view":
                b0 = base
                while b0.op == "view":
                    b0 = b0.args[0]
                if b0.op == "attr":
                    item = T("any")
                    base, key, sort = b0.args[0], b0.args[1], "attr"
            if only is not None and not only(sort, base, key):
                continue
            k = (sort, _key(Valuation(0, I, names=call_names(I)).ev(base)), key if isinstance(key, str) else loc_key(key, I))
            l = self.locs.get(k)
            if l is None:
                l = self.locs[k] = Loc(base, key, sort)
            l.base, l.name = base, key
            l.events.append(e)
            if item is None:
                l.whole = True
            elif item not in l.keys:
                l.keys.append(item)
            # innermost loop whose index the location depends on
            L = None
            for x in e.loops:
                if mentions(base, T("idx", x)) or (isinstance(key, Term) and mentions(key, T("idx", x))):
                    L = x
            l.L = L
            l.loops = e.loops[:e.loops.index(L) + 1] if L is not None else ()
        self.loop_events = {e.L: e for e in I.events if e.kind == "loop"}
        for l in self.locs.values():
            l.state = I.loopstate.get(l.L) if l.L is not None else I.final

    def value(self, l, item=None):
        """Value held by the location at the end of the iteration / run."""
        I, st = self.I, l.state
        if st is None:
            return T("unknown", "nostate")
        if l.kind == "attr":
            ref = I.read_attr(l.base, l.name, st)
            if item is not None:
                return I.val(I.read_item(ref, item, st), st)
            v = I.val(ref, st)
            if v.op == "attr" and len(v.args) > 2 and v.args[0] is l.base and v.args[1] == l.name:
                f = self.fold(l)
                return v if f is None else f
            return v
        return I.val(I.read_item(l.base, l.name, st), st)

    def fold(self, l):
        """Last value written to a location that a write to a possible alias makes uncertain."""
        if l.kind != "attr" or any(e.sort != "attr" or not isinstance(e.value, Term) for e in l.events):
            return None
        v = l.term
        for e in l.events:
            v = ite(and_(*[g.cond for g in e.guards if g.kind != "raise"]), e.value, v)
        return v

    def pre(self, l):
        """Facts that hold when the location is observed: no earlier raise, enclosing loops are not empty."""
        if l.state is None:
            return TRUE
        out = [g.cond for g in l.state.guards if g.kind == "raise"]
        for L in l.loops:
            d = self.I.loopinfo.get(L, {}).get("domain")
            if d is not None and d.op != "while" and not is_num(d):
                out.append(lt(num(0), d))
                if d.op == "call" and d.args[0] == "len" and isinstance(d.args[1], Term):
                    out.append(truth(d.args[1]))
        return and_(*out)

    def reach(self, l):
        """Condition under which the loop that writes the location is entered at all."""
        e = self.loop_events.get(l.L)
        return e.cond(("if", "ret")) if e is not None else TRUE

    def gated(self, l, v, item=None):
        c = self.reach(l)
        if c is TRUE:
            return v
        old = l.term if item is None else T("item", l.term, item)
        return ite(c, v, old)


class Diff:
    def __init__(self, kind, loc, msg, where, detail=""):
        self.kind, self.loc, self.msg, self.where, self.detail = kind, loc, msg, where, detail


def _where(l):
    return l.events[-1].where if l and l.events else "?"


def compare_effects(code, spec, strict=True, want=80, tries=600, rewrite=None):
    """code, spec: Effects -> (list of Diff, n_locations_compared, n_undecided)"""
    diffs, n, und = [], 0, 0
    for k, sl in spec.locs.items():
        cl = code.locs.get(k)
        if cl is None:
            if _spec_noop(spec, sl):
                continue
            if _rebuilt(code, sl, spec):
                und += 1
                continue
            diffs.append(Diff("missing", sl, f"{sl.show()} is not set", "", ""))
            continue
        ok, msg, undecided = same_loc(code, cl, spec, sl, want, tries, rewrite)
        n += 1
        if undecided:
            und += 1
        elif not ok:
            diffs.append(Diff("value", cl, msg, _where(cl)))
    if strict:
        for k, cl in code.locs.items():
            if k not in spec.locs:
                if _spec_noop(code, cl):
                    continue
                diffs.append(Diff("extra", cl, f"{cl.show()} is changed", _where(cl)))
    return diffs, n, und


def _rebuilt(code, sl, spec):
    """The code replaces the object that holds the location by one whose entries are not tracked individually."""
    for l in code.locs.values():
        if l.kind == sl.kind == "attr" and sl.base.op == "attr" and l.whole and isinstance(l.name, Term) == isinstance(sl.base.args[1], Term) and \
                loc_key(l.base, code.I) == loc_key(sl.base.args[0], spec.I) and (l.name if isinstance(l.name, str) else loc_key(l.name, code.I)) == \
                (sl.base.args[1] if isinstance(sl.base.args[1], str) else loc_key(sl.base.args[1], spec.I)):
            v = code.value(l)
            if any(x.op in ("comp", "mapw", "eta", "upd", "unknown", "overlay") or x.op == "call" and x.args[0] in ("dict", ".copy") for x in walk(v)):
                return True
    return False


def _spec_noop(eff, l):
    """The location ends with the value it had (write of the same value back)."""
    v = eff.value(l)
    return v is l.term


def by_print(keys, I):
    return {loc_key(k, I): k for k in keys}


def same_loc(code, cl, spec, sl, want, tries, rewrite=None):
    pre1, pre2 = code.pre(cl), spec.pre(sl)
    items = None
    if cl.kind == "attr" and not (cl.whole and sl.whole):
        keys = list(dict.fromkeys(cl.keys + sl.keys))
        if all(is_const(k) and k.op != "slice" or k.op in ("idx", "param", "item", "attr", "poly") for k in keys) and keys:
            items = keys
    pairs = []
    if items:
        ck, sk = by_print(cl.keys, code.I), by_print(sl.keys, spec.I)
        for f in dict.fromkeys(list(ck) + list(sk)):
            a, b = ck.get(f) or sk[f], sk.get(f) or ck[f]
            pairs.append((code.gated(cl, code.value(cl, a), a), spec.gated(sl, spec.value(sl, b), b), a))
    else:
        pairs.append((code.gated(cl, code.value(cl)), spec.gated(sl, spec.value(sl)), None))
    if rewrite:
        pairs = [(rewrite(a), rewrite(b), k) for a, b, k in pairs]
        pre1, pre2 = rewrite(pre1), rewrite(pre2)
    for a, b, k in pairs:
        c = compare(a, code.I, b, spec.I, pre1, pre2, want, tries)
        if c.valid == 0:
            return True, "", True
        if not c.same:
            oa = unread([a], [b])
            if oa:
                return True, f"not interpreted: {oa}", True
            nm = cl.show() + (f"[{show(k)}]" if k is not None else "")
            return False, f"{nm} is set to {show(a, 7)[:400]} instead of {show(b, 7)[:400]} {c.detail}", False
    return True, "", False

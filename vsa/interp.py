"""Interprocedural gated value-flow analysis over the Python syntax tree.

One run analyses one entry point: every statement is transferred once per
analysed context (loops: one widening pass and one recording pass), branches
are joined with gated (condition-labelled) values, internal callees are inlined
through resolved bindings, and the abstract heap records aliasing between
objects (fresh cells, access paths, views).  Nothing of the analysed program is
executed and no path condition is ever solved: the result is a list of events
(writes, calls, raises, returns), each with the value terms involved, the
conditions that control it and the loops around it.
"""
import ast
import string
import copy
from fractions import Fraction

from .terms import (T, Term, num, const, TRUE, FALSE, NONE, is_const, const_value, is_str, is_num, add, sub, mul, div,
                    neg, power, not_, and_, or_, eq, lt, le, ite, truth, fresh_id, walk, contains, mentions, subst,
                    transform, show, boolish, rebuild, assume, bind_el, inst_el, bv)

UNROLL_SEQ = 9
UNROLL_RANGE = 4
MAX_DEPTH = 14
MAX_STEPS = 400000

UNDEF = T("undef")
DELETED = T("deleted")

# functions never followed: thin external shims, value-level behaviour modelled here
DEFAULT_PRIMS = (
    "pySC.utils.at_wrapper:lattice_track", "pySC.utils.at_wrapper:atgetfieldvalues",
    "pySC.utils.at_wrapper:findorbit6", "pySC.utils.at_wrapper:findorbit4", "pySC.utils.at_wrapper:findspos",
    "pySC.utils.at_wrapper:atlinopt", "pySC.utils.logging_tools:get_logger",
)
PURE_DEFAULTS = ("pySC.utils.at_wrapper:atgetfieldvalues", "pySC.utils.at_wrapper:findspos", "pySC.utils.logging_tools:get_logger")


class Guard:
    __slots__ = ("cond", "kind")

    def __init__(self, cond, kind="if"):
        self.cond, self.kind = cond, kind

    def __eq__(self, o):
        return self.cond is o.cond and self.kind == o.kind

    def __hash__(self):
        return hash((self.cond, self.kind))

    def __repr__(self):
        return f"{show(self.cond, 5)}" + ("" if self.kind == "if" else f"<{self.kind}>")


class Event:
    def __init__(self, n, kind, guards, loops, stack, path, line, **data):
        self.n, self.kind, self.guards, self.loops, self.stack = n, kind, guards, loops, stack
        self.path, self.line = path, line
        self.__dict__.update(data)

    @property
    def where(self):
        return f"{self.path}:{self.line}"

    @property
    def fn(self):
        return self.stack[-1] if self.stack else "?"

    def cond(self, kinds=("if", "ret")):
        return and_(*[g.cond for g in self.guards if g.kind in kinds])

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if
             k not in ("n", "kind", "guards", "loops", "stack", "path", "line")}
        return f"[{self.n}] {self.kind} {self.where} g={list(self.guards)} L={self.loops} {d}"


class State:
    __slots__ = ("env", "heap", "content", "wlog", "guards", "alive", "done")

    def __init__(self):
        self.env, self.heap, self.content, self.wlog, self.guards, self.alive, self.done = {}, {}, {}, {}, (), True, {}

    def copy(self):
        s = State()
        s.env, s.heap, s.content, s.wlog = dict(self.env), dict(self.heap), dict(self.content), dict(self.wlog)
        s.guards, s.alive, s.done = self.guards, self.alive, dict(self.done)
        return s

    def become(self, o):
        self.env, self.heap, self.content, self.wlog = o.env, o.heap, o.content, o.wlog
        self.guards, self.alive, self.done = o.guards, o.alive, o.done


class Frame:
    def __init__(self, func, module):
        self.func, self.module = func, module
        self.returns = []      # (state, ref)
        self.loop_stack = []   # dicts with breaks / continues
        self.globals = set()
        self.nonlocals = set()


_ELEMENT = {}


def element_loop(n):
    """`for i in ..: ... x[i] ...` (no other use of i) as (`for e in x: ... e ...`, x), or None."""
    if n in _ELEMENT:
        return _ELEMENT[n]
    _ELEMENT[n] = None
    it = n.iter
    if not (isinstance(n.target, ast.Name) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and not it.keywords):
        return None
    i = n.target.id
    uses = [z for s in n.body for z in ast.walk(s) if isinstance(z, ast.Subscript) and isinstance(z.slice, ast.Name) and z.slice.id == i and isinstance(z.value, ast.Name)]
    if not uses:
        return None
    x = uses[0].value.id
    new = f"{x}[{i}]"

    class Use(ast.NodeTransformer):
        def visit_Subscript(self, m):
            self.generic_visit(m)
            if isinstance(m.ctx, ast.Load) and ast.unparse(m) == new:
                return ast.copy_location(ast.Name(new, ast.Load()), m)
            return m
    body = [Use().visit(s) for s in copy.deepcopy(n.body)]
    if [z for s in body for z in ast.walk(s) if isinstance(z, ast.Name) and z.id in (i, x)]:
        return None
    f = ast.copy_location(ast.For(ast.copy_location(ast.Name(new, ast.Store()), n.target), uses[0].value, body, n.orelse), n)
    _ELEMENT[n] = ast.fix_missing_locations(f), x
    return _ELEMENT[n]


_COUNTED = {}


def counted_loop(n):
    """`while i < stop: ...; i += 1` as the equivalent `for i in range(i, stop)`, or None."""
    if n in _COUNTED:
        return _COUNTED[n]
    _COUNTED[n] = None
    t = n.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, op, b = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b, op = b, a, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not isinstance(a, ast.Name) or not isinstance(op, ast.Lt):
        return None
    i, last = a.id, n.body[-1]
    if isinstance(last, ast.AugAssign):
        step = isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1
    else:
        step = isinstance(last, ast.Assign) and len(last.targets) == 1 and ast.unparse(last) in (f"{i} = {i} + 1", f"{i} = 1 + {i}")
    if not step or len(n.body) < 2:
        return None
    names = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}
    if not all(isinstance(x, (ast.Name, ast.Constant, ast.expr_context, ast.BinOp, ast.operator)) or isinstance(x, ast.Attribute) or
               isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" for x in ast.walk(b)) or i in names:
        return None
    attrs = {x.attr for x in ast.walk(b) if isinstance(x, ast.Attribute)}

    def own_continue(body):
        for x in body:
            if isinstance(x, ast.Continue):
                return True
            if isinstance(x, (ast.For, ast.While)):
                if own_continue(x.orelse):
                    return True
                continue
            for f in ("body", "orelse", "finalbody", "handlers"):
                if own_continue(getattr(x, f, None) or []):
                    return True
        return False
    if own_continue(n.body):
        return None
    for s in n.body[:-1]:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and (x.id == i or x.id in names):
                return None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in attrs:
                return None
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                return None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "popitem", "add", "discard"):
                r = x.func.value
                if isinstance(r, ast.Name) and r.id in names or isinstance(r, ast.Attribute) and r.attr in attrs:
                    return None
    stop = ast.copy_location(ast.parse(f"{i} = {ast.unparse(b)}").body[0], n)
    f = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Name(i, ast.Load()), b], []), n.body[:-1], [stop] + list(n.orelse))
    ast.copy_location(f, n)
    ast.fix_missing_locations(f)
    for x in ast.walk(stop):
        if hasattr(x, "lineno"):
            x.lineno = n.lineno
    _COUNTED[n] = f
    return f


class Interp:
    def __init__(self, prog, prims=(), pure_prims=(), havoc=None, const_params=None, follow=None):
        self.prog = prog
        self.prims = set(DEFAULT_PRIMS) | set(prims) | set(pure_prims)
        self.pure_prims = (set(PURE_DEFAULTS) - set(prims)) | set(pure_prims)
        self.havoc = havoc          # f(qual, bound) -> list of refs whose subtree changes
        self.events = []
        self.rec = True
        self.frames = []
        self.loops = ()
        self.excs = {}
        self.types = {}
        self.zero = {}              # object a name holds after a loop -> [(object it holds when the loop does not run, event count)]
        self.loopitem = {}          # (shallow copy, loop, key) -> object that the loop puts there
        self.cellinfo = {}          # cell -> dict(src=..., copy='deep'|'shallow'|None, site)
        self.closures = {}
        self.gcache = {}
        self.steps = 0
        self.line = 0
        self.notes = []
        self.inlined = set()
        self.loopinfo = {}          # loop id -> dict(domain, node)
        self.loopstate = {}         # loop id -> state at the end of one iteration
        self.n_calls = 0
        self.guessed = 0

    # ================================================================ entry
    def run(self, func, args=None, types=None, self_type=None):
        """Analyse func with symbolic parameters; args: {name: Term} fixes some of them."""
        args = args or {}
        types = types or {}
        st = State()
        fr = Frame(func, func.module)
        self.frames.append(fr)
        a = func.node.args
        plist = func.params()
        static = func.is_static or func.cls is None
        for i, p in enumerate(plist + func.kwonly()):
            if p in args:
                st.env[p] = args[p]
                continue
            r = T("param", p)
            st.env[p] = r
            if p in types:
                self.types[r] = types[p]
            elif i == 0 and func.cls is not None and not static:
                self.types[r] = self_type or func.cls.qual
            else:
                ann = func.annotation(p)
                t = self.prog.ann_type(func.module, ann) if ann else None
                if t is None and p in ("SC", "sc"):
                    c = self.prog.cls("SimulatedCommissioning")
                    t = c.qual if c else None
                if t is None and p.lower() == "ring":
                    t = "at:Lattice"
                if t is None and p == "element":
                    t = "at:Element"
                if t is None:
                    d = func.defaults().get(p)
                    if isinstance(d, ast.Constant) and isinstance(d.value, (bool, int, float, str)):
                        t = type(d.value).__name__
                if t:
                    self.types[r] = t
        for p, t in types.items():
            self.types.setdefault(T("param", p), t)
        if a.vararg:
            st.env[a.vararg.arg] = args.get(a.vararg.arg, T("param", a.vararg.arg))
        if a.kwarg:
            r = args.get(a.kwarg.arg)
            if r is None:
                r = T("param", a.kwarg.arg)
                self.types[r] = "dict"
            st.env[a.kwarg.arg] = r
        self.entry_frame = fr
        self.final_states = []
        val = self._run_body(func, fr, st)
        self.frames.pop()
        self.result = val
        self.final = st
        return self

    def _run_body(self, func, fr, st):
        base = st.guards
        self.exec_block(func.node.body, st)
        if st.alive:
            fr.returns.append((st.copy(), NONE))
            if fr is getattr(self, "entry_frame", None):
                self._event("return", st, value=NONE, ref=NONE, implicit=True)
        return self._join_returns(fr, st, base)

    def _join_returns(self, fr, st, base):
        rets = fr.returns
        if not rets:
            st.alive = False
            return UNDEF
        acc, val = rets[-1]
        acc = acc.copy()
        for s, v in reversed(rets[:-1]):
            c = self._suffix_cond(s.guards, base)
            acc = self._join(c, s, acc, base)
            val = self._jref(c, v, val)
        keep = tuple(g for g in acc.guards[len(base):] if g.kind == "raise")
        acc.guards = base + keep
        acc.alive = True
        env = st.env
        st.become(acc)
        st.env = env
        return val

    def _suffix_cond(self, guards, base):
        n = len(base)
        return and_(*[g.cond for g in guards[n:] if g.kind in ("if", "ret")])

    # ================================================================ events
    def _event(self, kind, st, **data):
        if not self.rec:
            return None
        f = self.frames[-1]
        e = Event(len(self.events), kind, st.guards, self.loops, tuple(x.func.qual if x.func else "<module>" for x in self.frames),
                  f.module.path, self.line, **data)
        self.events.append(e)
        return e

    # ================================================================ values
    def val(self, t, st):
        """Value denoted by reference t in state st."""
        op = t.op
        if op in ("num", "const", "glob", "param") and t not in st.content:
            return self._with_items(t, t, st) if op == "param" else t
        c = st.content.get(t)
        if c is not None:
            if op == "cell":
                c = self._deref(c, st)
                if c.op == "dict" and self.cellinfo.get(t, {}).get("type") in self.prog.classes:
                    at = {k[2]: r for k, (r, w) in st.heap.items() if k[0] == "attr" and k[1] is t and isinstance(k[2], str)}
                    if at:
                        ent = {**dict(c.args[0]), **{T("const", k): self.val(r, st) for k, r in at.items() if r not in (UNDEF, DELETED)}}
                        c = T("dict", tuple(sorted(ent.items(), key=lambda kv: str(kv[0].args))))
            return self._with_items(t, c, st)
        if op == "cell":
            return t
        if op in ("tuple", "list", "arr"):
            return T(op, *[self.val(x, st) for x in t.args])
        if op == "ite":
            return ite(t.args[0], self.val(t.args[1], st), self.val(t.args[2], st))
        if op == "view":
            return self._view_val(self.val(t.args[0], st), t.args[1], t.args[2:])
        if op == "attr" and len(t.args) == 2:
            b = self.val_id(t.args[0], st)
            return self._with_items(t, t if b is t.args[0] else self._attr_value(b, t.args[1]), st)
        if op == "item" and len(t.args) == 2:
            b = self.val_id(t.args[0], st)
            return self._with_items(t, t if b is t.args[0] else self.item_value(b, t.args[1]), st)
        if op in ("attr", "item"):
            return self._with_items(t, t, st)
        return t

    def val_id(self, t, st):
        """Value of a base object used to name a location (no pending item writes)."""
        c = st.content.get(t)
        if c is not None:
            return self._deref(c, st) if t.op == "cell" else c
        if t.op in ("attr", "item") and len(t.args) == 2:
            b = self.val_id(t.args[0], st)
            if b is not t.args[0]:
                return self._attr_value(b, t.args[1]) if t.op == "attr" else self.item_value(b, t.args[1])
        if t.op == "view":
            return self._view_val(self.val_id(t.args[0], st), t.args[1], t.args[2:])
        if t.op == "ite":
            return ite(t.args[0], self.val_id(t.args[1], st), self.val_id(t.args[2], st))
        return t

    def _deref(self, c, st):
        if c.op in ("list", "tuple", "arr"):
            return T(c.op, *[self.val(x, st) for x in c.args])
        if c.op == "dict":
            return T("dict", tuple((k, self.val(v, st)) for k, v in c.args[0]))
        return c

    def _with_items(self, ref, c, st):
        ups = [(k[2], r) for k, (r, w) in st.heap.items() if k[0] == "item" and k[1] is ref]
        if ref.op == "cell" and c.op != "obj":
            c = self._with_rows(ref, c, ups, st)
        if not ups:
            return c
        if c.op in ("list", "arr"):
            elts = list(c.args)
            ok = True
            for k, r in ups:
                if is_num(k) and k.args[0].denominator == 1 and -len(elts) <= int(k.args[0]) < len(elts):
                    elts[int(k.args[0])] = self.val(r, st)
                else:
                    ok = False
            if ok:
                return T(c.op, *elts)
        return T("upd", c, tuple(sorted(((k, self.val(r, st)) for k, r in ups), key=lambda kv: kv[0].id)))

    def _with_rows(self, ref, c, ups, st):
        """c with the changes of parts of its elements (x[i][j] = v)."""
        rows = {}
        for k, (r, w) in st.heap.items():
            if k[0] == "item" and k[1].op == "item" and k[1].args[0] is ref and len(k[1].args) == 2:
                rows.setdefault(k[1].args[1], []).append((k[2], r))
        for i, parts in rows.items():
            if any(k is i for k, _ in ups):
                continue
            row = T("upd", self.item_value(c, i), tuple(sorted(((k, self.val(r, st)) for k, r in parts), key=lambda kv: kv[0].id)))
            if c.op in ("list", "arr") and is_num(i) and i.args[0].denominator == 1 and -len(c.args) <= int(i.args[0]) < len(c.args):
                e = list(c.args)
                e[int(i.args[0])] = row
                c = T(c.op, *e)
            else:
                ups.append((i, row))
        return c

    def _row(self, ref):
        """An element of a fresh array or list, changed in place."""
        return ref.op == "item" and len(ref.args) == 2 and ref.args[0].op == "cell" and self.cellinfo.get(ref.args[0], {}).get("type") in (None, "list")

    def _attr_value(self, b, name):
        if b.op == "ite":
            return ite(b.args[0], self._attr_value(b.args[1], name), self._attr_value(b.args[2], name))
        return T("attr", b, name)

    def item_value(self, b, k, force=False):
        """Value-level subscript with element-wise algebra."""
        op = b.op
        if op == "ite":
            return ite(b.args[0], self.item_value(b.args[1], k), self.item_value(b.args[2], k))
        if is_slice_full(k) and op not in ("param",):
            return b
        if op in ("tuple", "list", "arr"):
            if is_num(k) and k.args[0].denominator == 1:
                i = int(k.args[0])
                if -len(b.args) <= i < len(b.args):
                    return b.args[i]
            if k.op == "slice" and all(x is NONE or is_num(x) for x in k.args):
                s = slice(*[None if x is NONE else int(x.args[0]) for x in k.args])
                return T(op, *b.args[s])
            if k.op in ("list", "arr", "tuple") and op == "arr" and k.args and all(is_num(x) for x in k.args) and k.op != "tuple":
                try:
                    return T("arr", *[b.args[int(x.args[0])] for x in k.args])
                except IndexError:
                    pass
            if k.op == "tuple" and op == "arr" and k.args:
                head = self.item_value(b, k.args[0])
                rest = k.args[1:]
                if k.args[0].op == "slice" and is_slice_full(k.args[0]) and len(rest) == 1:
                    return T("arr", *[self.item_value(x, rest[0]) for x in b.args])
                if len(rest) == 1 and (head.op != "item"):
                    return self.item_value(head, rest[0])
                if not rest:
                    return head
        if op == "const" and isinstance(b.args[0], str) and is_num(k):
            try:
                return const(b.args[0][int(k.args[0])])
            except IndexError:
                pass
        if op == "call" and b.args[0] == "shapeof" and k is num(0):
            return len_of(b.args[1])
        if op == "append" and is_num(k) and k.args[0] < 0:
            return b.args[1] if k is num(-1) else self.item_value(b.args[0], add(k, num(1)))
        if op == "dict":
            for kk, v in b.args[0]:
                if kk is k:
                    return v
            if is_const(k) and all(is_const(kk) for kk, _ in b.args[0]):
                return T("item", b, k)
            r = T("nokey")
            for kk, v in reversed(b.args[0]):
                r = ite(eq(k, kk), v, r)
            return r
        if op == "dictupd":
            base, entries = b.args
            r = self.item_value(base, k)
            for kk, v in entries:
                if kk is k:
                    return v
                if not (is_const(kk) and is_const(k)):
                    r = ite(eq(k, kk), v, r)
            return r
        if op == "overlay":          # dict known entries updated with unknown mapping
            known, extra = b.args
            return ite(T("in", k, extra), T("item", extra, k), self.item_value(known, k))
        if op == "upd":
            r = None
            for kk, v in b.args[1]:
                if kk is k:
                    return v
            if all(distinct(kk, k) for kk, v in b.args[1]):
                return self.item_value(b.args[0], k)
            return T("item", b, k)
        if op == "mapw":
            L, dom, old, key, value = b.args
            m = match_idx(key, T("idx", L), k)
            if m is not None and key is T("idx", L):
                return subst(value, {T("idx", L): m})
            return T("item", b, k)
        if op == "comp" and b.args[0] == "list" and b.args[3] is TRUE and k.op not in ("slice", "tuple"):
            return inst_el(b.args[1], b.args[2], k)
        if op == "item" and gathered(b, k) is not None:
            return self.item_value(b.args[0], gathered(b, k), force)
        if op == "item" and len(b.args) == 2 and index_of_vector(b) and k.op not in ("slice", "tuple"):
            return self.item_value(b.args[0], self.item_value(b.args[1], k), force)      # x[indices][k] of a one-dimensional x
        if force and op not in ("poly", "num", "fn"):
            return T("item", b, k)
        if force or is_scalar_index(k):
            if op == "poly":
                r = num(0)
                for m, c in b.args[0]:
                    x = num(c)
                    for a, e in m:
                        x = mul(x, power(self.item_value(a, k, force), num(e)))
                    r = add(r, x)
                return r
            if op == "num":
                return b
            if op == "fn":
                return T("fn", b.args[0], *[self.item_value(x, k, force) if isinstance(x, Term) else x for x in b.args[1:]])
            if op == "call":
                n = b.args[0]
                if n == "numpy.full":
                    return b.args[2] if b.args[1].op != "tuple" else T("call", "numpy.full", T("tuple", *b.args[1].args[1:]) if len(b.args[1].args) > 2 else b.args[1].args[1], b.args[2])
                if n in ("numpy.repeat", "numpy.tile", "numpy.broadcast_to") and len(b.args) == 3:
                    # only broadcasting of one-element inputs is modelled: every entry is the first one
                    return self.item_value(b.args[1], num(0)) if not is_scalar_val(b.args[1]) else b.args[1]
                if n == "getvals" and not is_num(k):
                    return self._getval_elem(b, k)
                if n == "numpy.arange" and len(b.args) == 2:
                    return k
            if op == "iter" and b.args[0] == "range":
                return add(b.args[1], mul(b.args[3], k))
            if op in ("attr", "item", "param"):
                return T("item", b, k)
            if op in ("not", "and", "or"):
                return rebuild(op, tuple(self.item_value(x, k) for x in b.args))
            if op in ("lt", "le", "eq"):
                return rebuild(op, tuple(self.item_value(x, k) for x in b.args))
        return T("item", b, k)

    def _getval_elem(self, b, k):
        _, ring, ords, name, index = b.args
        el = T("item", ring, self.item_value(ords, k) if ords is not NONE else k)
        r = T("attr", el, const_value(name) if is_str(name) else name)
        if index is not NONE:
            r = T("item", r, index)
        return r

    def _view_val(self, b, kind, args):
        if kind == "slice":
            if is_slice_full(args[0]):
                return b
            return self.item_value(b, args[0])
        if b.op in ("param", "attr", "item", "call", "poly", "fn", "cell", "upd", "mapw", "mu", "eta", "ite", "arr", "tuple", "list", "num") or True:
            if kind == "T":
                return transpose(b)
            if kind in ("ravel", "atleast_1d") and not args:
                return flat(b)
            if kind == "alias":
                return b
            kw = {a.args[0]: a.args[1] for a in args if a.op == "kw"}
            return ext_value("numpy." + kind, [b] + [a for a in args if a.op != "kw"], kw, impure=lambda: fresh_id())

    # ============================================================ locations
    def read_attr(self, base, name, st):
        if base.op == "ite":
            return self._jref(base.args[0], self.read_attr(base.args[1], name, st), self.read_attr(base.args[2], name, st))
        nm = name
        e = st.heap.get(("attr", base, nm))
        last = self._last_alias(st, "attr", base, nm, e[1] if e else 0)
        if e and not last:
            return e[0]
        if not e and not last:
            # written for every element of a completed loop?
            for (k, b, n2), (r, w) in st.heap.items():
                if k == "attr" and n2 == nm:
                    hit = self._match_done(st, b, base)
                    if hit is not None:
                        return subst(self.val(r, st), hit)
            src = self.cellinfo.get(base)
            if src and src.get("copy") == "shallow" and src.get("src") is not None:
                return self.read_attr(src["src"], name, st)
            return T("attr", base, nm)
        return T("attr", base, nm, last)

    def _match_done(self, st, pat, term):
        for L, info in st.done.items():
            v = T("idx", L)
            if info.get("complete") and mentions(pat, v):
                m = match_idx(pat, v, term)
                if m is not None:
                    return {v: m}
        return None

    def _last_alias(self, st, kind, base, name, since):
        best = 0
        for wid, (k, b, n) in st.wlog.items():
            if wid <= since or wid <= best:
                continue
            if k == "*":
                if under(base, b):
                    best = wid
                continue
            if k != kind:
                continue
            if n != name and not (isinstance(n, Term) or isinstance(name, Term)):
                continue
            if b is base and n is name:
                continue
            if b is base and n == name:
                continue
            if may_alias(b, base) and not (b is base and kind == "attr" and isinstance(n, str) and isinstance(name, str) and n != name):
                best = wid
        return best

    def write_attr(self, base, name, ref, st, aug=None):
        if base.op == "ite":
            c, a, b = base.args
            g = st.guards
            for cond, r in ((c, a), (not_(c), b)):
                if r in (NONE, UNDEF):
                    continue
                old = self.read_attr(r, name, st)
                st.guards = g + (Guard(cond),)
                self.write_attr(r, name, self._jref(cond, ref, old), st, aug)
                st.guards = g
            return
        w = fresh_id()
        self._event("write", st, sort="attr", base=base, key=name, value=self.val(ref, st), ref=ref, aug=aug,
                    old=self.val(self.read_attr(base, name, st), st))
        st.heap[("attr", base, name)] = (ref, w)
        st.wlog[w] = ("attr", base, name)

    def read_item(self, base, key, st):
        if base.op == "ite":
            return self._jref(base.args[0], self.read_item(base.args[1], key, st), self.read_item(base.args[2], key, st))
        if base.op in ("tuple", "list", "arr"):
            v = self.item_value(base, key)
            return v
        if key.op == "slice" and base.op not in ("const",):
            return T("view", base, "slice", key)
        if base.op == "item" and gathered(base, key) is not None:
            return self.read_item(base.args[0], gathered(base, key), st)
        if base.op == "item" and len(base.args) == 2 and index_of_vector(base) and key.op != "tuple":
            return self.read_item(base.args[0], self.read_item(base.args[1], key, st), st)
        c = st.content.get(base)
        if c is not None and c.op in ("list", "tuple", "arr", "dict") and not self._has_items(base, st):
            if c.op != "dict" and is_num(key):
                i = int(key.args[0])
                if -len(c.args) <= i < len(c.args):
                    return c.args[i]
            if c.op == "dict":
                for kk, v in c.args[0]:
                    if kk is key:
                        return v
        e = st.heap.get(("item", base, key))
        last = self._last_item_alias(st, base, key, e[1] if e else 0)
        if e and not last:
            return e[0]
        info = self.cellinfo.get(base)
        if not e and not last:
            for (k, b, n2), (r, w) in st.heap.items():
                if k == "item" and b is base and isinstance(n2, Term):
                    hit = self._match_done(st, n2, key)
                    if hit is not None:
                        return subst(self.val(r, st), hit)
            if base.op == "cell" and any(k[0] == "item" and k[1].op == "item" and k[1].args[0] is base and k[1].args[1] is key for k in st.heap):
                return T("item", base, key)
            if info and info.get("copy") == "shallow" and info.get("src") is not None:
                r = self._loop_item(base, key, c, st)
                return self.read_item(info["src"], key, st) if r is None else r
            if c is not None:
                v = self.item_value(self.val(base, st), key)
                if v.op == "item" and self.is_obj_container(base):
                    r = T("item", base, key)
                    return r
                return v if v.op != "item" or v.args[0] is not base else T("item", base, key)
            if base.op in ("poly", "call", "fn", "num", "const", "comp", "dict", "mapw", "upd", "eta"):
                return self.item_value(self.val(base, st), key)
            return T("item", base, key)
        if c is None and self.type_of(base) in ("at:Lattice",):
            return T("item", base, key, last)
        return self.item_value(self.val(base, st), key)

    def _loop_item(self, base, key, c, st):
        """The object that a completed loop put into a shallow copy."""
        while c is not None and c.op == "mapw":
            L, _, old, k, v = c.args
            r = self.loopitem.get((base, L, k))
            hit = self._match_done(st, k, key)
            if hit is not None and r is not None:
                v = subst(v, hit)
                if r.op != "cell":
                    return v
                new = self.loopitem.get((base, L, k, key))
                if new is None:
                    new = self.loopitem[base, L, k, key] = T("cell", fresh_id())
                    self.cellinfo[new] = dict(self.cellinfo.get(r, {}), src=v)
                if new not in st.content:
                    st.content[new] = v
                return new
            c = old
        return None

    def is_obj_container(self, ref):
        t = self.type_of(ref)
        return t in ("at:Lattice",) or (t in self.prog.classes)

    def _const_slice(self, k):
        return all(x is NONE or is_num(x) for x in k.args)

    def _has_items(self, base, st):
        return any(k[0] == "item" and k[1] is base for k in st.heap)

    def _last_item_alias(self, st, base, key, since):
        best = 0
        for wid, (k, b, n) in st.wlog.items():
            if wid <= since or wid <= best:
                continue
            if k == "*":
                if under(base, b):
                    best = wid
            elif k == "item":
                if b is base and n is key:
                    continue
                if b is base:
                    if not distinct(n, key):
                        if self._match_done(st, n, key) is None:
                            best = wid
                elif may_alias(b, base):
                    if not distinct(n, key):
                        best = wid
        return best

    def write_item(self, base, key, ref, st, aug=None):
        if base.op == "ite":
            c, a, b = base.args
            g = st.guards
            for cond, r in ((c, a), (not_(c), b)):
                if r in (NONE, UNDEF):
                    continue
                st.guards = g + (Guard(cond),)
                old = self.read_item(r, key, st)
                self.write_item(r, key, self._jref(cond, ref, old), st, aug)
                st.guards = g
            return
        if base.op == "view" and base.args[1] in ("slice", "alias") and is_slice_full(base.args[2] if len(base.args) > 2 else T("slice", NONE, NONE, NONE)):
            return self.write_item(base.args[0], key, ref, st, aug)
        w = fresh_id()
        self._event("write", st, sort="item", base=base, key=key, value=self.val(ref, st), ref=ref, aug=aug,
                    old=self.item_value(self.val(base, st), key), refval=None)
        if ref.op == "item" and self.read_item(base, key, st) is ref:
            return                               # the same object is put back
        root = base
        while root.op == "view":
            root = root.args[0]
        if root is not base:
            # write through a view: the base object changes in a way we only track as "updated"
            st.content[root] = T("viewupd", self.val(root, st), view_path(base), key, self.val(ref, st))
            for k in [k for k in st.heap if k[0] == "item" and k[1] is root]:
                del st.heap[k]
            st.heap[("item", base, key)] = (ref, w)
            st.wlog[w] = ("item", base, key)
            return
        c = st.content.get(base)
        if c is not None and c.op == "dict" and is_const(key):
            ent = [(k, v) for k, v in c.args[0] if k is not key] + [(key, ref)]
            if all(is_const(k) for k, _ in ent):
                order = [k for k, _ in c.args[0]]
                if key in order:
                    st.content[base] = T("dict", tuple((k, ref if k is key else v) for k, v in c.args[0]))
                else:
                    st.content[base] = T("dict", tuple(ent))
                return
        # a whole-slice store replaces the content
        if is_slice_full(key) or key is T("const", "..."):
            st.content[base] = self.val(ref, st)
            for k in [k for k in st.heap if k[0] == "item" and k[1] is base]:
                del st.heap[k]
            st.wlog[w] = ("item", base, key)
            return
        for k in [k for k in st.heap if k[0] == "item" and k[1] is base and k[2] is not key and not distinct(k[2], key)]:
            old = st.heap.pop(k)
            st.content[base] = T("upd", st.content.get(base, base) if base.op == "cell" or base in st.content else self.val_id(base, st),
                                 ((k[2], self.val(old[0], st)),))
        st.heap[("item", base, key)] = (ref, w)
        st.wlog[w] = ("item", base, key)

    def inplace(self, ref, newval, st, how):
        """x op= y on a mutable object, x.sort(), ..."""
        if ref.op == "ite":
            g = st.guards
            for cond, r in ((ref.args[0], ref.args[1]), (not_(ref.args[0]), ref.args[2])):
                if is_const(r) or r is UNDEF:
                    continue
                st.guards = g + (Guard(cond),)
                self.inplace(r, ite(cond, newval, self.val(r, st)), st, how)
                st.guards = g
            return
        w = fresh_id()
        self._event("write", st, sort="inplace", base=ref, key=how, value=newval, ref=newval, aug=how, old=self.val(ref, st))
        root = ref
        while root.op == "view":
            root = root.args[0]
        if root is not ref:
            if ref.args[1] == "slice" and ref.args[0] is root:
                st.heap[("item", root, ref.args[2])] = (newval, w)
                st.wlog[w] = ("item", root, ref.args[2])
                return
            st.content[root] = T("viewupd", self.val(root, st), view_path(ref), T("const", how), newval)
            return
        st.content[ref] = newval
        for k in [k for k in st.heap if k[0] == "item" and k[1] is ref]:
            del st.heap[k]
        st.wlog[w] = ("item", ref, T("any"))

    # ================================================================ joins
    def _jref(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return ite(c, a, b)

    def _join(self, c, s1, s2, base):
        s = State()
        s.done = {**s1.done, **s2.done}
        for n in set(s1.env) | set(s2.env):
            s.env[n] = self._jref(c, s1.env.get(n, UNDEF), s2.env.get(n, UNDEF))
        if s1.content is not s2.content:
            for k in set(s1.content) | set(s2.content):
                a, b = s1.content.get(k), s2.content.get(k)
                if a is b:
                    s.content[k] = a
                elif a is None:
                    s.content[k] = b if k.op == "cell" else ite(c, self.val_id(k, s1), b)
                elif b is None:
                    s.content[k] = a if k.op == "cell" else ite(c, a, self.val_id(k, s2))
                else:
                    s.content[k] = ite(c, a, b)
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a == b:
                s.heap[k] = a
                continue
            if k[0] == "item" and (b is None and self._detached(k, s1) or a is None and self._detached(k, s2)):
                continue                         # of an array that was replaced as a whole
            if k[0] == "item":
                if a is None:
                    a = (self.item_value(self.val(k[1], s1), k[2]), 0)
                if b is None:
                    b = (self.item_value(self.val(k[1], s2), k[2]), 0)
            else:
                if a is None:
                    a = (self._initial(k, s1), 0)
                if b is None:
                    b = (self._initial(k, s2), 0)
            s.heap[k] = (self._jref(c, a[0], b[0]), max(a[1], b[1]))
        s.wlog = {**s1.wlog, **s2.wlog}
        s.guards = base + tuple(g for g in dict.fromkeys(s1.guards[len(base):] + s2.guards[len(base):]) if g.kind == "raise")
        return s

    @staticmethod
    def _detached(k, s):
        b = k[1]
        if b.op != "attr":
            return False
        whole = s.heap.get(("attr", b.args[0], b.args[1]))
        return whole is not None and whole[0].op == "cell"

    def _initial(self, k, s):
        last = self._last_alias(s, k[0], k[1], k[2], 0)
        return T("attr", k[1], k[2], last) if last else T("attr", k[1], k[2])

    # ============================================================ statements
    def exec_block(self, body, st):
        for n in body:
            if not st.alive:
                return
            self.exec_stmt(n, st)

    def exec_stmt(self, n, st):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise AnalysisLimit("step limit")
        self.line = getattr(n, "lineno", self.line)
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            self._note(f"statement {type(n).__name__}")
            return
        m(n, st)

    def _note(self, s):
        if self.rec:
            self.notes.append(f"{self.frames[-1].module.path}:{self.line}: {s}")

    def st_Pass(self, n, st):
        pass

    st_Import = st_ImportFrom = None

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return
        r = self.eval(n.value, st)
        self._event("expr", st, value=r, node=n.value)

    def st_Global(self, n, st):
        self.frames[-1].globals.update(n.names)

    def st_Nonlocal(self, n, st):
        self.frames[-1].nonlocals.update(n.names)

    def st_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.write_attr(b, t.attr, UNDEF, st, aug="del")
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.val(self.eval(t.slice, st), st)
                self.store_item(b, k, DELETED, st, aug="del")

    def st_FunctionDef(self, n, st):
        st.env[n.name] = self._closure(n, st)

    def _closure(self, node, st):
        i = fresh_id()
        t = T("closure", i)
        self.closures[t] = (node, st.env, self.frames[-1].module, self.frames[-1].func)
        return t

    def st_ClassDef(self, n, st):
        st.env[n.name] = T("unknown", "localclass", fresh_id())

    def st_Assign(self, n, st):
        r = self.eval(n.value, st)
        for t in n.targets:
            self.line = n.lineno
            self.assign(t, r, st, n.value)

    def st_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st, n.value)

    def cellify(self, r, st):
        """Give a freshly computed mutable value an identity."""
        if r.op in ("list", "dict", "arr", "poly", "comp", "fn", "mapw", "upd", "dictupd", "overlay") or \
                (r.op == "call" and r.args[0] not in NON_OBJECT_CALLS) or (r.op == "pcall" and r.args[0] in ARRAY_PCALLS):
            if r.op in ("poly", "fn") and not self.arrayish(r):
                return r
            return self.new_cell(r, st)
        return r

    def arrayish(self, t):
        for x in walk(t):
            if x.op in ("arr", "list", "comp", "mapw", "upd"):
                return True
            if x.op == "call" and x.args[0] in ARRAY_CALLS:
                return True
            if x.op in ("rand",) or x.op == "pcall" and x.args[0] in ARRAY_PCALLS:
                return True
            if x.op == "param" and self.types.get(x) in ("numpy:ndarray",):
                return True
            if x.op == "attr" and isinstance(x.args[1], str) and x.args[1] in ARRAY_ATTRS:
                return True
        return False

    def new_cell(self, content, st, **info):
        c = T("cell", fresh_id())
        st.content[c] = content
        self.cellinfo[c] = info
        return c

    def assign(self, tgt, r, st, node=None):
        if isinstance(tgt, ast.Name):
            if tgt.id in self.frames[-1].globals:
                self._event("gwrite", st, name=tgt.id, value=self.val(r, st), module=self.frames[-1].module.name)
                return
            if r.op == "ite":
                r = self.collapse(r, st)
            if r.op not in ("cell",):
                r = self.cellify(r, st)
            st.env[tgt.id] = r
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            elems = self.known_elems(r, st)
            if elems is not None and not star and len(elems) != len(tgt.elts):
                self._event("unpack_mismatch", st, have=len(elems), want=len(tgt.elts))
            if elems is None and not star:
                v = self.val(r, st)
                if v.op == "call" and v.args[0] == "numpy.roll" and len(v.args) == 3 and is_num(v.args[2]):
                    n = len(tgt.elts)
                    elems = [self.item_value(v.args[1], num((i - int(v.args[2].args[0])) % n)) for i in range(n)]
            for i, e in enumerate(tgt.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, T("unknown", "starred", fresh_id()), st)
                    continue
                if elems is not None and i < len(elems) and not star:
                    self.assign(e, elems[i], st)
                else:
                    x = self.read_item(r, num(i), st)
                    if self.cellinfo.get(r, {}).get("fresh_elements") and x.op != "cell":
                        x = self.new_cell(x, st, copy="array")
                    self.assign(e, x, st)
        elif isinstance(tgt, ast.Attribute):
            b = self.eval(tgt.value, st)
            self.store_attr(b, tgt.attr, self._for_store(r, st), st)
        elif isinstance(tgt, ast.Subscript):
            b = self.store_base(tgt.value, st)
            k = self.index(tgt.slice, b, st)
            self.store_item(b, k, self._for_store(r, st), st)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, r, st)

    def _for_store(self, r, st):
        if r.op == "ite":
            r = self.collapse(r, st)
        return r if r.op == "cell" else self.cellify(r, st)

    def fresh_array(self, r, st):
        """r is an array created by the analysed code itself (or a view of one)."""
        while r.op == "view":
            r = r.args[0]
        if r.op == "ite":
            return self.fresh_array(r.args[1], st) and self.fresh_array(r.args[2], st)
        if r.op == "cell":
            if self.cellinfo.get(r, {}).get("copy") in ("deep", "shallow") or self.cellinfo.get(r, {}).get("type"):
                return False
            if self.cellinfo.get(r, {}).get("copy") == "array":
                return True
            c = st.content.get(r)
            return c is not None and c.op not in ("list", "dict", "obj", "tuple", "mu", "eta", "append", "extend", "comp") and not self._obj_items(r, st)
        if r.op in ("poly", "fn"):
            return self.arrayish(r)
        return r.op == "call" and r.args[0] in ARRAY_CALLS or r.op == "pcall" and r.args[0] in ARRAY_PCALLS

    def _obj_items(self, r, st):
        return any(k[0] == "item" and k[1] is r and x[0].op in ("cell", "attr") and x[0] in st.content and st.content[x[0]].op in ("obj", "dict")
                   for k, x in st.heap.items() if k[1] is r)

    def collapse(self, r, st):
        """A choice between arrays created here is one fresh array with a gated value."""
        if r.op == "tuple":
            return T("tuple", *[self.collapse(x, st) for x in r.args])
        if r.op == "ite" and self.fresh_array(r, st) and any(x.op in ("cell", "view") for x in walk(r)):
            return self.new_cell(self.val(r, st), st, copy="array", src=r)
        return r

    def known_elems(self, r, st):
        if r.op in ("tuple", "list", "arr"):
            return list(r.args)
        c = st.content.get(r)
        if c is not None and c.op in ("list", "tuple", "arr") and not self._has_items(r, st):
            return list(c.args)
        return None

    def store_attr(self, b, name, r, st, aug=None):
        if b.op == "ite":
            return self.write_attr(b, name, r, st, aug)
        cls = self.class_of(b)
        if cls is not None and isinstance(name, str):
            s = self.prog.find_setter(cls, name)
            if s is not None:
                self.call_func(s, [b, r], {}, st)
                return
        if b.op in ("glob", "module"):
            self._event("gwrite", st, name=show(b) + "." + str(name), value=self.val(r, st), module="")
            return
        self.write_attr(b, name, r, st, aug)

    def store_item(self, b, k, r, st, aug=None):
        cls = self.class_of(b)
        if cls is not None and self.prog.is_dictlike(cls) and is_str(k):
            return self.write_attr(b, k.args[0], r, st, aug)
        if cls is not None and self.prog.is_dictlike(cls) and k.op not in ("slice",):
            return self.write_attr(b, k, r, st, aug)
        if b.op == "glob" or (b.op == "attr" and b.args[0].op == "glob"):
            self._event("gwrite", st, name=show(b), key=k, value=self.val(r, st), module="")
            return
        self.write_item(b, k, r, st, aug)

    def st_AugAssign(self, n, st):
        op = BINOPS.get(type(n.op), type(n.op).__name__)
        rhs = self.eval(n.value, st)
        if isinstance(n.target, ast.Name):
            nm = n.target.id
            cur = self.lookup(nm, st)
            new = self.binop(op, cur, rhs, st)
            if self.is_mutable_obj(cur, st):
                c = st.content.get(cur)
                if c is not None and c.op == "list" and op == "+":
                    el = self.known_elems(rhs, st)
                    if el is not None:
                        self._event("write", st, sort="inplace", base=cur, key="+=", value=new, ref=new, aug="+", old=c)
                        st.content[cur] = T("list", *c.args, *el)
                        return
                self.inplace(cur, self.val(new, st), st, op + "=")
            else:
                if cur.op == "item":
                    self._event("augitem", st, base=cur)
                st.env[nm] = self.val(new, st) if new.op != "cell" else new
        elif isinstance(n.target, ast.Attribute):
            b = self.eval(n.target.value, st)
            cur = self.load_attr(b, n.target.attr, st)
            new = self.binop(op, cur, rhs, st)
            self.store_attr(b, n.target.attr, self._for_store(self.val(new, st), st), st, aug=op)
        elif isinstance(n.target, ast.Subscript):
            b = self.store_base(n.target.value, st)
            k = self.index(n.target.slice, b, st)
            cur = self.load_item(b, k, st)
            new = self.binop(op, cur, rhs, st)
            self.store_item(b, k, self.val(new, st), st, aug=op)

    def store_base(self, node, st):
        """What x[i] in `x[i][j] = v` refers to: the part of x, also where its value is known."""
        if isinstance(node, ast.Subscript) and not isinstance(node.slice, (ast.Slice, ast.Tuple)) and isinstance(node.value, ast.Name):
            x = self.eval(node.value, st)
            if isinstance(x, Term) and x.op == "cell" and st.content.get(x) is not None and st.content[x].op not in ("dict", "obj"):
                r = self.eval(node, st)
                k = self.index(node.slice, x, st)
                if r.op not in ("cell", "param", "attr", "item", "view", "mu", "ite", "dict", "obj") and self._row(T("item", x, k)):
                    return T("item", x, k)
                return r
        return self.eval(node, st)

    def is_mutable_obj(self, ref, st):
        if ref.op == "ite":
            return self.is_mutable_obj(ref.args[1], st) or self.is_mutable_obj(ref.args[2], st)
        if ref.op == "cell":
            return True
        if ref.op == "view":
            return True
        if ref.op == "param":
            return self.types.get(ref) not in ("int", "float", "bool", "str")
        if ref.op == "attr":
            t = self.type_of(ref)
            if t in ("int", "float", "bool", "str"):
                return False
            nm = ref.args[1]
            return nm in ARRAY_ATTRS if isinstance(nm, str) else False
        if ref.op == "item":
            return False
        return False

    def st_Return(self, n, st):
        r = self.eval(n.value, st) if n.value is not None else NONE
        if not st.alive:
            return                               # the value is never computed: a call in it always raises
        r = self.cellify(r, st) if r.op not in ("cell",) else r
        if self.frames[-1] is getattr(self, "entry_frame", None):
            self._event("return", st, value=self.val(r, st), ref=r, implicit=False)
        self.frames[-1].returns.append((st.copy(), r))
        st.alive = False

    def st_Raise(self, n, st):
        name = None
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            name = ast.unparse(e)
        self._event("raise", st, exc=name)
        st.alive = False
        st.guards = st.guards + (Guard(TRUE, "raised"),)

    def st_Assert(self, n, st):
        c = truth(self.val(self.eval(n.test, st), st))
        g = st.guards
        st.guards = g + (Guard(not_(c)),)
        self._event("raise", st, exc="AssertionError")
        st.guards = g + (Guard(c, "raise"),)

    def st_If(self, n, st):
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.exec_block(n.body, st)
        if c is FALSE:
            return self.exec_block(n.orelse, st)
        c2 = self._known(c, st)
        if c2 is True:
            return self.exec_block(n.body, st)
        if c2 is False:
            return self.exec_block(n.orelse, st)
        self.fork(c, st, lambda s: self.exec_block(n.body, s), lambda s: self.exec_block(n.orelse, s))

    def _known(self, c, st):
        """c implied / refuted by the controlling conditions themselves (syntactic)."""
        lits = set()
        for g in st.guards:
            for x in (g.cond.args if g.cond.op == "and" else (g.cond,)):
                lits.add(x)
        if c in lits:
            return True
        if not_(c) in lits:
            return False
        if c.op == "and":
            if all(x in lits for x in c.args):
                return True
            if any(not_(x) in lits for x in c.args):
                return False
        if c.op == "or":
            if any(x in lits for x in c.args):
                return True
            if all(not_(x) in lits for x in c.args):
                return False
        return None

    def fork(self, c, st, fa, fb):
        base = st.guards
        s1, s2 = st.copy(), st.copy()
        s1.guards = base + (Guard(c),)
        s2.guards = base + (Guard(not_(c)),)
        n_ret = len(self.frames[-1].returns)
        nl = len(self.frames[-1].loop_stack)
        exits0 = self._exit_count()
        line = self.line
        fa(s1)
        exits1 = self._exit_count()
        self.line = line
        fb(s2)
        exits2 = self._exit_count()
        if s1.alive and s2.alive:
            j = self._join(c, s1, s2, base)
            # partial exits inside the branches restrict what follows
            r1, r2 = s1.guards[len(base) + 1:], s2.guards[len(base) + 1:]
            ex = []
            if any(g.kind == "ret" for g in r1):
                ex.append(or_(not_(c), and_(*[g.cond for g in r1 if g.kind == "ret"])))
            if any(g.kind == "ret" for g in r2):
                ex.append(or_(c, and_(*[g.cond for g in r2 if g.kind == "ret"])))
            j.guards = j.guards + tuple(Guard(e, "ret") for e in ex if e is not TRUE)
            st.become(j)
        elif s1.alive or s2.alive:
            live, lit, exits = (s1, c, exits2 - exits1) if s1.alive else (s2, not_(c), exits1 - exits0)
            kind = "ret" if exits > 0 else "raise"
            rest = live.guards[len(base) + 1:]
            live.guards = base + (Guard(lit, kind),) + rest
            st.become(live)
        else:
            st.alive = False

    def _exit_count(self):
        f = self.frames[-1]
        return len(f.returns) + sum(len(l["breaks"]) + len(l["continues"]) for l in f.loop_stack)

    def st_Break(self, n, st):
        if self.frames[-1].loop_stack:
            self.frames[-1].loop_stack[-1]["breaks"].append(st.copy())
        st.alive = False

    def st_Continue(self, n, st):
        if self.frames[-1].loop_stack:
            self.frames[-1].loop_stack[-1]["continues"].append(st.copy())
        st.alive = False

    def st_With(self, n, st):
        for it in n.items:
            r = self.eval(it.context_expr, st)
            self._event("with", st, value=self.val(r, st), ref=r)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st)
        self.exec_block(n.body, st)
        self._event("endwith", st)

    def _exc(self, what, h):
        """A condition "the exception of this kind was raised", numbered in order of occurrence within the analysed entry point."""
        tag = what + " " + (ast.unparse(h.type).split(".")[-1] if h is not None and h.type is not None else "any")
        k = self.excs[tag] = self.excs.get(tag, 0) + 1
        return T("exc", f"{tag} {k}")

    def st_Try(self, n, st):
        s0 = st.copy()
        base = st.guards
        self._event("try", st, node=n)
        self.exec_block(n.body, st)
        body_end = st.copy() if st.alive else s0
        if st.alive:
            self.exec_block(n.orelse, st)
        outs = [st.copy()] if st.alive else []
        for h in n.handlers:
            hs = self._join(self._exc("partly", h), body_end, s0, base) if body_end is not s0 else s0.copy()
            hs.alive = True
            hs.guards = base + (Guard(self._exc("raised", h)),)
            if h.name:
                hs.env[h.name] = T("unknown", "exc", fresh_id())
            self._event("handler", hs, typ=ast.unparse(h.type) if h.type else None, node=h)
            self.exec_block(h.body, hs)
            if hs.alive:
                outs.append(hs)
        if outs:
            acc = outs[0]
            for o in outs[1:]:
                acc = self._join(not_(o.guards[len(base)].cond) if len(o.guards) > len(base) else self._exc("joined", None), acc, o, base)
            acc.guards = base
            acc.alive = True
            st.become(acc)
        else:
            st.alive = False
        if n.finalbody:
            self._event("finally", st)
            alive = st.alive
            s = st if alive else s0.copy()
            s.alive = True
            self.exec_block(n.finalbody, s)
            if not alive:
                st.alive = False

    # ----------------------------------------------------------------- loops
    def st_For(self, n, st):
        f = element_loop(n)
        if f is not None and f[1] in st.env:
            v = self.val(st.env[f[1]], st)
            if v.op == "comp" and v.args[3] is not TRUE:
                r = self.eval(n.iter, st)
                if r.op == "iter" and r.args[0] == "range" and r.args[1] is num(0) and r.args[3] is num(1) and r.args[2] is len_of(v):
                    n = f[0]
        it = self.eval(n.iter, st)
        if ast.unparse(n.iter).startswith("range(len(") and it.op == "iter" and it.args[0] == "range" and it.args[1] is num(0) and it.args[3] is num(1) \
                and is_num(it.args[2]) and it.args[2].args[0] <= UNROLL_SEQ and isinstance(n.iter.args[0].args[0], (ast.Name, ast.Attribute)) \
                and self.known_elems(self.eval(n.iter.args[0].args[0], st), st) is not None:
            it = T("tuple", *[num(k) for k in range(int(it.args[2].args[0]))])      # positions of a sequence of known length
        self.for_over(n, it, st)

    def for_over(self, n, it, st):
        if it.op == "ite" and any(self.known_elems(x, st) is not None for x in it.args[1:]):
            c = it.args[0]
            k = self._known(c, st)
            if k is not None:
                return self.for_over(n, it.args[1 if k else 2], st)
            return self.fork(c, st, lambda s: self.for_over(n, it.args[1], s), lambda s: self.for_over(n, it.args[2], s))
        spec = self.iter_spec(it, st, filt=True)
        self.run_for(n, spec, st)

    def run_for(self, n, spec, st):
        fr = self.frames[-1]
        if spec["elems"] is not None:
            ctx = dict(breaks=[], continues=[])
            base = st.guards
            broken = []
            for e in spec["elems"]:
                if not st.alive:
                    break
                fr.loop_stack.append(ctx)
                self.assign(n.target, e, st)
                n_b = len(ctx["breaks"])
                self.exec_block(n.body, st)
                fr.loop_stack.pop()
                if ctx["continues"]:
                    cs = ctx["continues"]
                    ctx["continues"] = []
                    self._merge_into(st, cs, base)
            if st.alive and n.orelse:
                self.exec_block(n.orelse, st)
            if ctx["breaks"]:
                self._merge_into(st, ctx["breaks"], base)
            return
        L = fresh_id()
        idx = T("idx", L)

        def bind(s):
            self.assign(n.target, spec["elem"](idx, s), s)

        self._loop(n, L, spec["n"], bind, None, st, spec.get("filter"))

    def _merge_into(self, st, others, base):
        """Join states that left the straight-line flow (continue/break) back in."""
        states = list(others)
        if st.alive:
            acc = st.copy()
        else:
            acc = states.pop()
            acc = acc.copy()
        for s in reversed(states):
            c = self._suffix_cond(s.guards, base)
            acc = self._join(c, s, acc, base)
        acc.guards = base + tuple(g for g in acc.guards[len(base):] if g.kind == "raise")
        acc.alive = True
        st.become(acc)

    def st_While(self, n, st):
        f = counted_loop(n)
        if f is not None:
            return self.st_For(f, st)
        L = fresh_id()
        self._loop(n, L, None, None, n.test, st)

    st_AsyncFor = None

    def _loop(self, n, L, domain, bind, test, st, filt=None):
        fr = self.frames[-1]
        base = st.guards
        idx = T("idx", L)
        pre = st.copy()
        outer_loops = self.loops

        def one(s):
            ctx = dict(breaks=[], continues=[])
            fr.loop_stack.append(ctx)
            self.loops = outer_loops + (L,)
            if bind:
                bind(s)
            c = None
            if test is not None:
                c = self.cond(test, s)
                s.guards = s.guards + (Guard(c, "if"),) if c is not TRUE else s.guards
            if filt is not None:
                self.fork(filt(idx), s, lambda z: self.exec_block(n.body, z), lambda z: None)
            else:
                self.exec_block(n.body, s)
            self.loops = outer_loops
            fr.loop_stack.pop()
            if ctx["continues"]:
                self._merge_into(s, ctx["continues"], base)
            return ctx["breaks"], c

        # pass 1: what does the body modify?
        rec, self.rec = self.rec, False
        nret = len(fr.returns)
        notes = len(self.notes)
        s1 = st.copy()
        br1, _ = one(s1)
        del fr.returns[nret:]
        ends = ([s1] if s1.alive else []) + br1
        mod_env, mod_content, mod_heap, new_w = set(), set(), set(), {}
        for e in ends:
            for k, v in e.env.items():
                if pre.env.get(k) is not v:
                    mod_env.add(k)
            for k, v in e.content.items():
                if k in pre.content and pre.content[k] is not v or (k not in pre.content and k.op != "cell"):
                    mod_content.add(k)
            for k, v in e.heap.items():
                if pre.heap.get(k) != v:
                    mod_heap.add(k)
            for w, x in e.wlog.items():
                if w not in pre.wlog:
                    new_w[w] = x
        # locations that every iteration leaves as it found them
        stable = self._unchanged(pre, ends, mod_heap)
        mod_heap -= stable
        # induction variables: v_end = v + c
        induct = {}
        if s1.alive:
            for k in mod_env:
                i0, i1 = pre.env.get(k), s1.env.get(k)
                if i0 is None or i1 is None or i0 is UNDEF:
                    continue
                if i0.op in ("num", "poly", "param", "mu", "eta", "idx", "call", "attr", "item") and i1.op in ("num", "poly"):
                    d = sub(i1, i0)
                    if is_num(d) and d is not num(0):
                        induct[k] = d

        # locations that hold their old value again at the end of every iteration
        back = self._restored(pre, ends, new_w)
        new_w = {w: x for w, x in new_w.items() if x not in back}

        # local names rebound to arrays made by the analysed code itself
        rebound = set()
        if s1.alive:
            for k in mod_env:
                i0, i1 = pre.env.get(k, UNDEF), s1.env.get(k, UNDEF)
                if i0 is not UNDEF and i1 is not UNDEF and k not in induct and self.fresh_array(i0, pre) and self.fresh_array(i1, s1):
                    rebound.add(k)

        def prep(induct):
            s = pre.copy()
            for k in mod_env:
                i0 = pre.env.get(k, UNDEF)
                if k in induct:
                    s.env[k] = add(i0, mul(induct[k], idx))
                elif i0 is UNDEF:
                    s.env.pop(k, None)
                elif k in rebound:
                    c = T("cell", ("mu", L, k))
                    s.env[k] = c
                    s.content[c] = T("mu", L, k, self.val(i0, pre))
                    self.cellinfo[c] = dict(copy="array")
                else:
                    s.env[k] = T("mu", L, k, i0)
            for k in mod_content:
                if k.op == "cell" or k in pre.content:
                    s.content[k] = T("mu", L, k, pre.content.get(k, k))
                else:
                    s.content[k] = T("mu", L, k, k)
            for k in mod_heap:
                if mentions(k[1], idx) or (isinstance(k[2], Term) and mentions(k[2], idx)):
                    continue
                w = fresh_id()
                s.heap[k] = (T("mu", L, T("loc", k[0], k[1], k[2])), w)
                s.wlog[w] = k
            for w, x in new_w.items():
                if mentions(x[1], idx) or (isinstance(x[2], Term) and mentions(x[2], idx)):
                    s.wlog[w] = x
            return s

        if induct or stable:
            s = prep(induct)
            nret = len(fr.returns)
            br, _ = one(s)
            del fr.returns[nret:]
            for k in list(induct):
                if not s.alive or s.env.get(k) is not add(add(pre.env[k], mul(induct[k], idx)), induct[k]):
                    del induct[k]
            mod_heap |= stable - self._unchanged(pre, ([s] if s.alive else []) + br, stable)
        self.rec = rec
        del self.notes[notes:]
        if domain is None and test is not None:
            domain = T("while", L)
            if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                    test.left.id in induct and induct[test.left.id] is num(1) and pre.env[test.left.id] is num(0) and \
                    isinstance(test.ops[0], (ast.Lt, ast.NotEq)):
                s = pre.copy()
                domain = self.val(self.eval(test.comparators[0], s), s)
        self.loopinfo[L] = dict(domain=domain, node=n, path=fr.module.path, line=n.lineno, kind=type(n).__name__, cells=frozenset(k for k in pre.content if k.op == "cell"))
        # pass 2: record
        nret = len(fr.returns)
        s2 = prep(induct)
        self._event("loop", st, L=L, domain=domain, node=n)
        br2, c2 = one(s2)
        self._event("endloop", st, L=L)
        if self.rec and s2.alive:
            self.loopstate[L] = s2.copy()
        returned = fr.returns[nret:]
        if not s2.alive and not br2:
            # every iteration leaves the function: what follows runs only on zero iterations
            out = pre
            if returned:
                g = Guard(eq(domain, num(0)) if domain is not None else T("empty", L), "ret")
                out.guards = base + (g,)
            st.become(out)
            if n.orelse:
                self.exec_block(n.orelse, st)
            return
        exit_state = s2 if s2.alive else pre.copy()
        e = exit_state.copy()
        complete = not br2 and not returned
        # widen
        if s2.alive:
            for k in mod_env:
                i0, v = pre.env.get(k, UNDEF), s2.env.get(k, UNDEF)
                if k in induct:
                    e.env[k] = add(i0, mul(induct[k], domain)) if domain is not None else T("eta", L, k)
                elif v is UNDEF:
                    continue
                elif k in rebound and self.fresh_array(v, s2):
                    i1 = self.val(i0, pre)
                    e.env[k] = self.new_cell(self._acc(L, domain if complete else None, self.val(v, s2), T("mu", L, k, i1), i1, idx), e, copy="array")
                elif v.op == "cell" or v.op in ("param", "attr"):
                    e.env[k] = v
                    if self.rec and isinstance(i0, Term) and i0 is not UNDEF and i0 is not v:
                        self.zero.setdefault(v, []).append((i0, len(self.events)))
                else:
                    e.env[k] = self._acc(L, domain if complete else None, v, T("mu", L, k, i0), i0, idx)
            touched = {}
            for k in list(e.heap):
                if k[0] == "item" and pre.heap.get(k) != e.heap[k]:
                    key = k[2]
                    if mentions(key, idx) and not mentions(k[1], idx):
                        touched.setdefault(k[1], []).append((key, e.heap[k][0]))
                        if k[1].op == "cell" or self._row(k[1]):
                            w = e.heap.pop(k)[1]
                            if k[1].op != "cell":
                                e.heap[("item",) + k[1].args] = (k[1], w)
            for cell, writes in touched.items():
                if cell.op != "cell":
                    if self._row(cell):
                        old = pre.heap.get(("item",) + cell.args)
                        old = self.val(old[0], pre) if old is not None else self.item_value(self.val(cell.args[0], pre), cell.args[1])
                        for key, r in writes:
                            old = T("mapw", L, domain if domain is not None else NONE, old, key, self.val(r, s2))
                        e.heap[("item",) + cell.args] = (old, e.heap[("item",) + cell.args][1])
                    continue
                old = pre.content.get(cell, cell)
                for key, r in writes:
                    old = T("mapw", L, domain if domain is not None else NONE, old, key, self.val(r, s2))
                    self.loopitem[cell, L, key] = r
                e.content[cell] = old
            for k in mod_content:
                if k in touched and k.op == "cell":
                    continue
                v = s2.content.get(k)
                ini = pre.content.get(k, k)
                if v is not None:
                    e.content[k] = self._acc(L, domain if complete else None, v, T("mu", L, k, ini), ini, idx)
            for k in mod_heap:
                if k in e.heap and not mentions(k[1], idx) and not (isinstance(k[2], Term) and mentions(k[2], idx)):
                    r, w = e.heap[k]
                    if r.op not in ("cell", "param") and not is_const(r):
                        e.heap[k] = (T("eta", L, r, pre.heap[k][0] if k in pre.heap else T(k[0], k[1], k[2])), w)
        back = self._restored(pre, ([s2] if s2.alive else []) + br2, {w: x for w, x in e.wlog.items() if w not in pre.wlog})
        for w in [w for w, x in e.wlog.items() if w not in pre.wlog and x in back]:
            del e.wlog[w]
        for k in [k for k in e.heap if k in back and pre.heap.get(k) is None]:
            del e.heap[k]
        e.done[L] = dict(complete=complete, domain=domain)
        e.guards = base + tuple(g for g in exit_state.guards[len(base):] if g.kind == "raise" and not mentions(g.cond, idx))
        if returned:
            conds = [self._suffix_cond(s.guards, base) for s, _ in returned]
            e.guards = e.guards + (Guard(not_(T("some", L, or_(*conds))), "ret"),)
        e.alive = True
        nr3 = len(fr.returns)
        if n.orelse and s2.alive:
            self.exec_block(n.orelse, e)
        if br2:
            st.become(e)
            if not e.alive:
                st.alive = False
            for b in br2:
                b.guards = base + (Guard(T("some", L, self._suffix_cond(b.guards, base))),)
            if isinstance(test, ast.Constant) and test.value or not e.alive:
                # while True: leaves only through break
                st.alive = False
            gret = tuple(g for g in e.guards[len(base):] if g.kind == "ret")
            self._merge_into(st, br2, base)
            st.guards = st.guards + gret
            if n.orelse and not e.alive and s2.alive:
                # without a break the function was left: what follows runs only after one
                left = or_(*[self._suffix_cond(b.guards, base) for b in br2])
                st.guards = st.guards + (Guard(left, "raise" if len(fr.returns) == nr3 else "ret"),)
            st.done[L] = dict(complete=False, domain=domain)
        else:
            if isinstance(test, ast.Constant) and test.value:
                e.alive = False
            st.become(e)

    def _unchanged(self, pre, ends, keys):
        """Heap locations in keys that hold at the end of every iteration what they held before the loop."""
        out = set()
        for k in keys:
            kind, b, n = k
            if kind != "attr" or b.op == "cell" or not isinstance(n, str):
                continue
            init = pre.heap[k][0] if k in pre.heap else T("attr", b, n)
            want = self.val(init, pre)
            if want.op in ("mu", "eta", "unknown"):
                want = self.val_id(init, pre)
            if all(k not in s.heap and k not in pre.heap or k in s.heap and self.val(s.heap[k][0], s) in (want, self.val_id(init, pre)) and
                   (s.heap[k][0] is init or s.heap[k][0] not in pre.content and not any(x.op == "view" for x in walk(s.heap[k][0]))) for s in ends):
                out.add(k)
        for k in keys:
            kind, b, n = k
            a = ("attr", b.args[0], b.args[1]) if kind == "item" and b.op == "attr" else None
            if a in out and k not in pre.heap and all(k not in s.heap or a in s.heap and s.heap[a][0].op == "cell" for s in ends):
                out.add(k)                       # an item of an array that was replaced as a whole
        return out

    def _restored(self, pre, ends, writes):
        """Written locations whose value at the end of an iteration is the one before it."""
        back = set()
        if not ends:
            return back
        for k in set(writes.values()):
            kind, b, n = k
            if kind == "*" or k in pre.heap or b.op == "cell":
                continue
            ok = True
            for s in ends:
                ent = s.heap.get(k)
                if kind == "item":
                    if b.op == "attr" and ("attr", b.args[0], b.args[1]) in s.heap and k[1] is b and \
                            ("attr", b.args[0], b.args[1]) in writes.values():
                        continue            # the array was replaced as a whole: decided by the attribute
                    init = self.item_value(b, n)
                else:
                    init = T("attr", b, n)
                if ent is None:
                    ok = False
                    break
                v = self.val(ent[0], s)
                if v is not init and v is not self.val_id(init, pre):
                    v = by_cases(v)
                if v is not init and v is not self.val_id(init, pre):
                    ok = False
                    break
            if ok:
                back.add(k)
        # an item of an array that was replaced is back only when the attribute is
        for k in list(back):
            if k[0] == "item" and k[1].op == "attr":
                a = ("attr", k[1].args[0], k[1].args[1])
                if a in writes.values() and a not in back:
                    back.discard(k)
        return back

    def _acc(self, L, domain, v, m, ini, idx):
        """List accumulation in a loop: [ini...] + one element per iteration."""
        if v.op == "append" and v.args[0] is m:
            el = bind_el(v.args[1], idx, domain if domain is not None else T("while", L))
            c = T("comp", "list", el, domain if domain is not None else T("while", L), TRUE)
            if ini.op == "list" and not ini.args:
                return c
            return T("extend", ini, c)
        if v.op == "ite" and m in (v.args[1], v.args[2]):
            pos = v.args[2] is m
            x = v.args[1] if pos else v.args[2]
            cnd = v.args[0] if pos else not_(v.args[0])
            if x.op == "append" and x.args[0] is m:
                dm = domain if domain is not None else T("while", L)
                c = T("comp", "list", bind_el(x.args[1], idx, dm), dm, bind_el(cnd, idx, dm))
                if ini.op == "list" and not ini.args:
                    return c
        if domain is not None:
            d = step_of(v, m)
            if d is not None and not any(x.op == "mu" and x.args[0] == L for x in walk(d)):
                if d is num(0):
                    return ini
                return add(ini, callterm("numpy.sum", [T("comp", "list", bind_el(d, idx, domain), domain, TRUE)], {}))
        return T("eta", L, v, ini)

    # ------------------------------------------------------------- iteration
    def iter_spec(self, it, st, filt=False):
        """-> dict(n=length term, elem=f(idx, st)->ref, elems=list|None)"""
        def gen(n, f):
            return dict(n=n, elem=f, elems=None)

        c0 = st.content.get(it)
        if c0 is not None and (c0.op == "iter" or c0.op == "ite" and all(x.op == "iter" for x in c0.args[1:])):
            it = c0
        if it.op == "ite" and all(x.op == "iter" and x.args[0] in ("items", "keys", "values") for x in it.args[1:]) and it.args[1].args[0] == it.args[2].args[0]:
            it = T("iter", it.args[1].args[0], self._jref(it.args[0], it.args[1].args[1], it.args[2].args[1]))
        if it.op == "ite":
            cls = self.class_of(it)
            if cls is not None and self.prog.is_dictlike(cls):
                it = T("iter", "keys", it)
        if it.op == "iter":
            k = it.args[0]
            if k == "range":
                a, b, s = it.args[1:]
                if all(is_num(x) for x in (a, b, s)) and s.args[0] != 0:
                    r = range(int(a.args[0]), int(b.args[0]), int(s.args[0]))
                    if len(r) <= UNROLL_RANGE:
                        return dict(n=num(len(r)), elem=None, elems=[num(x) for x in r])
                n = sub(b, a) if s is num(1) else T("call", "rangelen", a, b, s)
                return gen(n, lambda i, s2: add(a, mul(s, i)))
            if k == "enumerate":
                sp = self.iter_spec(it.args[1], st)
                start = it.args[2]
                if sp["elems"] is not None:
                    return dict(n=sp["n"], elem=None, elems=[T("tuple", add(start, num(i)), e) for i, e in enumerate(sp["elems"])])
                return gen(sp["n"], lambda i, s2: T("tuple", add(start, i), sp["elem"](i, s2)))
            if k == "zip":
                sps = [self.iter_spec(x, st) for x in it.args[1:]]
                known = [s["elems"] for s in sps if s["elems"] is not None]
                if sps and len(known) == len(sps):
                    m = min(len(x) for x in known)
                    return dict(n=num(m), elem=None, elems=[T("tuple", *[x[i] for x in known]) for i in range(m)])
                if known:
                    m = min(len(x) for x in known)
                    if m <= UNROLL_SEQ:
                        els = []
                        for i in range(m):
                            els.append(T("tuple", *[s["elems"][i] if s["elems"] is not None else s["elem"](num(i), st) for s in sps]))
                        return dict(n=num(m), elem=None, elems=els)
                n = sps[0]["n"] if sps else num(0)
                for s in sps:
                    if s["n"].op == "call" and s["n"].args[0] == "len":
                        n = s["n"]
                        break
                return gen(n, lambda i, s2: T("tuple", *[s["elem"](i, s2) for s in sps]))
            if k in ("items", "keys", "values"):
                d = it.args[1]
                ents = self.dict_entries(d, st)
                if ents is not None and len(ents) <= UNROLL_SEQ * 2:
                    pick = dict(items=lambda kv: T("tuple", *kv), keys=lambda kv: kv[0], values=lambda kv: kv[1])[k]
                    return dict(n=num(len(ents)), elem=None, elems=[pick(e) for e in ents])
                dv = self.val(d, st)

                def f(i, s2):
                    kt = T("key", dv, i)
                    vt = self.load_item(d, kt, s2)
                    return dict(items=T("tuple", kt, vt), keys=kt, values=vt)[k]
                return gen(len_of(dv), f)
            if k == "reversed":
                sp = self.iter_spec(it.args[1], st)
                if sp["elems"] is not None:
                    return dict(n=sp["n"], elem=None, elems=sp["elems"][::-1])
                return gen(sp["n"], lambda i, s2: sp["elem"](sub(sub(sp["n"], num(1)), i), s2))
        els = self.known_elems(it, st)
        if els is not None and len(els) <= UNROLL_SEQ:
            return dict(n=num(len(els)), elem=None, elems=els)
        if it.op == "ite":
            v = it
            return gen(self.len_term(v, st), lambda i, s2: self.read_item(v, i, s2))
        cls = self.class_of(it)
        if it.op == "dict" or (cls is not None and self.prog.is_dictlike(cls)) or self.type_of(it) == "dict" or \
                (st.content.get(it) is not None and st.content[it].op == "dict"):
            return self.iter_spec(T("iter", "keys", it), st)
        v = self.val(it, st)
        if filt and v.op == "call" and v.args[0] == "numpy.unique" and len(v.args) == 2 and v.args[1].op in ("param", "attr"):
            # the set of visited elements is that of the array itself
            return gen(self.len_term(v.args[1], st), lambda i, s2: self.load_item(v.args[1], i, s2))
        if v.op == "comp" and v.args[0] == "list" and v.args[3] is TRUE:
            return gen(v.args[2], lambda i, s2: inst_el(v.args[1], v.args[2], i))
        if filt and v.op == "comp" and v.args[0] == "list" and v.args[2].op not in ("tuple", "unit"):
            sp = gen(v.args[2], lambda i, s2: inst_el(v.args[1], v.args[2], i))
            sp["filter"] = lambda i: inst_el(v.args[3], v.args[2], i)
            return sp
        if v.op == "const" and isinstance(v.args[0], str) and len(v.args[0]) <= UNROLL_SEQ:
            return dict(n=num(len(v.args[0])), elem=None, elems=[const(x) for x in v.args[0]])
        return gen(self.len_term(it, st), lambda i, s2: self.load_item(it, i, s2))

    def dict_entries(self, d, st):
        c = st.content.get(d, d)
        if c.op == "dict":
            return [(k, self.load_item(d, k, st) if d.op == "cell" else v) for k, v in c.args[0]]
        return None

    def len_term(self, r, st):
        els = self.known_elems(r, st)
        if els is not None:
            return num(len(els))
        v = self.val(r, st)
        return len_of(v)

    # ============================================================ expressions
    def cond(self, node, st):
        return truth(self.val(self.eval(node, st), st))

    def eval(self, n, st):
        self.steps += 1
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            self._note(f"expression {type(n).__name__}")
            return T("unknown", type(n).__name__, fresh_id())
        return m(n, st)

    def v(self, n, st):
        return self.val(self.eval(n, st), st)

    def ex_Constant(self, n, st):
        return const(n.value)

    def ex_Name(self, n, st):
        return self.lookup(n.id, st)

    def lookup(self, name, st):
        if name in st.env:
            r = st.env[name]
            return r
        fr = self.frames[-1]
        env = getattr(fr, "closure_env", None)
        while env is not None:
            if name in env[0]:
                return env[0][name]
            env = env[1] if len(env) > 1 else None
        return self.global_name(fr.module, name)

    def global_name(self, module, name):
        r = self.prog.resolve_name(module, name)
        return self.from_res(r, name)

    def from_res(self, r, name="?"):
        if r is None:
            return T("unbound", name)
        if r[0] == "func":
            return T("func", r[1].qual)
        if r[0] == "class":
            return T("cls", r[1].qual)
        if r[0] == "module":
            return T("module", r[1].name)
        if r[0] == "ext":
            return ext_glob(r[1])
        _, module, expr = r
        key = (module.name, id(expr))
        if key not in self.gcache:
            self.gcache[key] = T("gvar", module.name, name)
            rec, self.rec = self.rec, False
            st = State()
            f = Frame(None, module)
            self.frames.append(f)
            try:
                t = self.val(self.eval(expr, st), st)
                if contains(t, lambda x: x.op == "cell"):
                    t = T("gvar", module.name, name)
                self.gcache[key] = t
            finally:
                self.frames.pop()
                self.rec = rec
        return self.gcache[key]

    def ex_Attribute(self, n, st):
        b = self.eval(n.value, st)
        self.line = n.lineno
        return self.load_attr(b, n.attr, st)

    def load_attr(self, b, name, st):
        op = b.op
        if op == "ite" and isinstance(name, str):
            return self._jref(b.args[0], self.load_attr(b.args[1], name, st), self.load_attr(b.args[2], name, st))
        if b is NONE and not (isinstance(name, str) and name.startswith("__")):
            self._event("nonedef", st, name=name)
            return UNDEF
        if b is UNDEF:
            return UNDEF
        if op == "module":
            return self.from_res(self.prog.resolve_name(self.prog.modules[b.args[0]], name), name)
        if op == "glob":
            return ext_glob(f"{b.args[0]}.{name}")
        if op == "cls":
            c = self.prog.classes[b.args[0]]
            f = self.prog.find_method(c, name)
            if f:
                return T("func", f.qual)
        cls = self.class_of(b)
        if cls is not None and isinstance(name, str):
            p = self.prog.find_prop(cls, name)
            if p is not None:
                return self.call_func(p, [b], {}, st)
            f = self.prog.find_method(cls, name)
            if f is not None:
                if f.is_static:
                    return T("func", f.qual)
                return T("bmeth", b, f.qual)
            for c in self.prog.mro(cls):
                if name in c.attrs and not isinstance(c.attrs[name], ast.Attribute):
                    return self.from_res(("assign", c.module, c.attrs[name]), name)
            if name in ("items", "keys", "values", "update", "get", "pop", "copy", "setdefault") and self.prog.is_dictlike(cls):
                return T("emeth", b, name)
            self._event("read", st, base=b, name=name)
            return self.read_attr(b, name, st)
        if name == "T":
            return T("view", b, "T")
        ty = self.type_of(b)
        c = st.content.get(b)
        if name == "__dict__":
            return T("odict", b)
        if name in METHOD_NAMES and not (ty in ("at:Element",) and name not in ("deepcopy", "copy")):
            return T("emeth", b, name)
        if name in ("shape", "size", "ndim", "dtype"):
            v = self.val(b, st)
            return shape_attr(v, name)
        if op in ("cell", "param", "attr", "item", "view", "mu", "eta") or True:
            self._event("read", st, base=b, name=name)
            if c is not None and c.op == "dict":
                r = self.read_item(b, const(name), st)
                return r
            return self.read_attr(b, name, st)

    def class_of(self, ref):
        t = self.type_of(ref)
        return self.prog.classes.get(t) if t else None

    def type_of(self, ref):
        t = self.types.get(ref)
        if t is not None:
            return t
        op = ref.op
        if op == "cell":
            return self.cellinfo.get(ref, {}).get("type")
        if op == "ite":
            a, b = self.type_of(ref.args[1]), self.type_of(ref.args[2])
            return a if a == b or ref.args[2] in (NONE, UNDEF) else (b if ref.args[1] in (NONE, UNDEF) else None)
        if op in ("mu", "eta"):
            for a in ref.args[1:]:
                if isinstance(a, Term):
                    t = self.type_of(a)
                    if t:
                        return t
            return None
        if op == "attr":
            bt = self.type_of(ref.args[0])
            if bt in self.prog.classes and isinstance(ref.args[1], str):
                for c in self.prog.mro(self.prog.classes[bt]):
                    if ref.args[1] in c.attr_types:
                        return c.attr_types[ref.args[1]]
            elif bt in self.prog.classes and isinstance(ref.args[1], Term) and self.prog.is_dictlike(self.prog.classes[bt]) and ref.args[0].op == "attr":
                # entries of a declared mapping of per-element records (SIG.BPM[i]) are records themselves
                own = self.type_of(ref.args[0].args[0])
                if own in self.prog.classes and own != bt and self.prog.is_dictlike(self.prog.classes[own]):
                    return bt
            return None
        if op == "item":
            bt = self.type_of(ref.args[0])
            if bt == "at:Lattice":
                return "at:Lattice" if ref.args[1].op == "slice" else "at:Element"
            return None
        if op == "view":
            bt = self.type_of(ref.args[0])
            return bt if ref.args[1] == "alias" else ("at:Lattice" if bt == "at:Lattice" else None)
        return None

    def ex_Subscript(self, n, st):
        b = self.eval(n.value, st)
        k = self.index(n.slice, b, st)
        self.line = n.lineno
        return self.load_item(b, k, st)

    def index(self, node, b, st):
        """The value of a subscript, in a normal form: x[0, :, :] is x[0]; an ellipsis is written out where the number of dimensions is
        known; x[np.nonzero(m)] and x[nz[0], nz[1]] with nz = np.nonzero(m) are x[m]."""
        k = self.val(self.eval(node, st), st)
        if k.op == "call" and k.args[0] == "numpy.nonzero" and len(k.args) == 2:
            return k.args[1]
        if k.op == "item" and len(k.args) == 2 and k.args[1] is num(0) and k.args[0].op == "call" and k.args[0].args[0] == "numpy.nonzero" and len(k.args[0].args) == 2:
            c = k.args[0].args[1]
            z = c.args[0] if c.op == "not" else c
            if z.op in ("lt", "le", "eq") and self.val(b, st) in z.args:
                return c                    # (the rows where a comparison of x with something holds)
        if k.op != "tuple" or b.op in ("odict", "glob"):
            return k
        xs = list(k.args)
        ell = [i for i, x in enumerate(xs) if x.op == "const" and (x.args[0] is ... or x.args[0] == "...")]
        if len(ell) == 1:
            i = ell[0]
            if i == len(xs) - 1:
                xs = xs[:-1]
            else:
                sh = shape_attr(self.val(b, st), "shape")
                if sh.op == "tuple" and len(sh.args) >= len(xs) - 1 and not any(x.op in ("arr", "fn") for x in xs):
                    xs[i:i + 1] = [T("slice", NONE, NONE, NONE)] * (len(sh.args) - len(xs) + 1)
        out, i = [], 0
        while i < len(xs):
            x = xs[i]
            if x.op == "item" and len(x.args) == 2 and x.args[1] is num(0) and x.args[0].op == "call" and x.args[0].args[0] == "numpy.nonzero":
                j = 1
                while i + j < len(xs) and xs[i + j] is T("item", x.args[0], num(j)):
                    j += 1
                if j > 1:
                    out.append(x.args[0].args[1])
                    i += j
                    continue
            out.append(x)
            i += 1
        while len(out) > 1 and is_slice_full(out[-1]):
            out.pop()
        if not out:
            return T("slice", NONE, NONE, NONE)
        return out[0] if len(out) == 1 else T("tuple", *out)

    def load_item(self, b, k, st):
        if b.op == "ite":
            return self._jref(b.args[0], self.load_item(b.args[1], k, st), self.load_item(b.args[2], k, st))
        if k.op == "ite" and is_const(k.args[1]) and is_const(k.args[2]):
            return self._jref(k.args[0], self.load_item(b, k.args[1], st), self.load_item(b, k.args[2], st))
        if b.op == "odict":
            return self.load_attr(b.args[0], k.args[0] if is_str(k) else k, st)
        if b.op == "glob":
            return T("item", b, k)
        if b.op == "iter" and b.args[0] == "range" and k.op != "slice" and not (is_num(k) and k.args[0] < 0):
            return add(b.args[1], mul(b.args[3], k))
        cls = self.class_of(b)
        if cls is not None and self.prog.is_dictlike(cls) and k.op != "slice":
            return self.read_attr(b, k.args[0] if is_str(k) else k, st)
        self._event("subscript", st, base=b, key=k)
        return self.read_item(b, k, st)

    def ex_Slice(self, n, st):
        f = lambda x: NONE if x is None else self.v(x, st)
        return T("slice", f(n.lower), f(n.upper), f(n.step))

    def ex_Index(self, n, st):
        return self.eval(n.value, st)

    def ex_Tuple(self, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                r = self.eval(e.value, st)
                els = self.known_elems(r, st)
                if els is None:
                    out.append(T("star", self.val(r, st)))
                else:
                    out.extend(els)
            else:
                r = self.eval(e, st)
                out.append(self.cellify(r, st) if r.op in ("list", "dict") else r)
        return T("tuple", *out)

    def ex_List(self, n, st):
        t = self.ex_Tuple(n, st)
        return self.new_cell(T("list", *t.args), st, type="list")

    def ex_Set(self, n, st):
        t = self.ex_Tuple(n, st)
        return T("call", "set", T("tuple", *[self.val(x, st) for x in t.args]))

    def ex_Dict(self, n, st):
        ents = []
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                r = self.eval(v, st)
                e2 = self.dict_entries(r, st)
                if e2 is None:
                    base = self.val(r, st)
                    if ents:
                        base = T("overlay", T("dict", tuple(ents)), base)
                        ents = []
                else:
                    for kk, vv in e2:
                        ents = [(a, b) for a, b in ents if a is not kk] + [(kk, vv)]
            else:
                kk = self.v(k, st)
                r = self.eval(v, st)
                r = self.cellify(r, st) if r.op in ("list", "dict", "arr") else r
                ents = [(a, b) for a, b in ents if a is not kk] + [(kk, r)]
        d = T("dict", tuple(ents))
        if base is not None:
            d = T("dictupd", base, tuple((k, self.val(v, st)) for k, v in ents))
        return self.new_cell(d, st, type="dict")

    def ex_JoinedStr(self, n, st):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                v = self.v(p.value, st)
                if p.format_spec is not None:
                    spec = ast.unparse(p.format_spec)
                    self._event("format", st, value=v, spec=spec)
                    v = T("call", "format", v, spec)
                elif p.conversion == ord("r") or (p.conversion != -1):
                    v = T("call", "repr", v)
                parts.append(v)
        return join_str(parts)

    def ex_FormattedValue(self, n, st):
        return self.eval(n.value, st)

    def ex_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        self.line = n.lineno
        r = self.binop(BINOPS.get(type(n.op), type(n.op).__name__), a, b, st)
        if r.op in ("param", "view", "mu", "attr") and (r is a or r is b) and (r.op == "view" or self.is_mutable_obj(r, st)):
            return self.new_cell(self.val(r, st), st, copy="array", src=r)         # the result of arithmetic is a new object
        return r

    def binop(self, op, a, b, st):
        va, vb = self.val(a, st), self.val(b, st)
        if op == "+":
            ca, cb = st.content.get(a, a), st.content.get(b, b)
            if ca.op in ("list", "tuple") and cb.op in ("list", "tuple") and ca.op == cb.op:
                r = T(ca.op, *ca.args, *cb.args)
                return self.new_cell(r, st, type="list") if ca.op == "list" else r
            if is_str(va) or is_str(vb) or va.op == "fstr" or vb.op == "fstr":
                return join_str([va, vb])
            return binval("+", va, vb)
        if op == "*" and (st.content.get(a, a).op in ("list",) or va.op == "tuple") and is_num(vb) and va.op in ("list", "tuple"):
            k = int(vb.args[0])
            if k <= 8 and a.op == "cell" and self.cellinfo.get(a, {}).get("type") == "list":
                return T("list", *(va.args * k))
            if va.op == "tuple" and k <= 8:
                return T("tuple", *(va.args * k))
        if op == "%" and is_str(va):
            parts = va.args[0].split("%s")
            vs = list(vb.args) if vb.op == "tuple" else [vb]
            if not any("%" in p for p in parts) and len(parts) == len(vs) + 1:
                return join_str([x for p, v in zip(parts, vs) for x in (const(p), v)] + [const(parts[-1])])
            return T("call", "format", va, vb)
        r = set_op(op, va, vb)
        if r is not None:
            return r
        return binval(op, va, vb)

    def ex_UnaryOp(self, n, st):
        v = self.v(n.operand, st)
        if isinstance(n.op, ast.USub):
            return neg_val(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Not):
            return not_(truth(v))
        if isinstance(n.op, ast.Invert):
            return invert(v)
        return T("unknown", "unary", fresh_id())

    def ex_BoolOp(self, n, st):
        vals = []
        g = st.guards
        for x in n.values:
            v = self.v(x, st)
            vals.append(v)
            t = truth(v)
            if isinstance(n.op, ast.And):
                if t is FALSE:
                    break
                st.guards = st.guards + (Guard(t),)
            else:
                if t is TRUE:
                    break
                st.guards = st.guards + (Guard(not_(t)),)
        st.guards = g
        if all(is_boolish(v) for v in vals):
            return and_(*vals) if isinstance(n.op, ast.And) else or_(*vals)
        acc = vals[-1]
        for v in reversed(vals[:-1]):
            acc = ite(truth(v), acc, v) if isinstance(n.op, ast.And) else ite(truth(v), v, acc)
        return acc

    def ex_Compare(self, n, st):
        left = self.v(n.left, st)
        out = []
        for op, c in zip(n.ops, n.comparators):
            rref = self.eval(c, st)
            right = self.val(rref, st)
            out.append(self.compare(op, left, right, rref, st))
            left = right
        return and_(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, bref, st):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = eq(a, b)
            return not_(r) if isinstance(op, ast.NotEq) else r
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            x, y = set_members(a), set_members(b)
            if x is not None and y is not None:
                x, y = set(x), set(y)
                return const(x < y if isinstance(op, ast.Lt) else x > y if isinstance(op, ast.Gt) else x <= y if isinstance(op, ast.LtE) else x >= y)
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.GtE):
            return le(b, a)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return not_(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.in_(a, b, bref, st)
            return not_(r) if isinstance(op, ast.NotIn) else r
        return T("unknown", "cmp", fresh_id())

    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y is NONE:
                if x is NONE:
                    return TRUE
                if x.op in ("num", "tuple", "list", "arr", "dict", "poly", "func", "cls", "comp", "fn", "closure", "cell", "bmeth") or \
                        (x.op == "const" and x is not NONE) or (x.op == "call" and x.args[0] in NOT_NONE):
                    return FALSE
                if x.op == "attr" and self.type_of(x.args[0]) == "at:Element":
                    return FALSE        # fields of lattice elements are present or absent, never None
                if x.op in ("append", "extend") or x.op in ("mu", "eta") and isinstance(x.args[1], Term) and x.args[1].op == "cell":
                    return FALSE        # a container that was changed in place
                z = x
                while z.op == "item":
                    z = z.args[0]
                if z.op == "call" and isinstance(z.args[0], str) and z.args[0].startswith("numpy.") and ".random." not in z.args[0]:
                    return FALSE        # arrays and their entries
                if x.op == "ite":
                    return ite(x.args[0], self.is_(x.args[1], NONE), self.is_(x.args[2], NONE))
        if a is b:
            return TRUE
        if a.op in ("const", "num") and b.op in ("const", "num"):
            return const(a is b)
        if b in (TRUE, FALSE):
            return eq(a, b)
        return T("is", *sorted((a, b), key=lambda t: t.id))

    def in_(self, a, b, bref, st):
        if b.op == "call" and b.args[0] in ("keys", "list", "set", "tuple", "sorted", "frozenset") and len(b.args) == 2:
            b = b.args[1]
        if bref.op == "iter" and bref.args[0] == "keys":
            b = self.val(bref.args[1], st)
            bref = bref.args[1]
        if b.op in ("tuple", "list"):
            if is_const(a) and all(is_const(x) for x in b.args):
                return const(any(eq(a, x) is TRUE for x in b.args))
            return or_(*[eq(a, x) for x in b.args])
        if b.op == "dict":
            if all(is_const(k) for k, _ in b.args[0]):
                if is_const(a):
                    return const(any(eq(a, k) is TRUE for k, _ in b.args[0]))
                return or_(*[eq(a, k) for k, _ in b.args[0]])
        if b.op == "overlay":
            return or_(self.in_(a, b.args[0], b.args[0], st), T("in", a, b.args[1]))
        if is_str(a) and is_str(b):
            return const(a.args[0] in b.args[0])
        cls = self.class_of(bref)
        if cls is not None and self.prog.is_dictlike(cls):
            key = a.args[0] if is_str(a) else a
            if ("attr", bref, key) in st.heap:
                return TRUE
            if is_str(a) and bref.op != "cell" and any(a.args[0] in c.attr_types or a.args[0] in init_attrs(c, self.prog) for c in self.prog.mro(cls)):
                return TRUE
        self._event("membership", st, key=a, container=bref)
        return T("in", a, b)

    def ex_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.eval(n.body, st)
        if c is FALSE:
            return self.eval(n.orelse, st)
        k = self._known(c, st)
        if k is not None:
            return self.eval(n.body if k else n.orelse, st)
        out = []

        def f(node):
            def g(s):
                r = self.eval(node, s)
                out.append(self.cellify(r, s) if r.op in ("list", "dict") else r)
            return g
        self.fork(c, st, f(n.body), f(n.orelse))
        return self._jref(c, out[0], out[1])

    def ex_NamedExpr(self, n, st):
        r = self.eval(n.value, st)
        self.assign(n.target, r, st)
        return st.env.get(n.target.id, r)

    def ex_Lambda(self, n, st):
        return self._closure(n, st)

    def ex_Starred(self, n, st):
        return T("star", self.v(n.value, st))

    def ex_Await(self, n, st):
        return self.eval(n.value, st)

    def ex_Yield(self, n, st):
        return T("unknown", "yield", fresh_id())

    ex_YieldFrom = ex_Yield

    # --- comprehensions
    def ex_ListComp(self, n, st):
        return self._comp(n, "list", [n.elt], st)

    def ex_GeneratorExp(self, n, st):
        return self._comp(n, "list", [n.elt], st)

    def ex_SetComp(self, n, st):
        return T("call", "set", self.val(self._comp(n, "list", [n.elt], st), st))

    def ex_DictComp(self, n, st):
        return self._comp(n, "dict", [n.key, n.value], st)

    def _comp(self, n, kind, elts, st):
        saved = dict(st.env)

        def go(i):
            """-> list of (conds, elt tuple) when fully unrolled else None + symbolic"""
            if i == len(n.generators):
                return [[TRUE, tuple(self.eval(e, st) for e in elts), []]]
            g = n.generators[i]
            spec = self.iter_spec(self.eval(g.iter, st), st, filt=True)
            res = []

            def body(c=TRUE):
                gs = st.guards
                if c is not TRUE:
                    st.guards = st.guards + (Guard(c),)
                for f in g.ifs:
                    x = self.cond(f, st)
                    c = and_(c, x)
                    if x is not TRUE:
                        st.guards = st.guards + (Guard(x),)
                if c is FALSE:
                    st.guards = gs
                    return
                for cc, el, doms in go(i + 1):
                    res.append([and_(c, cc), el, doms])
                st.guards = gs

            if spec["elems"] is not None:
                for e in spec["elems"]:
                    self.assign(g.target, e, st)
                    body()
            else:
                L = fresh_id()
                idx = T("idx", L)
                self.loopinfo[L] = dict(domain=spec["n"], node=g, path=self.frames[-1].module.path, line=n.lineno, kind="comp")
                outer = self.loops
                self.loops = outer + (L,)
                self.assign(g.target, spec["elem"](idx, st), st)
                body(spec["filter"](idx) if "filter" in spec else TRUE)
                self.loops = outer
                for r in res:
                    r[2] = [(idx, spec["n"])] + r[2]
            return res

        rows = go(0)
        st.env = saved
        if all(c is TRUE and not d for c, _, d in rows):
            if kind == "list":
                return self.new_cell(T("list", *[self.cellify(e[0], st) if e[0].op in ("list", "dict", "arr") else e[0] for _, e, _ in rows]), st, type="list")
            return self.new_cell(T("dict", tuple((self.val(e[0], st), e[1]) for _, e, _ in rows)), st, type="dict")
        out = []
        for c, e, doms in rows:
            el = T("tuple", *[self.val(x, st) for x in e]) if kind == "dict" else self.val(e[0], st)
            dom = num(1)
            m = {}
            dl = []
            for idx, nn in doms:
                m[idx] = bv(nn, dl.count(nn))
                dl.append(nn)
            dom = dl[0] if len(dl) == 1 else T("tuple", *dl)
            if len(dl) == 1:
                out.append(T("comp", kind, bind_el(el, doms[0][0], dom), dom, bind_el(c, doms[0][0], dom)))
            else:
                out.append(T("comp", kind, subst(el, m), dom if doms else T("unit"), subst(c, m)))
        r = out[0] if len(out) == 1 else T("call", "chain", *out)
        cell = self.new_cell(r, st, type=kind)
        if kind == "list" and len(rows) == 1 and self.fresh_array(rows[0][1][0], st):
            self.cellinfo[cell]["fresh_elements"] = True
        return cell

    # ================================================================= calls
    def ex_Call(self, n, st):
        f = self.eval(n.func, st)
        args, kw = [], {}
        star_kw = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                r = self.eval(a.value, st)
                els = self.known_elems(r, st)
                if els is None:
                    args.append(T("star", self.val(r, st)))
                else:
                    args.extend(els)
            else:
                r = self.eval(a, st)
                args.append(self.cellify(r, st) if r.op in ("list", "dict", "arr") else r)
        for k in n.keywords:
            r = self.eval(k.value, st)
            if k.arg is None:
                ents = self.dict_entries(r, st)
                if ents is not None and all(is_str(a) for a, _ in ents):
                    for a, b in ents:
                        kw[a.args[0]] = b
                else:
                    star_kw = r
            else:
                kw[k.arg] = self.cellify(r, st) if r.op in ("list", "dict", "arr") else r
        self.line = n.lineno
        return self.call(f, args, kw, st, star_kw, n)

    def call(self, f, args, kw, st, star_kw=None, node=None):
        self.n_calls += 1
        op = f.op
        if op == "ite":
            out = []

            def mk(g):
                def run(s):
                    if g.op in ("undef", "nokey") or g is NONE:
                        out.append(UNDEF)
                        return
                    out.append(self.call(g, args, kw, s, star_kw, node))
                return run
            self.fork(f.args[0], st, mk(f.args[1]), mk(f.args[2]))
            return self._jref(f.args[0], out[0], out[1])
        if f is UNDEF:
            return UNDEF
        if op == "func":
            return self.call_func(self.prog.funcs[f.args[0]], args, kw, st, star_kw, node)
        if op == "bmeth":
            return self.call_func(self.prog.funcs[f.args[1]], [f.args[0]] + args, kw, st, star_kw, node)
        if op == "cls":
            return self.instantiate(self.prog.classes[f.args[0]], args, kw, st, star_kw, node)
        if op == "closure":
            return self.call_closure(f, args, kw, st)
        if op == "glob":
            return self.ext_call(f.args[0], args, kw, st, star_kw, node)
        if op == "emeth":
            return self.ext_method(f.args[0], f.args[1], args, kw, st, star_kw, node)
        self._event("ucall", st, func=f, args=args, kw=kw, node=node)
        # the value of an attribute called as a method of an unknown object
        return T("call", "?", self.val(f, st), *[self.val(a, st) for a in args],
                 *[T("kw", k, self.val(v, st)) for k, v in sorted(kw.items())])

    def bind(self, func, args, kw, st, star_kw, node=None):
        """-> (bound dict, problems)"""
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        ponly = {x.arg for x in a.posonlyargs}
        defaults = func.defaults()
        bound, problems = {}, []
        extra_pos = []
        star = False
        for i, r in enumerate(args):
            if r.op == "star":
                star = True
                continue
            if i < len(pos):
                bound[pos[i]] = r
            else:
                extra_pos.append(r)
        if extra_pos and not a.vararg:
            problems.append(f"takes {len(pos)} positional arguments, {len(args)} given")
        extra_kw = {}
        for k, r in kw.items():
            if k in pos and k not in ponly or k in kwo:
                if k in bound:
                    problems.append(f"multiple values for argument '{k}'")
                bound[k] = r
            else:
                extra_kw[k] = r
        if extra_kw and not a.kwarg:
            problems.append(f"unexpected keyword argument(s) {sorted(extra_kw)}")
        skv = self.val(star_kw, st) if star_kw is not None else None
        m = Frame(func, func.module)
        for p in pos + kwo:
            if p in bound:
                continue
            if star:
                bound[p] = T("unknown", "stararg", fresh_id())
                continue
            if p in defaults:
                self.frames.append(m)
                rec, self.rec = self.rec, False
                d = self.val(self.eval(defaults[p], st), st)
                self.rec = rec
                self.frames.pop()
                if skv is not None and p not in ponly:
                    d = ite(T("in", const(p), skv), T("item", skv, const(p)), d)
                bound[p] = d
            elif skv is not None:
                bound[p] = T("item", skv, const(p))
            else:
                problems.append(f"missing required argument '{p}'")
                bound[p] = T("unknown", "missing", fresh_id())
        if a.vararg:
            bound[a.vararg.arg] = T("tuple", *extra_pos) if not star else T("unknown", "varargs", fresh_id())
        if a.kwarg:
            if star_kw is not None and not extra_kw:
                bound[a.kwarg.arg] = star_kw
            else:
                ents = tuple((const(k), v) for k, v in extra_kw.items())
                c = T("dict", ents)
                if star_kw is not None:
                    c = T("overlay", T("dict", tuple((k, self.val(v, st)) for k, v in ents)), skv)
                bound[a.kwarg.arg] = self.new_cell(c, st, type="dict")
        return bound, problems

    def call_func(self, func, args, kw, st, star_kw=None, node=None):
        bound, problems = self.bind(func, args, kw, st, star_kw, node)
        if problems:
            self._event("badcall", st, q=func.qual, problems=problems)
        stack = [f.func for f in self.frames]
        if func.qual in self.prims or func in stack or len(stack) > MAX_DEPTH:
            return self.prim_call(func, bound, st)
        if is_generator(func.node):
            return self.prim_call(func, bound, st)
        line = self.line
        fr = Frame(func, func.module)
        env = st.env
        self._event("enter", st, q=func.qual, bound=bound)
        self.frames.append(fr)
        self.inlined.add(func.qual)
        st.env = dict(bound)
        for p, r in bound.items():
            ann = func.annotation(p)
            if ann and self.type_of(r) is None and r.op in ("param", "cell", "attr", "item", "mu"):
                t = self.prog.ann_type(func.module, ann)
                if t and t not in ("int", "float", "bool", "str", "numpy:ndarray"):
                    self.types[r] = t
        outer_loops = self.loops
        val = self._run_body_inner(func, fr, st)
        self.loops = outer_loops
        self.frames.pop()
        st.env = env
        self.line = line
        if val is not UNDEF and val.op in ("tuple", "ite"):
            val = self.collapse(val, st)
        if val is UNDEF:
            val = T("unknown", "noreturn", fresh_id())
        return val

    def _run_body_inner(self, func, fr, st):
        base = st.guards
        self.exec_block(func.node.body, st)
        if st.alive:
            fr.returns.append((st.copy(), NONE))
        return self._join_returns(fr, st, base)

    def prim_call(self, func, bound, st):
        short = func.qual.split(":")[1]
        vals = {k: self.val(r, st) for k, r in bound.items()}
        pure = func.qual in self.pure_prims
        e = self._event("call", st, q=func.qual, name=short, bound=bound, vals=vals, func=func)
        if e is not None:
            e.state = st.copy()
        if func.qual.endswith(":atgetfieldvalues"):
            res = self.getvals(vals, bound, st)
        elif pure:
            res = T("pcall", short, *[T("kw", k, v) for k, v in vals.items()])
        else:
            res = T("pcall", short, *[T("kw", k, v) for k, v in vals.items()], T("at", fresh_id()))
        if e is not None:
            e.result = res
        if self.havoc and not pure:
            for r in self.havoc(func.qual, bound) or ():
                w = fresh_id()
                st.wlog[w] = ("*", r, None)
        return res

    def getvals(self, vals, bound, st):
        ring = bound.get("ring")
        ringv = self.val_id(ring, st) if ring is not None else NONE
        name = vals.get("attrname", NONE)
        # a read of a field that was written in this run: keep it distinguishable
        nm = name.args[0] if is_str(name) else name
        ver = 0
        for wid, (k, b, n2) in st.wlog.items():
            if k == "attr" and n2 == nm and ring is not None and under(b, ring):
                ver = max(ver, wid)
            if k == "*" and ring is not None and (under(ring, b) or under(b, ring)):
                ver = max(ver, wid)
            if k == "item" and b.op == "attr" and b.args[1] == nm and under(b, ring):
                ver = max(ver, wid)
        base = ringv if not ver else T("version", ringv, ver)
        return T("call", "getvals", base, vals.get("refpts", NONE), name, vals.get("index", NONE))

    def call_closure(self, f, args, kw, st):
        node, env, module, outer = self.closures[f]
        from .model import Func
        if isinstance(node, ast.Lambda):
            fn = Func(f"{module.name}:<lambda>", "<lambda>", node, module)
        else:
            fn = Func(f"{module.name}:{node.name}", node.name, node, module)
        bound, problems = self.bind(fn, args, kw, st, None)
        if len(self.frames) > MAX_DEPTH or any(x.func is not None and x.func.node is node for x in self.frames):
            return T("unknown", "rec", fresh_id())
        fr = Frame(fn, module)
        fr.closure_env = (env, getattr(self.frames[-1], "closure_env", None)) if getattr(self.frames[-1], "closure_env", None) else (env,)
        saved = st.env
        self.frames.append(fr)
        st.env = dict(bound)
        if isinstance(node, ast.Lambda):
            r = self.eval(node.body, st)
            r = self.cellify(r, st)
        else:
            r = self._run_body_inner(fn, fr, st)
        self.frames.pop()
        st.env = saved
        return r

    def instantiate(self, cls, args, kw, st, star_kw, node):
        if self.prog.is_dictlike(cls):
            c = self.new_cell(T("dict", ()), st, type=cls.qual, fresh=True)
            init = self.prog.find_method(cls, "__init__")
            own = cls.methods.get("__init__")
            if len(args) == 1 and not kw and self.dict_entries(args[0], st) is None and self.val(args[0], st).op in ("comp", "mapw", "upd", "call", "eta", "overlay"):
                st.content[c] = self.val(args[0], st)
                args = []
            for a in args:
                self._dict_update(c, a, st)
            for k, v in kw.items():
                st.heap[("attr", c, k)] = (v, fresh_id())
            if star_kw is not None:
                self._dict_update(c, star_kw, st)
            if own is not None and not args and not kw and star_kw is None and cls.bases and "dict" not in cls.bases:
                self.call_func(own, [c], {}, st)
            return c
        c = self.new_cell(T("obj", cls.qual, fresh_id()), st, type=cls.qual, fresh=True)
        init = self.prog.find_method(cls, "__init__")
        if init is not None:
            self.call_func(init, [c] + args, kw, st, star_kw, node)
        return c

    def _dict_update(self, c, src, st):
        """c: DotDict cell (attribute locations); src: mapping ref"""
        ents = self.dict_entries(src, st)
        if ents is not None:
            for k, v in ents:
                self.write_attr(c, k.args[0] if is_str(k) else k, v, st)
            return
        sv = self.val(src, st)
        if sv.op == "overlay" and sv.args[0].op == "dict":
            for k, v in sv.args[0].args[0]:
                st.heap[("attr", c, k.args[0] if is_str(k) else k)] = (v, fresh_id())
            sv = sv.args[1]
        # unknown mapping overrides everything present
        keys = [k for k in st.heap if k[0] == "attr" and k[1] is c]
        for k in keys:
            r, w = st.heap[k]
            kt = const(k[2]) if isinstance(k[2], str) else k[2]
            st.heap[k] = (ite(T("in", kt, sv), T("item", sv, kt), r), fresh_id())
        self._event("dict_update", st, base=c, value=sv)
        w = fresh_id()

    # -------------------------------------------------------------- externals
    def deep_copy(self, ref, st):
        if is_const(ref):
            return ref
        if ref.op in ("tuple",):
            return T("tuple", *[self.deep_copy(x, st) for x in ref.args])
        content = self.val_id(ref, st)
        c = T("cell", fresh_id())
        self.cellinfo[c] = dict(copy="deep", src=ref, type=self.type_of(ref))
        st.content[c] = content
        # replicate what is known below ref
        for (k, b, n2), (r, w) in list(st.heap.items()):
            if under(b, ref):
                nb = subst(b, {ref: c})
                nr = r
                if r.op == "cell":
                    nr = T("cell", fresh_id())
                    self.cellinfo[nr] = dict(copy="deep", src=r, type=self.type_of(r))
                    st.content[nr] = self.val(r, st)
                st.heap[(k, nb, n2)] = (nr, w)
        return c

    def shallow_copy(self, ref, st):
        c = T("cell", fresh_id())
        self.cellinfo[c] = dict(copy="shallow", src=ref, type=self.type_of(ref))
        st.content[c] = st.content.get(ref, ref) if ref.op == "cell" else self.val_id(ref, st)
        return c

    def ext_call(self, name, args, kw, st, star_kw, node):
        vals = [self.val(a, st) for a in args]
        kvals = {k: self.val(a, st) for k, a in kw.items()}
        base = name
        h = EXT.get(name)
        if h is not None:
            r = h(self, args, kw, st)
            if r is not None:
                if name in ("setattr",):
                    return r
                self._event("ecall", st, name=name, args=vals, kw=kvals, refs=args, kwrefs=kw, node=node, result=r)
                return r
        e = self._event("ecall", st, name=name, args=vals, kw=kvals, refs=args, kwrefs=kw, node=node, result=None)
        if "out" in kw:
            tgt = kw["out"]
            for r in (tgt.args if tgt.op == "tuple" else (tgt,)):
                self.inplace(r, T("unknown", "out", fresh_id()), st, "out=")
        if name == "numpy.nan_to_num" and args and "copy" in kvals and is_const(kvals["copy"]) and not const_value(kvals["copy"]):
            self.inplace(args[0], T("unknown", name, fresh_id()), st, name)
        if name in EXT_MUTATES:
            for i in EXT_MUTATES[name]:
                if i < len(args):
                    self.inplace(args[i], T("unknown", name, fresh_id()), st, name)
        if name in VIEW_FUNCS and args:
            k = VIEW_FUNCS[name]
            r = args[0]
            if r.op in ("cell", "param", "attr", "item", "view", "mu"):
                t = T("view", r, k, *([x for x in vals[1:]] + [T("kw", a, b) for a, b in sorted(kvals.items())]))
                return t
        if any(v.op in ("closure", "func") for v in vals + list(kvals.values())):
            kvals = dict(kvals)
            vals = [self.functional(v, st, kvals) for v in vals]
            kvals = {k: self.functional(v, st) for k, v in kvals.items()}
        res = ext_value(name, vals, kvals, impure=lambda: fresh_id())
        if e is not None:
            e.result = res
        return res

    def functional(self, f, st, kw=None):
        """A function passed to a library: what it returns and which setters and measurements it calls, as a function of its arguments."""
        if f.op == "closure":
            a = self.closures[f][0].args
        elif f.op == "func" and f.args[0] in self.prog.funcs:
            a = self.prog.funcs[f.args[0]].node.args
        else:
            return f
        n = len(a.posonlyargs + a.args) - len(a.defaults)
        if a.vararg or a.kwarg or n < 1 or len(self.frames) > MAX_DEPTH:
            return f
        more = []
        if kw is not None and "args" in kw and kw["args"].op == "tuple" and len(kw["args"].args) < n:
            more = list(kw.pop("args").args)        # (the library passes these after its own arguments)
        params = [T("param", f"#{k}") for k in range(n - len(more))]
        events, rec, steps = self.events, self.rec, self.steps
        self.events, self.rec = [], True
        s = st.copy()
        try:
            r = self.call(f, params + more, {}, s, None, None)
            r = self.val(r, s)
            seen = [T("tuple", T("const", e.q), and_(*[g.cond for g in e.guards[len(st.guards):] if g.kind != "raise"]),
                      *[T("kw", k, v) for k, v in sorted(e.vals.items())]) for e in self.events if e.kind == "call" and ".at_wrapper:" not in e.q and e.q not in self.pure_prims]
        finally:
            self.events, self.rec = events, rec
        return T("fun", len(params), r, T("tuple", *seen))

    def ext_method(self, recv, meth, args, kw, st, star_kw, node):
        vals = [self.val(a, st) for a in args]
        kvals = {k: self.val(a, st) for k, a in kw.items()}
        ty = self.type_of(recv)
        rv = self.val(recv, st)
        if set_members(rv) is not None and len(vals) == 1 and not kvals:
            o = set_members(vals[0]) if vals[0].op == "call" else set_members(T("call", "set", vals[0]))
            if o is not None and meth in SET_METHODS:
                return set_op(SET_METHODS[meth], rv, T("call", "set", T("tuple", *o)))
            if o is not None and meth in ("issubset", "issuperset", "isdisjoint"):
                return const(getattr(set(set_members(rv)), meth)(o))

        def ev(res, **d):
            self._event("mcall", st, recv=recv, meth=meth, args=vals, kw=kvals, refs=args, kwrefs=kw, node=node, result=res, **d)
            return res

        if recv.op == "const" and isinstance(recv.args[0], str) or rv.op == "const" and isinstance(rv.args[0], str):
            if all(is_const(v) for v in vals) and not kw and meth in STR_METHODS:
                try:
                    return const(getattr(rv.args[0], meth)(*[const_value(v) for v in vals]))
                except Exception:
                    pass
        if meth == "format" and is_str(rv):
            r = template(rv.args[0], vals, kvals)
            if r is not None:
                return r
        if meth == "deepcopy":
            return ev(self.deep_copy(recv, st))
        if meth == "copy":
            if ty in ("at:Lattice", "list", "dict") or (ty in self.prog.classes):
                return ev(self.shallow_copy(recv, st))
            c = st.content.get(recv)
            if c is not None and c.op in ("list", "dict"):
                return ev(self.shallow_copy(recv, st))
            if recv.op in ("attr", "item") and c is None and rv.op == "ite":
                pass
            n2 = self.new_cell(rv, st, copy="array", src=recv)
            return ev(n2)
        if meth in ("items", "keys", "values") and not args:
            return T("iter", meth, recv)
        if meth == "get" and (ty == "dict" or (ty in self.prog.classes and self.prog.is_dictlike(self.prog.classes[ty])) or (st.content.get(recv, rv).op in ("dict", "overlay", "dictupd"))):
            r = self.load_item(recv, vals[0], st)
            d = args[1] if len(args) > 1 else NONE
            c = self.in_(vals[0], rv, recv, st)
            return ev(self._jref(c, r, d))
        if meth == "setdefault" and vals and ty in self.prog.classes and self.prog.is_dictlike(self.prog.classes[ty]):
            k = vals[0].args[0] if is_str(vals[0]) else vals[0]
            c = self.in_(vals[0], rv, recv, st)
            d = args[1] if len(args) > 1 else NONE
            ev(NONE)
            self.fork(c, st, lambda s: None, lambda s: self.store_attr(recv, k, d, s))
            return self.read_attr(recv, k, st)
        if meth == "pop" and vals and ty in self.prog.classes and self.prog.is_dictlike(self.prog.classes[ty]):
            r = self.load_item(recv, vals[0], st)
            ev(r)
            self.store_item(recv, vals[0], DELETED, st, aug="del")
            return r
        if meth == "update":
            if ty in self.prog.classes and self.prog.is_dictlike(self.prog.classes[ty]):
                ev(NONE)
                for a in args:
                    self._dict_merge(recv, a, st)
                for k, v in kw.items():
                    self.write_attr(recv, k, v, st, aug="update")
                if star_kw is not None:
                    self._dict_merge(recv, star_kw, st)
                return NONE
            if recv.op == "attr" and recv.args[0].op == "glob" or recv.op == "glob":
                self._event("gwrite", st, name=show(recv), value=vals[0] if vals else NONE, module="", update=True)
                return NONE
            ev(NONE)
            self.inplace(recv, T("unknown", "update", fresh_id()), st, "update")
            return NONE
        if meth in ("append", "extend", "insert", "remove", "pop", "clear",  "sort", "reverse", "setdefault", "popitem", "add", "discard", "fill", "put",
                    "itemset", "resize", "setfield", "setflags", "partition"):
            c = st.content.get(recv)
            if c is None and ty not in ("list", "dict") and recv.op not in ("param", "attr", "item", "view", "cell") :
                return ev(T("call", "." + meth, rv, *vals))
            if meth == "append":
                ev(NONE, mut=True)
                x = args[0] if args else NONE
                self._event("write", st, sort="inplace", base=recv, key="append", value=vals[0] if vals else NONE, ref=x, aug="append", old=rv)
                if c is not None and c.op == "list" and not self._has_items(recv, st):
                    st.content[recv] = T("list", *c.args, x)
                else:
                    st.content[recv] = T("append", c if c is not None else rv, vals[0] if vals else NONE)
                    w = fresh_id()
                    st.wlog[w] = ("item", recv, T("any"))
                return NONE
            if meth == "extend" and c is not None and c.op == "list":
                els = self.known_elems(args[0], st) if args else None
                ev(NONE, mut=True)
                self._event("write", st, sort="inplace", base=recv, key="extend", value=rv, ref=recv, aug="extend", old=rv)
                st.content[recv] = T("list", *c.args, *els) if els is not None else T("extend", c, vals[0])
                return NONE
            if meth in ("pop", "setdefault") and (ty == "dict" or (c is not None and c.op == "dict")) and vals:
                r = self.load_item(recv, vals[0], st)
                ev(r, mut=True)
                self._event("write", st, sort="inplace", base=recv, key=meth, value=vals[0], ref=recv, aug=meth, old=rv)
                if c is not None and c.op == "dict" and meth == "pop":
                    st.content[recv] = T("dict", tuple((k, v) for k, v in c.args[0] if k is not vals[0]))
                return r
            res = T("call", "." + meth, rv, *vals)
            ev(res, mut=True)
            self.inplace(recv, T("unknown", meth, fresh_id()), st, meth)
            return res
        if meth in ("reshape", "ravel", "transpose", "squeeze", "swapaxes", "view"):
            if meth == "reshape" and len(vals) == 1 and vals[0] is num(-1):
                meth, vals, kvals = "ravel", [], {}
            if meth == "ravel" and recv.op not in ("cell", "param", "attr", "item", "view", "mu", "ite"):
                return flat(rv)
            if meth == "transpose" and not vals and not kvals:
                return T("view", recv, "T") if recv.op in ("cell", "param", "attr", "item", "view", "mu") else transpose(rv)
            if recv.op in ("cell", "param", "attr", "item", "view", "mu", "ite"):
                return T("view", recv, meth, *(vals + [T("kw", a, b) for a, b in sorted(kvals.items())]))
            return callterm("numpy." + meth, [rv] + vals, kvals)
        if recv.op == "glob" or rv.op in ("unknown",):
            pass
        if meth in NP_METHODS:
            res = ext_value("numpy." + meth, [rv] + vals, kvals, impure=lambda: fresh_id())
            self._event("ecall", st, name="numpy." + meth, args=[rv] + vals, kw=kvals, refs=[recv] + args, kwrefs=kw, node=node, result=res)
            return res
        if meth in ("astype", "flatten", "tolist"):
            return ev(self.new_cell(flat(rv) if meth == "flatten" else rv, st, copy="array", src=recv) if meth != "tolist" else rv)
        return ev(T("call", "." + meth, rv, *vals, *[T("kw", a, b) for a, b in sorted(kvals.items())]))

    def _dict_merge(self, recv, src, st):
        ents = self.dict_entries(src, st)
        if ents is not None:
            for k, v in ents:
                self.write_attr(recv, k.args[0] if is_str(k) else k, v, st, aug="update")
            return
        if self.cellinfo.get(recv, {}).get("type") and recv.op == "cell":
            return self._dict_update(recv, src, st)
        sv = self.val(src, st)
        self._event("write", st, sort="merge", base=recv, key="*", value=sv, ref=src, aug="update", old=recv)
        w = fresh_id()
        st.wlog[w] = ("*", recv, None)


class AnalysisLimit(Exception):
    pass


# ------------------------------------------------------------------- helpers
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%", ast.FloorDiv: "//",
          ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}

ARRAY_PCALLS = {"add_padded", "randnc"}
ARRAY_CALLS = {"flat", "numpy.full", "numpy.array", "numpy.tile", "numpy.arange", "numpy.linspace", "numpy.concatenate", "numpy.dot",
               "numpy.transpose", "numpy.ravel", "numpy.reshape", "getvals", "numpy.repeat", "numpy.cumsum", "numpy.diff", "numpy.unique",
               "numpy.vstack", "numpy.hstack", "numpy.random.randn", "numpy.mean", "numpy.nanmean", "matmul", "numpy.full_like", "numpy.empty",
               "numpy.einsum", "numpy.roll", "numpy.outer", "numpy.where"}
ARRAY_ATTRS = {"Noise", "NoiseCO", "Offset", "CalError", "SupportOffset", "PolynomA", "PolynomB", "SetPointA", "SetPointB",
               "NomPolynomA", "NomPolynomB", "CalErrorA", "CalErrorB", "MagnetOffset", "MagnetRoll", "T1", "T2", "R1", "R2",
               "Z0", "Z0ideal", "CMlimit", "KickAngle", "beamSize", "randomInjectionZ", "staticInjectionZ", "BPM", "RF", "Magnet",
               "HCM", "VCM", "SkewQuad", "Girder", "Plinth", "Section", "PolynomAOffset", "PolynomBOffset", "magnet_strengths",
               "max_injection_pos_angle", "EApertures", "RApertures"}
NON_OBJECT_CALLS = {"len", "int", "float", "bool", "str", "round", "hasattr", "isinstance", "format", "repr", "shapeof", "sizeof", "ndimof",
                    "numpy.prod", "super", "?", "type", "key"}
NOT_NONE = {"flat", "len", "numpy.full", "numpy.array", "getvals", "numpy.zeros", "numpy.arange", "numpy.ravel", "numpy.concatenate", "numpy.linspace",
            "numpy.tile", "numpy.unique", "int", "float", "bool", "str"}
METHOD_NAMES = {"copy", "deepcopy", "reshape", "ravel", "transpose", "flatten", "sum", "mean", "max", "min", "std", "var", "any", "all", "dot",
                "astype", "difference", "intersection", "union", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "append", "extend", "insert", "remove", "pop", "clear", "sort", "update", "get", "items", "keys", "values", "replace",
                "format", "join", "split", "startswith", "endswith", "upper", "lower", "strip", "fill", "filled", "tolist", "argmax", "argmin", "nonzero", "round",
                "squeeze", "swapaxes", "cumsum", "prod", "conj", "setdefault", "popitem", "reverse", "count", "index", "put", "itemset", "resize",
                "repeat", "clip", "item", "read", "close", "write", "slice", "view", "add", "discard", "union", "intersection", "searchsorted", "isdisjoint"}
STR_METHODS = {"replace", "upper", "lower", "strip", "startswith", "endswith", "split", "format", "join", "title", "capitalize", "lstrip", "rstrip", "removesuffix", "removeprefix"}
NP_METHODS = {"sum", "mean", "max", "min", "std", "var", "any", "all", "dot", "argmax", "argmin", "nonzero", "round", "cumsum", "prod", "repeat", "clip", "conj", "searchsorted"}
VIEW_FUNCS = {"numpy.ravel": "ravel", "numpy.reshape": "reshape", "numpy.transpose": "transpose", "numpy.squeeze": "squeeze",
              "numpy.asarray": "alias", "numpy.asanyarray": "alias", "numpy.atleast_1d": "atleast_1d", "numpy.atleast_2d": "atleast_2d",
              "numpy.swapaxes": "swapaxes", "numpy.ascontiguousarray": "alias", "numpy.broadcast_to": "broadcast_to", "numpy.require": "alias"}
EXT_MUTATES = {"numpy.copyto": [0], "numpy.put": [0], "numpy.place": [0], "numpy.putmask": [0], "numpy.fill_diagonal": [0],
               "numpy.random.shuffle": [0], "random.shuffle": [0], "at.set_value_refpts": [0], "numpy.add.at": [0], "numpy.multiply.at": [0], "numpy.subtract.at": [0],
               "at.set_shift": [0], "at.set_tilt": [0], "numpy.put_along_axis": [0]}
FN = {"numpy.abs": "abs", "numpy.absolute": "abs", "numpy.fabs": "abs", "abs": "abs", "numpy.sqrt": "sqrt", "math.sqrt": "sqrt", "numpy.sign": "sign",
      "numpy.cos": "cos", "numpy.sin": "sin", "math.cos": "cos", "math.sin": "sin", "numpy.tan": "tan", "numpy.exp": "exp", "numpy.log": "log", "numpy.isnan": "isnan",
      "math.isnan": "isnan", "numpy.isfinite": "isfinite", "numpy.floor": "floor", "numpy.ceil": "ceil", "numpy.conj": "conj", "math.fabs": "abs"}


def init_attrs(cls, prog):
    out = set()
    for _, node, me in prog.scopes(cls, "__init__"):
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                out.add(n.attr)
    return out


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def ext_glob(name):
    for a, b in (("np.", "numpy."), ("matplotlib.pyplot", "matplotlib.pyplot")):
        if name.startswith(a):
            name = b + name[len(a):]
    consts = {"numpy.nan": T("const", "nan"), "numpy.NaN": T("const", "nan"), "numpy.inf": T("const", "inf"), "numpy.newaxis": NONE,
              "numpy.pi": T("glob", "pi"), "math.pi": T("glob", "pi"), "math.nan": T("const", "nan"), "math.inf": T("const", "inf")}
    return consts.get(name) or T("glob", name)


is_boolish = boolish


def is_slice_full(k):
    return k.op == "slice" and all(x is NONE for x in k.args)


def is_scalar_index(k):
    return k.op in ("num", "idx", "param", "poly", "bv", "item", "attr", "mu", "eta", "key") or (k.op == "call" and k.args[0] in ("int", "len"))


def distinct(a, b):
    if a is b:
        return False
    if a.op == "any" or b.op == "any":
        return False
    if a.op in ("num", "const") and b.op in ("num", "const"):
        return True
    if a.op in ("slice",) or b.op == "slice":
        s, x = (a, b) if a.op == "slice" else (b, a)
        if is_num(x) and x.args[0] >= 0:
            lo, hi = s.args[0], s.args[1]
            if is_num(lo) and lo.args[0] > x.args[0]:
                return True
            if is_num(hi) and 0 <= hi.args[0] <= x.args[0]:
                return True
        return False
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return any(x.op != "slice" and y.op != "slice" and distinct(x, y) for x, y in zip(a.args, b.args))
    if a.op in ("idx", "poly", "param", "num") and b.op in ("idx", "poly", "param", "num"):
        d = sub(a, b)
        return is_num(d) and d is not num(0)
    return False


def view_path(base):
    """The chain of view operations between a view and the array it looks into."""
    p = []
    while base.op == "view":
        p.append(T("tuple", *[x if isinstance(x, Term) else T("const", x) for x in base.args[1:]]))
        base = base.args[0]
    return T("tuple", *p[::-1])


def under(t, root):
    """t denotes root or an object reached from it."""
    while True:
        if t is root:
            return True
        if t.op in ("attr", "item", "view"):
            t = t.args[0]
        elif t.op == "ite":
            return under(t.args[1], root) or under(t.args[2], root)
        else:
            return False


def may_alias(a, b):
    if a is b:
        return True
    if a.op == "view":
        a = a.args[0]
        return may_alias(a, b)
    if b.op == "view":
        return may_alias(a, b.args[0])
    if a.op == "ite":
        return may_alias(a.args[1], b) or may_alias(a.args[2], b)
    if b.op == "ite":
        return may_alias(a, b.args[1]) or may_alias(a, b.args[2])
    if a.op != b.op:
        if {a.op, b.op} <= {"attr", "item", "param", "cell", "mu", "eta"} and ("mu" in (a.op, b.op) or "eta" in (a.op, b.op)):
            return True
        return False
    if a.op == "attr":
        return a.args[1] == b.args[1] and may_alias(a.args[0], b.args[0])
    if a.op == "item":
        return may_alias(a.args[0], b.args[0]) and not distinct(a.args[1], b.args[1])
    return False


def match_idx(pat, var, term):
    """Find m with subst(pat, var->m) is term."""
    if pat is var:
        return term
    if pat is term:
        return None
    found = []

    def go(p, t):
        if p is var:
            found.append(t)
            return True
        if p is t:
            return True
        if not isinstance(p, Term) or not isinstance(t, Term):
            if isinstance(p, tuple) and isinstance(t, tuple) and len(p) == len(t):
                return all(go(x, y) for x, y in zip(p, t))
            return p == t
        if p.op != t.op or len(p.args) != len(t.args):
            return False
        return all(go(x, y) for x, y in zip(p.args, t.args))

    if go(pat, term) and found and all(f is found[0] for f in found):
        return found[0]
    return None


def template(text, vals, kvals):
    """The string that "...{}...".format(...) gives when each field is a plain argument."""
    out, k = [], 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(text):
            out.append(const(lit))
            if name is None:
                continue
            if spec or conv:
                return None
            if name == "":
                name, k = k, k + 1
            v = vals[int(name)] if isinstance(name, int) or name.isdigit() else kvals[name]
            out.append(v)
    except (ValueError, KeyError, IndexError):
        return None
    return join_str(out)


def join_str(parts):
    out = []
    for p in parts:
        if p.op == "fstr":
            out.extend(p.args)
        else:
            out.append(p)
    merged = []
    for p in out:
        if p.op == "num":
            p = const(str(const_value(p)))
        elif p.op == "const" and not isinstance(p.args[0], str):
            p = const(str(p.args[0]))
        if merged and is_str(p) and is_str(merged[-1]):
            merged[-1] = const(merged[-1].args[0] + p.args[0])
        elif is_str(p) and p.args[0] == "" and merged:
            continue
        else:
            merged.append(p)
    if all(is_str(p) for p in merged):
        return const("".join(p.args[0] for p in merged))
    # push conditional strings outward: f"{a if c else b}X" -> ("aX" if c else "bX")
    for i, p in enumerate(merged):
        if p.op == "ite" and is_str(p.args[1]) and is_str(p.args[2]):
            return ite(p.args[0], join_str(merged[:i] + [p.args[1]] + merged[i + 1:]), join_str(merged[:i] + [p.args[2]] + merged[i + 1:]))
    return T("fstr", *merged)


def binval(op, a, b):
    if a.op == "arr" and b.op == "arr" and len(a.args) == len(b.args) and op in ("+", "-", "*", "/"):
        return T("arr", *[binval(op, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "arr" and op in ("+", "-", "*", "/", "**") and is_scalar_val(b):
        return T("arr", *[binval(op, x, b) for x in a.args])
    if b.op == "arr" and op in ("+", "-", "*", "/") and is_scalar_val(a):
        return T("arr", *[binval(op, a, x) for x in b.args])
    if op == "+":
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.args[0] == "numpy.full" and len(x.args) == 3 and x.args[2] is num(0) and not is_num(x.args[1]) and x.args[1] is len_of(y):
                return y                         # (a vector of zeros as long as the other operand)
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        return mul(a, b)
    if op == "/":
        return div(a, b)
    if op == "**":
        return power(a, b)
    if op == "@":
        return matmul(a, b)
    if op == "//" and is_num(a) and is_num(b) and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if op == "%" and is_num(a) and is_num(b) and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if op == "&":
        return and_(a, b)
    if op == "|":
        return or_(a, b)
    return T("bin", op, a, b)


def is_scalar_val(t):
    if t.op in ("num",):
        return True
    if t.op == "poly":
        return all(is_scalar_val(a) for m, c in t.args[0] for a, e in m)
    if t.op == "fn":
        return all(is_scalar_val(x) for x in t.args[1:] if isinstance(x, Term))
    if t.op == "attr":
        return t.args[1] in ("Length", "BendingAngle", "BendingAngleError", "Roll", "SupportRoll", "nTurns", "nShots", "nParticles")
    if t.op in ("item",):
        return t.args[1].op not in ("slice", "tuple") and t.args[0].op not in ("upd", "mapw")
    if t.op == "glob":
        return True
    if t.op == "call":
        return t.args[0] in ("len", "int", "float", "numpy.prod", "numpy.dot", "key")
    return t.op in ("param", "idx", "bv", "mu", "eta")


def neg_val(v):
    if v.op == "arr":
        return T("arr", *[neg_val(x) for x in v.args])
    return neg(v)


def invert(v):
    return not_(v) if is_boolish(v) or v.op in ("param", "call", "item", "attr", "mu", "eta", "ite", "fn") else T("not", v)


def dims(a):
    """nested 'arr' shape or None"""
    if a.op != "arr":
        return ()
    if not a.args:
        return (0,)
    d = [dims(x) for x in a.args]
    return (len(a.args),) + (d[0] if all(x == d[0] for x in d) else ())


def matmul(a, b):
    da, db = dims(a), dims(b)
    if len(da) == 2 and len(db) == 1 and da[1] == db[0]:
        return T("arr", *[dot1(r, b) for r in a.args])
    if len(da) == 2 and len(db) == 2 and da[1] == db[0]:
        cols = [T("arr", *[r.args[j] for r in b.args]) for j in range(db[1])]
        return T("arr", *[T("arr", *[dot1(r, c) for c in cols]) for r in a.args])
    if len(da) == 1 and len(db) == 1 and da == db:
        return dot1(a, b)
    if len(da) == 1 and len(db) == 2 and da[0] == db[0]:
        cols = [T("arr", *[r.args[j] for r in b.args]) for j in range(db[1])]
        return T("arr", *[dot1(a, c) for c in cols])
    if len(da) == 1 and a.args and b.op in VECTOR_OPS:
        return dot1(a, T("arr", *[_IVT.item_value(b, num(i)) for i in range(da[0])]))
    if len(db) == 1 and b.args and a.op in VECTOR_OPS:
        return dot1(T("arr", *[_IVT.item_value(a, num(i)) for i in range(db[0])]), b)
    if len(da) == 2 and b.op in VECTOR_OPS:
        return T("arr", *[matmul(r, b) for r in a.args])
    return T("call", "matmul", a, b)


VECTOR_OPS = {"attr", "item", "poly", "param"}


class _IVT_:
    """Value-level subscripts without a run."""
    def __init__(self):
        self.item_value = lambda b, k, force=False: Interp.item_value(self, b, k, force)

    def _getval_elem(self, b, k):
        return Interp._getval_elem(self, b, k)


_IVT = _IVT_()


def dot1(a, b):
    r = num(0)
    for x, y in zip(a.args, b.args):
        r = add(r, mul(x, y))
    return r


BOOLEAN_CALLS = {"isin", "numpy.isin", "numpy.isnan", "numpy.isfinite", "numpy.logical_not", "numpy.isclose"}


def vector(t):
    """Known to have one dimension."""
    return t.op == "pcall" and t.args[0] == "findspos" or t.op == "call" and t.args[0] in ("numpy.ravel", "flat", "numpy.unique", "numpy.arange") and len(t.args) == 2


def gathered(b, k):
    """x[[i, j, k]][n] is x[(i, j, k)[n]]."""
    if len(b.args) == 2 and b.args[1].op in ("list", "arr") and is_num(k) and b.args[1].args and all(is_num(x) for x in b.args[1].args):
        i = int(k.args[0])
        if -len(b.args[1].args) <= i < len(b.args[1].args):
            return b.args[1].args[i]
    return None


def index_of_vector(t):
    """x[a] of a vector x with an array of positions a."""
    a = t.args[1]
    return vector(t.args[0]) and a.op in ("item", "attr", "param", "call", "list", "arr", "cell") and not (a.op == "call" and a.args[0] in BOOLEAN_CALLS)


def transpose(b):
    d = dims(b)
    if len(d) == 1:
        return b
    if len(d) == 2:
        return T("arr", *[T("arr", *[r.args[j] for r in b.args]) for j in range(d[1])])
    if b.op == "call" and b.args[0] == "transpose" and len(b.args) == 2:
        return b.args[1]
    return T("call", "transpose", b)


def shape_attr(v, name):
    if name == "shape":
        d = dims(v)
        if d:
            return T("tuple", *[num(x) for x in d])
        if v.op == "call" and v.args[0] == "numpy.full":
            s = v.args[1]
            return s if s.op == "tuple" else T("tuple", s)
        if v.op == "call" and v.args[0] == "numpy.reshape" and len(v.args) == 3 and v.args[2].op == "tuple" and not any(x is num(-1) for x in v.args[2].args):
            return v.args[2]
        if v.op in ("upd", "viewupd"):
            return shape_attr(v.args[0], name)
        if v.op == "mapw":
            return shape_attr(v.args[2], name)
        if v.op == "ite":
            return ite(v.args[0], shape_attr(v.args[1], name), shape_attr(v.args[2], name))
        return T("call", "shapeof", v)
        if v.op == "call" and v.args[0] in ("flat", "numpy.arange", "numpy.linspace"):
            return T("tuple", len_of(v))
    if name == "size" and v.op == "call" and v.args[0] in ("flat", "numpy.arange", "numpy.linspace"):
        return len_of(v)
    if name == "ndim":
        d = dims(v)
        if d:
            return num(len(d))
        if v.op == "call" and v.args[0] in ("flat", "numpy.arange", "numpy.linspace"):
            return num(1)
    return T("call", name + "of", v)


def set_members(v):
    """Elements of a set of constants, without repetitions."""
    if v.op == "call" and v.args[0] in ("set", "frozenset", "keys", "sorted") and len(v.args) <= 2:
        x = v.args[1] if len(v.args) == 2 else T("tuple")
        if x.op == "call":
            return set_members(x)
        if v.args[0] == "sorted":
            return None
        if x.op == "dict":
            xs = [k for k, _ in x.args[0]]
        elif x.op in ("tuple", "list"):
            xs = list(x.args)
        else:
            return None
        if all(is_const(k) for k in xs):
            return list(dict.fromkeys(xs))
    return None


SET_METHODS = {"difference": "-", "intersection": "&", "union": "|", "symmetric_difference": "^"}


def set_op(op, a, b):
    x, y = set_members(a), set_members(b)
    if x is None or y is None or op not in ("-", "&", "|", "^", "BitAnd", "BitOr", "BitXor"):
        return None
    if op == "-":
        r = [k for k in x if k not in y]
    elif op in ("&", "BitAnd"):
        r = [k for k in x if k in y]
    elif op in ("|", "BitOr"):
        r = x + [k for k in y if k not in x]
    else:
        r = [k for k in x if k not in y] + [k for k in y if k not in x]
    return T("call", "set", T("tuple", *r))


def len_of(v):
    if v.op in ("tuple", "list", "arr"):
        return num(len(v.args))
    m = set_members(v)
    if m is not None:
        return num(len(m))
    if v.op == "dict":
        return num(len(v.args[0]))
    if v.op == "const" and isinstance(v.args[0], str):
        return num(len(v.args[0]))
    if v.op == "call":
        n = v.args[0]
        if n == "getvals" and v.args[2] is not NONE:
            return len_of(v.args[2])
        if n == "numpy.full" and v.args[1].op != "tuple":
            return v.args[1]
        if n == "numpy.full" and v.args[1].op == "tuple":
            return v.args[1].args[0]
        if n == "numpy.arange" and len(v.args) == 2:
            return v.args[1]
        if n == "numpy.linspace" and len(v.args) == 4 and all(isinstance(x, Term) and x.op != "kw" for x in v.args[1:]):
            return v.args[3]
        if n == "numpy.repeat" and len(v.args) == 3:
            return v.args[2]
    if v.op == "comp" and v.args[0] == "list" and v.args[3] is TRUE:
        return v.args[2]
    if v.op in ("upd", "viewupd"):
        return len_of(v.args[0])
    if v.op == "mapw":
        return len_of(v.args[2])
    if v.op == "ite":
        return ite(v.args[0], len_of(v.args[1]), len_of(v.args[2]))
    if v.op == "fn":
        return len_of(v.args[1])
    if v.op == "poly" and len(v.args[0]) == 1:
        arrays = [x for x, e in v.args[0][0][0] if x.op == "call" and x.args[0] == "numpy.linspace"]
        if len(arrays) == 1:
            return len_of(arrays[0])
    if v.op == "attr" and v.args[1] == "IDEALRING":
        return len_of(T("attr", v.args[0], "RING"))     # the design lattice has the elements of the machine, one by one
    if v.op == "iter" and v.args[0] == "range":
        a, b, k = v.args[1:]
        if all(is_num(x) and x.args[0].denominator == 1 for x in (a, b, k)) and k.args[0] != 0:
            return num(len(range(int(a.args[0]), int(b.args[0]), int(k.args[0]))))
        return sub(b, a) if k is num(1) else T("call", "rangelen", a, b, k)
    return T("call", "len", v)


AXIS_SECOND = {"numpy.sum", "numpy.mean", "numpy.nanmean", "numpy.nansum", "numpy.std", "numpy.var", "numpy.max", "numpy.min", "numpy.any",
               "numpy.all", "numpy.nanmax", "numpy.nanmin", "numpy.prod", "numpy.cumsum", "numpy.argmax", "numpy.argmin", "numpy.average",
               "numpy.nanstd", "numpy.median"}
ALIASES = {"numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.product": "numpy.prod", "numpy.in1d": "numpy.isin",
           "builtins.len": "len", "numpy.concat": "numpy.concatenate", "math.prod": "numpy.prod", "numpy.linalg.multi_dot": "numpy.linalg.multi_dot"}


def callterm(name, vals, kw):
    if name == "numpy.reshape" and len(vals) > 2 and not kw:
        vals = [vals[0], T("tuple", *vals[1:])]
    return T("call", name, *vals, *[T("kw", k, v) for k, v in sorted(kw.items())])


def ext_value(name, vals, kw, impure):
    name = ALIASES.get(name, name)
    if name in ("numpy.ravel", "numpy.flatten", "numpy.atleast_1d") and len(vals) == 1 and not kw:
        return flat(vals[0])
    if name == "numpy.reshape" and len(vals) == 2 and vals[1] is num(-1):
        return flat(vals[0])
    if name in FN and len(vals) == 1:
        f = FN[name]
        x = vals[0]
        return fn(f, x)
    if name.startswith("numpy.random") or name.startswith("random."):
        return T("rand", name, *vals, T("at", impure()))
    if name in ("numpy.square",):
        return power(vals[0], num(2))
    if name in ("numpy.remainder", "numpy.mod") and len(vals) == 2:
        return binval("%", *vals)
    if name in ("numpy.multiply",) and len(vals) == 2:
        return binval("*", *vals)
    if name in ("numpy.add",) and len(vals) == 2:
        return binval("+", *vals)
    if name in ("numpy.subtract",) and len(vals) == 2:
        return binval("-", *vals)
    if name in ("numpy.divide", "numpy.true_divide") and len(vals) == 2:
        return binval("/", *vals)
    if name in ("numpy.power", "pow", "math.pow") and len(vals) == 2:
        return binval("**", *vals)
    if name in ("numpy.reciprocal",) and len(vals) == 1:
        return power(vals[0], num(-1))
    if name in ("numpy.negative",) and len(vals) == 1:
        return neg_val(vals[0])
    if name in ("numpy.dot", "numpy.matmul", "numpy.inner") and len(vals) == 2:
        a, b = vals
        if name == "numpy.dot" and dims(a) and dims(b):
            return matmul(a, b)
        return matmul(a, b)
    if name in ("numpy.logical_not", "numpy.invert", "numpy.bitwise_not") and len(vals) == 1:
        return not_(vals[0])
    if name in ("numpy.logical_and", "numpy.bitwise_and") and len(vals) == 2:
        return and_(*vals)
    if name in ("numpy.logical_or", "numpy.bitwise_or") and len(vals) == 2:
        return or_(*vals)
    if name in ("numpy.greater",) and len(vals) == 2:
        return lt(vals[1], vals[0])
    if name in ("numpy.less",) and len(vals) == 2:
        return lt(vals[0], vals[1])
    if name in ("numpy.greater_equal",) and len(vals) == 2:
        return le(vals[1], vals[0])
    if name in ("numpy.less_equal",) and len(vals) == 2:
        return le(vals[0], vals[1])
    if name in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty"):
        s = vals[0] if vals else kw.get("shape", NONE)
        if s.op in ("tuple", "list", "arr"):
            s = s.args[0] if len(s.args) == 1 else T("tuple", *s.args)
        fill = {"numpy.zeros": num(0), "numpy.ones": num(1)}.get(name)
        if name == "numpy.full":
            fill = vals[1] if len(vals) > 1 else kw.get("fill_value", NONE)
        if name == "numpy.empty":
            fill = T("uninit")
        return T("call", "numpy.full", s, fill)
    if name in ("numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "numpy.empty_like") and vals:
        fill = {"numpy.zeros_like": num(0), "numpy.ones_like": num(1), "numpy.empty_like": T("uninit")}.get(name) or (vals[1] if len(vals) > 1 else kw.get("fill_value", NONE))
        return T("call", "numpy.full", shape_attr(vals[0], "shape"), fill)
    if name in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.asanyarray") and vals:
        v = vals[0]
        return to_arr(v)
    if name == "numpy.where" and len(vals) == 1:
        return callterm("numpy.nonzero", vals, kw)
    if name == "numpy.where" and len(vals) == 3:
        return ite(vals[0], vals[1], vals[2])
    if name == "numpy.transpose" and len(vals) == 1 and not kw:
        return transpose(vals[0])
    if name == "numpy.mean" and vals and vals[0].op == "not":
        return sub(num(1), ext_value(name, [vals[0].args[0]] + list(vals[1:]), kw, impure))
    if name in ("numpy.any", "numpy.all") and vals and vals[0].op == "eq" and num(0) in vals[0].args:
        vals = [not_([x for x in vals[0].args if x is not num(0)][0])] + list(vals[1:])
    elif name in ("numpy.any", "numpy.all") and vals and vals[0].op == "eq" and not any(a.op in ("const", "tuple", "list", "param") for a in vals[0].args):
        # all equal: no difference
        vals = [not_(fn("abs", sub(*vals[0].args)))] + list(vals[1:])
    if name in ("numpy.any", "numpy.all") and vals and vals[0].op == "not":
        return not_(ext_value("numpy.all" if name == "numpy.any" else "numpy.any", [vals[0].args[0]] + list(vals[1:]), kw, impure))
    if name in AXIS_SECOND and len(vals) == 2 and "axis" not in kw:
        return callterm(name, vals[:1], {**kw, "axis": vals[1]})
    if name in ("numpy.concatenate",) and len(vals) == 2:
        return callterm(name, vals[:1], {**kw, "axis": vals[1]})
    if name == "numpy.shape":
        return shape_attr(vals[0], "shape")
    if name == "numpy.ndim":
        return shape_attr(vals[0], "ndim")
    if name in ("numpy.maximum", "max") and len(vals) == 2:
        return T("call", "max", *sorted(vals, key=lambda t: t.id))
    if name in ("numpy.minimum", "min") and len(vals) == 2:
        return T("call", "min", *sorted(vals, key=lambda t: t.id))
    if name == "max" and len(vals) == 1:
        return callterm("numpy.max", vals, kw)
    if name == "min" and len(vals) == 1:
        return callterm("numpy.min", vals, kw)
    if name == "sum" and len(vals) == 1:
        return ext_value("numpy.sum", vals, kw, impure)
    if name == "numpy.sum" and len(vals) == 1 and not kw and vals[0].op == "comp" and vals[0].args[0] == "list" and vals[0].args[3] is not TRUE:
        c = vals[0]
        return callterm(name, [T("comp", "list", ite(c.args[3], c.args[1], num(0)), c.args[2], TRUE)], kw)
    return callterm(name, vals, kw)


def step_of(v, m):
    """v - m when v is an accumulation step of m, else None."""
    if v is m:
        return num(0)
    if v.op == "ite":
        a, b = step_of(v.args[1], m), step_of(v.args[2], m)
        if a is None or b is None or mentions(v.args[0], m):
            return None
        return ite(v.args[0], a, b)
    if v.op == "poly":
        d = sub(v, m)
        return None if mentions(d, m) else d
    return None


def fn(f, x):
    if x.op == "num":
        v = x.args[0]
        if f == "abs":
            return num(abs(v))
        if f in ("cos",) and v == 0:
            return num(1)
        if f in ("sin", "sign", "sqrt", "tan") and v == 0:
            return num(0)
        if f == "sign":
            return num(1 if v > 0 else -1)
        if f == "isnan":
            return FALSE
        if f == "sqrt" and v == 1:
            return num(1)
    if x is T("const", "nan") and f == "isnan":
        return TRUE
    if x.op == "arr":
        return T("arr", *[fn(f, y) for y in x.args])
    if x.op == "ite" and f in ("abs", "sign", "cos", "sin"):
        return ite(x.args[0], fn(f, x.args[1]), fn(f, x.args[2]))
    if x.op == "poly":
        d = dict(x.args[0])
        if len(d) >= 1 and f in ("abs", "cos", "sin", "sign", "tan"):
            lead = x.args[0][0][1]
            if lead < 0:
                y = neg(x)
                if f in ("abs", "cos"):
                    return fn(f, y)
                return neg(fn(f, y))
        if f == "abs" and len(d) == 1:
            (m, c), = d.items()
            r = num(abs(c))
            for a, e in m:
                r = mul(r, power(T("fn", "abs", a), num(e)))
            if len(m) > 1 or abs(c) != 1:
                return r
    if f == "abs" and x.op == "fn" and x.args[0] in ("abs", "sqrt"):
        return x
    return T("fn", f, x)


def flat(v):
    """One-dimensional view of a value (ravel, flatten, atleast_1d, reshape(-1))."""
    if v.op in ("list", "tuple", "arr"):
        if len(v.args) == 1:
            return flat(v.args[0])
        if all(is_scalar_val(x) and x.op != "param" for x in v.args):
            return T("arr", *v.args)
    if v.op == "ite":
        return ite(v.args[0], flat(v.args[1]), flat(v.args[2]))
    if v.op == "poly":
        # a common divisor that is the change of one setpoint is a scalar: flat(x / s) = flat(x) / s
        ms = v.args[0]
        common = [(a, e) for a, e in ms[0][0] if e == -1 and all((a, e) in m for m, c in ms) and
                  {x.args[0] for x in walk(a) if x.op == "pcall"} and all(x[0].op == "pcall" and str(x[0].args[0]).endswith("get_cm_setpoints") for m, c in
                                                                       (a.args[0] if a.op == "poly" else ()) for x in m)]
        rest = [(m, c) for m, c in ms if all(e == 1 for a, e in m if (a, e) not in common)]
        if common and len(rest) == len(ms):
            r = num(0)
            for m, c in ms:
                x = num(c)
                for a, e in m:
                    if (a, e) not in common:
                        x = mul(x, a)
                r = add(r, x)
            r = callterm("numpy.ravel", [r], {})
            for a, e in common:
                r = div(r, a)
            return r
    if v.op == "call" and v.args[0] in ("flat", "numpy.nonzero1"):
        return v
    if v.op == "call" and v.args[0] == "getvals" and v.args[4] is not NONE:
        return v
    if v.op == "call" and v.args[0] in ("numpy.repeat", "numpy.arange", "numpy.linspace", "numpy.concatenate") and len(v.args) == 3:
        return v
    return T("call", "flat", v)


def to_arr(v):
    if v.op in ("list", "tuple"):
        return T("arr", *[to_arr(x) for x in v.args])
    return v


# ------------------------------------------------------- modelled builtins
def by_cases(v, depth=6):
    """v with what each branch of a decision knows used inside the branch; entries written back unchanged are dropped."""
    if v.op == "ite" and depth:
        c, a, b = v.args
        return ite(c, by_cases(assume(a, {c: True}), depth - 1), by_cases(assume(b, {c: False}), depth - 1))
    if v.op == "upd":
        ups = tuple((k, x) for k, x in v.args[1] if x is not T("item", v.args[0], k))
        return T("upd", v.args[0], ups) if ups else v.args[0]
    return v


def refine(name):
    """Choice of a name: where it is chosen because x == constant, x is that constant."""
    if name.op == "fstr" and all(is_str(x) for x in name.args):
        return const("".join(x.args[0] for x in name.args))
    if name.op != "ite":
        return name
    c, a, b = name.args
    if c.op == "eq":
        x, y = c.args
        if is_const(y):
            x, y = y, x
        if is_const(x) and not is_const(y):
            a = subst(a, {y: x})
    return ite(c, refine(a), refine(b))


def _setattr(I, args, kw, st):
    b, name, r = args[0], I.val(args[1], st), args[2]
    r = I._for_store(r, st)
    name = refine(name)
    if name.op == "ite":
        g = st.guards
        c = name.args[0]
        for cond, nm in ((c, name.args[1]), (not_(c), name.args[2])):
            known = I._known(cond, st)
            if known is False:
                continue
            st.guards = g + (Guard(cond),)
            if nm.op == "ite":
                _setattr(I, [b, nm, r], {}, st)
                st.guards = g
                continue
            nm = nm.args[0] if is_str(nm) else nm
            old = I.read_attr(b, nm, st)
            I.store_attr(b, nm, I._jref(cond, r, old), st)
            st.guards = g
        return NONE
    I.store_attr(b, name.args[0] if is_str(name) else name, r, st)
    return NONE


def _getattr(I, args, kw, st):
    b, name = args[0], I.val(args[1], st)
    name = refine(name)
    if name.op == "ite":
        return I._jref(name.args[0], _getattr(I, [b, name.args[1]] + args[2:], kw, st), _getattr(I, [b, name.args[2]] + args[2:], kw, st))
    nm = name.args[0] if is_str(name) else name
    r = I.load_attr(b, nm, st)
    if len(args) > 2:
        c = hasattr_term(I, b, nm, st)
        return I._jref(c, r, args[2])
    return r


def hasattr_term(I, b, nm, st):
    if b.op == "ite":
        return ite(b.args[0], hasattr_term(I, b.args[1], nm, st), hasattr_term(I, b.args[2], nm, st))
    e = st.heap.get(("attr", b, nm))
    if e is not None:
        r = e[0]
        if r.op == "ite" and contains(r, lambda x: x is T("attr", b, nm)):
            # conditionally written
            def go(x):
                if x is T("attr", b, nm):
                    return T("hasattr", I.val_id(b, st), nm)
                if x.op == "ite":
                    return ite(x.args[0], go(x.args[1]), go(x.args[2]))
                return TRUE
            return go(r)
        if r is T("attr", b, nm):
            return T("hasattr", I.val_id(b, st), nm)
        return TRUE if r is not UNDEF else FALSE
    cls = I.class_of(b)
    if cls is not None and b.op != "cell" and isinstance(nm, str) and any(nm in init_attrs(c, I.prog) for c in I.prog.mro(cls)):
        return TRUE
    return T("hasattr", I.val_id(b, st), nm)


def _hasattr(I, args, kw, st):
    name = I.val(args[1], st)
    if name.op == "ite" and is_str(name.args[1]) and is_str(name.args[2]):
        return ite(name.args[0], hasattr_term(I, args[0], name.args[1].args[0], st), hasattr_term(I, args[0], name.args[2].args[0], st))
    return hasattr_term(I, args[0], name.args[0] if is_str(name) else name, st)


def _len(I, args, kw, st):
    return I.len_term(args[0], st)


def _range(I, args, kw, st):
    v = [I.val(a, st) for a in args]
    if len(v) == 1:
        v = [num(0), v[0], num(1)]
    elif len(v) == 2:
        v = v + [num(1)]
    return T("iter", "range", *v[:3])


def _enumerate(I, args, kw, st):
    start = I.val(args[1], st) if len(args) > 1 else (I.val(kw["start"], st) if "start" in kw else num(0))
    return T("iter", "enumerate", args[0], start)


def _zip(I, args, kw, st):
    return T("iter", "zip", *args)


def _reversed(I, args, kw, st):
    return T("iter", "reversed", args[0])


def _tuple(I, args, kw, st):
    if not args:
        return T("tuple")
    sp = I.iter_spec(args[0], st)
    if sp["elems"] is not None:
        return T("tuple", *sp["elems"])
    return None


def _list(I, args, kw, st):
    if not args:
        return I.new_cell(T("list"), st, type="list")
    sp = I.iter_spec(args[0], st)
    if sp["elems"] is not None:
        return I.new_cell(T("list", *sp["elems"]), st, type="list")
    v = I.val(args[0], st)
    cls = I.class_of(args[0])
    if cls is not None and I.prog.is_dictlike(cls):
        v = T("iter", "keys", args[0])
    return I.new_cell(v, st, type="list", copy="shallow", src=args[0])


def _dict(I, args, kw, st):
    ents = []
    if args:
        e = I.dict_entries(args[0], st)
        if e is None:
            return I.new_cell(I.val(args[0], st), st, type="dict", copy="shallow", src=args[0])
        ents = list(e)
    for k, v in kw.items():
        ents = [(a, b) for a, b in ents if a is not const(k)] + [(const(k), v)]
    return I.new_cell(T("dict", tuple(ents)), st, type="dict")


def _isinstance(I, args, kw, st):
    v = I.val(args[0], st)
    t = I.val(args[1], st)
    names = [show(x) for x in (t.args if t.op == "tuple" else (t,))]
    ty = I.type_of(args[0])
    kinds = {"list": ("list",), "tuple": ("tuple",), "dict": ("dict",), "arr": ("numpy.ndarray",)}
    c = st.content.get(args[0], v)
    if args[0].op == "cell" and I.cellinfo.get(args[0], {}).get("type") in ("list", "dict") and c.op in ("list", "dict"):
        return const(c.op in names)
    if v.op == "num" or v in (TRUE, FALSE):
        pass
    if is_str(v):
        return const("str" in names)
    return T("isinstance", v, tuple(sorted(names)) and T("tuple", *[const(x) for x in sorted(names)]))


def _int(I, args, kw, st):
    if not args:
        return num(0)
    v = I.val(args[0], st)
    if v is TRUE:
        return num(1)
    if v is FALSE:
        return num(0)
    if is_num(v):
        return num(int(v.args[0]))
    return T("call", "int", v)


def _float(I, args, kw, st):
    if not args:
        return num(0)
    v = I.val(args[0], st)
    if is_num(v):
        return v
    if v is TRUE or v is FALSE:
        return num(int(v.args[0]))
    if is_str(v) and v.args[0] in ("nan", "inf"):
        return v
    return T("call", "float", v)


def _bool(I, args, kw, st):
    if not args:
        return FALSE
    v = I.val(args[0], st)
    if is_num(v):
        return const(v.args[0] != 0)
    t = truth(v)
    if t in (TRUE, FALSE) or is_boolish(t):
        return t
    return T("call", "bool", v)


def _str(I, args, kw, st):
    v = I.val(args[0], st)
    if is_str(v):
        return v
    if is_num(v):
        return const(str(const_value(v)))
    return T("fstr", v)


def _any(I, args, kw, st):
    v = I.val(args[0], st)
    if v.op in ("list", "tuple"):
        return or_(*v.args)
    return ext_value("numpy.any", [v], {}, False) if is_boolish(v) else T("call", "any", v)


def _all(I, args, kw, st):
    v = I.val(args[0], st)
    if v.op in ("list", "tuple"):
        return and_(*v.args)
    return ext_value("numpy.all", [v], {}, False) if is_boolish(v) else T("call", "all", v)


def _deepcopy(I, args, kw, st):
    return I.deep_copy(args[0], st)


def _copy(I, args, kw, st):
    v = I.val(args[0], st)
    if is_const(v):
        return v
    return I.shallow_copy(args[0], st)


def _np_array(I, args, kw, st):
    if not args:
        return None
    v = to_arr(I.val(args[0], st))
    if v.op in ("num", "const") or is_const(v):
        return v if v.op == "arr" else v
    c = kw.get("copy")
    if c is not None and is_const(c) and not const_value(c) and args[0].op in ("cell", "param", "attr", "item", "view", "mu"):
        return T("view", args[0], "alias")
    return I.new_cell(v, st, copy="array", src=args[0])


def _np_copy(I, args, kw, st):
    return I.new_cell(I.val(args[0], st), st, copy="array", src=args[0])


def _sorted(I, args, kw, st):
    return T("call", "sorted", I.val(args[0], st), *[T("kw", k, I.val(v, st)) for k, v in sorted(kw.items())])


def _super(I, args, kw, st):
    return T("unknown", "super", fresh_id())


def _print(I, args, kw, st):
    return NONE


def _filter(I, args, kw, st):
    if len(args) == 2:
        sp = I.iter_spec(args[1], st)
        if sp["elems"] is not None:
            keep = []
            for e in sp["elems"]:
                v = I.val(e, st)
                c = truth(v if args[0] is NONE else I.val(I.call(args[0], [e], {}, st), st))
                if c is TRUE:
                    keep.append(v)
                elif c is not FALSE:
                    return None
            return I.new_cell(T("list", *keep), st, type="list")
    return None


def _map(I, args, kw, st):
    if len(args) == 2:
        sp = I.iter_spec(args[1], st)
        if sp["elems"] is not None:
            return I.new_cell(T("list", *[I.call(args[0], [e], {}, st) for e in sp["elems"]]), st, type="list")
        L = fresh_id()
        idx = T("idx", L)
        I.loopinfo[L] = dict(domain=sp["n"], node=None, path=I.frames[-1].module.path, line=I.line, kind="map")
        outer = I.loops
        I.loops = outer + (L,)
        r = I.call(args[0], [sp["elem"](idx, st)], {}, st)
        I.loops = outer
        el = bind_el(I.val(r, st), idx, sp["n"])
        return I.new_cell(T("comp", "list", el, sp["n"], TRUE), st, type="list")
    return None


EXT = {"setattr": _setattr, "getattr": _getattr, "hasattr": _hasattr, "len": _len, "range": _range, "enumerate": _enumerate, "zip": _zip,
       "reversed": _reversed, "tuple": _tuple, "list": _list, "dict": _dict, "isinstance": _isinstance, "int": _int, "float": _float,
       "bool": _bool, "str": _str, "any": _any, "all": _all, "copy.deepcopy": _deepcopy, "copy.copy": _copy, "numpy.array": _np_array,
       "numpy.copy": _np_copy, "sorted": _sorted, "super": _super, "print": _print, "map": _map, "filter": _filter}

"""Hash-consed value terms and their algebraic normal form.

A term is the abstract value the data-flow analysis computes for an expression:
a node of the global value graph of one analysed entry point.  Two expressions
get the same term when the analysis proves them to be the same value, whatever
names, temporaries, helpers or statement order the source uses.
"""
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def T(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_table)
        _table[key] = t
    return t


_fresh = [0]


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


# ---------------------------------------------------------------- constants
def num(v):
    if isinstance(v, Fraction):
        return T("num", v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return T("const", repr(v))
        f = Fraction(repr(v))          # decimal reading: 0.1 is one tenth
        return T("num", f)
    return T("num", Fraction(v))


TRUE = T("const", True)
FALSE = T("const", False)
NONE = T("const", None)


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if v is None:
        return NONE
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, complex):
        return T("const", repr(v))
    if isinstance(v, (tuple,)):
        return T("tuple", *[const(x) for x in v])
    if isinstance(v, (list,)):
        return T("list", *[const(x) for x in v])
    if v is Ellipsis:
        return T("const", "...")
    return T("const", v)


def is_const(t):
    if t.op in ("const", "num"):
        return True
    if t.op in ("tuple", "list"):
        return all(isinstance(a, Term) and is_const(a) for a in t.args)
    return False


def const_value(t):
    """Python value of a constant term; raises ValueError otherwise."""
    if t.op == "const":
        return t.args[0]
    if t.op == "num":
        v = t.args[0]
        return int(v) if v.denominator == 1 else float(v)
    if t.op == "tuple":
        return tuple(const_value(a) for a in t.args)
    if t.op == "list":
        return [const_value(a) for a in t.args]
    raise ValueError(t.op)


def is_str(t):
    return t.op == "const" and isinstance(t.args[0], str)


def is_num(t):
    return t.op == "num"


# ------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return num(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return T("poly", tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].id))


def add(a, b):
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 400:
        return T("mulbig", *sorted((a, b), key=lambda t: t.id))
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def inv(a):
    p = to_poly(a)
    if not p:
        return T("divzero")
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    # normalise the leading coefficient so that 1/(2a+2b) == (1/2) * 1/(a+b)
    t = from_poly(p)
    lead = t.args[0][0][1]
    base = from_poly({m: c / lead for m, c in p.items()})
    return from_poly({((base, -1),): 1 / lead})


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    if b.op == "num" and b.args[0].denominator == 1 and abs(b.args[0]) <= 6:
        n = int(b.args[0])
        if n == 0:
            return num(1)
        base = a if n > 0 else inv(a)
        r = base
        for _ in range(abs(n) - 1):
            r = mul(r, base)
        return r
    if b is TRUE:
        return a
    if b is FALSE:
        return num(1)
    if b.op == "num" and b.args[0] == Fraction(1, 2):
        return T("fn", "sqrt", a)
    return T("pow", a, b)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a.op == "const" and (a.args[0] is None or isinstance(a.args[0], (bool, str))):
        return const(not a.args[0])
    if a.op == "num":
        return const(not a.args[0])
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    if a.op in ("tuple", "list"):
        return const(len(a.args) == 0)
    if a.op == "dict":
        return const(len(a.args[0]) == 0)
    return T("not", a)


BOOLISH = ("not", "and", "or", "lt", "le", "eq", "in", "is", "hasattr", "isinstance", "some", "exc")


def boolish(v):
    return v is TRUE or v is FALSE or v.op in BOOLISH or \
        (v.op == "call" and v.args[0] in ("hasattr", "isinstance", "numpy.any", "numpy.all", "any", "all", "bool", "callable")) or \
        (v.op == "fn" and v.args[0] in ("isnan", "isfinite")) or (v.op == "ite" and boolish(v.args[1]) and boolish(v.args[2]))


def counted(t):
    """The mask whose true entries t counts."""
    if t.op == "call" and t.args[0] in ("numpy.sum", "sum", "numpy.count_nonzero") and len(t.args) == 2 and t.args[1].op not in ("tuple", "list", "kw") and boolish(t.args[1]):
        return t.args[1]
    return None


def anyof(m):
    return T("not", T("call", "numpy.all", m.args[0])) if m.op == "not" else T("call", "numpy.any", m)


def truth(a):
    """Condition value of a (len(x) -> len(x) != 0, ...)."""
    if a.op == "call" and counted(a) is not None:
        return anyof(counted(a))
    if a.op in ("not", "and", "or", "lt", "le", "eq", "in", "is"):
        return a
    if a.op == "call" and a.args[0] == "len":
        return not_(eq(a, num(0)))
    if a.op == "call" and a.args[0] in ("sorted", "list", "tuple") and len(a.args) == 2 and a.args[1].op == "call" and a.args[1].args[0] in ("set", "frozenset", "sorted", "list"):
        return truth(a.args[1])
    if a.op == "call" and a.args[0] in ("set", "frozenset") and len(a.args) == 2 and a.args[1].op in ("tuple", "list"):
        return TRUE if a.args[1].args else FALSE
    if a.op == "call" and a.args[0] == "re.search" and len(a.args) == 3 and a.args[1].op == "const" and isinstance(a.args[1].args[0], str) and a.args[1].args[0].isalnum():
        return T("in", a.args[1], a.args[2])
    if a.op == "ite":
        # `x and y`, `x or y` as a condition
        c, x, y = a.args[0], truth(a.args[1]), truth(a.args[2])
        if x is not_(c) or x is c or y is c or y is not_(c) or x in (TRUE, FALSE) or y in (TRUE, FALSE):
            return or_(and_(c, x), and_(not_(c), y))
    return not_(not_(a)) if a.op in ("const", "num", "tuple", "list", "dict") else a


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def and_(*xs):
    s = []
    for x in _flat("and", [truth(x) for x in xs]):
        if x is FALSE:
            return FALSE
        if x is TRUE or x in s:
            continue
        s.append(x)
    for x in s:
        if not_(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return T("and", *sorted(s, key=lambda t: t.id))


def or_(*xs):
    s = []
    for x in _flat("or", [truth(x) for x in xs]):
        if x is TRUE:
            return TRUE
        if x is FALSE or x in s:
            continue
        s.append(x)
    for x in s:
        if not_(x) in s:
            return TRUE
        if x.op == "and":
            n = [z for z in x.args if not_(z) not in s]
            if len(n) < len(x.args):
                return or_(*[and_(*n) if z is x else z for z in s])
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return T("or", *sorted(s, key=lambda t: t.id))


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        try:
            return const(const_value(a) == const_value(b))
        except ValueError:
            pass
    for x, y in ((a, b), (b, a)):
        if x is TRUE and y.op in ("not", "and", "or", "lt", "le", "eq", "in", "is"):
            return y
        if x is FALSE and y.op in ("not", "and", "or", "lt", "le", "eq", "in", "is"):
            return not_(y)
        # fold a length against 0 / 1 comparisons only in lt/le
        if x.op == "num" and x.args[0] == 0 and y.op == "call" and counted(y) is not None:
            return not_(anyof(counted(y)))
        if x.op == "num" and x.args[0] == 0 and y.op == "call" and y.args[0] == "numpy.max" and len(y.args) == 2 and y.args[1].op == "fn" and y.args[1].args[0] == "abs":
            return T("not", T("call", "numpy.any", y.args[1]))
    if a.op == "ite" and is_const(b):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and is_const(a):
        return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
    if a.id > b.id:
        a, b = b, a
    return T("eq", a, b)


def lt(a, b):
    if a.op == "num" and b.op == "num":
        return const(a.args[0] < b.args[0])
    if a is b:
        return FALSE
    if a.op == "num" and a.args[0] == 0 and (_is_len(b) or counted(b) is not None):
        return not_(eq(b, num(0)))
    if b.op == "num" and b.args[0] == 1 and (_is_len(a) or counted(a) is not None):
        return eq(a, num(0))
    return T("lt", a, b)


def le(a, b):
    if a.op == "num" and b.op == "num":
        return const(a.args[0] <= b.args[0])
    if a.op == "num" and a.args[0] == 1 and (_is_len(b) or counted(b) is not None):
        return not_(eq(b, num(0)))
    if b.op == "num" and b.args[0] == 0 and (_is_len(a) or counted(a) is not None):
        return eq(a, num(0))
    return T("le", a, b)


def _is_len(t):
    return t.op == "call" and t.args[0] == "len"


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    # nested decisions on the same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op in ("and", "or") or True:
        pass
    return T("ite", c, a, b)


# ---------------------------------------------------------- generic access
def kids(t):
    for a in t.args:
        yield from _kid(a)


def _kid(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _kid(x)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def mentions(t, sub):
    return any(x is sub for x in walk(t))


def rebuild(op, args):
    """Re-normalise a node after substitution."""
    if op == "poly":
        r = num(0)
        for m, c in args[0]:
            x = num(c)
            for a, e in m:
                x = mul(x, power(a, num(e)))
            r = add(r, x)
        return r
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "eq":
        return eq(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "pow":
        return power(*args)
    return T(op, *args)


def transform(t, f, memo=None):
    """Bottom-up rewrite: f(term) -> term or None (keep)."""
    memo = {} if memo is None else memo

    def go(x):
        if x in memo:
            return memo[x]
        new = tuple(_map(a, go) for a in x.args)
        y = x if new == x.args else rebuild(x.op, new)
        r = f(y)
        if r is not None:
            y = r
        memo[x] = y
        return y

    return go(t)


def _map(a, go):
    if isinstance(a, Term):
        return go(a)
    if isinstance(a, tuple):
        return tuple(_map(x, go) for x in a)
    return a


def subst(t, mapping):
    memo = {}

    def go(x):
        if x in mapping:
            return mapping[x]
        if x in memo:
            return memo[x]
        new = tuple(_map(a, go) for a in x.args)
        y = x if new == x.args else rebuild(x.op, new)
        memo[x] = y
        return y

    return go(t)


def bind_el(el, idx, dom):
    """Body of a comprehension over dom: idx becomes the bound variable (inner ones move one level down)."""
    bvs = sorted({x.args[1] if len(x.args) > 1 else 0 for x in walk(el) if x.op == "bv" and x.args[0] is dom}, reverse=True)
    m = {bv(dom, k): bv(dom, k + 1) for k in bvs}
    m[idx] = bv(dom, 0)
    return subst(el, m)


def inst_el(el, dom, k):
    """Value of a comprehension body at index k."""
    m = {bv(dom, 0): k}
    for x in walk(el):
        if x.op == "bv" and x.args[0] is dom and len(x.args) > 1:
            m[x] = bv(dom, x.args[1] - 1)
    return subst(el, m)


def bv(dom, k):
    return T("bv", dom, k) if k else T("bv", dom)


def assume(t, facts):
    """Simplify t knowing facts: {condition term: bool}."""
    m = {}
    for c, v in facts.items():
        m[c] = const(v)
        m[not_(c)] = const(not v)
    return subst(t, m)


def conditions(t):
    """Atomic conditions that select between values in t."""
    out = []

    def atoms(c):
        if c.op in ("and", "or"):
            for x in c.args:
                atoms(x)
        elif c.op == "not":
            atoms(c.args[0])
        elif c.op == "ite":
            for x in c.args:
                atoms(x)
        elif c not in out and c not in (TRUE, FALSE):
            out.append(c)

    for x in walk(t):
        if x.op == "ite":
            atoms(x.args[0])
    return sorted(out, key=lambda c: c.id)


def cases(t, limit=10, facts=None):
    """Split t at the conditions it depends on: [(facts, leaf)]."""
    facts = dict(facts or {})
    t = assume(t, facts) if facts else t
    out = []

    def go(x, fs, depth):
        conds = conditions(x)
        if not conds or depth >= limit:
            out.append((fs, x))
            return
        c = conds[0]
        for v in (True, False):
            f2 = dict(fs)
            f2[c] = v
            go(assume(x, {c: v}), f2, depth + 1)

    go(t, facts, 0)
    return out


def show(t, depth=7):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if op == "num":
        v = a[0]
        return str(v.numerator) if v.denominator == 1 else (str(float(v)))
    if op == "const":
        return repr(a[0])
    if op == "param":
        return a[0]
    if op == "attr":
        return f"{s(a[0])}.{a[1]}" + (f"#{a[2]}" if len(a) > 2 else "")
    if op == "item":
        return f"{s(a[0])}[{s(a[1])}]" + (f"#{a[2]}" if len(a) > 2 else "")
    if op == "poly":
        parts = []
        for m, c in a[0]:
            fs = [] if c == 1 and m else [show(num(c))]
            fs += [s(x) + (f"^{e}" if e != 1 else "") for x, e in m]
            parts.append("*".join(fs))
        return "(" + " + ".join(parts) + ")"
    if op in ("tuple", "list"):
        return ("(" if op == "tuple" else "[") + ", ".join(s(x) for x in a) + (")" if op == "tuple" else "]")
    if op == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op in ("eq", "lt", "le", "in", "is"):
        return f"({s(a[0])} {dict(eq='==', lt='<', le='<=', **{'in': 'in', 'is': 'is'})[op]} {s(a[1])})"
    if op == "not":
        return f"not {s(a[0])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a) + ")"
    if op == "idx":
        return f"i{a[0]}"
    if op == "cell":
        return f"@{a[0]}"
    if op == "glob":
        return a[0]
    if op == "dict":
        return "{" + ", ".join(f"{s(k)}: {s(v)}" for k, v in a[0]) + "}"
    if op in ("fn", "call", "pcall", "rand"):
        return f"{a[0]}(" + ", ".join(show(x, depth - 1) for x in a[1:]) + ")"
    return f"{op}(" + ", ".join(show(x, depth - 1) for x in a) + ")"

"""Equality of value terms: normal form first, random interpretation second.

Two value graphs with the same normal form denote the same value.  When their
normal forms differ (np.clip against an if-branch, max against a conditional,
a reordered decision), both graphs are interpreted over random assignments of
their leaves in the rationals (random interpretation of value graphs, Gulwani
and Necula, POPL 2003/2004).  A graph is a data structure of this analysis:
nothing of the analysed program is executed, and no path condition is handed to
a solver.  Unknown operators are uninterpreted functions of their operands, so
graphs that agree on every assignment are the same expression over the same
leaves, and graphs that differ on one assignment are genuinely different
functions of the machine state.
"""
import hashlib
import math
from fractions import Fraction

from .terms import Term, T, walk, is_const, const_value, show, NONE, TRUE, FALSE, not_, boolish

OPAQUE_OPS = {"unknown", "mu", "eta", "undef", "uninit", "exc", "mulbig"}
POSITIVE = {"Length", "CMlimit", "SkewQuadLimit", "Frequency", "FrequencySetPoint", "nParticles", "nTurns", "nShots", "BendingAngle"}
NAN = ("nan",)
INF = Fraction(10 ** 15)


def _h(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


def opaque(t, allow=()):
    """Operators in t that the analysis could not interpret."""
    return sorted({x.op for x in walk(t) if x.op in OPAQUE_OPS and x.op not in allow})


# Functions whose difference is evidence: replacing one by another changes the value.
DISTINCT = {"numpy." + n for n in ("mean nanmean sum nansum std nanstd var nanvar median nanmedian max min amax amin nanmax nanmin argmax argmin "
                                   "argsort sort isnan isfinite any all clip sign sqrt square zeros ones full arange copysign abs maximum minimum prod "
                                   "sin cos tan arctan2 exp log floor ceil round rint unique average isin size count_nonzero nan_to_num real imag").split()} | \
    set("len int float bool str abs max min sum round getvals hasattr isinstance sorted any all tuple list shapeof sizeof ndimof flat key range rangelen".split())
STRUCTURE = {"eta", "mu", "mapw", "comp", "sumover", "viewupd", "unknown", "extend", "append", "overlay", "undef", "uninit", "exc", "mulbig", "some",
             "while", "starred", "closure"}


def vocabulary(t, seen=None):
    """Operations in t whose meaning is left open."""
    out = set()
    for x in walk(t, seen if seen is not None else set()):
        if x.op == "call" and isinstance(x.args[0], str):
            if x.args[0] not in DISTINCT:
                out.add(x.args[0])
        elif x.op in STRUCTURE:
            out.add(x.op)
        elif x.op == "view":
            out.add(f"view {x.args[1]}")
    return out


def unread(code_terms, spec_terms):
    """Operations the code uses in a value and the reference does not: the two may still be
    the same function, so a difference is not evidence of a violation."""
    a, b = set(), set()
    for t in code_terms:
        a |= vocabulary(t)
    for t in spec_terms:
        b |= vocabulary(t)
    return sorted(a - b)


def shape(t, depth=3):
    op, a = t.op, t.args
    if op == "param":
        return ("p", a[0])
    if op == "attr":
        return ("a", a[1] if isinstance(a[1], str) else "?")
    if op in ("item", "key"):
        return ("i", shape(a[0], depth - 1) if depth else "?", show(a[1]) if is_const(a[1]) else "?")
    if op in ("call", "pcall", "fn"):
        return ("c", a[0], tuple(shape(x, depth - 1) for x in a[1:] if isinstance(x, Term)) if depth else "?")
    return (op,)


def pools(terms):
    """Constants that leaves are compared with: both outcomes must be sampled."""
    out = {}

    def put(t, v):
        out.setdefault(shape(t), [])
        if v not in out[shape(t)]:
            out[shape(t)].append(v)

    def boolish(c):
        if c.op in ("and", "or", "not"):
            for x in c.args:
                boolish(x)
        elif c.op == "ite":
            for x in c.args:
                boolish(x)
        elif c.op in ("attr", "item", "param", "call", "pcall", "in", "hasattr", "isinstance", "some", "fn"):
            put(c, Fraction(0))
            put(c, Fraction(1))

    seen = set()
    for t in terms:
        for x in walk(t, seen):
            if x.op in ("eq", "lt", "le", "is"):
                for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                    if is_const(b) and not is_const(a):
                        v = _const(b)
                        put(a, v)
                        if isinstance(v, Fraction) and x.op in ("lt", "le"):
                            put(a, v + 1)
                            put(a, v - 1)
            elif x.op == "in" and is_const(x.args[1]):
                for v in _const(x.args[1]) if isinstance(_const(x.args[1]), tuple) else ():
                    put(x.args[0], v)
            elif x.op == "ite":
                boolish(x.args[0])
            elif x.op in ("and", "or", "not"):
                boolish(x)
            elif x.op == "poly":
                # a combination compared with a constant: leaves get small integers too
                pass
    return out


def _const(t):
    if t.op == "num":
        return t.args[0]
    if t.op in ("tuple", "list", "arr"):
        return tuple(_const(x) for x in t.args)
    v = t.args[0]
    if v is True or v is False:
        return Fraction(int(v))
    if v == "nan":
        return NAN
    if v == "inf":
        return INF
    return v


KEY_NAMES = []      # (predicate on a dictionary-key term, the key names it can have)
STRING_METHODS = {".replace", ".startswith", ".endswith", ".upper", ".lower", ".strip"}


class Valuation:
    def __init__(self, seed, run=None, pool=None, positive=POSITIVE, names=None):
        self.seed, self.run, self.pool, self.positive = seed, run, pool or {}, positive
        self.memo = {}
        self.over = {}               # leaves with a chosen value, by fingerprint
        self.hashes = {}
        self.names = names or {}     # canonical numbering of call results
        self.parents = loop_parents(run) if run is not None else {}

    # ------------------------------------------------------------- leaves
    def leaf(self, t, key):
        n = _h(self.seed, key)
        self.hashes[t] = n
        if n in self.over:
            return self.over[n]
        sh = shape(t)
        p = self.pool.get(sh)
        if p and n % 4 > (1 if len(p) == 1 else 0):
            return p[(n >> 8) % len(p)]
        if t.op in ("hasattr", "in", "isinstance", "some", "is") or (t.op == "call" and t.args[0] in ("hasattr", "isinstance", "numpy.any", "numpy.all", "any", "all", "callable")) or \
                (t.op == "fn" and t.args[0] in ("isnan", "isfinite")):
            return Fraction((n >> 8) & 1)
        if t.op == "call" and t.args[0] in ("len", "sizeof", "ndimof"):
            return Fraction((n >> 8) % 5)
        v = Fraction(((n >> 8) % 3989) - 1994, 499 + (n >> 40) % 3)
        if v == 0:
            v = Fraction(1, 7)
        return abs(v) if self._positive(t) else v

    def _positive(self, t):
        while t.op in ("item", "view"):
            t = t.args[0]
        return t.op == "attr" and t.args[1] in self.positive

    def ev(self, t):
        r = self.memo.get(t)
        if r is None and t not in self.memo:
            r = self._ev(t)
            self.memo[t] = r
        return r

    def key(self, x):
        if isinstance(x, Term):
            v = self.ev(x)
            return _key(v)
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        return ("c", str(x))

    def truthy(self, t):
        v = self.ev(t)
        return _truthy(v)

    def _ev(self, t):
        op, a = t.op, t.args
        if op in ("num", "const"):
            return _const(t)
        if op == "poly":
            r = Fraction(0)
            for m, c in sorted(a[0], key=lambda mc: str(mc[1])):
                x = c
                for y, e in m:
                    x = _mul(x, _pow(self.ev(y), e, self))
                r = _add(r, x)
            if isinstance(r, tuple) and r and r[0] == "mix":
                return self.leaf(t, ("poly", _key(r)))
            return r
        if op == "ite":
            return self.ev(a[1]) if self.truthy(a[0]) else self.ev(a[2])
        if op == "not":
            return Fraction(int(not self.truthy(a[0])))
        if op == "and":
            return Fraction(int(all(self.truthy(x) for x in a)))
        if op == "or":
            return Fraction(int(any(self.truthy(x) for x in a)))
        if op == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            if x == NAN or y == NAN:
                return Fraction(0)
            return Fraction(int(x == y))
        if op in ("lt", "le"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, Fraction) and isinstance(y, Fraction):
                return Fraction(int(x < y if op == "lt" else x <= y))
            if x == NAN or y == NAN:
                return Fraction(0)
            return self.leaf(T("in"), (op, _key(x), _key(y)))
        if op == "is":
            x, y = self.ev(a[0]), self.ev(a[1])
            return Fraction(int(x is y or (x is not None and y is not None and x == y)))
        if op == "in":
            x, y = self.ev(a[0]), self.ev(a[1])
            if a[1].op in ("tuple", "list", "arr", "const") and isinstance(y, tuple):
                return Fraction(int(x in y))
            if isinstance(x, str) and isinstance(y, str):
                return Fraction(int(x in y))
            return self.leaf(t, ("in", _key(x), _key(y)))
        if op in ("tuple", "list", "arr"):
            return tuple(self.ev(x) for x in a)
        if op == "fn":
            return self._fn(t, a[0], [self.ev(x) for x in a[1:]])
        if op == "call":
            return self._call(t, a)
        if op == "item":
            if len(a) == 2 and a[0].op in ("poly", "fn") and self.run is not None:
                d = self.run.item_value(a[0], a[1], True)
                if d is not t:
                    return self.ev(d)
            if len(a) == 2 and a[0].op == "call" and a[0].args[0] == "numpy.linspace" and len(a[0].args) == 4 and all(
                    isinstance(x, Term) and x.op != "kw" for x in a[0].args[1:]):
                lo, hi, n, k = [self.ev(x) for x in a[0].args[1:] + (a[1],)]
                if all(isinstance(x, Fraction) for x in (lo, hi, n, k)) and n != 1 and k >= 0:
                    return lo + k * (hi - lo) / (n - 1)
            b, k = self.ev(a[0]), self.ev(a[1])
            if isinstance(b, tuple) and isinstance(k, Fraction) and k.denominator == 1 and -len(b) <= k < len(b) and b not in (NAN,):
                return b[int(k)]
            return self.leaf(t, ("item", _key(b), _key(k)) + (("dirty",) if len(a) > 2 else ()))
        if op == "attr":
            name = a[1]
            if isinstance(name, Term):
                name = self.ev(name)
            return self.leaf(t, ("attr", self.key(a[0]), name if isinstance(name, str) else _key(name)) + (("dirty",) if len(a) > 2 else ()))
        if op == "fstr":
            v = [self.ev(x) if isinstance(x, Term) else x for x in a]
            if all(isinstance(x, str) for x in v):
                return "".join(v)
        if op == "version":
            return self.leaf(t, ("version", self.key(a[0])))
        if op == "param":
            return self.leaf(t, ("param", a[0]))
        if op == "idx":
            return self.leaf(t, ("idx",) + self.loop_key(a[0]))
        if op == "mu" and isinstance(a[1], str):
            return self.leaf(t, ("mu",) + self.loop_key(a[0]) + (var_key(self.run, a[0], a[1]),) + tuple(self.key(x) for x in a[2:]))
        if op in ("mu", "eta"):
            return self.leaf(t, (op,) + self.loop_key(a[0]) + tuple(self.key(x) for x in a[1:]))
        if op == "while":
            return self.leaf(t, (op,) + self.loop_key(a[0]))
        if op == "some":
            return self.leaf(t, (op,) + self.loop_key(a[0]) + tuple(self.key(x) for x in a[1:]))
        if op == "mapw":
            L, dom, old, k, v = a
            return self.leaf(t, ("mapw",) + self.loop_key(L) + tuple(self.key(x) for x in (old, k, v)))
        if op == "upd":
            ups = tuple(sorted(((self.key(k), self.key(v)) for k, v in a[1]
                                if not (k.op != "slice" and self.ev(v) == self.ev(T("item", a[0], k)))), key=repr))
            if not ups:
                return self.ev(a[0])
            return self.leaf(t, ("upd", self.key(a[0]), ups))
        if op == "dict":
            return self.leaf(t, ("dict", tuple(sorted(((self.key(k), self.key(v)) for k, v in a[0]), key=repr))))
        if op == "cell":
            if self.run is not None:
                if t in self.names:
                    return self.leaf(t, ("cell", self.names[t]))
                c = self.run.final.content.get(t)
                info = self.run.cellinfo.get(t, {})
                if c is not None and not any(x is t for x in walk(c)):
                    self.memo[t] = self.leaf(t, ("cell", "rec"))
                    if not info.get("copy") and c.op in ("call", "fn", "poly"):
                        return self.ev(c)       # (a name for a computed value)
                    return self.leaf(t, ("cell", info.get("copy") or "new", self.key(c)))
                if c is None and isinstance(info.get("src"), Term):
                    return self.leaf(t, ("cell", info.get("copy") or "new", self.key(info["src"])))
            return self.leaf(t, ("cell",))
        if op in ("pcall", "rand"):
            args, at = [], None
            for x in a[1:]:
                if isinstance(x, Term) and x.op == "at":
                    at = self.names.get(x, "?")
                else:
                    args.append(self.key(x))
            return self.leaf(t, (op, a[0], tuple(args)) + ((at,) if at is not None else ()))
        if op == "at":
            return self.leaf(t, ("at", self.names.get(t, "?")))
        if op in ("obj", "unknown", "exc"):
            return self.leaf(t, (op,) + tuple(str(x) for x in a[:1] if not isinstance(x, Term)))
        if op == "key" and len(a) == 2:
            for pred, names in KEY_NAMES:
                if pred(t):
                    return names[(_h(self.seed, ("key",) + tuple(self.key(x) for x in a)) >> 8) % len(names)]
            # iterating a mapping gives its keys: key(d, i) and item(d, i) name the same thing
            return self.leaf(T("item", a[0], a[1]), ("item", self.key(a[0]), self.key(a[1])))
        if op == "view":
            return self.leaf(t, ("view",) + tuple(self.key(x) for x in a))
        return self.leaf(t, (op,) + tuple(self.key(x) for x in a))

    def loop_key(self, L):
        if self.run is None or not isinstance(L, int):
            return ("L",)
        d = self.run.loopinfo.get(L, {}).get("domain")
        if d is None or d.op == "while":
            k = ("while",)
        else:
            k = self.key(d)
        depth, p = 0, self.parents.get(L)
        while p is not None:
            dp = self.run.loopinfo.get(p, {}).get("domain")
            kp = ("while",) if dp is None or dp.op == "while" else self.key(dp)
            if kp == k:
                depth += 1
            p = self.parents.get(p)
        return (k, depth)

    def _fn(self, t, f, xs):
        if xs and isinstance(xs[0], tuple) and xs[0] not in (NAN,) and len(xs) == 1:
            if all(isinstance(y, Fraction) for y in xs[0]) and f in ("abs", "sign"):
                return tuple(self._fn(t, f, [y]) for y in xs[0])
        if len(xs) == 1 and isinstance(xs[0], Fraction):
            x = xs[0]
            if f == "abs":
                return abs(x)
            if f == "sign":
                return Fraction((x > 0) - (x < 0))
            if f == "isnan":
                return self.leaf(t, ("fn", f, _key(x)))
            if f == "floor":
                return Fraction(math.floor(x))
            if f == "ceil":
                return Fraction(math.ceil(x))
            if f in ("sin", "cos", "tan"):
                # rational points of the circle, so that sin^2 + cos^2 = 1 holds
                h = _h(self.seed, ("halfangle", _key(abs(x)))) >> 8
                u = Fraction(h % 3989 + 1, 499) if x != 0 else Fraction(0)
                u = u if x > 0 else -u
                sn, cs = 2 * u / (1 + u * u), (1 - u * u) / (1 + u * u)
                return sn if f == "sin" else cs if f == "cos" else (sn / cs if cs else NAN)
            if f == "sqrt" and x >= 0:
                n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if n * n == x.numerator and d * d == x.denominator:
                    return Fraction(n, d)
        if len(xs) == 1 and xs[0] == NAN:
            return Fraction(1) if f == "isnan" else NAN
        return self.leaf(t, ("fn", f) + tuple(_key(x) for x in xs))

    def _call(self, t, a):
        n = a[0]
        vals = [x for x in a[1:] if isinstance(x, Term) and x.op != "kw"]
        kws = {x.args[0]: x.args[1] for x in a[1:] if isinstance(x, Term) and x.op == "kw"}
        if n in ("max", "min") and len(vals) >= 2 or n in ("numpy.max", "numpy.min", "numpy.sum", "numpy.prod", "numpy.any", "numpy.all") and len(vals) == 1 and not kws:
            xs = [self.ev(x) for x in vals]
            if len(xs) == 1:
                xs = list(xs[0]) if isinstance(xs[0], tuple) and xs[0] != NAN else None
            if xs is not None and all(isinstance(x, Fraction) for x in xs) and xs:
                m = n.split(".")[-1]
                if m == "max":
                    return max(xs)
                if m == "min":
                    return min(xs)
                if m == "sum":
                    return sum(xs, Fraction(0))
                if m == "any":
                    return Fraction(int(any(xs)))
                if m == "all":
                    return Fraction(int(all(xs)))
                r = Fraction(1)
                for x in xs:
                    r *= x
                return r
        if n == "numpy.clip" and len(vals) == 3:
            x, lo, hi = [self.ev(v) for v in vals]
            if all(isinstance(v, Fraction) for v in (x, lo, hi)):
                return min(max(x, lo), hi)
        if n == "numpy.copysign" and len(vals) == 2:
            x, y = [self.ev(v) for v in vals]
            if isinstance(x, Fraction) and isinstance(y, Fraction):
                return abs(x) if y >= 0 else -abs(x)
        if n in STRING_METHODS and vals:
            xs = [self.ev(v) for v in vals]
            if all(isinstance(x, str) for x in xs):
                r = getattr(xs[0], n[1:])(*xs[1:])
                return Fraction(int(r)) if isinstance(r, bool) else r
        if n in ("float",) and len(vals) == 1:
            return self.ev(vals[0])
        if n == "bool" and len(vals) == 1:
            return Fraction(int(self.truthy(vals[0])))
        if n in ("int",) and len(vals) == 1:
            x = self.ev(vals[0])
            if isinstance(x, Fraction):
                return Fraction(int(x))
        if n == "numpy.isin" and len(vals) == 2:
            n = "isin"
        key = ["call", n]
        ats = []
        for x in a[1:]:
            if isinstance(x, Term) and x.op == "at":
                ats.append(self.names.get(x, "?"))
            elif isinstance(x, Term) and x.op == "kw":
                key.append(("kw", x.args[0], self.key(x.args[1])))
            else:
                key.append(self.key(x))
        return self.leaf(t, tuple(key + ats))


def _truthy(v):
    if v is None:
        return False
    if isinstance(v, Fraction):
        return v != 0
    if v == NAN:
        return True
    return bool(v)


def _key(v):
    if isinstance(v, Fraction):
        return f"{v.numerator}/{v.denominator}"
    if isinstance(v, tuple):
        return tuple(_key(x) for x in v)
    return repr(v)


def _bin(f, x, y):
    if x == NAN or y == NAN:
        return NAN
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return f(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x[:1] != ("mix",) and y[:1] != ("mix",):
        return tuple(_bin(f, p, q) for p, q in zip(x, y))
    if isinstance(x, tuple) and x[:1] != ("mix",) and isinstance(y, Fraction):
        return tuple(_bin(f, p, y) for p in x)
    if isinstance(y, tuple) and y[:1] != ("mix",) and isinstance(x, Fraction):
        return tuple(_bin(f, x, p) for p in y)
    return ("mix", f.__name__, tuple(sorted((repr(_key(x)), repr(_key(y))))))


def _plus(x, y):
    return x + y


def _times(x, y):
    return x * y


def _add(x, y):
    return _bin(_plus, x, y)


def _mul(x, y):
    return _bin(_times, x, y)


def _pow(x, e, v):
    if isinstance(x, Fraction):
        if e < 0 and x == 0:
            return NAN
        return x ** e
    if isinstance(x, tuple) and x != NAN and x[:1] != ("mix",):
        return tuple(_pow(y, e, v) for y in x)
    if x == NAN:
        return NAN
    return ("mix", "pow", (repr(_key(x)), e)) if e != 1 else x


def loop_parents(run):
    p = getattr(run, "_parents", None)
    if p is None:
        p = {}
        for e in run.events:
            ls = e.loops
            for i, L in enumerate(ls):
                p.setdefault(L, ls[i - 1] if i else None)
            if e.kind == "loop":
                p.setdefault(e.L, ls[-1] if ls else None)
        run._parents = p
    return p


def call_names(run):
    """Canonical numbers of impure call results: k-th call of that callee with those arguments."""
    n = getattr(run, "_names", None)
    if n is not None:
        return n
    names, count = {}, {}
    v = Valuation(0, run, names=names)
    for e in run.events:
        r = getattr(e, "result", None)
        if not isinstance(r, Term):
            continue
        ats = [x for x in r.args if isinstance(x, Term) and x.op == "at"]
        if r.op in ("pcall", "rand", "call") and ats:
            k = (r.op, r.args[0], tuple(v.key(x) for x in r.args[1:] if isinstance(x, Term) and x.op != "at"), len(e.loops))
            conds = {g.cond for g in e.guards}
            # calls in the two branches of a condition have the same number
            k_n = 1 + max((m for m, other in count.get(k, ()) if not any(not_(c) in other for c in conds)), default=0)
            count.setdefault(k, []).append((k_n, conds))
            for at in ats:
                if at not in names:
                    names[at] = ("n", k_n)
    run._names = names
    return names


def var_key(run, L, name):
    """Name-independent identity of a loop-carried variable: its step, with every variable of the loop taken as its start value."""
    if run is None:
        return name
    memo = run.__dict__.setdefault("_vars", {})
    if (L, name) not in memo:
        if memo.get("busy"):
            return "step"
        memo["busy"] = True
        st = run.loopstate.get(L)
        v = st.env.get(name) if st is not None else None
        if isinstance(v, Term):
            memo[(L, name)] = tuple(Valuation(s, run, names=call_names(run)).key(run.val(v, st)) for s in (0, 1, 2))
        else:
            memo[(L, name)] = name
        memo["busy"] = False
    return memo[(L, name)]


class Comparison:
    def __init__(self, same, detail="", tried=0, valid=0):
        self.same, self.detail, self.tried, self.valid = same, detail, tried, valid


DEPTH = 1                       # 5 in the thorough tier


def compare(t1, run1, t2, run2, pre1=TRUE, pre2=TRUE, want=80, tries=600, positive=POSITIVE, extra_pools=None):
    """Are t1 (analysed code) and t2 (specification) the same value?"""
    if t1 is t2 and run1 is run2:
        return Comparison(True)
    want, tries = want * DEPTH, tries * DEPTH
    pool = pools([t1, t2, pre1, pre2])
    for k, v in (extra_pools or {}).items():
        pool.setdefault(k, []).extend(v)
    n1, n2 = call_names(run1), call_names(run2)
    valid = 0
    for s in range(1, tries + 1):
        v1 = Valuation(s, run1, pool, positive, n1)
        v2 = Valuation(s, run2, pool, positive, n2)
        if not (v1.truthy(pre1) and v2.truthy(pre2)):
            continue
        valid += 1
        a, b = v1.ev(t1), v2.ev(t2)
        if not same_value(a, b):
            x, y = explain(t1, v1, t2, v2)
            w = witness(t1, v1, a, b)
            return Comparison(False, f"[differs: {show(x, 6)[:300]} | {show(y, 6)[:300]}] {w}", s, valid)
        if valid >= want:
            break
    if valid < want // 8 and not (pre1 is TRUE and pre2 is TRUE):
        # preconditions that random values hardly meet: leaves chosen such that they hold
        for s1 in range(1, want // 4 + 1):
            for base in directed([(pre1, run1, n1)], s1, pool, positive, 1):
                overs = [base]
                if s1 <= 1 + DEPTH:
                    done = set()
                    for t, run, names in ((t1, run1, n1), (t2, run2, n2)):
                        for c in [c for c in walk(t) if c.op in ("lt", "le")][:20]:
                            o = _tie(c, s1, run, names, pool, positive, base, done)
                            if o is not None:
                                overs.append(o)
                for over in overs:
                    v1 = Valuation(s1, run1, pool, positive, n1)
                    v2 = Valuation(s1, run2, pool, positive, n2)
                    v1.over = v2.over = over
                    if not (v1.truthy(pre1) and v2.truthy(pre2)):
                        continue
                    valid += 1
                    a, b = v1.ev(t1), v2.ev(t2)
                    if not same_value(a, b):
                        x, y = explain(t1, v1, t2, v2)
                        return Comparison(False, f"[differs: {show(x, 6)[:300]} | {show(y, 6)[:300]}] {witness(t1, v1, a, b)}", s1, valid)
    # boundaries: leaves chosen so that the two sides of a comparison are equal
    boundaries = 0
    for s2 in range(1, 3 + DEPTH):
        for over in ties([(t1, run1, n1), (t2, run2, n2)], s2, pool, positive):
            v1 = Valuation(s2, run1, pool, positive, n1)
            v2 = Valuation(s2, run2, pool, positive, n2)
            v1.over = v2.over = over
            if not (v1.truthy(pre1) and v2.truthy(pre2)):
                continue
            boundaries += 1
            a, b = v1.ev(t1), v2.ev(t2)
            if not same_value(a, b):
                x, y = explain(t1, v1, t2, v2)
                return Comparison(False, f"[differs where two compared values are equal: {show(x, 6)[:300]} | {show(y, 6)[:300]}]", s, valid + boundaries)
    # assignments under which each side holds, and those that differ from them in one condition
    if boolish(t1) and boolish(t2):
        sides = [(t1, run1, n1), (t2, run2, n2)]
        for s3 in range(1, 2 + DEPTH):
            for over in directed(sides, s3, pool, positive):
                v1 = Valuation(s3, run1, pool, positive, n1)
                v2 = Valuation(s3, run2, pool, positive, n2)
                v1.over = v2.over = over
                if not (v1.truthy(pre1) and v2.truthy(pre2)):
                    continue
                boundaries += 1
                a, b = v1.ev(t1), v2.ev(t2)
                if not same_value(a, b):
                    x, y = explain(t1, v1, t2, v2)
                    return Comparison(False, f"[differs in a case where one side holds: {show(x, 6)[:300]} | {show(y, 6)[:300]}]", s, valid + boundaries)
    return Comparison(True, "", s, valid + boundaries)


def directed(sides, seed, pool, positive, limit=40):
    out = []
    for t, run, names in sides:
        def value(x, over):
            V = Valuation(seed, run, pool, positive, names)
            V.over = over
            return V.ev(x), V

        def satisfy(x, want, over, depth=0):
            """The assignment extended such that x has the wanted truth value."""
            if over is None or depth > 25:
                return None
            v, V = value(x, over)
            if not isinstance(v, Fraction):
                return None
            if bool(v) == want:
                return over
            if x.op == "not":
                return satisfy(x.args[0], not want, over, depth + 1)
            if x.op in ("and", "or"):
                if (x.op == "and") == want:
                    for y in x.args:
                        over = satisfy(y, want, over, depth + 1)
                    return over
                for y in x.args:
                    o = satisfy(y, want, over, depth + 1)
                    if o is not None:
                        return o
                return None
            if x.op == "ite":
                now = bool(value(x.args[0], over)[0])
                o = satisfy(x.args[1 if now else 2], want, over, depth + 1)
                if o is None:
                    o = satisfy(x.args[2 if now else 1], want, satisfy(x.args[0], not now, over, depth + 1), depth + 1)
                return o
            if x.op == "eq" and not want:
                for leaf in walk(T("tuple", *x.args)):
                    h = V.hashes.get(leaf)
                    if h is None or h in over or leaf.op not in SCALAR_LEAVES or not isinstance(V.memo.get(leaf), Fraction):
                        continue
                    p = {**over, h: V.memo[leaf] + 3}
                    if value(x, p)[0] == 0:
                        return p
                return None
            if x.op in ("lt", "le", "eq"):
                o = _tie(x, seed, run, names, pool, positive, over)
                if o is None:
                    return None
                if x.op == "lt" and want or x.op == "le" and not want:
                    new = [h for h in o if h not in over]
                    for d in (1, -1):
                        p = {**o, new[0]: o[new[0]] + d}
                        if bool(value(x, p)[0]) == want:
                            return p
                    return None
                return o if bool(value(x, o)[0]) == want else None
            h = V.hashes.get(x)
            return {**over, h: Fraction(int(want))} if h is not None and h not in over else None

        base = satisfy(t, True, {})
        if base is None:
            continue
        out.append(base)
        top = [t]
        for _ in range(3):
            top = [y for x in top for y in (x.args if x.op in ("and", "or") else (x,))]
        for y in top[:limit // 2]:
            now = value(y, base)[0]
            if isinstance(now, Fraction):
                o = satisfy(y, not now, base)
                if o is not None and len(out) < limit:
                    out.append(o)
    return out


SCALAR_LEAVES = {"attr", "item", "param", "call", "pcall", "rand", "view"}
COUNTS = ("len", "sizeof", "ndimof")


def ties(sides, seed, pool, positive, limit=16):
    """Assignments of leaves that make the operands of a comparison equal: of one leaf each, and of several for equalities that hold together."""
    out, done = [], set()
    for t, run, names in sides:
        conds = list(walk(t))
        for c in conds:
            if c.op not in ("lt", "le", "eq") or len(out) >= limit:
                continue
            o = _tie(c, seed, run, names, pool, positive, {}, done)
            if o is not None:
                out.append(o)
                if c.op != "eq":
                    h, v = next(iter(o.items()))
                    out += [{h: v + 1}, {h: v - 1}]
        eqs = [c for c in conds if c.op == "eq"][:6]
        for i, c in enumerate(eqs):
            for d in eqs[i + 1:]:
                if len(out) >= 2 * limit:
                    break
                o = _tie(c, seed, run, names, pool, positive, {})
                o = o and _tie(d, seed, run, names, pool, positive, o)
                if o:
                    out.append(o)
    return out


def _tie(c, seed, run, names, pool, positive, over, done=None):
    """The assignment extended by one leaf such that both operands of c are equal."""
    V = Valuation(seed, run, pool, positive, names)
    V.over = over
    x, y = V.ev(c.args[0]), V.ev(c.args[1])
    if not (isinstance(x, Fraction) and isinstance(y, Fraction)) or x == y:
        return None
    if done is not None:
        if (x, y) in done or (y, x) in done:
            return None
        done.add((x, y))
    for leaf in walk(T("tuple", c.args[0], c.args[1])):
        h = V.hashes.get(leaf)
        if h is None or h in over or leaf.op not in SCALAR_LEAVES or not isinstance(V.memo.get(leaf), Fraction):
            continue
        root = _root(c, leaf, h, V, run, names, x - y)
        if root is None or V._positive(leaf) and root <= 0:
            continue
        if leaf.op == "call" and leaf.args[0] in COUNTS and (root < 0 or root.denominator != 1):
            continue
        return {**over, h: root}
    return None


def _root(c, leaf, h, V, run, names, d0):
    def diff(v):
        W = Valuation(V.seed, run, V.pool, V.positive, names)
        W.over = {**V.over, h: v}
        x, y = W.ev(c.args[0]), W.ev(c.args[1])
        return x - y if isinstance(x, Fraction) and isinstance(y, Fraction) else None
    v0 = V.memo[leaf]
    d1 = diff(v0 + 1)
    if d1 is None or d1 == d0:
        return None
    root = v0 - d0 / (d1 - d0)
    return root if diff(root) == 0 else None


def same_value(a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    return False


def witness(t, v, a, b):
    conds = []
    seen = set()
    for x in walk(t):
        if x.op == "ite" and x.args[0] not in seen and len(conds) < 6:
            seen.add(x.args[0])
            conds.append(f"{show(x.args[0], 5)} is {'true' if v.truthy(x.args[0]) else 'false'}")
    return ("when " + ", ".join(conds)) if conds else ""


def loc_key(t, run):
    """Structural fingerprint of a location, comparable between two runs."""
    return _key(Valuation(0, run, names=call_names(run)).ev(t))


def explain(t1, v1, t2, v2, depth=60):
    """The innermost pair of corresponding subterms that differ (for reports)."""
    while depth:
        depth -= 1
        if t1.op == "ite":
            t1 = t1.args[1] if v1.truthy(t1.args[0]) else t1.args[2]
            continue
        if t2.op == "ite":
            t2 = t2.args[1] if v2.truthy(t2.args[0]) else t2.args[2]
            continue
        c1, c2 = _kids(t1), _kids(t2)
        if t1.op == t2.op and len(c1) == len(c2):
            bad = [(x, y) for x, y in zip(c1, c2) if not same_value(v1.ev(x), v2.ev(y))]
            if len(bad) == 1 or bad and t1.op not in ("poly",):
                t1, t2 = bad[0]
                continue
            if t1.op == "poly" and bad:
                k2 = [v2.ev(y) for y in c2]
                only1 = [x for x in c1 if not any(same_value(v1.ev(x), k) for k in k2)]
                k1 = [v1.ev(x) for x in c1]
                only2 = [y for y in c2 if not any(same_value(v2.ev(y), k) for k in k1)]
                if len(only1) == len(only2) and only1:
                    t1, t2 = only1[0], only2[0]
                    continue
        break
    return t1, t2


def _kids(t):
    out = []

    def go(x):
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    if t.op == "poly":
        for m, c in t.args[0]:
            for y, e in m:
                out.append(y)
        return out
    go(t.args)
    return out

"""Rewrites on value terms used before a comparison."""
from .terms import T, Term, add, sub, mul, num, ite, transform, mentions, contains, walk, subst, FALSE, TRUE


def delta(v, m):
    """v - m when v is an accumulation step of m, else None."""
    if v is m:
        return num(0)
    if v.op == "ite":
        a, b = delta(v.args[1], m), delta(v.args[2], m)
        if a is None or b is None or mentions(v.args[0], m):
            return None
        return ite(v.args[0], a, b)
    if v.op == "poly":
        d = sub(v, m)
        return None if mentions(d, m) else d
    return None


def sums(t):
    """Loop accumulations become sums over the loop's domain."""
    if t.op == "eta" and len(t.args) == 3:
        L, v, i0 = t.args
        for m in [x for x in walk(v) if x.op == "mu" and x.args[0] == L and x.args[-1] is i0]:
            d = delta(v, m)
            if d is not None and not any(x.op == "mu" and x.args[0] == L for x in walk(d)):
                if d is num(0):
                    return i0
                return add(i0, T("sumover", L_tag(L), d))
    return None


def L_tag(L):
    return T("idx", L)


def elementwise_zero_padding(t):
    """Padded addition is addition of zero-padded sequences."""
    if t.op == "pcall" and t.args[0] == "add_padded":
        kw = [x.args[1] for x in t.args[1:] if isinstance(x, Term) and x.op == "kw"]
        if len(kw) == 2:
            return add(kw[0], kw[1])
    if t.op == "call" and t.args[0] == "numpy.full":
        return t.args[2]
    return sums(t)


def padded(t):
    return transform(t, elementwise_zero_padding)


def with_sums(t):
    return transform(t, sums)

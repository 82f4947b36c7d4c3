from terms import *
from engine import under, ite_conds


def simp(t, lits=None):
    """top-down simplification of nested conditionals"""
    if lits is None:
        lits = {}
    if t.op == "ite":
        c = t.a[0]
        if c in lits:
            return simp(t.a[1] if lits[c] else t.a[2], lits)
        n = bnot(c)
        if n in lits:
            return simp(t.a[2] if lits[n] else t.a[1], lits)
        a = simp(t.a[1], dict(lits, **{}) if False else _with(lits, c, True))
        b = simp(t.a[2], _with(lits, c, False))
        return ite(c, a, b)
    if t in lits:
        return TRUE if lits[t] else FALSE
    if t.op == "agg" and t.a[1] in ("Ok", "Some") and t.a[3]:
        return mk("agg", t.a[0], t.a[1], t.a[2], tuple(simp(x, lits) for x in t.a[3]))
    return t


def _with(l, c, v):
    d = dict(l)
    d[c] = v
    return d


def leaves(t, lits=()):
    """decision leaves of a conditional value: list of (literals, value)"""
    out = []

    def go(t, ls, m):
        if t.op == "agg" and t.a[1] in ("Ok", "Some") and len(t.a[3]) == 1 and t.a[3][0].op == "ite":
            x = t.a[3][0]
            w = lambda y: mk("agg", t.a[0], t.a[1], t.a[2], (y,))
            t = mk("ite", x.a[0], w(x.a[1]), w(x.a[2]))
        if t.op == "ite":
            c = t.a[0]
            if c.op == "ite":
                # split compound condition
                cc, x, y = c.a
                return go(mk("ite", cc, ite(x, t.a[1], t.a[2]), ite(y, t.a[1], t.a[2])), ls, m)
            if c in m:
                return go(t.a[1] if m[c] else t.a[2], ls, m)
            n = bnot(c)
            if n in m:
                return go(t.a[2] if m[n] else t.a[1], ls, m)
            m1 = dict(m)
            m1[c] = True
            go(t.a[1], ls + [c], m1)
            m2 = dict(m)
            m2[c] = False
            go(t.a[2], ls + [n], m2)
            return
        if t in m:
            t = TRUE if m[t] else FALSE
        if t.op == "agg" and t.a[1] == "Ok" and len(t.a[3]) == 1 and t.a[3][0] in m:
            t = mk("agg", t.a[0], t.a[1], t.a[2], (TRUE if m[t.a[3][0]] else FALSE,))
        out.append((ls, t))
    go(t, list(lits), {})
    return out


def variant(t):
    return t.a[1] if t.op == "agg" else None


def okval(t):
    return t.a[3][0] if t.op == "agg" and t.a[1] == "Ok" else None


def fld(t, *names):
    for n in names:
        t = proj(t, ("f", n))
    return t


def some(t):
    return projs(t, (("d", "Some"), ("f", "0")))


def ok(t):
    return projs(t, (("d", "Ok"), ("f", "0")))


def app(n, *a):
    return mk("app", n, *a)


def subterm_ops(t):
    return {x.op for x in subterms(t)}

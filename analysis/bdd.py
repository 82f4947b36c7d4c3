"""Reduced ordered binary decision diagrams over branch literals.

Used for path conditions of abstract states: `pc` says which combinations of
branch literals reach a program point, so joins can gate merged values and
conditional facts exactly.  Variables are ordered by first use.
"""
from terms import TRUE as TT, FALSE as FF, _P, _perm

_order = {}
_atoms = {}
_nodes = {}
T = ("T",)
F = ("F",)
_ite = {}


class N(object):
    __slots__ = ("v", "hi", "lo", "id")


TRUE = N()
TRUE.v = 1 << 60
TRUE.hi = TRUE.lo = None
TRUE.id = 1
FALSE = N()
FALSE.v = 1 << 60
FALSE.hi = FALSE.lo = None
FALSE.id = 0


def node(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, hi.id, lo.id)
    r = _nodes.get(k)
    if r is None:
        r = N()
        r.v, r.hi, r.lo = v, hi, lo
        r.id = len(_nodes) + 2
        _nodes[k] = r
    return r


def atom_of(v):
    return _atoms[v]


def var(atom):
    i = _order.get(atom)
    if i is None:
        i = _perm(len(_atoms))
        _order[atom] = i
        _atoms[i] = atom
    return node(i, TRUE, FALSE)


def ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ite.get(k)
    if r is None:
        v = min(f.v, g.v, h.v)
        f1, f0 = (f.hi, f.lo) if f.v == v else (f, f)
        g1, g0 = (g.hi, g.lo) if g.v == v else (g, g)
        h1, h0 = (h.hi, h.lo) if h.v == v else (h, h)
        r = node(v, ite(f1, g1, h1), ite(f0, g0, h0))
        _ite[k] = r
    return r


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def implies(a, b):
    return AND(a, NOT(b)) is FALSE


_of = {}


def of(t):
    """boolean term -> bdd"""
    r = _of.get(t)
    if r is not None:
        return r
    if t is TT:
        r = TRUE
    elif t is FF:
        r = FALSE
    elif t.op == "not":
        r = NOT(of(t.a[0]))
    elif t.op == "ite":
        r = ite(of(t.a[0]), of(t.a[1]), of(t.a[2]))
    elif t.op == "ge0":
        from terms import bnot
        n = bnot(t)
        if n.op == "ge0" and n in _order:
            r = NOT(var(n))
        else:
            r = var(t)
    else:
        r = var(t)
    _of[t] = r
    return r


def restrict(a, v, val):
    if a.v > v:
        return a
    if a.v == v:
        return a.hi if val else a.lo
    return node(a.v, restrict(a.hi, v, val), restrict(a.lo, v, val))


def units(a):
    """literals implied by a: list of (atom, polarity)"""
    out = []
    if a is FALSE:
        return out
    vs = set()
    seen = set()
    st = [a]
    while st:
        x = st.pop()
        if x.hi is None or x.id in seen:
            continue
        seen.add(x.id)
        vs.add(x.v)
        st += [x.hi, x.lo]
    if len(vs) > 400:
        return out
    for v in vs:
        if restrict(a, v, True) is FALSE:
            out.append((_atoms[v], False))
        elif restrict(a, v, False) is FALSE:
            out.append((_atoms[v], True))
    return out


def support(bs):
    vs, seen, st = set(), set(), list(bs)
    while st:
        x = st.pop()
        if x.hi is None or x.id in seen:
            continue
        seen.add(x.id)
        vs.add(x.v)
        st += [x.hi, x.lo]
    return vs


def disjoint(bs):
    acc = FALSE
    for b in bs:
        if AND(acc, b) is not FALSE:
            return False
        acc = OR(acc, b)
    return True


def reduce(cands):
    """drop the tests which are not needed to tell the candidates apart: what
    no candidate covers (the rest of it panics or returned) does not matter"""
    bs = [c[0] for c in cands]
    vs = support(bs)
    if len(vs) < 2 or len(vs) > 40 or not disjoint(bs):
        return cands
    for v in sorted(vs, reverse=True):
        q = [OR(restrict(b, v, True), restrict(b, v, False)) for b in bs]
        if disjoint(q):
            bs = q
    return [(b, c[1]) for b, c in zip(bs, cands)]


def select(cands):
    """cands: list of (bdd, index) -> decision tree: index | (atom, t, e) | ('phi', set)"""
    cands = reduce(cands)
    memo = {}

    def go(cs):
        cs = tuple(c for c in cs if c[0] is not FALSE)
        if not cs:
            return None
        if len(cs) == 1:
            return cs[0][1]
        k = tuple((c[0].id, c[1]) for c in cs)
        if k in memo:
            return memo[k]
        v = min(c[0].v for c in cs)
        if v == TRUE.v:
            r = ("phi", tuple(c[1] for c in cs))
        else:
            a = go([(c[0].hi if c[0].v == v else c[0], c[1]) for c in cs])
            b = go([(c[0].lo if c[0].v == v else c[0], c[1]) for c in cs])
            if a is None:
                r = b
            elif b is None or a == b:
                r = a
            else:
                r = (_atoms[v], a, b)
        memo[k] = r
        return r
    return go(cands)

"""Hash-consed value terms with a polynomial normal form for integers.

Terms are the abstract values of the dataflow analysis: two occurrences with
the same term are known to hold equal values (value numbering).  No solver is
involved: equality is identity of normal forms.
"""
import os

_tab = {}
_P = int(os.environ.get("VERIF_ORDER", "0"))   # robustness testing: perturb canonical orderings


def _perm(n):
    return n if not _P else ((n + 1) * (0x9E3779B1 + 2 * _P)) % (1 << 40)



class T(object):
    __slots__ = ("op", "a", "id", "_h")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    if op == "agg" and a[1] == "" and len(a[3]) > 1:
        # a struct rebuilt field by field from x is x (clones)
        x = a[3][0]
        if x.op == "fld" and x.a[1] == "" and all(v.op == "fld" and v.a[0] is x.a[0] and v.a[1] == "" and v.a[2] == n for n, v in zip(a[2], a[3])) \
                and not a[2][0].isdigit():
            return x.a[0]
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _perm(len(_tab))
        _tab[k] = t
    return t


# ---------------------------------------------------------------- integers
def num(n):
    return mk("int", n)


TRUE = mk("bool", 1)
FALSE = mk("bool", 0)
UNIT = mk("agg", "()", "", (), ())


def is_int(t):
    return t.op == "int"


def poly_of(t):
    """dict monomial -> coef; monomial = sorted tuple of atoms."""
    if t.op == "int":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {(t,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return num(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if len(m) == 1 and c == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), [x.id for x in mc[0]], mc[1])))
    return mk("poly", items)


def add(a, b, k=1):
    if a.op == "ite" and b.op in ("int",):
        pass
    d = poly_of(a)
    for m, c in poly_of(b).items():
        d[m] = d.get(m, 0) + k * c
    return from_poly(d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return sub(num(0), a)


def _msort(m):
    return tuple(sorted(m, key=lambda x: x.id))


def mul(a, b):
    pa, pb = poly_of(a), poly_of(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _msort(m1 + m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def div(a, b):
    if b.op == "int" and a.op == "int" and b.a[0] > 0 and a.a[0] >= 0:
        return num(a.a[0] // b.a[0])
    if b.op == "int" and b.a[0] == 1:
        return a
    pa = poly_of(a)
    pb = poly_of(b)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        q = {}
        ok = bool(pa)
        for m, c in pa.items():
            mm = list(m)
            try:
                for x in mb:
                    mm.remove(x)
            except ValueError:
                ok = False
                break
            if c % cb:
                ok = False
                break
            q[tuple(mm)] = c // cb
        if ok:
            return from_poly(q)
        # exact part + remainder:  (b*q + r) / b with r opaque is left alone
    if a.op == "int" and a.a[0] == 0:
        return num(0)
    return mk("div", a, b)


def rem(a, b):
    return sub(a, mul(b, div(a, b)))


def mmin(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "int":
        return a if d.a[0] <= 0 else b
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("min", x, y)


def mmax(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "int":
        return a if d.a[0] >= 0 else b
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("max", x, y)


# ---------------------------------------------------------------- booleans
def _signnorm(p):
    """normalise sign of a poly for ==0: first item coefficient positive."""
    d = poly_of(p)
    if not d:
        return p
    items = sorted(d.items(), key=lambda mc: (len(mc[0]), [x.id for x in mc[0]]))
    lead = [mc for mc in items if mc[0] != ()]
    c0 = (lead or items)[0][1]
    if c0 < 0:
        return neg(p)
    return p


def ge0(p):
    if p.op == "int":
        return TRUE if p.a[0] >= 0 else FALSE
    s = _split_ite(p)
    if s:
        return ite(s[0], ge0(s[1]), ge0(s[2]))
    # unsigned atoms: x >= 1  is  x != 0,  -x >= 0  is  x == 0
    if p.op == "poly":
        d = p.a[0]
        if len(d) == 2 and d[0] == ((), -1) and d[1][1] == 1 and _uns(d[1][0]):
            return bnot(mk("eq0", from_poly({d[1][0]: 1})))
        if len(d) == 1 and d[0][1] == -1 and _uns(d[0][0]):
            return mk("eq0", from_poly({d[0][0]: 1}))
    elif _uns((p,)):
        return TRUE
    return mk("ge0", p)


def _split_ite(p):
    """a condition over a polynomial with one small conditional atom"""
    if p.op == "ite":
        its = [p]
    elif p.op == "poly":
        its = [x for m, _ in p.a[0] for x in m if x.op == "ite"]
    else:
        return None
    if len(set(its)) == 1 and (its[0].a[1].op == "int" and its[0].a[2].op == "int"):
        x = its[0]
        return x.a[0], subst(p, {x: x.a[1]}), subst(p, {x: x.a[2]})
    return None


def eq0(p):
    if p.op == "int":
        return TRUE if p.a[0] == 0 else FALSE
    s = _split_ite(p)
    if s:
        return ite(s[0], eq0(s[1]), eq0(s[2]))
    return mk("eq0", _signnorm(p))


def _uns(m):
    return all(x.op not in ("idx", "mu", "phi", "bot", "undef", "ite") for x in m)


def lt(a, b):
    return ge0(sub(sub(b, a), num(1)))


def le(a, b):
    return ge0(sub(b, a))


def eq(a, b):
    """integer or value equality"""
    if a is b:
        return TRUE
    if _intlike(a) and _intlike(b):
        p = sub(a, b)
        if p.op == "int":
            return TRUE if p.a[0] == 0 else FALSE
        return eq0(p)
    if a.op == "bool" and b.op == "bool":
        return FALSE
    if a.op == "bool":
        a, b = b, a
    if b.op == "bool" and a.op in BOOLOPS:
        return a if b.a[0] else bnot(a)
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("eq", x, y)


BOOLOPS = {"ge0", "eq0", "eq", "is", "not", "all", "any", "band", "bor", "bool", "exit"}
_NONINT = {"agg", "ref", "clo", "vnew", "vpush", "seq", "bool", "ge0", "eq0", "eq", "is", "not"}
INT_HINT = set()


def _intlike(t):
    if t.op in ("int", "poly", "div", "min", "max", "idx", "len"):
        return True
    if t in INT_HINT:
        return True
    if t.op == "ite":
        return _intlike(t.a[1]) and _intlike(t.a[2])
    if t.op == "mu":
        return t in INT_HINT
    return False


def eq_typed(a, b, isint):
    if a is b:
        return TRUE
    if isint:
        return eq0(sub(a, b))
    return eq(a, b)


def bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "ge0":
        return ge0(sub(neg(t.a[0]), num(1)))
    if t.op == "ite":
        return ite(t.a[0], bnot(t.a[1]), bnot(t.a[2]))
    return mk("not", t)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a.op == "vpush" and b.op == "vpush" and a.a[0] is b.a[0]:
        return vpush(a.a[0], ite(c, a.a[1], b.a[1]))
    # min / max recognition:  ge0(y - x) or ge0(y - x - 1)
    if c.op == "ge0" and not (a.op in BOOLOPS or b.op in BOOLOPS):
        p = c.a[0]
        if a.op not in ("agg", "ref") and b.op not in ("agg", "ref"):
            try:
                d = sub(b, a)
                if p is d or p is sub(d, num(1)):
                    return mmin(a, b)
                d2 = neg(d)
                if p is d2 or p is sub(d2, num(1)):
                    return mmax(a, b)
            except Exception:
                pass
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- aggregates
def agg(adt, variant, names, vals):
    return mk("agg", adt, variant, tuple(names), tuple(vals))


def tup(*vals):
    return agg("()", "", [str(i) for i in range(len(vals))], vals)


def SOME(x):
    return agg("std::option::Option", "Some", ["0"], [x])


NONE = agg("std::option::Option", "None", [], [])


def OK(x):
    return agg("std::result::Result", "Ok", ["0"], [x])


def ERR(x):
    return agg("std::result::Result", "Err", ["0"], [x])


def proj(t, e):
    """project one element: ('f', name) | ('d', variant) | ('i', idx) | ('sl', lo, hi)"""
    k = e[0]
    if t.op == "upd":
        w, e2, v = t.a
        if e2 == e:
            return v
        if k == "f" and e2[0] == "f":
            return proj(w, e)
        if k == "d":
            return proj(w, e) if e2[0] != "d" else t
        if k == "i" and e2[0] == "i":
            d = sub(e[1], e2[1])
            if d.op == "int" and d.a[0] != 0:
                return proj(w, e)
    if t.op == "ite" and k in ("f", "d"):
        return ite(t.a[0], proj(t.a[1], e), proj(t.a[2], e))
    if k == "f":
        if t.op == "agg":
            names, vals = t.a[2], t.a[3]
            for n, v in zip(names, vals):
                if n == e[1]:
                    return v
            return mk("bot")
        if t.op == "clo":
            return t.a[1][int(e[1])]
        if t.op == "dc":
            return mk("fld", t.a[0], t.a[1], e[1])
        return mk("fld", t, "", e[1])
    if k == "d":
        if t.op == "agg":
            return t if t.a[1] == e[1] else mk("bot")
        return mk("dc", t, e[1])
    if k == "i":
        return elem(t, e[1])
    if k == "sl":
        return vslice(t, e[1], e[2])
    return mk("prj", t, e)


def elem(t, i):
    if t.op == "vseq":
        import models
        return models.pitem(t.a[0], i)
    if t.op == "app" and t.a[0] == "vrev":
        return elem(t.a[1], sub(sub(vlen(t.a[1]), num(1)), i))
    if t.op == "ite":
        return ite(t.a[0], elem(t.a[1], i), elem(t.a[2], i))
    if t.op == "vrep":
        return t.a[0]
    if t.op == "vpush":
        d = sub(i, vlen(t.a[0]))
        if d.op == "int":
            return t.a[1] if d.a[0] == 0 else elem(t.a[0], i)
    if t.op == "upd" and t.a[1][0] == "i":
        d = sub(i, t.a[1][1])
        if d.op == "int":
            return t.a[2] if d.a[0] == 0 else elem(t.a[0], i)
    if t.op == "slice":
        return elem(t.a[0], add(t.a[1], i))
    if t.op == "arr":
        if i.op == "int" and 0 <= i.a[0] < len(t.a[0]):
            return t.a[0][i.a[0]]
    if t.op == "vext" and t.a[0].op == "vtab":
        n = t.a[0].a[0]
        d = sub(n, i)
        if d.op == "int":
            return elem(t.a[0], i) if d.a[0] > 0 else elem(t.a[1], sub(i, n))
        return ite(ge0(sub(d, num(1))), elem(t.a[0], i), elem(t.a[1], sub(i, n)))
    if t.op == "vtab":  # vtab(count, idxsym, body)
        return subst(t.a[2], {t.a[1]: i})
    return mk("elem", t, i)


def projs(t, path):
    for e in path:
        t = proj(t, e)
    return t


def setproj(t, path, v):
    if not path:
        return v
    e = path[0]
    inner = setproj(proj(t, e), path[1:], v)
    k = e[0]
    if k == "f" and t.op == "agg":
        names, vals = t.a[2], list(t.a[3])
        for i, n in enumerate(names):
            if n == e[1]:
                vals[i] = inner
                return mk("agg", t.a[0], t.a[1], names, tuple(vals))
        return t
    if k == "f" and t.op == "clo":
        up = list(t.a[1])
        up[int(e[1])] = inner
        return mk("clo", t.a[0], tuple(up), t.a[2])
    if k == "d":
        if t.op == "agg":
            return inner
        return mk("upd", t, e, inner) if inner is not proj(t, e) else t
    if inner is proj(t, e):
        return t
    return _upd(t, e, inner)


def _ekey(e):
    return (e[0],) + tuple(x if isinstance(x, str) else x.id for x in e[1:])


def _upd(t, e, v):
    if t.op == "upd":
        w, e2, v2 = t.a
        if e2 == e:
            return _upd(w, e, v)
        if e[0] == "f" and e2[0] == "f" and e[1] < e2[1]:
            return mk("upd", _upd(w, e, v), e2, v2)
    if e[0] == "f" and proj(t, e) is v:
        return t
    return mk("upd", t, e, v)


# ---------------------------------------------------------------- traversal
def _tkids(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            for z in _tkids(y):
                yield z


def kids(t):
    for x in t.a:
        for y in _tkids(x):
            yield y


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(kids(x))
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(op, a):
    """re-normalise a term from (possibly changed) args"""
    if op == "poly":
        r = num(0)
        for m, c in a[0]:
            p = num(c)
            for x in m:
                p = mul(p, x)
            r = add(r, p)
        return r
    if op == "div":
        return div(*a)
    if op == "min":
        return mmin(*a)
    if op == "max":
        return mmax(*a)
    if op == "ge0":
        return ge0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "eq":
        return eq(*a)
    if op == "not":
        return bnot(a[0])
    if op == "ite":
        return ite(*a)
    if op == "fld":
        if a[1]:
            return proj(proj(a[0], ("d", a[1])), ("f", a[2]))
        return proj(a[0], ("f", a[2]))
    if op == "dc":
        return proj(a[0], ("d", a[1]))
    if op == "elem":
        return elem(*a)
    if op == "len":
        return vlen(a[0])
    if op == "is":
        return is_variant(*a)
    if op == "upd":
        return _upd(a[0], a[1], a[2]) if a[1][0] == "f" else mk("upd", *a)
    if op == "vpush":
        return vpush(*a)
    if op == "slice":
        return vslice(*a)
    if op == "vext":
        return vext(*a)
    return mk(op, *a)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    na = tuple(_substx(x, m, memo) for x in t.a)
    if all(x is y for x, y in zip(na, t.a)) or na == t.a:
        r = t
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    return r


def _substx(x, m, memo):
    if isinstance(x, T):
        return _subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_substx(y, m, memo) for y in x)
    return x


# ---------------------------------------------------------------- vectors
def vpush(v, x):
    if v.op == "vtab" and subst(v.a[2], {v.a[1]: v.a[0]}) is x:
        return mk("vtab", add(v.a[0], num(1)), v.a[1], v.a[2])
    return mk("vpush", v, x)


def vslice(v, lo, hi):
    if v.op == "slice":
        return vslice(v.a[0], add(v.a[1], lo), add(v.a[1], hi))
    if lo.op == "int" and lo.a[0] == 0 and hi is vlen(v):
        return v
    return mk("slice", v, lo, hi)


def vext(v, w):
    if v.op == "vnew":
        return w
    if w.op == "vnew":
        return v
    if v.op == "vtabx" and subst(v.a[2], {v.a[1]: v.a[0]}) is w:
        return mk("vtabx", add(v.a[0], num(1)), v.a[1], v.a[2])
    return mk("vext", v, w)


def vlen(v):
    if v.op == "vnew":
        return num(0)
    if v.op == "vpush":
        return add(vlen(v.a[0]), num(1))
    if v.op == "vrep":
        return v.a[1]
    if v.op == "arr":
        return num(len(v.a[0]))
    if v.op == "slice":
        return sub(v.a[2], v.a[1])
    if v.op == "vtab":
        return v.a[0]
    if v.op == "vtabx":
        n = vlen(v.a[2])
        if not contains(n, lambda x: x is v.a[1]):
            return mul(v.a[0], n)
    if v.op == "bytes" and len(v.a) > 1:
        return v.a[1]
    if v.op == "vseq":
        import models
        return models.seqlen(v.a[0])
    if v.op == "mmap":
        return v.a[2]
    if v.op == "app" and v.a[0] == "vrev":
        return vlen(v.a[1])
    if v.op == "app" and v.a[0] == "filedata":
        return v.a[3]
    if v.op == "vext":
        return add(vlen(v.a[0]), vlen(v.a[1]))
    if v.op == "vtrunc":
        return v.a[1]
    if v.op == "app" and v.a[0] in ("vresize",):
        return v.a[2]
    if v.op == "ite":
        return ite(v.a[0], vlen(v.a[1]), vlen(v.a[2]))
    if v.op == "upd" and v.a[1][0] == "i":
        return vlen(v.a[0])
    if v.op == "bytes":  # serialised element / slice of bytes
        if v.a[0].op in ("vnew", "vpush", "slice", "arr", "vrep"):
            return vlen(v.a[0])
    return mk("len", v)


def is_variant(t, v):
    if t.op == "agg":
        return TRUE if t.a[1] == v else FALSE
    if t.op == "upd":
        return is_variant(t.a[0], v)
    if t.op == "ite":
        return ite(t.a[0], is_variant(t.a[1], v), is_variant(t.a[2], v))
    # two-variant enums share one literal
    if v == "None":
        return bnot(mk("is", t, "Some"))
    if v == "Err":
        return bnot(mk("is", t, "Ok"))
    if v == "Break":
        return bnot(mk("is", t, "Continue"))
    ch = CHAIN.get(v)
    if ch:
        # enums with several variants: a chain of tests, so that the literals
        # of different variants are never independent
        i = ch.index(v)
        r = TRUE if i == len(ch) - 1 else mk("is", t, v)
        for k in reversed(ch[:i]):
            r = ite(mk("is", t, k), FALSE, r)
        return r
    return mk("is", t, v)


CHAIN = {}


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return ".."
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "poly":
        r = ""
        for m, c in a[0]:
            x = "*".join(s(y) for y in m)
            if not m:
                p = str(abs(c))
            elif abs(c) == 1:
                p = x
            else:
                p = "%d*%s" % (abs(c), x)
            r += (" - " if c < 0 else " + ") + p
        r = r[3:] if r.startswith(" + ") else "-" + r[3:]
        return "(" + r + ")"
    if o == "arg":
        return a[1] or "arg%d" % a[0]
    if o == "init":
        return s(a[0])
    if o == "fld":
        return s(a[0]) + ("." if not a[1] else "?" + a[1] + ".") + a[2]
    if o == "dc":
        return s(a[0]) + "?" + a[1]
    if o == "app":
        return "%s(%s)" % (short(a[0]), ", ".join(s(x) for x in a[1:]))
    if o == "res":
        return "%s!(%s)" % (short(a[0]), ", ".join(s(x) for x in a[2:]))
    if o == "ge0":
        return "%s>=0" % s(a[0])
    if o == "eq0":
        return "%s==0" % s(a[0])
    if o == "eq":
        return "%s==%s" % (s(a[0]), s(a[1]))
    if o == "not":
        return "!" + s(a[0])
    if o == "is":
        return "%s is %s" % (s(a[0]), a[1])
    if o == "agg":
        return "%s%s{%s}" % (a[0].split("::")[-1], ("::" + a[1]) if a[1] and a[1] != a[0].split("::")[-1] else "", ", ".join("%s:%s" % (n, s(v)) for n, v in zip(a[2], a[3]) if not n.startswith("_")))
    if o == "ref":
        return "&" + s(a[0]) + "".join("." + str(e[1]) if e[0] in "fd" else "[%s]" % ",".join(s(z) for z in e[1:]) for e in a[1])
    if o == "L":
        return "_%s" % (a[1],)
    if o == "H":
        return "*" + s(a[0])
    if o == "V":
        return s(a[0])
    if o == "upd":
        return "%s{%s:=%s}" % (s(a[0]), ".".join(str(x) for x in a[1]), s(a[2]))
    if o == "mu":
        return "mu@%s" % (a[3] if len(a) > 3 and a[3] else "%d" % t.id)
    if o == "idx":
        return "ix%d" % (t.id % 1000)
    if o == "elem":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "slice":
        return "%s[%s..%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "len":
        return "len(%s)" % s(a[0])
    if o == "tysym":
        return str(a[0])
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))


def short(n):
    if not isinstance(n, str):
        return str(n)
    return n.replace("std::", "").replace("merkle::", "").replace("store::", "")

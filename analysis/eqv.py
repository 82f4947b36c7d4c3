"""Equality and entailment of value terms.

1. identity of normal forms (terms.py) and a small linear prover over facts;
2. when that does not settle it, random interpretation (Gulwani/Necula style
   value numbering): both terms are evaluated over fixed pseudo-random
   valuations of their atoms that satisfy the facts.  A differing valuation is
   a witness that the terms really differ; it is required before any rule
   reports a violation, so an unusual but equivalent formulation stays quiet.
"""
import itertools
import random
from terms import *

BL = mk("tysym", "byte_len")


class Un(Exception):
    pass


def _mix(*xs):
    h = 1469598103934665603
    for x in xs:
        h = ((h ^ (x & 0xFFFFFFFFFFFFFFFF)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 29
    return h


def _s(x):
    h = 0
    for c in str(x):
        h = (h * 131 + ord(c)) & 0xFFFFFFFFFFFFFFFF
    return h


class Val(object):
    """one valuation"""

    def __init__(self, seed, over, typ=None):
        self.seed = seed
        self.over = over          # term -> python value or term
        self.memo = {}
        self.depth = 0
        self.consts = ()

    def pick(self, h, t=None):
        r = h % 100
        h //= 100
        if t is not None and t.op == "tysym" and isinstance(t.a[0], str) and not t.a[0].startswith("const"):
            if t.a[0] == "byte_len" or t.a[0].startswith("size_of"):
                return 1 + h % 5
            return [2, 4, 8, 2, 4, 3, 16, 1][h % 8]
        if self.consts and r >= 70:
            c = self.consts[h % len(self.consts)]
            h //= len(self.consts)
            m = h % 4
            h //= 4
            if m == 0:
                return c * (1 + h % 4)
            if m == 1:
                k = self.consts[h % len(self.consts)]
                return c * (k + 1 + (h // len(self.consts)) % 9)
            return max(0, c - 2 + h % 9)
        if r < 55:
            return h % 6
        if r < 85:
            return h % 23
        return h % 211

    def go(self, t):
        m = self.memo
        if t in m:
            return m[t]
        if t in self.over:
            v = self.over[t]
            if isinstance(v, T):
                v = self.go(v)
            m[t] = v
            return v
        self.depth += 1
        if self.depth > 400:
            raise Un("depth")
        v = self._go(t)
        self.depth -= 1
        m[t] = v
        return v

    def key(self, v):
        if isinstance(v, list):
            return _mix(7, *[self.key(x) for x in v])
        if isinstance(v, bool):
            return 3 if v else 4
        if isinstance(v, int):
            return v * 2 + 11
        return _s(v)

    def lst(self, t):
        """evaluate as a vector"""
        o, a = t.op, t.a
        if t in self.over:
            v = self.over[t]
            if isinstance(v, T):
                return self.lst(v)
            if isinstance(v, list):
                return v
        if o == "vnew":
            return []
        if o == "vpush":
            return self.lst(a[0]) + [self.go(a[1])]
        if o == "vext":
            return self.lst(a[0]) + self.lst(a[1])
        if o == "arr":
            return [self.go(x) for x in a[0]]
        if o == "vrep":
            n = self.go(a[1])
            self.cap(n)
            return [self.go(a[0])] * n
        if o == "vtab":
            n = self.go(a[0])
            self.cap(n)
            return [self.go(subst(a[2], {a[1]: num(i)})) for i in range(n)]
        if o == "vtabx":
            n = self.go(a[0])
            self.cap(n)
            r = []
            for i in range(n):
                r += self.lst(subst(a[2], {a[1]: num(i)}))
            return r
        if o == "slice":
            lo, hi = self.go(a[1]), self.go(a[2])
            if a[0].op in ("fld", "arg", "app", "res", "mmap"):
                if not 0 <= lo <= hi:
                    raise Un("slice")
                self.cap(hi - lo)
                return [self.go(elem(a[0], add(a[1], num(i)))) for i in range(hi - lo)]
            l = self.lst(a[0])
            if not (0 <= lo <= hi <= len(l)):
                raise Un("slice")
            return l[lo:hi]
        if o == "upd" and a[1][0] == "i":
            l = list(self.lst(a[0]))
            i = self.go(a[1][1])
            if not 0 <= i < len(l):
                raise Un("upd")
            l[i] = self.go(a[2])
            return l
        if o == "ite":
            return self.lst(a[1] if self.go(a[0]) else a[2])
        if o == "app" and a[0] == "vrev":
            return list(reversed(self.lst(a[1])))
        if o == "app" and a[0] == "vresize":
            l = list(self.lst(a[1]))
            n = self.go(a[2])
            self.cap(n)
            return l[:n] + [self.go(a[3])] * (n - len(l))
        if o == "app" and a[0] == "vsplice":
            l = list(self.lst(a[1]))
            lo, hi = self.go(a[2]), self.go(a[3])
            if not 0 <= lo <= hi <= len(l):
                raise Un("splice")
            return l[:lo] + self.lst(a[4]) + l[hi:]
        if o == "vseq":
            import models
            n = self.go(models.seqlen(a[0]))
            self.cap(n)
            return [self.go(models.pitem(a[0], num(i))) for i in range(n)]
        n = self.go(vlen(t))
        self.cap(n)
        return [self.go(elem(t, num(i))) for i in range(n)]

    def cap(self, n):
        if not isinstance(n, int) or n < 0 or n > 300:
            raise Un("size")

    def atom(self, t, *ks):
        return self.pick(_mix(self.seed, _s(t.op), *ks), t)

    def _go(self, t):
        o, a = t.op, t.a
        if o == "int":
            return a[0]
        if o == "bool":
            return bool(a[0])
        if o == "poly":
            r = 0
            for mon, c in a[0]:
                p = c
                for x in mon:
                    v = self.go(x)
                    if isinstance(v, list):
                        v = self.key(v) % 97
                    p *= v
                r += p
            return r
        if o == "div":
            x, y = self.go(a[0]), self.go(a[1])
            if y == 0:
                raise Un("div0")
            if x < 0:
                raise Un("neg")
            return x // y
        if o == "min":
            return min(self.go(a[0]), self.go(a[1]))
        if o == "max":
            return max(self.go(a[0]), self.go(a[1]))
        if o == "ge0":
            return self.go(a[0]) >= 0
        if o == "eq0":
            return self.go(a[0]) == 0
        if o == "eq":
            return self.key(self.go(a[0])) == self.key(self.go(a[1]))
        if o == "not":
            return not self.go(a[0])
        if o == "ite":
            return self.go(a[1]) if self.go(a[0]) else self.go(a[2])
        if o in ("vnew", "vpush", "vext", "arr", "vrep", "vtab", "vtabx", "slice", "vseq") or (o == "upd" and a[1][0] == "i") or \
                (o == "app" and a[0] in ("vresize", "vsplice", "vrev")):
            return self.lst(t)
        if o == "elem":
            if a[0].op == "upd" and a[0].a[1][0] == "sl":
                b, (_, lo, hi), d = a[0].a
                i, lo, hi = self.go(a[1]), self.go(lo), self.go(hi)
                return self.go(elem(d, num(i - lo))) if lo <= i < hi else self.go(elem(b, num(i)))
            if a[0].op == "upd" and a[0].a[1][0] == "i":
                i = self.go(a[1])
                return self.go(a[0].a[2]) if i == self.go(a[0].a[1][1]) else self.go(elem(a[0].a[0], num(i)))
            if a[0].op in ("vnew", "vpush", "vext", "arr", "vrep", "vtab", "vtabx", "upd", "slice", "vseq", "ite") or \
                    (a[0].op == "app" and a[0].a[0] in ("vresize", "vsplice", "vrev")):
                l = self.lst(a[0])
                i = self.go(a[1])
                if not 0 <= i < len(l):
                    raise Un("index")
                return l[i]
            i = self.go(a[1])
            return self.atom(t, self.base(a[0]), self.key(i))
        if o == "len":
            if a[0].op in ("vnew", "vpush", "vext", "arr", "vrep", "vtab", "vtabx", "ite") or (a[0].op == "app" and a[0].a[0] in ("vresize", "vsplice", "vrev")):
                return len(self.lst(a[0]))
            return self.atom(t, self.base(a[0]))
        if o == "is":
            h = _mix(self.seed, 77, self.base(a[0]), _s(a[1]))
            return h % 2 == 0
        if o in ("exit", "did", "all"):
            return _mix(self.seed, t.id * 2654435761 & 0xFFFFFFFF, 5) % 2 == 0
        if o in ("undef", "bot", "phi", "item"):
            raise Un(o)
        if o == "agg":
            return [self.go(x) for x in a[3]] + [_s(a[1]) % 1000003]
        if o == "app" and a[0] == "npow2":
            x = self.go(a[1])
            n = 1
            while n < x:
                n *= 2
            return n
        if o == "tz":
            x = self.go(a[0])
            if x <= 0:
                raise Un("tz")
            k = 0
            while x % 2 == 0:
                x //= 2
                k += 1
            return k
        if o == "app" and a[0] == "pow":
            return self.go(a[1]) ** min(self.go(a[2]), 12)
        if o == "app" and a[0] in ("shr", "shl"):
            x, y = self.go(a[1]), self.go(a[2])
            return x >> y if a[0] == "shr" else x << min(y, 16)
        if o == "app" and a[0] == "bitand":
            return self.go(a[1]) & self.go(a[2])
        if o == "app" and a[0] == "fits":
            return True
        return self.atom(t, self.base(t))

    def base(self, t):
        """identity of an opaque term: its operator applied to evaluated args"""
        o, a = t.op, t.a
        if o in ("arg", "tysym", "const", "idx", "mu", "bv", "L", "H", "V", "ref", "fnv", "clo", "default", "res", "seq"):
            if o == "res":
                # one call site instance: same arguments, same result
                return _mix(_s("res"), _s(a[0]), _s(a[1]), *[self.hk(x) for x in a[2:]])
            if o == "V":
                return self.base(a[0])
            if o in ("arg", "tysym", "const"):
                return _mix(_s(o), _s(a))
            return _mix(_s(o), t.id)
        return _mix(_s(o), *[self.hk(x) for x in a])

    def hk(self, x):
        if isinstance(x, T):
            if x.op not in ("L", "H", "ref", "fnv", "clo", "default", "seq", "const"):
                return self.key(self.go(x))
            return self.base(x)
        if isinstance(x, tuple):
            return _mix(5, *[self.hk(y) for y in x])
        return _s(x)


def prep(facts, extra=()):
    """split facts into overrides and residual tests"""
    over = {}
    resid = []

    def put(k, v):
        if k not in over:
            over[k] = v

    for f in list(facts) + list(extra):
        if f.op == "did":
            continue
        n = False
        g = f
        if f.op == "not":
            n, g = True, f.a[0]
        if g.op in ("is", "exit", "all") or g.op == "app":
            put(g, not n)
        elif g.op == "eq" and not n:
            x, y = g.a
            if x.op in ("int", "bool", "agg"):
                x, y = y, x
            if not contains(y, lambda z: z is x) and x.op not in ("int", "bool", "agg"):
                put(x, y)
            else:
                resid.append(f)
        elif g.op == "eq0" and not n:
            d = poly_of(g.a[0])
            done = False
            for mon, c in sorted(d.items(), key=lambda mc: -max([x.id for x in mc[0]] + [0])):
                if len(mon) == 1 and abs(c) == 1 and mon[0] not in over:
                    x = mon[0]
                    rhs = from_poly({m: -k * c for m, k in d.items() if m != mon})
                    if not contains(rhs, lambda z: z is x) and x.op not in ("div", "min", "max", "ite") and \
                            (x.op != "tysym" or rhs.op == "int"):
                        # avoid cyclic overrides
                        if not any(isinstance(v, T) and contains(v, lambda z: z is x) for v in over.values()) and \
                                not any(contains(rhs, lambda z: z is k) for k in over):
                            put(x, rhs)
                            if x.op not in ("ite", "idx", "phi", "bot", "undef", "mu"):
                                resid.append(mk("ge0", x))   # unsigned
                            done = True
                            break
            resid.append(f)
        else:
            resid.append(f)
    return over, resid


NV = 4000
CFG = {"base": 0, "mult": 1}


def configure(seed, tier):
    CFG["base"] = (seed - 1) * 104729
    CFG["mult"] = 8 if tier == "thorough" else 1


def valuations(facts, want=60, extra=(), tries=NV, goal=()):
    want *= CFG["mult"]
    tries *= CFG["mult"]
    over, resid = prep(facts, extra)
    n = 0
    consts = bigconsts(list(resid) + list(goal))
    for seed in range(tries):
        v = Val((seed + CFG["base"]) * 7919 + 13, dict(over))
        v.consts = consts
        try:
            if all(v.go(f) for f in resid):
                n += 1
                yield v
                if n >= want:
                    return
        except Un:
            continue
        except RecursionError:
            continue


def bigconsts(ts):
    """larger constants that occur in the terms, as addends or divisors"""
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "poly":
                for m, c in poly_of(x).items():
                    if not m and 150 < abs(c) < 10 ** 9:
                        out.add(abs(c))
            elif x.op in ("div", "min", "max"):
                for c in x.a:
                    if isinstance(c, T) and c.op == "int" and 5 < c.a[0] < 2 ** 60:
                        out.add(c.a[0])
    return tuple(sorted(out))


def resolved(t, bad=("phi", "undef", "bot", "item")):
    return not contains(t, lambda x: x.op in bad)


def same(a, b, facts=(), want=60):
    """-> 'id' | 'eq' | ('diff', witness) | 'unknown'"""
    if a is b:
        return "id"
    ok = 0
    for v in valuations(relevant(facts, (a, b)), want, goal=(a, b)):
        try:
            x, y = v.go(a), v.go(b)
        except Un:
            continue
        if v.key(x) != v.key(y):
            return ("diff", witness(v, (a, b), facts, x, y))
        ok += 1
    if ok < 5:
        return "unknown"
    # differences that show on the boundary of a comparison only
    fs = relevant(facts, (a, b))
    for e in edges((a, b), fs):
        for v in valuations(fs, 6, (e,), 120, (a, b)):
            try:
                x, y = v.go(a), v.go(b)
            except Un:
                continue
            if v.key(x) != v.key(y):
                return ("diff", witness(v, (a, b), facts, x, y))
    return "eq"


def edges(ts, facts):
    """equations that put a comparison occurring in ts on its boundary"""
    out = []
    know = set(facts)
    for t in ts:
        for x in subterms(t):
            if x.op not in ("eq0", "ge0") or x in know or bnot(x) in know:
                continue
            for k in ((0,) if x.op == "eq0" else (0, 1)):
                e = eq0(add(x.a[0], num(k)))
                if e.op != "eq0" or e in out:
                    continue
                if len(prep(facts, (e,))[0]) > len(prep(facts)[0]):
                    out.append(e)
    return out[:8]


def relevant(facts, ts, rounds=3):
    """facts that share atoms with ts (transitively)"""
    fs = [f for f in facts if f.op != "did"]
    if len(fs) <= 12:
        return fs
    at = set()
    for t in ts:
        at |= leafset(t)
    out = []
    rest = fs
    for _ in range(rounds):
        nxt = []
        new = set()
        for f in rest:
            s = leafset(f)
            if s & at:
                out.append(f)
                new |= s
            else:
                nxt.append(f)
        at |= new
        rest = nxt
        if not new:
            break
    return out


_ls = {}


def leafset(t):
    r = _ls.get(t)
    if r is None:
        r = set(x for x in subterms(t) if x.op in ("arg", "fld", "len", "elem", "mu", "idx", "app", "res", "is"))
        _ls[t] = r
    return r


def witness(v, ts, facts, x, y):
    names = {}
    for t in ts:
        for a in leafset(t):
            if a in v.memo and isinstance(v.memo[a], (int, bool)) and len(show(a)) < 80:
                names[show(a)] = v.memo[a]
    for t in ts:
        for a in subterms(t):
            if a.op == "tysym" and a in v.memo:
                names[show(a)] = v.memo[a]
    return {"values": dict(sorted(names.items())[:14]), "got": str(x)[:200], "want": str(y)[:200]}


# ---------------------------------------------------------------- entailment
def _nonneg(p):
    """polynomial with nonnegative coefficients over unsigned atoms"""
    return all(c >= 0 for m, c in poly_of(p).items())


def ineqs(facts):
    out = []
    for f in facts:
        if f.op == "ge0":
            out.append(f.a[0])
        elif f.op == "eq0":
            out.append(f.a[0])
            out.append(neg(f.a[0]))
        elif f.op == "not" and f.a[0].op == "eq0":
            p = f.a[0].a[0]
            if _nonneg(p):
                out.append(sub(p, num(1)))
    return out


def prove(facts, goal):
    if goal is TRUE or goal in facts:
        return True
    if goal.op == "ite":
        c, a, b = goal.a
        f1 = list(facts) + [c]
        f2 = list(facts) + [bnot(c)]
        return (bnot(c) in facts or prove(f1, a)) and (c in facts or prove(f2, b))
    if goal.op == "not" and goal.a[0].op == "eq0":
        p = goal.a[0].a[0]
        return _lin(ineqs(facts), sub(p, num(1))) or _lin(ineqs(facts), sub(neg(p), num(1)))
    if goal.op == "eq0":
        return _lin(ineqs(facts), goal.a[0]) and _lin(ineqs(facts), neg(goal.a[0]))
    if goal.op == "ge0":
        return _lin(ineqs(facts), goal.a[0])
    return False


def _lin(iq, p):
    if _nonneg(p):
        return True
    ex = []
    for q in iq:
        ex.append(q)
    scal = set()
    for m in poly_of(p):
        for x in m:
            scal.add(x)
    for q in list(iq):
        for x in scal:
            if x.op in ("tysym",):
                ex.append(mul(q, x))
    negs = [m for m, c in poly_of(p).items() if c < 0]
    cand = [q for q in ex if any(poly_of(q).get(m, 0) < 0 for m in negs)]
    for q in cand[:200]:
        r = sub(p, q)
        if _nonneg(r):
            return True
    for q in cand[:60]:
        r = sub(p, q)
        n2 = [m for m, c in poly_of(r).items() if c < 0]
        for q2 in ex:
            if any(poly_of(q2).get(m, 0) < 0 for m in n2):
                if _nonneg(sub(r, q2)):
                    return True
    return False


def holds(facts, goal, want=80):
    """-> 'proved' | 'eq' (no counter valuation) | ('refuted', w) | 'unknown'"""
    if prove(facts, goal):
        return "proved"
    ok = 0
    for v in valuations(relevant(facts, (goal,)), want, goal=(goal,)):
        try:
            g = v.go(goal)
        except Un:
            continue
        if not g:
            return ("refuted", witness(v, (goal,), facts, g, True))
        ok += 1
    if ok < 5:
        return "unknown"
    fs = relevant(facts, (goal,))
    for e in edges((goal,), fs):
        for v in valuations(fs, 6, (e,), 120, (goal,)):
            try:
                g = v.go(goal)
            except Un:
                continue
            if not g:
                return ("refuted", witness(v, (goal,), facts, g, True))
    return "eq"

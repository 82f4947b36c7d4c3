"""Interprocedural abstract interpretation of MIR.

One abstract state per basic block (joined at merges, widened at loop headers):
  mem    location -> value term          (gated value numbering: joins build
                                          ite(cond, a, b) terms on a branch
                                          literal that separates the two sides)
  facts  must-hold literals (branch conditions, bound checks, `did` marks)
  pc     path condition (BDD over branch literals), gates joins
  cond   fact -> BDD under which it is known (recovered after joins)
Loops are summarised by recurrences (mu terms, or closed affine forms of the
iteration index).  Local functions are inlined; the rest is modelled in
models.py or kept as uninterpreted applications.
"""
import sys
from terms import *
import bdd

sys.setrecursionlimit(20000)


class Giveup(Exception):
    pass


class St(object):
    __slots__ = ("mem", "facts", "cond", "pc")

    def __init__(self, mem=None, facts=None, cond=None, pc=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.cond = cond if cond is not None else {}
        self.pc = pc if pc is not None else bdd.TRUE

    def copy(self):
        return St(dict(self.mem), dict(self.facts), dict(self.cond), self.pc)


_cond_cache = {}


def ite_conds(t):
    """set of atoms of ite conditions occurring in t"""
    r = _cond_cache.get(t)
    if r is None:
        r = frozenset()
        for k in kids(t):
            r = r | ite_conds(k)
        if t.op == "ite":
            r = r | {t.a[0]}
        _cond_cache[t] = r
    return r


def under(t, lit, memo=None):
    """simplify t assuming literal lit"""
    nl = bnot(lit)
    cs = ite_conds(t)
    if lit not in cs and nl not in cs:
        return t
    if memo is None:
        memo = {}
    return _under(t, lit, nl, memo)


def _under(t, lit, nl, memo):
    r = memo.get(t)
    if r is not None:
        return r
    cs = ite_conds(t)
    if lit not in cs and nl not in cs:
        memo[t] = t
        return t
    if t.op == "ite":
        if t.a[0] is lit:
            r = _under(t.a[1], lit, nl, memo)
        elif t.a[0] is nl:
            r = _under(t.a[2], lit, nl, memo)
        else:
            r = ite(_under(t.a[0], lit, nl, memo), _under(t.a[1], lit, nl, memo), _under(t.a[2], lit, nl, memo))
    else:
        r = rebuild(t.op, tuple(_underx(x, lit, nl, memo) for x in t.a))
    memo[t] = r
    return r


def _underx(x, lit, nl, memo):
    if isinstance(x, T):
        return _under(x, lit, nl, memo)
    if isinstance(x, tuple):
        return tuple(_underx(y, lit, nl, memo) for y in x)
    return x


def iteeq(a, b, n=7):
    """equality of two terms by case split on the conditions they contain"""
    if a is b:
        return True
    cs = ite_conds(a) | ite_conds(b)
    if not cs or not n:
        return False
    c = min(cs, key=lambda c: (c.op == "ite", contains(c, lambda x: x.op == "bv"), c.id))
    nc = bnot(c)
    return iteeq(under(a, c), under(b, c), n - 1) and iteeq(under(a, nc), under(b, nc), n - 1)


def under_all(t, facts):
    for c in list(ite_conds(t)):
        if c in facts:
            t = under(t, c)
        elif bnot(c) in facts:
            t = under(t, bnot(c))
    return t


def assume(st, lit, path=True):
    """add a literal; returns False when infeasible.  path=False for facts
    that hold because the alternative does not return (panics)."""
    lit = under_all(lit, st.facts)
    if lit is TRUE or lit in st.facts:
        return True
    if lit is FALSE:
        return False
    if path:
        st.pc = bdd.AND(st.pc, bdd.of(lit))
        if st.pc is bdd.FALSE:
            return False
    else:
        if bdd.AND(st.pc, bdd.of(lit)) is bdd.FALSE:
            return False
    if not _learn(st, lit):
        return False
    if path:
        for (at, pol) in bdd.units(st.pc):
            l = at if pol else bnot(at)
            if l not in st.facts and not _learn(st, l):
                return False
    for f, b in list(st.cond.items()):
        if f in st.facts:
            del st.cond[f]
        elif bdd.implies(st.pc, b):
            del st.cond[f]
            if f.op == "did":
                st.facts[f] = 1
            elif not _learn(st, f):
                return False
    return True


def _learn(st, lit):
    work = [lit]
    while work:
        l = work.pop()
        l = under_all(l, st.facts)
        if l is TRUE or l in st.facts:
            continue
        if l is FALSE or bnot(l) in st.facts:
            return False
        if l.op == "ite":
            c, a, b = l.a
            if b is FALSE:
                work += [a, c]
                continue
            if a is FALSE:
                work += [b, bnot(c)]
                continue
        if l.op == "is":
            for f in st.facts:
                if f.op == "is" and f.a[0] is l.a[0] and f.a[1] != l.a[1]:
                    return False
        if l.op == "ge0" and _contra(st.facts, l.a[0]):
            return False
        st.facts[l] = 1
        nl = bnot(l)
        for b, v in st.mem.items():
            cs = ite_conds(v)
            if l in cs or nl in cs:
                st.mem[b] = under(v, l)
        # stored disjunctions may have become decided
        for f in [f for f in st.facts if f.op == "ite" and (l in ite_conds(f) or nl in ite_conds(f))]:
            del st.facts[f]
            work.append(under(f, l))
    return True


def _contra(facts, p):
    if p.op != "poly":
        return False
    q = neg(p)
    d = poly_of(q)
    k = d.pop((), 0)
    # fact ge0(q') with q' = -p + c, c < 0  -> p + q' = c <0
    for f in facts:
        if f.op == "ge0":
            s = add(f.a[0], p)
            if s.op == "int" and s.a[0] < 0:
                return True
    return False


def kill(st, pred):
    for f in [f for f in st.facts if f.op == "did" and pred(f)]:
        del st.facts[f]
    for k in [k for k in st.cond if k.op == "did" and pred(k)]:
        del st.cond[k]


def did(st, *name):
    st.facts[mk("did", *name)] = 1


def when(st, lit, fact):
    """fact is known wherever lit holds"""
    b = bdd.of(under_all(lit, st.facts))
    old = st.cond.get(fact, bdd.FALSE)
    st.cond[fact] = bdd.OR(old, b)


def joinval(tree, vals):
    """merge vals[i] under a decision tree over state indices"""
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if v0.op == "agg" and all(v.op == "agg" and v.a[:3] == v0.a[:3] for v in vals):
        n = len(v0.a[3])
        return mk("agg", v0.a[0], v0.a[1], v0.a[2], tuple(joinval(tree, [v.a[3][k] for v in vals]) for k in range(n)))
    if v0.op == "clo" and all(v.op == "clo" and v.a[0] == v0.a[0] and len(v.a[1]) == len(v0.a[1]) for v in vals):
        n = len(v0.a[1])
        return mk("clo", v0.a[0], tuple(joinval(tree, [v.a[1][k] for v in vals]) for k in range(n)), v0.a[2])
    memo = {}

    def go(t):
        if isinstance(t, int):
            return vals[t]
        r = memo.get(id(t))
        if r is None:
            if t[0] == "phi":
                vs = sorted(set(vals[i] for i in t[1]), key=lambda x: x.id)
                r = vs[0] if len(vs) == 1 else mk("phi", *vs)
            else:
                r = ite(t[0], go(t[1]), go(t[2]))
            memo[id(t)] = r
        return r
    return go(tree)


def join(states):
    states = list(states)
    if len(states) == 1:
        return states[0]
    tree = bdd.select([(s.pc, i) for i, s in enumerate(states)])
    r = St()
    s0 = states[0]
    bases = {}
    for s in states:
        for b in s.mem:
            bases[b] = bases.get(b, 0) + 1
    for b, n in bases.items():
        if n < len(states) and b.op != "H":
            continue
        r.mem[b] = joinval(tree, [s.mem[b] if b in s.mem else b.a[0] for s in states])
    pc = bdd.FALSE
    for s in states:
        pc = bdd.OR(pc, s.pc)
    r.pc = pc
    allf = {}
    for s in states:
        for f in s.facts:
            allf[f] = 1
        for f in s.cond:
            allf[f] = 1
    for f in allf:
        if all(f in s.facts for s in states):
            r.facts[f] = 1
            continue
        c = bdd.FALSE
        for s in states:
            if f in s.facts:
                c = bdd.OR(c, s.pc)
            elif f in s.cond:
                c = bdd.OR(c, bdd.AND(s.pc, s.cond[f]))
        if c is bdd.FALSE:
            continue
        if bdd.implies(pc, c):
            r.facts[f] = 1
            continue
        # a fact known under c holds whenever pc -> c; outside pc anything goes
        r.cond[f] = c
    if len(r.cond) > 800:
        for k in list(r.cond)[: len(r.cond) - 800]:
            del r.cond[k]
    return r


# ------------------------------------------------------------------ diffing
def _updfields(t):
    s = set()
    while t.op == "upd":
        if t.a[1][0] != "f":
            return None, t
        s.add(t.a[1])
        t = t.a[0]
    return s, t


def diff(a, b):
    """paths at which two values differ"""
    if a is b:
        return []
    if a.op == "agg" and b.op == "agg" and a.a[:3] == b.a[:3]:
        r = []
        for n, x, y in zip(a.a[2], a.a[3], b.a[3]):
            for p in diff(x, y):
                r.append((("f", n),) + p)
        return r
    if a.op == "clo" and b.op == "clo" and a.a[0] == b.a[0]:
        r = []
        for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
            for p in diff(x, y):
                r.append((("f", str(i)),) + p)
        return r
    fa, ra = _updfields(a)
    fb, rb = _updfields(b)
    if fa is not None and fb is not None and (fa or fb) and ra is rb:
        r = []
        for e in sorted(fa | fb):
            for p in diff(proj(a, e), proj(b, e)):
                r.append((e,) + p)
        return r
    if b.op == "ite":
        ra_ = diff(a, b.a[1])
        rb_ = diff(a, b.a[2])
        r = sorted(set(ra_) | set(rb_), key=len)
        if () not in r:
            return r
    return [()]


# ------------------------------------------------------------------ types
def typenum_val(t):
    if t[0] == "adt" and t[1].endswith("UTerm"):
        return 0
    if t[0] == "adt" and t[1].endswith("UInt"):
        v = typenum_val(t[2][0])
        b = t[2][1]
        if v is None:
            return None
        return 2 * v + (1 if b[1].endswith("B1") else 0)
    return None


class Event(object):
    __slots__ = ("name", "args", "raw", "facts", "cond", "pc", "ret", "fn", "sp", "chain", "tys", "kind", "loops", "self_ty", "st", "post", "dty", "need")

    def __repr__(self):
        return "<%s(%s) in %s @%s>" % (self.name, ", ".join(show(a) for a in self.args), self.fn, self.sp)


class Frame(object):
    __slots__ = ("fn", "env", "id", "chain", "loops")


# i128 and u128 carry intermediate results here, so they count as wide
WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "usize": 64, "u64": 64,
         "isize": 64, "i64": 64, "u128": 128, "i128": 128}


class LoopInfo(object):
    def __init__(self):
        self.cells = {}   # key -> (init, next, header term)
        self.entry = None
        self.header = None
        self.back = None
        self.fn = None
        self.exits = []
        self.parent = None
        self.par = False  # iterations run in no particular order


class Engine(object):
    def __init__(self, crate, opaque, models, maxdepth=10):
        self.c = crate
        self.opaque = opaque      # callable(key) -> bool
        self.models = models
        self.maxdepth = maxdepth
        self.events = []
        self.loops = {}
        self.cfgs = {}
        self.unknown = {}
        self.stack = []
        self.loopstack = []
        self.steps = 0
        self.root = None
        self.inlined = set()
        self.funcs_seen = set()

    # ---------------------------------------------------------- types
    def rty(self, i, env):
        t = self.c.types[i] if isinstance(i, int) else i
        k = t.get("k")
        if k == "param":
            return env.get(t["n"], ("param", t["n"]))
        if k == "adt":
            return ("adt", t["n"], tuple(self.rty(x, env) for x in t["a"] if isinstance(x, int)))
        if k in ("ref", "ptr"):
            return ("ref", self.rty(t["t"], env))
        if k in ("slice", "array"):
            return ("slice", self.rty(t["t"], env), t.get("len"))
        if k == "tuple":
            return ("tuple", tuple(self.rty(x, env) for x in t["a"]))
        if k == "prim":
            return ("prim", t["n"])
        if k == "closure":
            return ("closure", t["d"])
        if k == "fndef":
            return ("fndef", t["d"], tuple(self.rty(x, env) for x in t["a"] if isinstance(x, int)))
        return (k, t["s"])

    def is_int_ty(self, t):
        return t[0] == "prim" and t[1] not in ("bool", "f64", "f32", "str", "char")

    # ---------------------------------------------------------- cfg
    def cfg(self, fn):
        k = fn["key"]
        r = self.cfgs.get(k)
        if r:
            return r
        bl = fn["blocks"]
        succ = []
        for b in bl:
            t = b["t"]
            kk = t["k"]
            if kk in ("goto", "drop", "assert"):
                s = [t["t"]]
            elif kk == "switch":
                s = [x[1] for x in t["v"]] + ([t["o"]] if t["o"] is not None else [])
            elif kk == "call":
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            succ.append([x for x in s if x is not None])
        order, state = [], {}
        # iterative dfs
        st = [(0, iter(succ[0]))]
        state[0] = 1
        back = set()
        while st:
            n, it = st[-1]
            adv = False
            for m in it:
                if m not in state:
                    state[m] = 1
                    st.append((m, iter(succ[m])))
                    adv = True
                    break
                elif state[m] == 1:
                    back.add((n, m))
            if not adv:
                state[n] = 2
                order.append(n)
                st.pop()
        order.reverse()
        pred = {}
        for n in order:
            for m in succ[n]:
                pred.setdefault(m, []).append(n)
        loops = {}
        for (n, h) in back:
            body = loops.setdefault(h, {h})
            w = [n]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += pred.get(x, [])
        pos = {b: i for i, b in enumerate(order)}
        r = (succ, order, pos, loops)
        self.cfgs[k] = r
        return r

    # ---------------------------------------------------------- memory
    def rd(self, st, base, path):
        v = st.mem.get(base)
        if v is None:
            if base.op in ("H", "V"):
                v = base.a[0]
            else:
                v = mk("undef", base)
        return projs(v, path)

    def wr(self, st, base, path, v):
        if not path:
            st.mem[base] = v
            return
        old = st.mem.get(base)
        if old is None:
            if base.op in ("H", "V"):
                old = base.a[0]
            else:
                old = mk("undef", base)
        st.mem[base] = setproj(old, path, v)

    def deref(self, st, t):
        """term -> list of (cond, base, path)"""
        if t.op == "ref":
            return [(None, t.a[0], t.a[1])]
        if t.op == "ite":
            out = []
            for c, s in ((t.a[0], t.a[1]), (bnot(t.a[0]), t.a[2])):
                for (c2, b, p) in self.deref(st, s):
                    out.append((c if c2 is None else ite(c, c2, FALSE), b, p))
            return out
        return [(None, mk("H", t), ())]

    def arrload(self, st, t):
        """element of an array of references written out: the array of what they refer to"""
        if t.op == "elem" and t.a[0].op == "arr" and all(x.op == "ref" for x in t.a[0].a[0]):
            return elem(mk("arr", tuple(self.load(st, x) for x in t.a[0].a[0])), t.a[1])
        return None

    def load(self, st, t):
        """value behind reference-like term t (one level)"""
        r = self.arrload(st, t)
        if r is not None:
            return r
        locs = self.deref(st, t)
        r = self.rd(st, locs[-1][1], locs[-1][2])
        for (c, b, p) in reversed(locs[:-1]):
            r = ite(c, self.rd(st, b, p), r)
        return r

    def store(self, st, t, v):
        locs = self.deref(st, t)
        if len(locs) == 1:
            self.wr(st, locs[0][1], locs[0][2], v)
        else:
            for (c, b, p) in locs:
                self.wr(st, b, p, ite(c, v, self.rd(st, b, p)))

    def deep(self, st, t, n=6):
        """follow references to current value"""
        while n and t.op == "ref":
            t = self.rd(st, t.a[0], t.a[1])
            n -= 1
        if t.op == "ite" and n:
            a, b = self.deep(st, t.a[1], n - 1), self.deep(st, t.a[2], n - 1)
            if a is not t.a[1] or b is not t.a[2]:
                return ite(t.a[0], a, b)
            return t
        r = self.arrload(st, t)
        if r is not None:
            return r
        h = mk("H", t)
        if h in st.mem:
            return self.deep(st, st.mem[h], n - 1) if n and st.mem[h].op == "ref" else st.mem[h]
        if t.op == "agg" and n:
            nv = tuple(self.deep(st, x, n - 1) for x in t.a[3])
            if nv != t.a[3]:
                return mk("agg", t.a[0], t.a[1], t.a[2], nv)
        return t

    def place(self, fr, st, p):
        """-> list of (cond, base, path)"""
        locs = [(None, mk("L", fr.id, p[0]), ())]
        for e in p[1]:
            nl = []
            for (c, b, path) in locs:
                if e == "*":
                    v = self.rd(st, b, path)
                    for (c2, b2, p2) in self.deref(st, v):
                        cc = c if c2 is None else (c2 if c is None else ite(c, c2, FALSE))
                        nl.append((cc, b2, p2))
                    continue
                if e[0] == "bx":
                    nl.append((c, b, path))
                    continue
                if e[0] == "f":
                    el = ("f", e[1])
                elif e[0] == "d":
                    el = ("d", e[1])
                elif e[0] == "i":
                    el = ("i", self.rd(st, mk("L", fr.id, e[1]), ()))
                elif e[0] == "ci":
                    if e[2]:
                        el = ("i", sub(vlen(self.rd(st, b, path)), num(e[1])))
                    else:
                        el = ("i", num(e[1]))
                elif e[0] == "sub":
                    ln = vlen(self.rd(st, b, path))
                    el = ("sl", num(e[1]), sub(ln, num(e[2])) if e[3] else num(e[2]))
                else:
                    el = ("x", str(e))
                nl.append((c, b, path + (el,)))
            locs = nl
        return locs

    def rdplace(self, fr, st, p):
        locs = self.place(fr, st, p)
        r = self.rd(st, locs[-1][1], locs[-1][2])
        for (c, b, pp) in reversed(locs[:-1]):
            r = ite(c, self.rd(st, b, pp), r)
        return r

    def wrplace(self, fr, st, p, v):
        locs = self.place(fr, st, p)
        if len(locs) == 1:
            self.wr(st, locs[0][1], locs[0][2], v)
        else:
            for (c, b, pp) in locs:
                self.wr(st, b, pp, ite(c, v, self.rd(st, b, pp)))

    # ---------------------------------------------------------- operands
    def const(self, fr, k):
        ty = self.rty(k["ty"], fr.env) if "ty" in k else None
        if "fn" in k:
            f = k["fn"]
            return mk("fnv", f.get("res") or f["def"], tuple(self.rty(x, fr.env) for x in (f.get("resargs") if f.get("res") else f.get("args", [])) if isinstance(x, int)), f["def"], f.get("trait") or "", tuple(self.rty(x, fr.env) for x in f.get("args", []) if isinstance(x, int)))
        if "v" in k:
            v = k["v"]
            if ty == ("prim", "bool"):
                return TRUE if v else FALSE
            if ty and ty[0] == "adt":
                ad = self.c.adts.get(ty[1])
                if ad and ad["kind"] == "enum":
                    for vv, dd in zip(ad["v"], ad["discr"] or range(len(ad["v"]))):
                        if dd == v:
                            return agg(ty[1], vv["n"], [], [])
            try:
                return num(int(v))
            except Exception:
                return mk("const", str(v))
        if k.get("bytes"):
            return mk("arr", tuple(num(b) for b in k["bytes"]))
        if "promoted" in k:
            return self.promoted(fr, k)
        if "cparam" in k:
            return mk("tysym", "const:" + str(k["cparam"]))
        if "named" in k:
            cc = self.c.consts.get(k["named"])
            if cc and "v" in cc:
                return num(int(cc["v"]))
            return mk("const", k["named"])
        if k.get("txt") == "()":
            return UNIT
        return mk("const", k.get("txt") or str(k.get("fv")))

    def promoted(self, fr, k):
        f = self.c.fns.get(k["of"])
        if not f or k["promoted"] >= len(f["promoted"]):
            return mk("const", "promoted")
        p = f["promoted"][k["promoted"]]
        st = St()
        fr2 = Frame()
        fr2.fn = dict(p, key=k["of"] + "#p%d" % k["promoted"])
        fr2.fn.setdefault("blocks", p.get("blocks"))
        fr2.env = fr.env
        fr2.id = k["of"] + "#p%d" % k["promoted"]
        fr2.chain = fr.chain
        try:
            for b in p["blocks"]:
                for s in b["s"]:
                    self.stmt(fr2, st, s)
                if b["t"]["k"] == "ret":
                    break
        except Exception:
            return mk("const", "promoted:" + fr2.id)
        v = st.mem.get(mk("L", fr2.id, 0))
        if v is None:
            return mk("const", "promoted:" + fr2.id)
        # promote referenced locals to constant bases
        def fix(t, n=5):
            if t.op == "ref" and n:
                return mk("ref", mk("V", fix(self.rd(st, t.a[0], t.a[1]), n - 1)), ())
            return t
        return fix(v)

    def opnd(self, fr, st, o):
        if o[0] in ("c", "m"):
            return self.rdplace(fr, st, o[1])
        if o[0] == "k":
            return self.const(fr, o[1])
        return mk("const", str(o))

    def opty(self, fr, o):
        if o[0] == "k":
            return self.rty(o[1]["ty"], fr.env) if "ty" in o[1] else ("?",)
        l, pr = o[1]
        if pr:
            return None
        return self.rty(fr.fn["locals"][l][0], fr.env)

    # ---------------------------------------------------------- rvalues
    def binop(self, op, a, b, isint):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = sub(a, b)
        elif base == "Mul":
            r = mul(a, b)
        elif base == "Div":
            r = div(a, b)
        elif base == "Rem":
            r = rem(a, b)
        elif base == "Lt":
            r = lt(a, b)
        elif base == "Le":
            r = le(a, b)
        elif base == "Gt":
            r = lt(b, a)
        elif base == "Ge":
            r = le(b, a)
        elif base == "Eq":
            r = eq_typed(a, b, isint)
        elif base == "Ne":
            r = bnot(eq_typed(a, b, isint))
        elif base == "Shr":
            r = self.shr(a, b)
        elif base == "Shl":
            r = self.shl(a, b)
        elif base == "BitAnd":
            r = self.bitand(a, b, isint)
        elif base == "BitOr":
            r = ite(a, TRUE, b) if not isint else mk("app", "bitor", *sorted((a, b), key=lambda t: t.id))
        elif base == "BitXor":
            r = bnot(eq(a, b)) if not isint else mk("app", "bitxor", *sorted((a, b), key=lambda t: t.id))
        else:
            r = mk("app", "bin:" + base, a, b)
        if op.endswith("WithOverflow"):
            return tup(r, mk("app", "ovf", r))
        return r

    def shr(self, a, b):
        if b.op == "int":
            return div(a, num(2 ** b.a[0]))
        if b.op == "tz":
            return div(a, b.a[0])
        return mk("app", "shr", a, b)

    def shl(self, a, b):
        if b.op == "int":
            return mul(a, num(2 ** b.a[0]))
        if b.op == "tz":
            return mul(a, b.a[0])
        return mk("app", "shl", a, b)

    def bitand(self, a, b, isint):
        if not isint:
            return ite(a, b, FALSE)
        for x, y in ((a, b), (b, a)):
            if y.op == "poly" or y.op == "int":
                m = add(y, num(1))
                if m.op == "int":
                    if m.a[0] > 0 and m.a[0] & (m.a[0] - 1) == 0:
                        return rem(x, m)
                elif m.op == "tysym" or m.op == "arg":
                    return rem(x, m)
            if y.op == "bnotint":
                m = add(y.a[0], num(1))
                if m.op in ("tysym", "int", "arg"):
                    return mul(m, div(x, m))
        return mk("app", "bitand", *sorted((a, b), key=lambda t: t.id))

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.opnd(fr, st, r[1])
        if k in ("ref", "raw"):
            locs = self.place(fr, st, r[2])
            t = None
            for (c, b, p) in reversed(locs):
                # &(*x) of an opaque reference is the reference itself
                x = b.a[0] if (b.op == "H" and not p) else mk("ref", b, p)
                t = x if t is None else ite(c, x, t)
            return t
        if k == "cast":
            v = self.opnd(fr, st, r[2])
            to = self.rty(r[3], fr.env)
            frm = self.rty(r[4], fr.env) if len(r) > 4 else None
            if to[0] == "prim" and to[1] in ("f64", "f32"):
                return mk("app", "tofloat", v) if v.op != "app" else mk("app", "tofloat", v)
            if frm and frm[0] == "prim" and frm[1] in ("f64", "f32"):
                return mk("app", "trunc", v)
            if frm == ("prim", "bool"):
                return ite(v, num(1), num(0)) if v.op != "bool" else num(v.a[0])
            if frm and frm[0] == "adt" and v.op == "agg" and self.is_int_ty(to):
                ad = self.c.adts.get(v.a[0])
                if ad:
                    for vv, dd in zip(ad["v"], ad["discr"] or range(len(ad["v"]))):
                        if vv["n"] == v.a[1]:
                            return num(dd)
            if frm and frm[0] == "prim" and to[0] == "prim" and frm[1] in WIDTH and to[1] in WIDTH \
                    and WIDTH[to[1]] < WIDTH[frm[1]]:
                return v if v.op == "int" and 0 <= v.a[0] < 2 ** WIDTH[to[1]] else rem(v, num(2 ** WIDTH[to[1]]))
            return v
        if k == "bin":
            a, b = self.opnd(fr, st, r[2]), self.opnd(fr, st, r[3])
            ty = self.rty(r[4], fr.env) if len(r) > 4 else ("prim", "usize")
            isint = self.is_int_ty(ty) or ty[0] in ("ref",)
            if ty[0] == "prim" and ty[1] in ("f64", "f32") and r[1] in ("Div", "Rem"):
                return mk("app", "bin:" + r[1], a, b)
            if not isint and r[1] in ("Eq", "Ne") and ty == ("prim", "bool"):
                e = ite(a, b, bnot(b)) if a.op not in ("bool",) or b.op not in ("bool",) else eq(a, b)
                return e if r[1] == "Eq" else bnot(e)
            return self.binop(r[1], a, b, isint)
        if k == "un":
            v = self.opnd(fr, st, r[2])
            if r[1] == "Not":
                ty = self.opty(fr, r[2])
                if ty and self.is_int_ty(ty):
                    return mk("bnotint", v)
                return bnot(v)
            if r[1] == "Neg":
                return neg(v)
            if r[1] == "PtrMetadata":
                return vlen(self.deep(st, v))
            return mk("app", "un:" + r[1], v)
        if k == "discr":
            v = self.rdplace(fr, st, r[1])
            ty = self.rty(r[2], fr.env)
            return mk("discr", v, ty[1] if ty[0] == "adt" else str(ty))
        if k == "len":
            return vlen(self.rdplace(fr, st, r[1]))
        if k == "agg":
            kd = r[1]
            vals = [self.opnd(fr, st, o) for o in r[2]]
            if kd[0] == "adt":
                names = kd[5] if len(kd) > 5 and kd[5] else [str(i) for i in range(len(vals))]
                ad = self.c.adts.get(kd[1])
                var = kd[3] if (ad and ad["kind"] == "enum") else ""
                return agg(kd[1], var, names, vals)
            if kd[0] == "tuple":
                return tup(*vals) if vals else UNIT
            if kd[0] == "array":
                return mk("arr", tuple(vals))
            if kd[0] == "closure":
                return mk("clo", kd[1], tuple(vals), tuple(sorted(fr.env.items())))
            return mk("app", "agg:" + str(kd[0]), *vals)
        if k == "repeat":
            n = r[2]
            return mk("vrep", self.opnd(fr, st, r[1]), num(int(n)) if str(n).isdigit() else mk("tysym", "const:" + str(n)))
        return mk("app", "rv:" + str(k))

    def stmt(self, fr, st, s):
        if s[0] == "=":
            v = self.rvalue(fr, st, s[2])
            self.wrplace(fr, st, s[1], v)
        elif s[0] == "dead":
            st.mem.pop(mk("L", fr.id, s[1]), None)
        elif s[0] == "setd":
            pass

    # ---------------------------------------------------------- execution
    def run_root(self, key, args=None, env=None, assume_lits=()):
        fn = self.c.fns[key]
        self.root = key
        st = St()
        env = env or {}
        vals = args or []
        if not vals:
            for i in range(fn["argc"]):
                vals.append(mk("arg", i, fn["locals"][i + 1][1] or "a%d" % i))
        for i, v in enumerate(vals):
            ty = self.c.types[fn["locals"][i + 1][0]]
            if v.op == "arg" and ty.get("k") == "alias" and str(ty.get("s", "")).endswith("::IntoIter"):
                vals[i] = self.models.iterarg(v)
        for l in assume_lits:
            assume(st, l)
        return self.call_fn(key, vals, env, st, "root")

    def call_fn(self, key, vals, env, st, site):
        """inline; returns (state or None, value)"""
        fn = self.c.fns[key]
        if len(self.stack) > self.maxdepth or sum(1 for x in self.stack if x == key) >= 1:
            raise Giveup(key)
        self.stack.append(key)
        self.funcs_seen.add(key)
        fr = Frame()
        fr.fn = fn
        fr.env = env
        fr.chain = (site, key)
        fr.id = "%s>%s" % (site, key)
        st = st.copy()
        for b in [b for b in st.mem if b.op == "L" and b.a[0] == fr.id]:
            del st.mem[b]
        for i, v in enumerate(vals):
            st.mem[mk("L", fr.id, i + 1)] = v
        # closures in MIR take args as a tuple already spread by the driver
        succ, order, pos, loops = self.cfg(fn)
        rets = []
        self.region(fr, set(order), 0, st, None, rets)
        self.stack.pop()
        if not rets:
            return None, None
        r = join(rets)
        v = r.mem.get(mk("L", fr.id, 0))
        if v is None:
            v = UNIT
        for b in [b for b in r.mem if b.op == "L" and b.a[0] == fr.id]:
            del r.mem[b]
        return r, v

    def region(self, fr, blocks, entry, st, loop_header, rets):
        """run the blocks of a region once; returns (back_states, exits)"""
        succ, order, pos, loops = self.cfg(fr.fn)
        inc = {entry: [st]}
        backs, exits = [], []
        done = set()

        def push(t, s):
            if s is None:
                return
            if loop_header is not None and t == loop_header:
                backs.append(s)
            elif t in blocks:
                inc.setdefault(t, []).append(s)
            else:
                exits.append((t, s))
        for b in order:
            if b not in blocks or b not in inc or b in done:
                continue
            s = join(inc.pop(b))
            if b in loops and b != loop_header:
                body = loops[b] & blocks
                done |= body
                for (t, s2) in self.loop(fr, b, body, s, rets):
                    push(t, s2)
                continue
            for (t, s2) in self.block(fr, b, s, rets):
                push(t, s2)
        return backs, exits

    def loop(self, fr, h, body, entry, rets):
        lid = "%s#%d" % (fr.id, h)
        idx = mk("idx", lid)
        info = self.fix_loop(lid, idx, entry, fr,
                             lambda st, rr: self.region(fr, body, h, st, h, rr), rets)
        return info

    def fix_loop(self, lid, idx, entry, fr, run, rets):
        cells = {}
        noaff = set()
        inv = set()
        trust = {}
        ev0 = len(self.events)
        bv = mk("bv", lid)
        nidx = add(idx, num(1))
        base_facts = dict(entry.facts)
        base_cond = dict(entry.cond)
        self.loopstack.append(idx)
        try:
            for rnd in range(14):
                del self.events[ev0:]
                r0 = []
                st = entry.copy()
                st.facts = dict(base_facts)
                st.cond = dict(base_cond)
                st.facts[ge0(idx)] = 1
                for (b, p), t in cells.items():
                    self.wr(st, b, p, t)
                hdr = dict(st.mem)
                backs, exits = run(st, r0)
                if not backs:
                    break
                B = join(backs)
                changed = False
                # did-facts killed in the body
                for f in list(base_facts):
                    if f.op == "did" and f not in B.facts:
                        del base_facts[f]
                        changed = True
                for k in list(base_cond):
                    if k.op == "did" and k not in B.cond and k not in B.facts:
                        del base_cond[k]
                        changed = True
                nexts = {}
                for b in list(hdr):
                    if b not in B.mem:
                        continue
                    if b.op == "L" and b not in entry.mem:
                        continue
                    for p in diff(hdr[b], B.mem[b]):
                        key = (b, p)
                        # coarser than known cells?
                        fin = [k for k in cells if k[0] is b and k != key and k[1][:len(p)] == p]
                        for k in fin:
                            del cells[k]
                            changed = True
                        crs = [k for k in cells if k[0] is b and k != key and p[:len(k[1])] == k[1]]
                        if crs:
                            key = crs[0]
                        if key not in cells:
                            cells[key] = mk("mu", lid, b, key[1])
                            changed = True
                        else:
                            nexts[key] = projs(B.mem[b], key[1])
                            if contains(nexts[key], lambda x: x.op == "bot"):
                                nexts[key] = under_all(nexts[key], B.facts)
                for b in list(B.mem):
                    if b not in hdr and b.op == "H":
                        for p in diff(b.a[0], B.mem[b]):
                            if (b, p) not in cells:
                                cells[(b, p)] = mk("mu", lid, b, p)
                                changed = True
                if changed:
                    continue
                # invariants / canonical closed forms
                for key, t in list(cells.items()):
                    nx = nexts.get(key)
                    mu = mk("mu", lid, key[0], key[1])
                    init = projs(entry.mem.get(key[0], key[0].a[0] if key[0].op == "H" else mk("undef")), key[1])
                    if t is mu:
                        if nx is None or nx is mu:
                            if key not in inv:
                                inv.add(key)
                                del cells[key]
                                changed = True
                            continue
                        if key in noaff:
                            continue
                        cand = self.closed(lid, idx, bv, mu, init, nx)
                        if cand is not None and nx.op == "upd":
                            trust[key] = (mu, nx)
                        if cand is None:
                            cand = self.counter(lid, idx, bv, mu, init, nx)
                            if cand is not None:
                                trust[key] = (mu, nx)
                        if cand is not None:
                            cells[key] = cand
                            changed = True
                    else:
                        if key in trust:
                            want = subst(trust[key][1], {mk("mu", lid, k[0], k[1]): c for k, c in cells.items()})
                        else:
                            want = subst(t, {idx: nidx})
                            if t.op == "ite":
                                want = under(want, bnot(eq0(nidx)))
                        if nx is None or not iteeq(nx, want):
                            cells[key] = mu
                            noaff.add(key)
                            changed = True
                if not changed:
                    break
        finally:
            self.loopstack.pop()
        rets.extend(r0)
        li = LoopInfo()
        li.header = lid
        li.fn = fr.fn["key"] if fr else None
        li.entry = entry
        if backs:
            for key, t in cells.items():
                init = projs(entry.mem.get(key[0], key[0].a[0] if key[0].op == "H" else mk("undef")), key[1])
                li.cells[mk("mu", lid, key[0], key[1])] = (init, projs(B.mem.get(key[0], mk("undef")), key[1]), t)
            li.back = B
        li.exits = exits
        li.xpc = [x.pc for _, x in exits]
        li.xcombo = []
        self.loops[lid] = li
        # exits: substitute the final iteration count when the exit test fixes it
        out = []
        rest = bdd.TRUE
        for j, (t, s) in enumerate(exits):
            n = None
            pc = entry.pc
            if len(exits) > 1:
                if j < len(exits) - 1:
                    xv = mk("exit", lid, j)
                    s.facts[xv] = 1
                    pc = bdd.AND(pc, bdd.AND(rest, bdd.var(xv)))
                    rest = bdd.AND(rest, bdd.NOT(bdd.var(xv)))
                else:
                    pc = bdd.AND(pc, rest)
                for i in range(j):
                    s.facts[bnot(mk("exit", lid, i))] = 1
            for f in s.facts:
                if f not in base_facts:
                    bound = self.exitbound(lid, idx, f)
                    if bound is not None:
                        # exit because idx >= bound, and idx <= bound by induction
                        n = bound
            if n is not None and backs and not (n.op == "int" and n.a[0] < 0):
                s = self.subst_state(s, {idx: n})
            s.pc = pc
            li.xcombo.append(pc)
            out.append((t, s))
        return out

    def exitbound(self, lid, idx, f):
        """the first idx at which the (monotone) exit fact f holds"""
        if f.op == "ite":
            c, x, y = f.a
            if x is TRUE:
                p, q = c, y
            elif y is TRUE:
                p, q = bnot(c), x
            else:
                return None
            p, q = self.exitbound(lid, idx, p), self.exitbound(lid, idx, q)
            return None if p is None or q is None else mmin(p, q)
        if f.op != "ge0" or f.a[0] is idx:
            return None
        K = num(0)
        for mon, cc in poly_of(f.a[0]).items():
            if mon.count(idx) == 1:
                mm = list(mon)
                mm.remove(idx)
                K = add(K, from_poly({tuple(mm): cc}))
        if K is num(1):
            bound = sub(idx, f.a[0])
        elif (K.op in ("tysym", "int", "fld", "arg", "div", "len") and not (K.op == "int" and K.a[0] < 1)) or \
                (K.op == "poly" and len(K.a[0]) == 2 and K.a[0][0] == ((), -1) and K.a[0][1][1] == 1):
            # K*idx >= b, first such idx
            bb = sub(mul(K, idx), f.a[0])
            bound = div(sub(add(bb, K), num(1)), K)
        else:
            return None
        if contains(bound, lambda x: x is idx or (x.op == "mu" and x.a[0] == lid)):
            return None
        return bound

    def subst_state(self, s, m):
        memo = {}
        r = St()
        for b, v in s.mem.items():
            r.mem[b] = subst(v, m, memo)
        for f in s.facts:
            f2 = subst(f, m, memo)
            if f2 is not TRUE and f2 is not FALSE:
                r.facts[f2] = 1
        for f, c in s.cond.items():
            f2 = subst(f, m, memo)
            if f2 is not TRUE and f2 is not FALSE:
                r.cond[f2] = c
        r.pc = s.pc
        return r

    def counter(self, lid, idx, bv, mu, init, nx):
        """mu' = mu, or mu + 1, with at most one skipped index p:
        closed form init + idx - [p < idx]"""
        def inv(x):
            return not contains(x, lambda y: y is idx or (y.op == "mu" and y.a[0] == lid))

        def go(t):
            if t.op == "ite":
                c, a, b = t.a
                if inv(c):
                    x, y = go(a), go(b)
                    return None if x is None or y is None else ite(c, x, y)
                neg_ = c.op == "not"
                if neg_:
                    c, a, b = c.a[0], b, a
                if c.op == "eq0" and sub(a, mu) is num(0) and sub(b, mu) is num(1):
                    d = poly_of(c.a[0])
                    k = d.get((idx,))
                    if k in (1, -1):
                        p = sub(idx, mul(c.a[0], num(k)))
                        if inv(p):
                            return sub(add(init, idx), ite(lt(p, idx), num(1), num(0)))
                return None
            k = sub(t, mu)
            if inv(k):
                return add(init, mul(k, idx))
            return None
        if nx.op != "ite":
            return None
        v = self.skipvec(lid, idx, bv, mu, init, nx, inv)
        if v is not None:
            return v
        if init.op in ("undef", "agg", "vnew") or not inv(init):
            return None
        return go(nx)

    def skipvec(self, lid, idx, bv, mu, init, nx, inv):
        """v' = v (at one index p) or push(v, f(idx)) elsewhere:
        init ++ [f(j) | j < idx, j != p]"""
        def go(t):
            if t.op == "ite":
                c, a, b = t.a
                if inv(c):
                    x, y = go(a), go(b)
                    return None if x is None or y is None else ite(c, x, y)
                if c.op == "not":
                    c, a, b = c.a[0], b, a
                if c.op == "eq0" and a is mu and b.op == "vpush" and b.a[0] is mu:
                    d = poly_of(c.a[0])
                    k = d.get((idx,))
                    if k in (1, -1):
                        p = sub(idx, mul(c.a[0], num(k)))
                        body = b.a[1]
                        if inv(p) and not contains(body, lambda y: y.op == "mu" and y.a[0] == lid):
                            n = sub(idx, ite(lt(p, idx), num(1), num(0)))
                            el = subst(body, {idx: add(bv, ite(le(p, bv), num(1), num(0)))})
                            tab = mk("vtab", n, bv, el)
                            return tab if init.op == "vnew" else vext(init, tab)
                return None
            if t.op == "vpush" and t.a[0] is mu and not contains(t.a[1], lambda y: y.op == "mu" and y.a[0] == lid):
                tab = mk("vtab", idx, bv, subst(t.a[1], {idx: bv}))
                return tab if init.op == "vnew" else vext(init, tab)
            return None
        if not inv(init):
            return None
        return go(nx)

    def closed(self, lid, idx, bv, mu, init, nx):
        def has_mu(x):
            return contains(x, lambda y: y.op == "mu" and y.a[0] == lid)
        if nx.op in ("vpush",) and nx.a[0] is mu and not has_mu(nx.a[1]) and init.op == "vnew":
            return mk("vtab", idx, bv, subst(nx.a[1], {idx: bv}))
        if nx.op == "vext" and nx.a[0] is mu and not has_mu(nx.a[1]) and init.op == "vnew":
            return mk("vtabx", idx, bv, subst(nx.a[1], {idx: bv}))
        if nx.op == "upd" and nx.a[0] is mu and nx.a[1] == ("i", idx) and init.op not in ("undef", "mu"):
            # one element written per round, from the front
            body = subst(nx.a[2], {elem(mu, idx): elem(init, idx)})
            if not has_mu(body):
                return vext(mk("vtab", idx, bv, subst(body, {idx: bv})), vslice(init, idx, vlen(init)))
        if nx.op in ("agg", "clo", "ref", "bool", "vpush", "vext", "upd"):
            return None
        k = sub(nx, mu)
        if not has_mu(k):
            if not contains(k, lambda y: y is idx):
                if init.op in ("undef", "agg", "vnew"):
                    return None
                return add(init, mul(k, idx))
        if not has_mu(nx):
            f = subst(nx, {idx: sub(idx, num(1))})
            if subst(f, {idx: num(0)}) is init:
                return f
            if init.op in ("int", "poly", "fld", "arg", "len", "tysym", "div") and not has_mu(init):
                # a value carried over from the round before
                return ite(eq0(idx), init, f)
        return None

    # ---------------------------------------------------------- blocks
    def block(self, fr, b, st, rets):
        self.steps += 1
        if self.steps > 400000:
            raise Giveup("steps")
        bl = fr.fn["blocks"][b]
        st = st.copy()
        for s in bl["s"]:
            self.stmt(fr, st, s)
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "drop":
            v = self.rdplace(fr, st, t["p"])
            ty = self.rty(t["pty"], fr.env)
            if ty[0] == "adt" and "Guard" in ty[1]:
                self.event(fr, st, "drop:guard", [v], bl["sp"], kind="drop")
                kill(st, lambda f: f.a[0] == "lock" and f.a[1] is v)
            return [(t["t"], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "assert":
            c = self.opnd(fr, st, t["c"])
            lit = c if t["e"] else bnot(c)
            if t["m"].startswith("Overflow") or t["m"] == "other" or "ovf" in show(c)[:8]:
                return [(t["t"], st)]
            ops = [self.opnd(fr, st, o) for o in t.get("ops", [])]
            self.event(fr, st, "assert:" + str(t["m"]), ops, bl["sp"], kind="panic").need = (self.deep(st, lit),)
            if not assume(st, lit, path=False):
                return []
            return [(t["t"], st)]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "call":
            outs = self.call(fr, b, st, t, bl["sp"])
            if t["t"] is None:
                return []
            return [(t["t"], s) for s in outs if s is not None]
        return []

    def switch(self, fr, st, t):
        d = self.opnd(fr, st, t["d"])
        out = []
        if d.op == "discr":
            v, adt = d.a
            ad = self.c.adts.get(adt)
            names = {}
            if ad:
                for vv, dd in zip(ad["v"], ad["discr"] or range(len(ad["v"]))):
                    names[dd] = vv["n"]
            elif adt.endswith("ControlFlow"):
                names = {0: "Continue", 1: "Break"}
            rest = []
            for val, bb in t["v"]:
                n = names.get(val, str(val))
                lit = is_variant(v, n)
                s = st.copy()
                ok = assume(s, lit)
                if ok and lit.op == "is" and v.op not in ("ite", "agg"):
                    for n2 in names.values():
                        if n2 != n and ok:
                            l2 = bnot(is_variant(v, n2))
                            ok = l2 is lit or assume(s, l2)
                if ok:
                    out.append((bb, s))
                rest.append(bnot(lit))
            if t["o"] is not None and fr.fn["blocks"][t["o"]]["t"]["k"] != "unreachable":
                s = st.copy()
                left = [n for dd, n in names.items() if dd not in [x[0] for x in t["v"]]]
                ok = True
                for l in rest:
                    ok = ok and assume(s, l)
                if ok and len(left) == 1:
                    l = is_variant(v, left[0])
                    if l.op == "is":
                        ok = assume(s, l)
                if ok:
                    out.append((t["o"], s))
            return out
        isbool = d.op in BOOLOPS or t.get("dty") is not None and self.rty(t["dty"], fr.env) == ("prim", "bool")
        rest = []
        for val, bb in t["v"]:
            if isbool:
                lit = d if val else bnot(d)
            else:
                lit = eq_typed(d, num(val), True)
            s = st.copy()
            if all(assume(s, l) for l in rest) and assume(s, lit):
                out.append((bb, s))
            rest.append(bnot(lit))
        if t["o"] is not None:
            s = st.copy()
            if all(assume(s, l) for l in rest):
                out.append((t["o"], s))
        return out

    # ---------------------------------------------------------- events
    def event(self, fr, st, name, args, sp, kind="call", ret=None, tys=(), self_ty=None):
        e = Event()
        e.name = name
        e.raw = list(args)
        e.args = [self.deep(st, a) for a in args]
        e.facts = dict(st.facts)
        e.cond = dict(st.cond)
        e.pc = st.pc
        e.ret = ret
        e.fn = fr.fn["key"]
        e.sp = sp
        e.chain = list(self.stack)
        e.tys = tys
        e.kind = kind
        e.loops = list(self.loopstack)
        e.self_ty = self_ty
        e.st = None
        e.dty = None
        e.need = None
        self.events.append(e)
        return e

    # ---------------------------------------------------------- calls
    def unify(self, pat, ty, env):
        """pattern type index with params -> bindings"""
        t = self.c.types[pat] if isinstance(pat, int) else pat
        if t.get("k") == "param":
            env.setdefault(t["n"], ty)
        elif t.get("k") == "adt" and ty[0] == "adt" and ty[1] == t["n"]:
            for x, y in zip([x for x in t["a"] if isinstance(x, int)], ty[2]):
                self.unify(x, y, env)
        elif t.get("k") in ("ref", "ptr") and ty[0] == "ref":
            self.unify(t["t"], ty[1], env)

    def resolve(self, name, res, targs, rargs, trait):
        """-> (key or None, env, display name, self type)"""
        if trait:
            meth = name.split("::")[-1]
            selfty = targs[0] if targs else ("?",)
            base = selfty
            while base[0] == "ref":
                base = base[1]
            if selfty[0] == "adt":
                key = "<%s as %s>::%s" % (selfty[1], trait, meth)
                if key in self.c.fns:
                    fn = self.c.fns[key]
                    env = {}
                    if fn.get("self_ty") is not None:
                        self.unify(fn["self_ty"], selfty, env)
                    own = fn.get("gn") or []
                    # method generics follow the trait's own
                    extra = targs[1:]
                    mg = [g for g in own if g not in env]
                    if mg and len(extra) >= len(mg):
                        for g, x in zip(mg, extra[len(extra) - len(mg):]):
                            env[g] = x
                    return key, env, key, selfty
            if selfty[0] in ("adt", "param") and name in self.c.fns and self.c.fns[name].get("in_trait") or (res == name and name in self.c.fns):
                fn = self.c.fns[name]
                env = dict(zip(fn.get("gn") or [], targs))
                if selfty[0] == "adt":
                    return name, env, name, selfty
                return None, env, name, selfty
            if res and res in self.c.fns:
                fn = self.c.fns[res]
                return res, dict(zip(fn.get("gn") or [], rargs)), res, selfty
            return None, {}, (res or name), selfty
        key = res or name
        if key in self.c.fns:
            fn = self.c.fns[key]
            return key, dict(zip(fn.get("gn") or [], rargs or targs)), key, None
        return None, {}, key, None

    def call(self, fr, b, st, t, sp):
        f = t["f"]
        args = [self.opnd(fr, st, o) for o in t["a"]]
        site = "%s:%d" % (fr.id, b)
        if "ptr" in f:
            fv = self.opnd(fr, st, f["ptr"]) if isinstance(f["ptr"], list) else mk("const", "fnptr")
            v = mk("res", "PTR", site, tuple(self.loopstack), fv, *[self.deep(st, a) for a in args])
            ev = self.event(fr, st, "PTR", [fv] + args, sp, ret=v)
            ev.dty = (self.c.types[t["rty"]] if isinstance(t.get("rty"), int) else {}).get("n")
            self.havoc_muts(fr, st, t, args, v)
            self.wrplace(fr, st, t["d"], v)
            return [st]
        targs = [self.rty(x, fr.env) for x in f.get("args", []) if isinstance(x, int)]
        rargs = [self.rty(x, fr.env) for x in (f.get("resargs") or []) if isinstance(x, int)]
        outs = self.invoke(fr, st, f["def"], f.get("res"), targs, rargs, f.get("trait"), args, site, sp, t)
        res = []
        for (s, v) in outs:
            if s is None:
                continue
            self.wrplace(fr, s, t["d"], v)
            res.append(s)
        return res

    def invoke(self, fr, st, name, res, targs, rargs, trait, args, site, sp, t=None):
        key, env, disp, selfty = self.resolve(name, res, targs, rargs, trait)
        if key is not None and "{closure" in key and key in self.c.fns and len(args) == 2 and name.split("::")[-1] in ("call", "call_mut", "call_once") and name.split("::")[-2].startswith("Fn"):
            # a closure called by hand: its arguments come as one tuple
            n = self.c.fns[key]["argc"] - 1
            tup = args[1]
            f = self.deep(st, args[0]) if args[0].op == "ref" else args[0]
            if f.op == "clo":
                env = dict(f.a[2])
            args = [args[0]] + [proj(tup, ("f", str(i))) for i in range(n)]
        m = self.models.lookup(key, disp, name, trait, selfty)
        ctx = CallCtx(self, fr, st, disp, name, args, targs, rargs, selfty, site, sp, t, trait)
        if m is not None:
            r = m(ctx)
            if r is not None:
                return r
        if key is not None and not self.opaque(key, self):
            # record the call itself, then inline
            self.event(fr, st, key, args, sp, kind="inline", tys=targs, self_ty=selfty)
            try:
                ev = len(self.events)
                s2, v = self.call_fn(key, args, env, st, site)
                self.inlined.add(key)
                return [(s2, v)]
            except Giveup:
                while self.stack and self.stack[-1] != fr.fn["key"]:
                    self.stack.pop()
                del self.events[ev:]
        return self.models.opaque_call(ctx)

    def call_value(self, fr, st, f, args, site, sp):
        """apply a closure or fn item value; returns list of (state, value)"""
        f = self.deep(st, f) if f.op == "ref" else f
        if f.op == "clo":
            key = f.a[0]
            if key in self.c.fns:
                env = dict(f.a[2])
                fn = self.c.fns[key]
                # self param: by ref or by value
                selfty = self.c.types[fn["locals"][1][0]]
                base = mk("L", "clo@" + site, 0)
                st = st.copy()
                st.mem[base] = f
                sv = mk("ref", base, ()) if selfty.get("k") == "ref" else f
                try:
                    n = len(self.stack)
                    s2, v = self.call_fn(key, [sv] + list(args), env, st, site)
                except Giveup:
                    del self.stack[n:]
                    return [(st, mk("app", "call:" + key, *args))]
                if s2 is not None:
                    s2.mem.pop(base, None)
                return [(s2, v)]
        if f.op == "fnv":
            disp, rargs, name, trait, targs = f.a
            short_ = name.split("::")[-1]
            if short_ in ("Ok", "Some", "Err") and name.startswith("std::"):
                return [(st, {"Ok": OK, "Some": SOME, "Err": ERR}[short_](args[0]))]
            ad = self.c.adts.get(name) or self.c.adts.get("::".join(name.split("::")[:-1]))
            if disp not in self.c.fns and name in self.c.adts:
                return [(st, agg(name, "", [str(i) for i in range(len(args))], args))]
            return self.invoke(fr, st, name, disp if disp != name else None, list(targs), list(rargs), trait or None, list(args), site, sp)
        return [(st, mk("app", "callv", f, *[self.deep(st, a) for a in args]))]

    def havoc_muts(self, fr, st, t, args, v):
        if t is None:
            return
        for i, o in enumerate(t["a"]):
            if i < len(t.get("at", [])):
                ty = self.c.types[t["at"][i]]
                if ty.get("k") == "ref" and ty.get("m"):
                    old = self.deep(st, args[i])
                    self.store(st, self.lastref(st, args[i]), mk("app", "mut%d" % i, v, old))

    def lastref(self, st, t, n=6):
        while n and t.op == "ref":
            v = self.rd(st, t.a[0], t.a[1])
            if v.op == "ref":
                t = v
                n -= 1
                continue
            h = mk("H", v)
            if h in st.mem:
                return v
            break
        return t


class CallCtx(object):
    def __init__(self, eng, fr, st, disp, name, args, targs, rargs, selfty, site, sp, t, trait):
        self.eng, self.fr, self.st, self.disp, self.name = eng, fr, st, disp, name
        self.args, self.targs, self.rargs, self.selfty = args, targs, rargs, selfty
        self.site, self.sp, self.t, self.trait = site, sp, t, trait

    def val(self, i):
        return self.eng.deep(self.st, self.args[i])

    def ev(self, name=None, args=None, kind="call", ret=None):
        e = self.eng.event(self.fr, self.st, name or self.disp, self.args if args is None else args, self.sp, kind=kind, ret=ret, tys=self.targs, self_ty=self.selfty)
        if self.t is not None and ret is not None and kind == "call":
            i = self.t.get("rty")
            ty = self.eng.c.types[i] if isinstance(i, int) else None
            e.dty = (ty or {}).get("n")
        return e

    def ret(self, v, st=None):
        return [(st or self.st, v)]

    def res(self, *extra):
        return mk("res", self.disp, self.site, tuple(self.eng.loopstack), *extra)

    def ismut(self, i):
        if self.t is None or i >= len(self.t.get("at", [])):
            return False
        ty = self.eng.c.types[self.t["at"][i]]
        return ty.get("k") == "ref" and bool(ty.get("m"))

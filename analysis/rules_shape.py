"""C24: the arithmetic of tree shapes.

Every shape function is reduced to equations: a decision term over its
parameters, and for each loop the initial values, the step and the exit
conditions of its cells.  The equations are compared with the definition of
the quantity: T(c) = c + T(c / b), T(0) = 0 counts the elements of a tree.
Loops are discharged by an invariant X + a*T(C) + b*C that the step preserves;
the equations are then evaluated over every shape a machine word can hold,
which also yields the witness when they differ."""
import math
import eqv
from eqv import Val, Un
from fw import *
from rules_tree import M

G = "merkle::"
FN = {k: G + k for k in ("get_merkle_tree_len", "get_merkle_tree_cache_size", "get_merkle_tree_leafs", "get_merkle_tree_row_count",
                         "get_merkle_proof_lemma_len", "is_merkle_tree_size_valid", "get_merkle_tree_len_generic")}
DR = "store::StoreConfig::default_rows_to_discard"
LIMIT = 2 ** 62


# ------------------------------------------------------------ definitions
def pow2(n):
    return n >= 1 and n & (n - 1) == 0


def T_(c, b):
    s = 0
    while c > 0:
        s += c
        c //= b
    return s


def height(l, b):
    """h with l == b**h, or None"""
    h = 0
    c = 1
    while c < l:
        c *= b
        h += 1
    return h if c == l else None


def shapes():
    for s in range(1, 31):
        b = 2 ** s
        h = 1
        while b ** h * b <= LIMIT:
            yield b, h
            h += 1


OKV = lambda x: ("Ok", x)
ERRV = ("Err",)


def d_len(l, b):
    if l < b or not pow2(b) or b < 2:
        return ERRV
    if b == 2 and not pow2(l):
        return ERRV
    return OKV(T_(l, b))


def d_rows(l, b):
    h = height(l, b)
    return None if h is None else h + 1


def d_cache(l, b, r):
    h = height(l, b)
    if h is None or r >= h:
        return ERRV
    return OKV(T_(b ** (h - 1 - r), b))


def d_leafs(n, b):
    if not pow2(b):
        return ERRV
    l = 1
    while T_(l, b) < n:
        l *= b
    return OKV(l) if T_(l, b) == n else ERRV


def d_discard(l, b):
    rows = d_rows(l, b)
    return min(max(rows - 2, 0), {2: 7, 4: 5}.get(b, 2))


DEF = {"get_merkle_tree_len": d_len, "get_merkle_tree_row_count": d_rows, "get_merkle_tree_cache_size": d_cache,
       "get_merkle_tree_leafs": d_leafs, "default_rows_to_discard": d_discard,
       "get_merkle_proof_lemma_len": lambda rows, b: 2 + (b - 1) * (rows - 1),
       "is_merkle_tree_size_valid": lambda l, b: pow2(b) and pow2(l) and height(l, b) is not None}


# -------------------------------------------------------------- evaluation
class Eq(Val):
    """evaluates an equation at a shape; anything it has no meaning for is undecided"""

    def _go(self, t):
        o, a = t.op, t.a
        if o == "agg":
            if a[1] == "Ok":
                x = self.go(a[3][0])
                return OKV(x)
            if a[1] == "Err":
                return ERRV
            raise Un("agg")
        if o == "is" and a[1] == "Ok":
            r = self.go(a[0])
            if isinstance(r, tuple):
                return r[0] == "Ok"
            raise Un("is")
        if o == "fld" and a[1] == "Ok":
            r = self.go(a[0])
            if isinstance(r, tuple) and r[0] == "Ok":
                return r[1]
            raise Un("fld")
        if o == "app" or (o == "res" and str(a[0]).startswith("f64::")):
            f = str(a[0])
            n = f.rsplit("::", 1)[-1]
            if n in DEF:
                r = DEF[n](*[self.go(x) for x in a[1:]])
                if r is None:
                    raise Un("shape")
                return r
            if f == "tofloat":
                return float(self.go(a[1]))
            if f == "trunc":
                x = self.go(a[1])
                if not isinstance(x, (int, float)):
                    raise Un("float")
                return int(x)
            if f.startswith("f64::"):
                xs = [self.go(x) for x in callargs(t)]
                n = n.rstrip("!")
                try:
                    if n == "log":
                        return math.log(xs[0]) / math.log(xs[1])
                    if n in ("ln", "log2", "log10", "sqrt", "floor", "ceil"):
                        return float({"ln": math.log, "log2": math.log2, "log10": math.log10, "sqrt": math.sqrt, "floor": math.floor, "ceil": math.ceil}[n](xs[0]))
                    if n == "round":
                        return float(math.floor(xs[0] + 0.5))
                    if n in ("powf", "powi"):
                        return float(xs[0]) ** xs[1]
                except (ValueError, ZeroDivisionError, OverflowError):
                    raise Un("float")
                raise Un(f)
            if f == "pow":
                x, y = self.go(a[1]), self.go(a[2])
                if y > 128:
                    raise Un("pow")
                return x ** y
            if f in ("shr", "shl"):
                x, y = self.go(a[1]), self.go(a[2])
                if y < 0 or y > 63:
                    raise Un("shift")
                return x >> y if f == "shr" else x << y
            if f in ("npow2", "bitand"):
                return Val._go(self, t)
            if f == "bin:Add" or f == "bin:Sub" or f == "bin:Mul" or f == "bin:Div":
                x, y = self.go(a[1]), self.go(a[2])
                try:
                    return {"A": x + y, "S": x - y, "M": x * y, "D": x / y if f == "bin:Div" else 0}[f[4]]
                except ZeroDivisionError:
                    raise Un("div0")
            raise Un(f)
        if o in ("res", "mu", "idx", "exit", "fld", "arg", "tysym", "const", "elem", "len"):
            raise Un(o)
        return Val._go(self, t)


def loops_of(t):
    return {x.a[0] for x in subterms(t) if x.op in ("mu", "exit", "idx")}


def evaluate(run, args, extra=None):
    """the value of the function's equations for the given arguments"""
    over = dict(zip(run.args, args))
    over.update(extra or {})
    todo = [l for l in run.loops]
    for lid in todo:
        li = run.loops[lid]
        simulate(li, lid, over)
    return Eq(1, over).go(run.ret)


def simulate(li, lid, over):
    """add the final values of a loop's cells and which exit it takes"""
    ev = Eq(1, over)
    try:
        if not all(ev.go(f) for f in li.entry.facts if f.op not in ("did",)):
            return                      # not reached for these arguments
    except Un:
        return
    names = list(li.cells)
    try:
        cur = {m: Eq(1, over).go(li.cells[m][0]) for m in names}
    except Un:
        return
    idx = mk("idx", lid)
    still = not any(contains(x, lambda y: y is idx) for m in names for x in li.cells[m][1:2]) and \
        not any(contains(f, lambda y: y is idx) for t, s in li.exits for f in s.facts if f.op != "ge0" or f.a[0] is not idx)
    for i in range(200):
        o = dict(over)
        o.update(cur)
        o[idx] = i
        taken = None
        for j, (t, s) in enumerate(li.exits):
            e = Eq(1, o)
            try:
                ok_ = all(e.go(f) for f in s.facts if pos(f).op not in ("exit", "did"))
            except Un:
                return
            if ok_:
                taken = j
                break
        if taken is not None:
            over.update(cur)
            over[idx] = i
            for j in range(len(li.exits)):
                over[mk("exit", lid, j)] = j == taken
            return
        e = Eq(1, o)
        try:
            new = {m: e.go(li.cells[m][1]) for m in names}
        except Un:
            return
        if new == cur and still:
            raise Stuck()
        cur = new
        for m, x in cur.items():
            if isinstance(x, int) and x < 0:
                raise Under(x)


class Under(Exception):
    pass


class Stuck(Exception):
    pass


# --------------------------------------------------------------- invariants
def treelen(c):
    return mk("app", "T", c)


def rewrite(t, C, b):
    """T(C / b) = T(C) - C,  T(b * C) = b*C + T(C)"""
    m = {}
    for x in subterms(t):
        if x.op == "app" and x.a[0] == "T":
            y = x.a[1]
            if y is div(C, b):
                m[x] = sub(treelen(C), C)
            elif y is mul(b, C):
                m[x] = add(mul(b, C), treelen(C))
    return subst(t, m) if m else t


def invariant(li, b):
    """X + a*T(C) + c*C preserved by one round, for cells X, C of the loop"""
    for C, (i0, n0, h0) in li.cells.items():
        if n0 is not div(C, b) and n0 is not mul(b, C):
            continue
        for X, (i1, n1, h1) in li.cells.items():
            if X is C:
                continue
            for a in (1, -1):
                for c in (0, -1, 1):
                    f = lambda x, y: add(add(x, mul(num(a), treelen(y))), mul(num(c), y))
                    if rewrite(sub(f(n1, n0), f(X, C)), C, b) is num(0):
                        return "%s %s T(%s)%s is constant" % (show(X), "+-"[a < 0], show(C), {0: "", -1: " - C", 1: " + C"}[c])
    return None


# -------------------------------------------------------------------- rules
def C24(R, A):
    R.rule("len", "get_merkle_tree_len(l, b) is l + l/b + ... + 1, an error for shapes that are not trees")
    R.rule("cache", "get_merkle_tree_cache_size is the number of elements above the discarded rows, an error when no row would remain")
    R.rule("leafs", "get_merkle_tree_leafs inverts the length, an error for lengths no tree has")
    R.rule("rows", "a tree of b^h leafs has h + 1 rows")
    R.rule("lemma", "a proof holds 2 + (b - 1)(rows - 1) hashes")
    R.rule("valid", "a size is valid exactly when it is a power of the arity")
    R.rule("generic", "a compound tree holds its sub trees and one element per node above them")
    R.rule("discard", "by default at most rows - 2 rows are discarded, and no more than the limit of the arity")
    R.rule("loop", "the step of the loop preserves the count")
    sh = list(shapes())
    R.part(check, A, "len", FN["get_merkle_tree_len"], ("leafs", "branches"), [(b ** h, b) for b, h in sh] + [
        (l, b) for b in (3, 5, 6, 7, 11, 12) for l in (b, b * b, 64)] + [(l, 2) for l in (3, 5, 6, 7, 9, 12, 1023, 1025)] + [
        (l, b) for b in (4, 8, 16, 64) for l in (1, 2, b - 1)], d_len)
    R.part(check, A, "rows", FN["get_merkle_tree_row_count"], ("leafs", "branches"), [(b ** h, b) for b, h in sh], d_rows)
    R.part(check, A, "cache", FN["get_merkle_tree_cache_size"], ("leafs", "branches", "rows"), [
        (b ** h, b, r) for b, h in sh for r in range(0, h + 2)], d_cache)
    lens = []
    for b, h in sh:
        n = T_(b ** h, b)
        lens += [(n, b)] + [(n + d, b) for d in (-2, -1, 1, 2, b - 1) if n + d > 0 and (h < 9 or h % 5 == 0)]
    lens += [(0, 2), (0, 4), (0, 8)]
    R.part(check, A, "leafs", FN["get_merkle_tree_leafs"], ("len", "branches"), lens, d_leafs)
    R.part(check, A, "lemma", FN["get_merkle_proof_lemma_len"], ("row_count", "branches"), [(h + 1, b) for b, h in sh if b <= 2 ** 20], DEF["get_merkle_proof_lemma_len"])
    val = [(b ** h, b) for b, h in sh]
    val += [(b ** h * m, b) for b, h in sh for m in (2, b // 2) if 1 < m < b and h < 12] + [(l, b) for b, h in sh if h == 1 for l in (1, 0, 3, 6, 12, 24, 2, b // 2, b + 1)]
    val += [(l, b) for b in (0, 3, 5, 6, 7, 12) for l in (1, b, b * b, 64)]
    R.part(check, A, "valid", FN["is_merkle_tree_size_valid"], ("leafs", "branches"), val, DEF["is_merkle_tree_size_valid"])
    R.part(check, A, "discard", DR, ("leafs", "branches"), [(b ** h, b) for b, h in sh], d_discard)
    R.part(generic, A)


def check(R, A, rule, K, names, pts, want):
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, names)
    site = short_fn(K)
    b = run.args[1]
    for lid, li in run.loops.items():
        inv = invariant(li, b)
        if inv:
            R.ok("loop", site, inv)
    n = und = 0
    why = ""
    for p in pts:
        w = want(*p)
        try:
            g = evaluate(run, p)
        except Under as e:
            R.bad(rule, site, "a count falls below zero for %s" % dict(zip(names, p)), {"values": dict(zip(names, p))})
            return
        except Stuck:
            R.bad(rule, site, "the loop never ends for %s" % dict(zip(names, p)), {"values": dict(zip(names, p))})
            return
        except (Un, RecursionError, TypeError) as e:
            und += 1
            why = str(e)
            continue
        if g != w:
            R.bad(rule, site, "for %s the equations give %s, required %s" % (", ".join("%s = %d" % x for x in zip(names, p)), fmt(g), fmt(w)),
                  {"values": dict(zip(names, p)), "got": fmt(g), "want": fmt(w)})
            return
        n += 1
    if und:
        R.und(rule, site, "%d of %d shapes not evaluated: %s" % (und, len(pts), why))
    if n:
        R.ok(rule, site, "equations agree with the definition at %d points" % n)


def fmt(x):
    if x == ERRV:
        return "an error"
    if isinstance(x, tuple):
        return "Ok(%s)" % (x[1],)
    return str(x)


def generic(R, A):
    K = FN["get_merkle_tree_len_generic"]
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("leaves",))
    l = run.args[0]
    site = short_fn(K)
    sy = {n: mk("tysym", n) for n in ("BaseTreeArity", "SubTreeArity", "TopTreeArity")}
    n = und = 0
    for b in (2, 4, 8, 16, 64):
        for h in (1, 2, 3, 5, 7, 9):
            for s in (0, 1, 2, 4, 8, 16):
                for t in (0, 1, 2, 4, 8):
                    if t and not s:
                        continue
                    base = T_(b ** h, b)
                    w = base
                    if s:
                        w = s * w + 1
                    if t:
                        w = t * w + 1
                    try:
                        g = evaluate(run, (b ** h,), {sy["BaseTreeArity"]: b, sy["SubTreeArity"]: s, sy["TopTreeArity"]: t})
                    except (Un, Under, Stuck, RecursionError, TypeError):
                        und += 1
                        continue
                    if g != OKV(w):
                        return R.bad("generic", site, "for %d leafs and arities %d-%d-%d the equations give %s, required %d" % (b ** h, b, s, t, fmt(g), w),
                                     {"values": {"leafs": b ** h, "arities": [b, s, t]}, "got": fmt(g), "want": w})
                    n += 1
    if und:
        R.und("generic", site, "%d shapes not evaluated" % und)
    if n:
        R.ok("generic", site, "equations agree with the definition at %d points" % n)

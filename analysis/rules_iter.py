"""C20: iterating over a store in parallel visits every element exactly once, in order."""
import bdd
import engine
from fw import *
from rules_store import norm, truth, cmpl
from rules_tree import okleaves
from rules_pop import cond
from terms import subst

S = "store::Store"
RD = ("read_at",)


def anchors(A):
    out = []
    for k in sorted(A.c.fns):
        if k.endswith(" as rayon::iter::plumbing::Producer>::split_at"):
            out.append(k[1:k.index(" as ")])
    return out


def reads(t):
    return [x for x in subterms(t) if x.op in ("app", "res") and x.a[0].split("::")[-1] == "read_at"]


def rargs(x):
    a = callargs(x)
    return a[-2], a[-1]


def pcof(L):
    b = bdd.TRUE
    for l in L:
        b = bdd.AND(b, bdd.of(l))
    return b


class Cursor(object):
    """what next / next_back of an iterator do, as functions of its state"""

    def __init__(self, A, R, it, meth, trait):
        self.key = "<%s as std::iter::%s>::%s" % (it, trait, meth)
        self.run = A.run(self.key, ("self",), opaque=RD)
        self.me = self.run.args[0]
        self.some, self.none = [], []
        fin = self.run.final(0)
        for L, v in self.run.leaves():
            f = under(fin, L)
            if variant(v) == "Some":
                self.some.append((L, some(v), f))
            elif variant(v) == "None":
                self.none.append((L, f))
            else:
                self.some.append((L, None, f))

    def read(self):
        """the store and index read for the element delivered (one for all paths) or None"""
        c = set()
        for L, v, f in self.some:
            if v is None or v.op != "fld":
                return None
            x = v.a[0]
            while x.op in ("fld", "vfld"):
                x = x.a[0]
            r = [q for q in reads(v)]
            if len(r) != 1:
                return None
            c.add(rargs(r[0]))
        return c.pop() if len(c) == 1 else None


def under(t, L):
    for l in L:
        t = engine.under(t, l)
    return t


def at(t, me, st):
    """the value of t, a function of the state me, in the state st"""
    return engine.under_all(subst(t, {me: st}), ()) if t is not None else None


def pcat(pc_lits, me, st):
    """a path condition in another state"""
    b = bdd.TRUE
    for l in pc_lits:
        b = bdd.AND(b, bdd.of(subst(l, {me: st})))
    return b


def fact(L):
    return [l for l in L if pos(l).op in ("ge0", "eq0", "eq", "ite")]


def iterate(R, A, it):
    """obligations on the iterator; returns (store, lo, hi, self) as functions of its state"""
    nx = Cursor(A, R, it, "next", "Iterator")
    bk = Cursor(A, R, it, "next_back", "DoubleEndedIterator")
    res = []
    for c in (nx, bk):
        site = short_fn(c.key)
        rs = set()
        for L, v, f in c.some:
            r = [x for x in (reads(v) if v is not None else [])]
            r = [x for x in r if v is proj_ok(x)]
            if len(r) != 1:
                if v is not None and resolved(v) and c.run.trusted and not contains(v, lambda x: x.op in ("app", "res")):
                    R.bad("deliver", site, "the element delivered is not the one read from the store: " + clip(show(v)))
                else:
                    R.und("deliver", site, "element not recognised: " + clip(show(v) if v is not None else "?"))
                continue
            rs.add((rargs(r[0])[0], rargs(r[0])[1]))
        if len(rs) != 1:
            if rs:
                R.und("deliver", site, "more than one read")
            elif not c.some and c.run.trusted:
                R.bad("deliver", site, "no element is ever delivered")
            elif not c.some:
                R.und("deliver", site, "no element delivered")
            res.append(None)
            continue
        R.ok("deliver", site)
        st, i = rs.pop()
        if contains(i, lambda x: x.op in ("res", "mu")):
            R.und("deliver", site, "index not a function of the state: " + clip(show(i)))
            res.append(None)
            continue
        res.append((st, subst(i, {c.me: ME})))
    if not all(res):
        return None
    (s1, lo), (s2, last_) = res
    s1, s2 = subst(s1, {nx.me: ME}), subst(s2, {bk.me: ME})
    hi = add(last_, num(1))
    if s1 is not s2:
        R.bad("deliver", it, "the two ends of the iterator read different stores")
    inv = ge0(sub(hi, lo))
    for c, me, dlo, dhi in ((nx, nx.me, 1, 0), (bk, bk.me, 0, 1)):
        site = short_fn(c.key)
        mlo, mhi = subst(lo, {ME: me}), subst(hi, {ME: me})
        for L, v, f in c.some:
            F = fact(L) + [subst(inv, {ME: me})]
            R.holds("bounds", site, F, ge0(sub(sub(mhi, mlo), num(1))), "an element is delivered only while some remain", c.run)
            R.same("step", site + "/front", subst(lo, {ME: f}), add(mlo, num(dlo)), F, "front position after delivering an element")
            R.same("step", site + "/back", subst(hi, {ME: f}), sub(mhi, num(dhi)), F, "back position after delivering an element")
        for L, f in c.none:
            F = fact(L) + [subst(inv, {ME: me})]
            fr = [l for l in L if l.op == "not" and l.a[0].op == "is" and reads(l)] + [l for l in L if l.op == "is" and l.a[1] == "Err" and reads(l)]
            if fr:
                # a failed read: from the state left behind nothing more is delivered
                for d in (nx, bk):
                    for L2, v2, f2 in d.some:
                        b = pcat(L2, d.me, f)
                        b = bdd.AND(b, pcof([l for l in L if l not in fr]))
                        to = site + "->" + d.key.split("::")[-1]
                        if b is bdd.FALSE:
                            R.ok("stop", to)
                            continue
                        G = [l for l in L if l not in fr] + [subst(l, {d.me: f}) for l in L2] + [subst(inv, {ME: me})]
                        if any(l is FALSE for l in G):
                            R.ok("stop", to)
                            continue
                        R.holds("stop", to, [l for l in G if not reads(l)], FALSE, "after a failed read the iterator goes on delivering elements (its state does not record the failure)", c.run)
                continue
            R.same("none", site + "/state", f, me, F, "an exhausted iterator does not change")
            flags = [l for l in L if pos(l).op in ("fld",) or (pos(l).op == "is" and not reads(l))]
            if flags:
                R.ok("none", site + "/stopped")
                continue
            R.holds("none", site, F, ge0(sub(mlo, mhi)), "the iterator ends only when no element remains", c.run)
    k = "<%s as std::iter::ExactSizeIterator>::len" % it
    if A.has(k):
        r = A.run(k, ("self",))
        for L, v in r.leaves():
            R.same("length", short_fn(k), v, subst(sub(hi, lo), {ME: r.args[0]}), fact(L) + [subst(inv, {ME: r.args[0]})], "number of remaining elements")
    else:
        R.und("length", short_fn(k), "provided by default")
    return s1, lo, hi, nx, bk


ME = mk("arg", 77, "state")


def proj_ok(x):
    return ok(x)


def C20(R, A):
    R.rule("deliver", "the element delivered is the one read from the store at the iterator's position")
    R.rule("bounds", "an element is delivered only while the range is not exhausted")
    R.rule("step", "delivering an element moves exactly that end of the range by one")
    R.rule("none", "the iterator ends only when its range is exhausted or a read failed, and then stays put")
    R.rule("stop", "after a failed read the iterator delivers nothing more")
    R.rule("length", "the reported length is the number of elements remaining")
    R.rule("start", "a new iterator covers exactly its producer's range and has not stopped")
    R.rule("split", "splitting divides the range into two adjacent parts, at the index asked for")
    R.rule("whole", "parallel iteration starts with the whole store")
    ps = anchors(A)
    if not ps:
        R.missing("rayon::iter::plumbing::Producer")
    for p in ps:
        R.part(producer, A, p)


def producer(R, A, p):
    ki = "<%s as rayon::iter::plumbing::Producer>::into_iter" % p
    r = A.run(ki, ("self",))
    if r.ret is None or r.ret.op != "agg":
        R.und("start", short_fn(ki), "not recognised")
        return
    it = r.ret
    itn = [k for k in A.c.fns if k.endswith(" as std::iter::ExactSizeIterator>::len") and it.a[0].split("::")[-1] == k[1:k.index(" as ")].split("::")[-1]]
    if not itn:
        R.und("start", short_fn(ki), "iterator type %s not found" % it.a[0])
        return
    name = itn[0][1:itn[0].index(" as ")]
    x = iterate(R, A, name)
    if x is None:
        return
    st, lo, hi, nx, bk = x
    pm = r.args[0]
    plo, phi, pst = (subst(subst(t, {ME: it}), {pm: ME}) for t in (lo, hi, st))
    # a fresh iterator is not stopped
    for c in (nx, bk):
        for L, f in c.none:
            if any(reads(l) for l in L):
                continue
            L2 = [subst(l, {c.me: it}) for l in L]
            b = pcof(L2)
            if b is bdd.FALSE:
                R.ok("start", short_fn(ki) + "/" + c.key.split("::")[-1])
                continue
            R.holds("start", short_fn(ki) + "/" + c.key.split("::")[-1], fact(L2) + [ge0(sub(subst(phi, {ME: pm}), subst(plo, {ME: pm})))], ge0(sub(subst(plo, {ME: pm}), subst(phi, {ME: pm}))), "a new iterator over a non-empty range delivers an element", c.run)
    at_ = lambda t, s: subst(t, {ME: s})
    # split
    ks = "<%s as rayon::iter::plumbing::Producer>::split_at" % p
    rs = A.run(ks, ("self", "index"))
    me, ix = rs.args
    a, b = at_(plo, me), at_(phi, me)
    n = sub(b, a)
    got = 0
    for L, v in rs.leaves():
        l, h = fld(v, "0"), fld(v, "1")
        F = fact(L) + [ge0(n), ge0(ix), ge0(a)]
        got += 1
        site = short_fn(ks)
        R.same("split", site + "/store", at_(pst, l), at_(pst, me), F, "store of the first part")
        R.same("split", site + "/store2", at_(pst, h), at_(pst, me), F, "store of the second part")
        R.same("split", site + "/first", sub(at_(phi, l), at_(plo, l)), mmin(ix, n), F, "size of the first part")
        R.same("split", site + "/second", sub(at_(phi, h), at_(plo, h)), sub(n, mmin(ix, n)), F, "size of the second part")
        R.same("split", site + "/first-start", at_(plo, l), a, F + [ge0(sub(mmin(ix, n), num(1)))], "start of the first part")
        R.same("split", site + "/second-start", at_(plo, h), add(a, mmin(ix, n)), F + [ge0(sub(sub(n, mmin(ix, n)), num(1)))], "start of the second part")
    if not got:
        R.und("split", short_fn(ks), "not recognised")
    # whole store
    for k in sorted(A.c.fns):
        if not k.endswith(" as rayon::iter::IndexedParallelIterator>::with_producer"):
            continue
        own = k[1:k.index(" as ")]
        rw = A.run(k, ("self", "callback"))
        cb = [e for e in rw.events if e.kind == "call" and e.name.endswith("ProducerCallback::callback")]
        cb = [e for e in cb if e.args[1].op == "agg" and e.args[1].a[0].split("::")[-1] == p.split("::")[-1]]
        if not cb:
            continue
        tn = own.lstrip("&")
        kl = "<%s as store::Store>::len" % tn
        ln = A.run(kl, ("self",))
        n = subst(ln.ret, {ln.args[0]: rw.args[0]})
        site = short_fn(k)
        for e in cb:
            R.same("whole", site + "/start", at_(plo, e.args[1]), num(0), [], "start of the range")
            R.same("whole", site + "/end", at_(phi, e.args[1]), n, [], "end of the range")
            R.same("whole", site + "/store", at_(pst, e.args[1]), rw.args[0], [], "store iterated over")
        for m in ("IndexedParallelIterator>::len", "ParallelIterator>::opt_len"):
            kk = "<%s as rayon::iter::%s" % (own, m)
            if not A.has(kk):
                R.und("whole", kk, "default")
                continue
            rl = A.run(kk, ("self",))
            for L, v in rl.leaves():
                if variant(v) == "None":
                    continue
                if variant(v) == "Some":
                    v = some(v)
                R.same("whole", short_fn(kk), v, subst(ln.ret, {ln.args[0]: rl.args[0]}), [], "length announced")
        for m in ("IndexedParallelIterator>::drive", "ParallelIterator>::drive_unindexed"):
            kk = "<%s as rayon::iter::%s" % (own, m)
            if not A.has(kk):
                R.und("whole", kk, "absent")
                continue
            rl = A.run(kk, ("self", "consumer"))
            bs = [e for e in rl.events if e.kind == "call" and e.name.endswith("plumbing::bridge")]
            if len(bs) == 1 and bs[0].args[0] is rl.args[0] and bs[0].args[1] is rl.args[1] and rl.ret is bs[0].ret:
                R.ok("whole", short_fn(kk))
            else:
                R.und("whole", short_fn(kk), "not handed to rayon's bridge as a whole")


ALL = {"C20": C20}

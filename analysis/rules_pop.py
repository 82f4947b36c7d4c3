"""C16: filling a store with leafs; C26: reopening a finished one."""
import bdd
from fw import *
from rules_store import norm, under_all, feasible
from rules_tree import okleaves, fields, origin, M, PI
from rules_err import okvar

CF = "Store::copy_from_slice"
FRESH = mk("default", "hasher")


def flat(t):
    """concatenation as a list of parts"""
    if t.op == "vext":
        return flat(t.a[0]) + flat(t.a[1])
    if t.op == "vnew":
        return []
    return [t]


def peel(t):
    """writes on top of a store value: (base, [(bytes, start)...] oldest first)"""
    w = []
    while t.op == "app" and t.a[0] == "mut0:" + CF:
        w.append((t.a[2], t.a[3], t.a[1]))
        t = t.a[1]
    return t, w[::-1]


def cond(lits):
    b = bdd.TRUE
    for l in lits:
        b = bdd.AND(b, bdd.of(l))
    return b


def roots16(A):
    """(function, argument names, item i, number of items or None)"""
    H = lambda x: app("Algorithm::hash", app("mut1:Hashable::hash", x, FRESH))
    return [
        ("merkle::populate_data", ("data", "iter"), "iter", lambda x: ok(x)),
        (M + "try_from_iter", ("into",), "into", lambda x: ok(x)),
        (M + "try_from_iter_with_config", ("into", "config"), "into", lambda x: ok(x)),
        (M + "new", ("data",), "data", lambda x: x),
        (M + "new_with_config", ("data", "config"), "data", lambda x: x),
        (M + "from_data", ("data",), "data", H),
        (M + "from_data_with_config", ("data", "config"), "data", H),
        (PI + "from_par_iter", ("into",), "into", lambda x: x),
        (PI + "from_par_iter_with_config", ("into", "config"), "into", lambda x: x),
    ]


def C16(R, A):
    R.rule("digest", "the k-th element stored is the leaf hash, by a fresh hasher, of the k-th item supplied")
    R.rule("complete", "every buffered leaf is written before it is dropped, directly after the leafs already stored, and none is left unwritten when the tree is built")
    R.rule("exhaust", "population only ends successfully when the input is exhausted; an error item ends it with an error")
    R.rule("partition", "parallel population writes chunk i, complete and in order, at the place of chunk i; chunks are consecutive and cover the input")
    R.rule("synced", "the store is synced after its last leaf has been written, before the tree is built")
    R.rule("populated", "the tree is built in a store that was populated, unless it already held data")
    for K, names, src, item in roots16(A):
        if not A.has(K):
            R.missing(K)
            continue
        R.part(population, A, K, names, src, item)


def points(run, K):
    """(literals, store value, base) at which the store must be completely populated"""
    out = []
    if K == "merkle::populate_data":
        for lits, v in okleaves(run):
            if iscall(v, "Store::sync"):
                lits = list(lits) + [mk("is", v, "Ok")]
            out.append((lits, run.final(0)))
        return out
    for lits, v in okleaves(run):
        for e in run.calls("Store::build"):
            if bdd.AND(cond(lits), e.pc) is bdd.FALSE or not any(contains(l, lambda t: t is e.ret) for l in lits):
                continue
            out.append((lits, e.args[0]))
    return out


def population(R, A, K, names, src, item):
    run = A.run(K, names)
    site = short_fn(K)
    arg = dict(zip(names, run.args))[src]
    n = 0
    for lits0, T_ in points(run, K):
        for more, t in splitall(T_, cond(lits0)):
            lits = list(lits0) + more
            L = norm(lits)
            t = under_all(t, L)
            base, w = peel(t)
            empty = [l for l in L if pos(l).op == "app" and pos(l).a[0] == "Store::is_empty"]
            if base.op != "mu":
                if any(l.op == "not" for l in empty) and not w:
                    R.ok("populated", site + "/already")
                elif base.op == "ite" or not resolved(base):
                    R.und("populated", site, "store state not recovered: " + clip(show(t)))
                elif not w and run.trusted:
                    R.bad("populated", site, "a tree is built in a store nothing was written to")
                elif w:
                    n += 1
                    atonce(R, run, site, arg, item, base, w, L, lits)
                    synced(R, run, site, L, t)
                else:
                    R.und("populated", site, clip(show(t)))
                continue
            n += 1
            rec = run.rec(base)
            li = run.loop_of(base)
            if rec is None:
                R.und("populated", site, "no recurrence for the store")
                continue
            if li.par:
                nx_base, nx_w = peel(rec[1])
                if len(nx_w) == 1 and nx_base is base and not w:
                    parallel(R, run, site, li, arg, item, base, nx_w[0], L, t)
                else:
                    R.und("partition", site, clip(show(rec[1])))
            else:
                sequential(R, run, site, li, arg, item, base, rec, w, L, lits, t)
            synced(R, run, site, L, t)
    if not n and K != "merkle::populate_data":
        R.und("populated", site, "no population recognised")


def splitall(t, pc=None, depth=0):
    """cases of a value by every condition in it: (literals, value without conditionals)"""
    pc = bdd.TRUE if pc is None else pc
    c = None
    for x in subterms(t):
        if x.op == "ite" and x.a[0].op != "ite":
            c = x.a[0]
            break
    if c is None or depth > 6:
        return [([], t)]
    out = []
    for l in (c, bnot(c)):
        p = bdd.AND(pc, bdd.of(l))
        if p is bdd.FALSE:
            continue
        u = engine.under(t, l)
        if contains(u, lambda y: y.op == "ite" and y.a[0] is c):
            u = replace_ite(u, c, l is c)
        out += [([l] + m, v) for m, v in splitall(u, p, depth + 1)]
    return out


def replace_ite(t, c, pol):
    m = {x: (x.a[1] if pol else x.a[2]) for x in subterms(t) if x.op == "ite" and x.a[0] is c}
    return subst(t, m)


def mus_of(t, li):
    return [m for m in mus(t) if m in li.cells]


def synced(R, run, site, L, t):
    s = [l.a[0] for l in L if l.op == "is" and l.a[1] == "Ok" and iscall(l.a[0], "Store::sync")]
    for x in s:
        if under_all(callargs(x)[0], L) is t:
            return R.ok("synced", site)
    if not s and run.trusted:
        return R.bad("synced", site, "the tree is built (or success reported) without syncing the populated store")
    if s and all(peel(under_all(callargs(x)[0], L))[0] is peel(t)[0] and len(peel(under_all(callargs(x)[0], L))[1]) < len(peel(t)[1]) for x in s):
        return R.bad("synced", site, "the store is synced before its last leafs have been written")
    R.und("synced", site, "sync not matched")


def leafbytes(run, arg, item, i):
    return mk("bytes", app("Algorithm::leaf", FRESH, item(elem(arg, i))), BL)


def merged(parts):
    """neighbouring parts joined into tables where they fit"""
    out = []
    for p in parts:
        if out:
            j = vext(out[-1], p)
            if j.op != "vext":
                out[-1] = j
                continue
        if p.op == "vtabx" and p.a[0].op == "int" and p.a[0].a[0] == 0:
            continue
        out.append(p)
    return out


def table(t, want, idx):
    """is t the bytes of the leaves of items 0..n, in order? -> n"""
    if t.op == "vtabx" and t.a[2] is subst(want, {idx: t.a[1]}):
        return t.a[0]
    return None


def sequential(R, run, site, li, arg, item, base, rec, w, L, lits, final):
    idx = mk("idx", li.header)
    want = leafbytes(run, arg, item, idx)
    writes = w + peel(rec[1])[1]
    # the buffer: loop carried byte vector whose parts are written
    cand = [m for m in li.cells if m is not base and any(contains(x, lambda t: t is m) for x, _, _ in writes)]
    cand = cand or [m for m, r in li.cells.items() if m is not base and r[0].op == "vnew"]
    cand = [m for m in cand if li.cells[m][0].op == "vnew" or m in [p for x, _, _ in w for p in flat(x)]]
    if len(cand) == 1:
        buf = cand[0]
        brec = li.cells[buf]
        old = [buf]
        if flat(brec[0]):
            return R.und("complete", site, "buffer does not start empty: " + clip(show(brec[0])))
        after = brec[1]
    elif not cand:
        # a buffer that simply accumulates: known in closed form
        tabs = [p for s in [li.back] for _, v in splitall(rec[1]) for x, _, _ in peel(v)[1] for p in flat(x) if p.op == "vtabx"]
        n1 = [p for p in tabs if table(p, want, idx) is add(idx, num(1))]
        if not n1:
            return R.und("complete", site, "buffer not identified")
        after = n1[0]
        old = [mk("vtabx", idx, after.a[1], after.a[2])]
    else:
        return R.und("complete", site, "buffer not identified (%d candidates)" % len(cand))
    goal = merged(old + [want])
    inv = counters(run, li, base)
    # one iteration
    for ls, v in splitall(tup(rec[1], after), li.back.pc):
        d, b = v.a[3]
        f = [x for x in li.back.facts] + ls
        db, dw = peel(d)
        if db is not base:
            R.und("complete", site + "/step", "store state " + clip(show(d)))
            continue
        got = []
        for data, off, prev in dw:
            offset(R, site + "/step", off, prev, f, inv)
            got += flat(data)
        got += flat(b)
        concat(R, run, site + "/step", merged(got), goal, f, want)
    # after the loop
    got = []
    f = list(L)
    for data, off, prev in w:
        offset(R, site + "/rest", off, prev, f, inv)
        got += flat(under_all(data, L))
    got = merged(got)
    exits = exits_of(li, L)
    for s in exits:
        remainder(R, run, site, s, got, old, want, idx, base, after, f, final)
    if not exits:
        R.und("exhaust", site, "no exit matched")
    exhaust(R, run, site, li, arg, idx, exits)


def remainder(R, run, site, s, got, old, want, idx, base, after, f, final):
    if len(got) == len(old) and all(a is b or subst(a, {a.a[0]: idx}) is b for a, b in zip(got, old)):
        return R.ok("complete", site + "/rest")
    if not got and old[0].op == "mu":
        return R.holds("complete", site + "/rest", f, eq_typed(vlen(old[0]), num(0), True), "leafs left in the buffer are written before the tree is built", run)
    R.und("complete", site + "/rest", clip(show(final)))


def exits_of(li, L):
    b = cond(L)
    out = []
    for j, (t, s) in enumerate(li.exits):
        combo = li.xcombo[j] if j < len(li.xcombo) else bdd.TRUE
        if bdd.AND(combo, b) is not bdd.FALSE:
            out.append(s)
    return out


def counters(run, li, base):
    """loop counters that always equal the length of the store: {counter: length}"""
    out = {}
    want = app("Store::len", base)
    for m, r in li.cells.items():
        if m is base or m.op != "mu":
            continue
        i0 = app("Store::len", li.cells[base][0])
        f0 = list(li.entry.facts)
        if not (r[0] is i0 or same(r[0], i0, f0 + fresh(li.cells[base][0], f0)) in ("id", "eq")):
            continue
        okc = True
        for ls, v in splitall(tup(li.cells[base][1], r[1]), li.back.pc):
            d, c = v.a[3]
            got = subst(c, {m: want})
            if same(got, grown(subst(d, {m: want})), [subst(x, {m: want}) for x in li.back.facts] + ls) not in ("id", "eq"):
                okc = False
        if okc:
            out[m] = want
    return out


def fresh(t, facts):
    """a store that is empty, or was just made, has length 0"""
    for f in facts:
        if f.op == "app" and f.a[0] == "Store::is_empty" and f.a[1] is t:
            return [eq_typed(app("Store::len", t), num(0), True)]
    if iscall(t, "Store::new"):
        return [eq_typed(app("Store::len", t), num(0), True)]
    return []


def grown(d):
    """length of a store after appends"""
    b, w = peel(d)
    n = app("Store::len", b)
    cur = b
    for data, off, prev in w:
        n = add(n, div(vlen(data), BL)) if off is app("Store::len", prev) or off is n else app("Store::len", app("mut0:" + CF, prev, data, off))
    return n


def offset(R, site, off, prev, facts, inv=()):
    want = app("Store::len", prev)
    if off is want:
        return R.ok("complete", site + "/place")
    if inv:
        off2, prev = subst(off, dict(inv)), subst(prev, dict(inv))
        if off2 is not off:
            return R.same("complete", site + "/place", off2, grown(prev), [subst(f, dict(inv)) for f in facts], "place the buffered leafs are written to")
    if [m for m in mus(off) if m not in mus(want)]:
        return R.und("complete", site + "/place", clip(show(off)))
    R.same("complete", site + "/place", off, want, facts, "place the buffered leafs are written to")


def concat(R, run, site, got, want, facts, leafw):
    if len(got) == len(want) and all(a is b for a, b in zip(got, want)):
        R.ok("complete", site)
        return R.ok("digest", site)
    if not all(p.op in ("mu", "bytes", "vtabx") for p in got):
        return R.und("complete", site, "buffer contents " + clip(str([show(x) for x in got])))
    if len(got) == len(want) and len(got) > 1 and got[0] is want[0] and got[1].op == "bytes":
        R.ok("complete", site)
        return R.same("digest", site, got[1], leafw, facts, "bytes added for the item")
    if not run.trusted:
        return R.und("complete", site, "uninterpreted callees")
    R.bad("complete", site, "after one more item the bytes written and buffered are %s, required the previous ones followed by the new leaf's" % clip(str([show(x) for x in got])))


def atonce(R, run, site, arg, item, base, w, L, lits):
    """all leafs gathered first and then written"""
    if len(w) != 1:
        return R.und("complete", site, "several writes outside the loop")
    data, off, prev = w[0]
    parts = merged(flat(under_all(data, L)))
    bv = mk("bv", "at")
    want = leafbytes(run, arg, item, bv)
    n = table(parts[0], want, bv) if len(parts) == 1 else None
    if n is None:
        return R.und("complete", site, "contents " + clip(str([show(x) for x in parts])))
    R.ok("digest", site)
    R.same("complete", site, n, vlen(arg), L, "number of leafs written")
    R.same("complete", site + "/place", off, num(0), list(L) + fresh(prev, L), "place the leafs are written to")


def exhaust(R, run, site, li, arg, idx, exits):
    """the loop is left towards success only when nothing remains, and goes on only after a good item"""
    for s in exits:
        R.holds("exhaust", site, [f for f in s.facts if f.op != "exit"], ge0(sub(idx, vlen(arg))), "the input is exhausted when population ends", run)
    it = elem(arg, idx)
    body = any(contains(r[1], lambda t: t is ok(it)) for r in li.cells.values()) or any(f.op == "is" and f.a[0] is it for f in li.back.facts)
    if body:
        if bdd.AND(li.back.pc, bdd.NOT(okvar(it))) is bdd.FALSE:
            R.ok("exhaust", site + "/error-item")
        else:
            R.bad("exhaust", site + "/error-item", "population goes on after an item that is an error")


def parallel(R, run, site, li, arg, item, base, write, L, final):
    data, off, prev = write
    idx = mk("idx", li.header)
    f = [x for x in li.back.facts]
    data = under_all(data, f)
    off = under_all(off, f)
    if mus_of(off, li):
        if run.trusted:
            return R.bad("partition", site, "the place of a chunk depends on which chunks were written before it: " + clip(show(off)))
        return R.und("partition", site, "place " + clip(show(off)))
    if data.op != "vtabx":
        return R.und("partition", site, "chunk contents " + clip(show(data)))
    n, bv, body = data.a
    total = vlen(arg)
    K1 = KX
    k = f + [ge0(KX), ge0(sub(sub(n, KX), num(1)))]
    got = subst(body, {bv: KX})
    R.same("digest", site, got, leafbytes(run, arg, item, add(off, KX)), k, "k-th leaf of a chunk")
    R.same("partition", site + "/first", subst(off, {idx: num(0)}), num(0), [], "place of the first chunk")
    # next chunk starts where this one ends, as long as there is a next one
    off1 = subst(off, {idx: add(idx, num(1))})
    more = [ge0(sub(sub(total, off1), num(1)))]
    R.same("partition", site + "/next", add(off, n), off1, f + more, "start of the next chunk")
    last = [ge0(sub(off1, total))]
    R.same("partition", site + "/last", add(off, n), total, f + last, "end of the last chunk")
    # every chunk index with items left is processed
    for s in exits_of(li, L):
        R.holds("exhaust", site, [x for x in s.facts if x.op != "exit"], ge0(sub(off, total)), "all chunks are processed when population ends", run)


KX = mk("arg", 81, "k")
